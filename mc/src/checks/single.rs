//! C22: single properties in the middle of a stream.

use super::docs::*;
use super::items::*;
use super::Check;
use crate::bridge::{self, Hints};
use crate::explore::*;
use crate::gen::*;
use crate::streams::{Fault, Plan, Source};
use crate::{ensure, Tier};
use gvas::error::Error;
use gvas::properties::Property;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C22",
    level: "model_checking",
    rule: "one case per choice sequence: a property (or a sequence of them), with or without its header, read from a stream at an offset with other bytes around it under an enclosing path",
    assumptions: &[],
    phases: c22,
}];

/// A stream whose content starts far into it.
pub struct Far<'a> {
    pub base: u64,
    pub bytes: &'a [u8],
    pub pos: u64,
}

impl Read for Far<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos < self.base {
            return Err(io::Error::new(ErrorKind::Other, "before the content"));
        }
        let i = ((self.pos - self.base) as usize).min(self.bytes.len());
        let n = buf.len().min(self.bytes.len() - i);
        buf[..n].copy_from_slice(&self.bytes[i..i + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Far<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos = match to {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(d) => self.pos.wrapping_add_signed(d),
            SeekFrom::End(d) => (self.base + self.bytes.len() as u64).wrapping_add_signed(d),
        };
        Ok(self.pos)
    }
}

pub const OFFSETS: [u64; 8] = [
    0,
    1,
    7,
    4096,
    u32::MAX as u64 - 3,
    u32::MAX as u64 + 1,
    1 << 33,
    i64::MAX as u64 - 100_000,
];

pub fn tails() -> Vec<Vec<u8>> {
    // Something that could be taken for more of the same.
    let mut none = vec![5, 0, 0, 0];
    none.extend(b"None\0");
    let mut more = vec![2, 0, 0, 0];
    more.extend(b"q\0\x0c\0\0\0IntProperty\0\x04\0\0\0\0\0\0\0\0\x01\x02\x03\x04");
    vec![vec![], vec![0; 64], vec![0xFF; 64], none, more, vec![1]]
}

const PATHS: [&[&str]; 6] = [
    &[],
    &["a"],
    &["Outer", "StructProperty", "x.y", ""],
    &["StructProperty", "StructProperty", "Key", "Value"],
    &["deep"; 40],
    &["deeper"; 300],
];

fn stack(path: &[&str]) -> Vec<String> {
    path.iter().map(|s| s.to_string()).collect()
}

fn read<R: Read + Seek>(
    i: &Item,
    r: &mut R,
    st: &mut Vec<String>,
) -> Result<Result<Property, Error>, Stop> {
    call(|| i.read(r, st))
}

/// Reads the item and checks value, position and path.
fn exact<R: Read + Seek>(i: &Item, r: &mut R, st: &mut Vec<String>) -> Out {
    let before = st.clone();
    let from = r.stream_position().unwrap();
    let got = match read(i, r, st)? {
        Ok(p) => p,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    let to = r.stream_position().unwrap();
    ensure!(
        to - from == i.bytes.len() as u64,
        "consumed {} of {} bytes",
        to as i128 - from as i128,
        i.bytes.len()
    );
    ensure!(
        *st == before,
        "path was {before:?}, is {st:?} after success"
    );
    bridge::same("", &i.p, &got).map_err(Stop::Fail)
}

/// Any byte may follow.
fn followed(i: &Item, obs: &mut Obs) -> Out {
    let mut b = i.bytes.clone();
    let n = b.len();
    for fill in 0..=255u8 {
        b.truncate(n);
        b.extend_from_slice(&[fill; 12]);
        let mut r = Far {
            base: 0,
            bytes: &b,
            pos: 0,
        };
        let mut st = Vec::new();
        exact(i, &mut r, &mut st).map_err(about(i, format!("followed by bytes {fill:#x}")))?;
    }
    obs.swept(256);
    obs.calls(256);
    obs.validated(256);
    Ok(())
}

fn about(i: &Item, at: String) -> impl Fn(Stop) -> Stop + '_ {
    move |s| match s {
        Stop::Fail(m) => Stop::Fail(format!(
            "{m}; {} {} header, {at}",
            brief(&i.p),
            if i.header { "with" } else { "without" }
        )),
        s => s,
    }
}

/// The same item under an enclosing path, which its hints depend on.
fn under(i: &Item, path: &[&str]) -> Result<Item, Stop> {
    item_at(i.layout, i.p.clone(), i.header, i.share, path)
}

fn everywhere(i: &Item, obs: &mut Obs) -> Out {
    let tails = tails();
    let mut n = 0;
    for path in PATHS {
        let x = match under(i, path) {
            Ok(x) => x,
            // Two places of this value have the same path there.
            Err(_) => continue,
        };
        for base in OFFSETS {
            for (t, tail) in tails.iter().enumerate() {
                // All tails in the usual places, two of them in the others.
                if t > 1 && (base > 7 || path.len() > 1) || base > 1 && path.len() > 4 {
                    continue;
                }
                let mut b = x.bytes.clone();
                b.extend_from_slice(tail);
                let mut r = Far {
                    base,
                    bytes: &b,
                    pos: base,
                };
                let mut st = stack(path);
                exact(&x, &mut r, &mut st)
                    .map_err(about(&x, format!("at {base}, tail {t}, under {path:?}")))?;
                n += 1;
            }
        }
    }
    obs.state(&(&i.p, i.header, i.layout));
    obs.calls(n);
    obs.validated(n);
    obs.show(|| format!("{} header {}", brief(&i.p), i.header));
    Ok(())
}

/// Whatever happens to the bytes, the path is restored, and a value does not
/// depend on what follows it.
fn damaged(i: &Item, t: Tier, obs: &mut Obs) -> Out {
    let (mut ok, mut bad) = (0, 0);
    let mut one = |b: &[u8], what: &dyn Fn() -> String| -> Out {
        let mut seen: Option<(u64, String)> = None;
        for fill in [0u8, 0xFF] {
            let mut v = b.to_vec();
            v.extend_from_slice(&[fill; 24]);
            let mut r = Far {
                base: 3,
                bytes: &v,
                pos: 3,
            };
            let mut st = stack(PATHS[2]);
            let got = read(i, &mut r, &mut st).map_err(about(i, what()))?;
            ensure!(
                st == stack(PATHS[2]),
                "path is {st:?} after {}: {} in {}",
                if got.is_ok() { "success" } else { "failure" },
                what(),
                brief(&i.p)
            );
            match got {
                Ok(p) => {
                    ok += 1;
                    let used = r.pos - 3;
                    if used <= b.len() as u64 {
                        let now = (used, format!("{p:?}"));
                        if let Some(x) = &seen {
                            ensure!(
                                *x == now,
                                "value depends on the bytes after it: {} in {}",
                                what(),
                                brief(&i.p)
                            );
                        }
                        seen = Some(now);
                    }
                }
                Err(_) => bad += 1,
            }
        }
        Ok(())
    };
    let n = i.bytes.len();
    for cut in 0..n {
        // Without anything after the cut.
        let plan = Plan::default();
        let mut r = Source::new(&i.bytes[..cut], &plan);
        let mut st = stack(PATHS[2]);
        let got = read(i, &mut r, &mut st).map_err(about(i, format!("cut at {cut}")))?;
        ensure!(
            st == stack(PATHS[2]),
            "path is {st:?} after a read of {cut} of {n} bytes {} of {}",
            if got.is_ok() { "succeeded" } else { "failed" },
            brief(&i.p)
        );
        one(&i.bytes[..cut], &|| format!("cut at {cut}"))?;
    }
    let values: &[u8] = t.pick(
        &[0, 1, 0x7F, 0xFF],
        &[0, 1, 2, 3, 4, 5, 8, 12, 16, 0x40, 0x7F, 0x80, 0xFE, 0xFF],
    );
    for at in 0..n {
        for v in values {
            let mut b = i.bytes.clone();
            if b[at] == *v {
                continue;
            }
            b[at] = *v;
            one(&b, &|| format!("byte {at} is {v:#x}"))?;
        }
    }
    obs.swept(ok + bad);
    obs.calls(ok + bad);
    obs.outcomes("read", ok);
    obs.outcomes("rejected", bad);
    obs.validated(ok);
    Ok(())
}

/// An error from the stream at any operation leaves the path as it was.
fn faulty(i: &Item, obs: &mut Obs) -> Out {
    let clean = Plan::default();
    let mut r = Source::new(&i.bytes, &clean);
    let mut st = Vec::new();
    if let Err(e) = read(i, &mut r, &mut st)? {
        return fail(format!("rejected: {e}; {}", brief(&i.p)));
    }
    let (reads, seeks) = (r.ops.data, r.ops.seeks);
    for k in 0..reads + seeks {
        let f = Fault::Fail(ErrorKind::Other);
        let mut plan = Plan::default();
        if k < reads {
            plan.data.push((k, f));
        } else {
            plan.seeks.push((k - reads, f));
        }
        let mut r = Source::new(&i.bytes, &plan);
        let mut st = stack(PATHS[2]);
        let got = read(i, &mut r, &mut st)?;
        ensure!(
            st == stack(PATHS[2]),
            "path is {st:?} after the stream failed at operation {k} ({}); {}",
            if got.is_ok() { "read" } else { "rejected" },
            brief(&i.p)
        );
    }
    obs.calls((reads + seeks) as u64);
    obs.outcomes("faults", (reads + seeks) as u64);
    obs.swept((reads + seeks) as u64);
    Ok(())
}

/// Several properties one after another, sharing one set of options.
fn sequence(list: &[&Item], obs: &mut Obs) -> Out {
    let mut b = vec![0xEE; 5];
    let mut hints = Hints::new();
    let mut xs = Vec::new();
    for i in list {
        let x = under(i, PATHS[1])?;
        for (k, v) in &x.hints {
            if hints.get(k).is_some_and(|o| o != v) {
                return Err(Stop::Prune);
            }
            hints.insert(k.clone(), v.clone());
        }
        b.extend_from_slice(&x.bytes);
        xs.push(x);
    }
    b.extend_from_slice(&[0xFF; 9]);
    let mut r = Far {
        base: 0,
        bytes: &b,
        pos: 5,
    };
    let mut st = stack(PATHS[1]);
    for (n, x) in xs.iter_mut().enumerate() {
        x.hints = hints.clone();
        exact(x, &mut r, &mut st).map_err(about(x, format!("number {n} of a sequence")))?;
    }
    ensure!(r.pos == b.len() as u64 - 9, "sequence ends at {}", r.pos);
    obs.state(&list.iter().map(|i| (&i.p, i.header)).collect::<Vec<_>>());
    obs.calls(xs.len() as u64);
    obs.validated(xs.len() as u64);
    obs.show(|| format!("{} then {}", brief(&list[0].p), brief(&list[1].p)));
    Ok(())
}

/// A failed read, then others with the same options.
fn after_failure(i: &Item, next: &Item, obs: &mut Obs) -> Out {
    let x = under(i, PATHS[1])?;
    let y = under(next, PATHS[1])?;
    let mut st = stack(PATHS[1]);
    let mut n = 0;
    for cut in 0..x.bytes.len() {
        let plan = Plan::default();
        let mut r = Source::new(&x.bytes[..cut], &plan);
        let _ = read(&x, &mut r, &mut st)?;
        let mut r = Far {
            base: 2,
            bytes: &y.bytes,
            pos: 2,
        };
        exact(&y, &mut r, &mut st).map_err(about(
            &y,
            format!("after a failed read of {cut} bytes of {}", brief(&x.p)),
        ))?;
        n += 2;
    }
    obs.state(&(&i.p, &next.p, i.header, next.header));
    obs.calls(n);
    obs.validated(n / 2);
    Ok(())
}

fn c22(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let cfg = Cfg {
        headers: false,
        ..Cfg::BASE
    };
    // Whole spaces, in every place.
    for (name, k, pick) in [
        ("kinds", t.pick(2, 3), pick_kind as Pick),
        ("containers", t.pick(0, 1), pick_container),
        ("structs", t.pick(1, 2), pick_struct),
        ("texts", t.pick(1, 2), pick_text),
    ] {
        out.push(phase(name, k, move |ch, obs| {
            let (l, p) = pick(ch, &cfg);
            everywhere(&item(l, p, true, None)?, obs)
        }));
    }
    out.push(phase("elements", t.pick(1, 2), |ch, obs| {
        everywhere(&pick_element(ch)?, obs)
    }));
    let chain = t.pick(3, 4);
    out.push(phase("nesting", 0, move |ch, obs| {
        let p = pick_nesting(ch, chain);
        everywhere(&item(1, p, true, None)?, obs)
    }));

    let list = Arc::new(large());
    out.push(phase("large values", 0, move |ch, obs| {
        everywhere(&list[ch.free(list.len())], obs)
    }));

    let all = Arc::new(items(
        &Small {
            containers: Some(0),
            ..Small::ONCE
        },
        1,
    ));
    let few = Arc::new(items(&Small::ONCE, 0));
    let list = few.clone();
    let third = t == Tier::Thorough;
    out.push(phase("sequences", 0, move |ch, obs| {
        let a = &list[ch.free(list.len())];
        let b = &list[ch.free(list.len())];
        if third {
            // Three in a row, the third of the first kinds.
            let c = ch.free(40.min(list.len()));
            return sequence(&[a, b, &list[c]], obs);
        }
        sequence(&[a, b], obs)
    }));
    let list = all.clone();
    out.push(phase("damaged", 0, move |ch, obs| {
        let i = &list[ch.free(list.len())];
        obs.state(&(&i.p, i.header, i.layout));
        obs.show(|| brief(&i.p));
        damaged(i, t, obs)
    }));
    let list = all.clone();
    out.push(phase("every byte after", 0, move |ch, obs| {
        let i = &list[ch.free(list.len())];
        obs.state(&(&i.p, i.header, i.layout));
        obs.show(|| brief(&i.p));
        followed(&under(i, &[])?, obs)
    }));
    let list = all;
    out.push(phase("failing stream", 0, move |ch, obs| {
        let i = &list[ch.free(list.len())];
        obs.state(&(&i.p, i.header, i.layout));
        obs.show(|| brief(&i.p));
        faulty(i, obs)
    }));
    let list = few;
    out.push(phase("after a failure", 0, move |ch, obs| {
        let i = &list[ch.free(list.len())];
        let next = &list[ch.free(t.pick(60, list.len()).min(list.len()))];
        after_failure(i, next, obs)
    }));
    out
}
