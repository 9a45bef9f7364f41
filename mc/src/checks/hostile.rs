//! C05, C06, C07, C08 and C23: malformed input.

use super::docs::*;
use super::items::*;
use super::mutate::*;
use super::roundtrip::read;
use super::Check;
use crate::bridge::{self, Hints};
use crate::decode::Dec;
use crate::explore::*;
use crate::gen::*;
use crate::mem;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::error::{DeserializeError as D, Error};
use gvas::GvasHeader;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const CHECKS: &[Check] = &[
    Check {
        id: "C05",
        level: "model_checking",
        rule: "one state per malformed input: every listed change at every place of every small save, and every short input to every reader; run with and without debug checks",
        assumptions: &["a call that needs more than 60 s for one case counts as not returning"],
        phases: c05,
    },
    Check {
        id: "C06",
        level: "model_checking",
        rule: "one state per malformed input; the allocator accounts for every byte the call holds",
        assumptions: &["fixed multiple: 2048 bytes held per byte supplied (or expanded from a compressed container) plus 1 MiB"],
        phases: c06,
    },
    Check {
        id: "C07",
        level: "model_checking",
        rule: "one case per save derived from the format grammar, one state per cut position",
        assumptions: &[],
        phases: c07,
    },
    Check {
        id: "C08",
        level: "model_checking",
        rule: "one state per changed save; verdict and tree are compared with the reference decoder",
        assumptions: &[],
        phases: c08,
    },
    Check {
        id: "C23",
        level: "model_checking",
        rule: "one state per corrupted field value; the error is compared with the field",
        assumptions: &[],
        phases: c23,
    },
];

const FULL: Extent = Extent {
    pairs: true,
    splices: true,
    short: 2,
    reduced: 6,
    raw: true,
};

// ------------------------------------------------------------------ C05 ----

fn outcome(r: &Result<Val, Error>) -> &'static str {
    match r {
        Ok(_) => "accepted",
        Err(Error::Io(_)) => "input ends",
        Err(Error::Serialize(_)) => "serialize error",
        Err(Error::Deserialize(e)) => match e {
            D::InvalidHeader(_) => "invalid header",
            D::InvalidValueSize(..) => "invalid size",
            D::InvalidString(..) => "invalid string",
            D::InvalidStringTerminator(..) => "invalid string terminator",
            D::InvalidBoolean(..) => "invalid boolean",
            D::MissingHint(..) => "missing hint",
            D::MissingArgument(..) => "missing argument",
            D::InvalidProperty(..) => "invalid property",
            D::InvalidEnumValue(..) => "invalid enumeration",
            D::InvalidArrayIndex(..) => "invalid index",
            D::InvalidTerminator(..) => "invalid separator",
            D::FromUtf16Error(..) => "invalid UTF-16",
            D::FromUtf8Error(..) => "invalid UTF-8",
        },
    }
}

fn c05(t: Tier) -> Vec<Phase> {
    let j: Judge = Arc::new(|x, obs| {
        let r = call(|| {
            let r = x.entry.read(&mut Cursor::new(x.bytes), x.hints);
            if let Err(e) = &r {
                // Whoever gets the error will print it.
                let _ = (e.to_string(), format!("{e:?}"));
            }
            r
        })?;
        obs.outcome(outcome(&r));
        Ok(())
    });
    let mut out = phases(
        t,
        Extent {
            short: t.pick(2, 3),
            reduced: t.pick(5, 8),
            ..FULL
        },
        j,
    );
    out.push(phase("deep nesting", 0, |ch, obs| {
        let how = ch.free(DEEP);
        let depth = [10usize, 100, 500, 200_000][ch.free(4)];
        // A hint for every level would be needed.
        if how == 4 && depth > 500 {
            return Err(Stop::Prune);
        }
        obs.state(&(how, depth));
        obs.calls(1);
        let st = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(["probe", "deep", &how.to_string(), &depth.to_string()])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("child");
        obs.show(|| format!("{} nested {depth} deep", DEEP_NAMES[how]));
        ensure!(
            st.success(),
            "reading {} nested {depth} deep ends the process: {st}",
            DEEP_NAMES[how]
        );
        Ok(())
    }));
    out
}

const DEEP: usize = 5;
const DEEP_NAMES: [&str; DEEP] = [
    "transformed texts",
    "texts as format arguments",
    "structs",
    "arrays of structs",
    "maps of structs",
];

/// Input nested to any depth, without a recursive encoder.
fn deep(how: usize, depth: usize) -> (Vec<u8>, Hints) {
    let mut e = Enc::new(Layout::default(), false);
    e.header(&tiny_header(0));
    e.string("a");
    let mut b = e.buf;
    let mut hints = Hints::new();
    let prop = |b: &mut Vec<u8>, extra: &[&str]| {
        b.extend_from_slice(&[0; 8]);
        for x in extra {
            b.extend_from_slice(&stored(x));
        }
    };
    match how {
        0 | 1 => {
            b.extend_from_slice(&stored("TextProperty"));
            prop(&mut b, &[]);
            b.push(0);
            for _ in 0..depth {
                b.extend_from_slice(&[0; 4]);
                if how == 0 {
                    b.push(10);
                } else {
                    // Number whose value is a text.
                    b.push(4);
                    b.push(4);
                }
            }
        }
        2 => {
            for _ in 0..depth {
                b.extend_from_slice(&stored("StructProperty"));
                prop(&mut b, &["S"]);
                b.extend_from_slice(&[0; 17]);
                b.extend_from_slice(&stored("f"));
            }
        }
        3 => {
            for _ in 0..depth {
                b.extend_from_slice(&stored("ArrayProperty"));
                prop(&mut b, &["StructProperty"]);
                b.push(0);
                b.extend_from_slice(&1u32.to_le_bytes());
                b.extend_from_slice(&stored("f"));
                b.extend_from_slice(&stored("StructProperty"));
                b.extend_from_slice(&[0; 8]);
                b.extend_from_slice(&stored("S"));
                b.extend_from_slice(&[0; 17]);
                b.extend_from_slice(&stored("f"));
            }
        }
        _ => {
            let mut path = String::from("a");
            for _ in 0..depth {
                b.extend_from_slice(&stored("MapProperty"));
                prop(&mut b, &["StructProperty", "IntProperty"]);
                b.push(0);
                b.extend_from_slice(&[0; 4]);
                b.extend_from_slice(&1u32.to_le_bytes());
                b.extend_from_slice(&stored("f"));
                path.push_str(".MapProperty.Key.StructProperty");
                hints.insert(path.clone(), "S".into());
                path.push_str(".f");
            }
        }
    }
    (b, hints)
}

/// Runs in a child process, so that it may die.
pub fn probe_deep(how: usize, depth: usize) {
    let (b, h) = deep(how, depth);
    // The stack of a main thread.
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let _ = gvas::GvasFile::read_with_hints(
                &mut Cursor::new(b),
                gvas::game_version::GameVersion::Default,
                &h,
            );
        })
        .expect("thread")
        .join()
        .expect("no panic");
}

// ------------------------------------------------------------------ C06 ----

const PER_BYTE: u64 = 2048;
const CONSTANT: u64 = 1 << 20;

/// Counts what is asked of a stream.
struct Asked<'a> {
    c: Cursor<&'a [u8]>,
    n: u64,
}

impl Read for Asked<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        self.c.read(b)
    }
}

impl Seek for Asked<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.n += 1;
        self.c.seek(p)
    }
}

fn measured(x: &In, len: usize, obs: &mut Obs) -> Out {
    let limit = CONSTANT + PER_BYTE * len as u64;
    let mut slow = 0;
    loop {
        let m = mem::mark();
        let t = Instant::now();
        let mut s = Asked {
            c: Cursor::new(x.bytes),
            n: 0,
        };
        let r = call(|| x.entry.read(&mut s, x.hints))?;
        let (peak, took) = (mem::peak_since(m), t.elapsed());
        ensure!(
            peak <= limit,
            "{peak} bytes held to read {len} bytes (limit {limit})"
        );
        ensure!(
            s.n <= 1000 + 64 * len as u64,
            "{} stream operations to read {len} bytes",
            s.n
        );
        if slow == 0 {
            obs.outcome(outcome(&r));
            let per = peak.saturating_sub(300_000) / len.max(1) as u64;
            obs.outcome(match per {
                0..=63 => "at most 64 bytes per byte",
                64..=511 => "at most 512 bytes per byte",
                _ => "more than 512 bytes per byte",
            });
        }
        // Far more than any input this size needs; repeated to rule out a
        // stalled machine.
        if took < Duration::from_secs(1) + Duration::from_micros(20 * len as u64) {
            return Ok(());
        }
        slow += 1;
        ensure!(slow < 4, "{took:?} to read {len} bytes");
    }
}

fn c06(t: Tier) -> Vec<Phase> {
    let j: Judge = Arc::new(|x, obs| {
        let len = match (x.plain, x.entry) {
            (Some(p), _) => p.len().max(x.bytes.len()),
            (None, Entry::File(Wrap::PalZlib | Wrap::PalTwice)) => expanded(x.bytes),
            _ => x.bytes.len(),
        };
        measured(x, len, obs)
    });
    let mut out = phases(
        t,
        Extent {
            short: t.pick(1, 2),
            reduced: t.pick(4, 6),
            ..FULL
        },
        j,
    );
    out.push(phase("count without data", 0, |ch, obs| {
        // Every container, with any count and no or little data behind it.
        let kind = ch.free(ELEMENTS.len() * 2 + MAP_ELEMENTS * 2 + 8);
        let count = [
            2u32,
            1000,
            1 << 16,
            1 << 20,
            1 << 24,
            (1 << 31) - 1,
            1 << 31,
            u32::MAX,
        ][ch.free(8)];
        let size = [0u32, 3, 4, 8, 9, 1 << 16, 1 << 24, (1 << 31) - 1, u32::MAX][ch.free(9)];
        let data = [0usize, 1, 4, 64, 4096][ch.free(5)];
        let (b, hints) = counted_input(kind, count, size, data);
        obs.state(&b);
        obs.show(|| format!("kind {kind} count {count} size {size}: {}", hex(&b)));
        let x = In {
            entry: Entry::File(Wrap::Plain),
            bytes: &b,
            plain: Some(&b),
            hints: &hints,
        };
        obs.calls(1);
        measured(&x, b.len(), obs).map_err(|e| match e {
            Stop::Fail(m) => Stop::Fail(format!("{m}; input {}", hex(&b))),
            e => e,
        })
    }));
    out.push(phase("large values", 0, |ch, obs| {
        // Well-formed, so that everything is kept.
        let kind = ch.free(ELEMENTS.len() * 2 + 1);
        let n = [16usize, 256, 2048, 16384][ch.free(4)];
        let name = [1usize, 256, 2048, 16384][ch.free(4)];
        let long: String = "N".repeat(name);
        let cfg = Cfg {
            names: false,
            ..Cfg::BASE
        };
        let mut inner = Ch::new(&[]);
        let mut g = Gen {
            ch: &mut inner,
            cfg,
            lay: Layout::default(),
        };
        let e = ELEMENTS[kind / 2 % ELEMENTS.len()];
        // Every element keeps the name: on either side of the limit, not near it.
        if e == "Unknown" && n * name > 2048 * 2048 && n * name < 16384 * 16384 {
            return Err(Stop::Prune);
        }
        let mut p = match kind {
            k if k == ELEMENTS.len() * 2 => P::Struct(
                long.clone(),
                [0; 16],
                SV::Custom(
                    (0..n)
                        .map(|i| (format!("f{i}"), P::I32(i as i32)))
                        .collect(),
                ),
            ),
            k if k % 2 == 0 => g.array_of(e, n, 1),
            _ => g.set_of(e, n, 1),
        };
        // The longest names the type allows.
        match &mut p {
            P::Array(a) => {
                if let Some((f, ty, _)) = &mut a.info {
                    *f = long.clone();
                    *ty = long.clone();
                }
                if e == "Unknown" {
                    a.ty = long.clone();
                    for x in &mut a.el {
                        *x = P::Unknown(long.clone(), vec![7]);
                    }
                }
            }
            P::Set(ty, _, el) => {
                if e == "Unknown" {
                    *ty = long.clone();
                    for x in el {
                        *x = P::Unknown(long.clone(), vec![7]);
                    }
                }
            }
            _ => {}
        }
        let mut f = one(0, Wrap::Plain, "a", p);
        f.props[0].0 = long;
        let enc = encode_file(&f);
        let Some(hints) = hints_for(&enc) else {
            return Err(Stop::Prune);
        };
        drop(f);
        obs.state(&(kind, n, name));
        obs.show(|| format!("{e} x {n}, names of {name}: {} bytes", enc.buf.len()));
        let x = In {
            entry: Entry::File(Wrap::Plain),
            bytes: &enc.buf,
            plain: Some(&enc.buf),
            hints: &hints,
        };
        obs.calls(1);
        measured(&x, enc.buf.len(), obs).map_err(|e2| match e2 {
            Stop::Fail(m) => Stop::Fail(format!("{m}; {n} {e} elements, names of {name} bytes")),
            e => e,
        })
    }));
    out
}

/// Size of what a damaged container expands to, as far as it expands.
fn expanded(b: &[u8]) -> usize {
    let part = |b: &[u8]| {
        let mut v = Vec::new();
        let _ = flate2::read::ZlibDecoder::new(b)
            .take(64 << 20)
            .read_to_end(&mut v);
        v
    };
    let body = b.get(12..).unwrap_or(&[]);
    let once = part(body);
    let twice = part(&once);
    b.len() + once.len() + twice.len()
}

fn counted_input(kind: usize, count: u32, size: u32, data: usize) -> (Vec<u8>, Hints) {
    let mut e = Enc::new(Layout::default(), false);
    e.header(&tiny_header(0));
    e.string("a");
    let mut b = e.buf;
    let mut hints = Hints::new();
    let n = ELEMENTS.len();
    let mut head = |ty: &str, extra: &[&str]| {
        b.extend_from_slice(&stored(ty));
        b.extend_from_slice(&size.to_le_bytes());
        b.extend_from_slice(&[0; 4]);
        for x in extra {
            b.extend_from_slice(&stored(x));
        }
        b.push(0);
    };
    match kind {
        k if k < n => {
            head("ArrayProperty", &[&type_of(ELEMENTS[k])]);
            b.extend_from_slice(&count.to_le_bytes());
            if ELEMENTS[k] == "Struct" {
                b.extend_from_slice(&stored("f"));
                b.extend_from_slice(&stored("StructProperty"));
                b.extend_from_slice(&(size as u64).to_le_bytes());
                b.extend_from_slice(&stored("S"));
                b.extend_from_slice(&[0; 17]);
            }
        }
        k if k < 2 * n => {
            head("SetProperty", &[&type_of(ELEMENTS[k - n])]);
            b.extend_from_slice(&[0; 4]);
            b.extend_from_slice(&count.to_le_bytes());
            hints.insert("a.SetProperty.StructProperty".into(), "Guid".into());
        }
        k if k < 2 * n + 2 * MAP_ELEMENTS => {
            let k = k - 2 * n;
            let ty = type_of(ELEMENTS[k / 2]);
            if k % 2 == 0 {
                head("MapProperty", &[&ty, "IntProperty"]);
            } else {
                head("MapProperty", &["IntProperty", &ty]);
            }
            b.extend_from_slice(&[0; 4]);
            b.extend_from_slice(&count.to_le_bytes());
            for p in ["Key", "Value"] {
                hints.insert(format!("a.MapProperty.{p}.StructProperty"), "Guid".into());
            }
        }
        k => match k - 2 * n - 2 * MAP_ELEMENTS {
            0 => {
                head("MulticastInlineDelegateProperty", &[]);
                b.extend_from_slice(&count.to_le_bytes());
            }
            1 => {
                head("FieldPathProperty", &[]);
                b.extend_from_slice(&count.to_le_bytes());
            }
            2 => {
                b.extend_from_slice(&stored("StructProperty"));
                b.extend_from_slice(&size.to_le_bytes());
                b.extend_from_slice(&[0; 4]);
                b.extend_from_slice(&stored("GameplayTagContainer"));
                b.extend_from_slice(&[0; 17]);
                b.extend_from_slice(&count.to_le_bytes());
            }
            3..=5 => {
                head("TextProperty", &[]);
                b.extend_from_slice(&[0; 4]);
                b.push((k - 2 * n - 2 * MAP_ELEMENTS - 2) as u8);
                // An empty text, then the arguments.
                b.extend_from_slice(&[0, 0, 0, 0, 0xFF]);
                b.extend_from_slice(&count.to_le_bytes());
            }
            6 => {
                head("MysteryProperty", &[]);
            }
            _ => {
                // The number of custom versions.
                let mut e = Enc::new(Layout::default(), false);
                let mut h = tiny_header(0);
                h.versions.clear();
                e.header(&h);
                b = e.buf;
                // Before the class name of one letter.
                b.truncate(b.len() - 10);
                b.extend_from_slice(&count.to_le_bytes());
            }
        },
    }
    b.extend(std::iter::repeat(0u8).take(data));
    (b, hints)
}

// ------------------------------------------------------------------ C07 ----

fn cuts(x: &Doc, points: impl Iterator<Item = usize>, obs: &mut Obs) -> Out {
    let full = x.bytes.len();
    let (mut err, mut ok) = (0, 0);
    for cut in points {
        match read(&x.bytes[..cut], x.file.wrap, &x.hints)? {
            Err(_) => err += 1,
            Ok(g) => {
                ok += 1;
                let marker = match x.file.wrap {
                    Wrap::Plain | Wrap::PalNone => full - 4,
                    _ => 0,
                };
                ensure!(
                    cut >= marker,
                    "the first {cut} of {full} bytes are accepted as a save"
                );
                bridge::same_file(&x.file, &g).map_err(|m| {
                    Stop::Fail(format!("the first {cut} of {full} bytes give a part: {m}"))
                })?;
            }
        }
    }
    obs.swept(err + ok);
    obs.calls(err + ok);
    obs.validated(1);
    obs.outcomes("rejected", err);
    obs.outcomes("complete without the tail", ok);
    Ok(())
}

fn c07(t: Tier) -> Vec<Phase> {
    let oracle: Oracle = Arc::new(move |ch, x, obs| {
        // The cuts of a long document are shared out over several cases. The
        // quick tier takes every seventh cut of the longest ones, and every one
        // near the ends.
        let n = x.bytes.len();
        let parts = (n / 500).pow(2).clamp(1, 64);
        let part = ch.free(parts);
        let step = if n > 3000 { t.pick(7, 1) } else { 1 };
        let all = (0..n).filter(|c| c % step == 0 || *c < 500 || n - c < 500);
        cuts(x, all.skip(part).step_by(parts), obs)
    });
    let mut d = Depth::light(t);
    d.grammar = t.pick(2, 3);
    d.containers = t.pick(0, 1);
    let cfg = Cfg {
        wraps: &[Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice],
        ..Cfg::BASE
    };
    let mut out = doc_phases(cfg, d, oracle.clone());
    out.retain(|p| p.name != "scalars");
    // The same spaces, compressed.
    let mut d = Depth::light(t);
    d.containers = 0;
    d.structs = 0;
    d.texts = 0;
    for wraps in [&[Wrap::PalZlib] as &'static [Wrap], &[Wrap::PalTwice]] {
        let cfg = Cfg { wraps, ..cfg };
        for mut p in doc_phases(cfg, d, oracle.clone()) {
            if ["structs", "texts", "nesting"].contains(&p.name.as_str()) {
                p.name = format!("{}, {:?}", p.name, wraps[0]);
                out.push(p);
            }
        }
    }
    let list = Fixtures::new();
    let many = t.pick(64, 1024);
    out.push(phase("game saves", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let part = ch.free(64);
        let x = list.get(i);
        let len = x.bytes.len();
        // Every cut of the small ones; of the large ones, both ends and a grid
        // between.
        let mut all: Vec<usize> = if len <= 64 * many {
            (0..len).collect()
        } else {
            (0..many)
                .chain((many..len).step_by(len / many))
                .chain(len - many..len)
                .collect()
        };
        all.sort();
        all.dedup();
        obs.show(|| format!("{} cut at {} places", list.name(i), all.len()));
        cuts(x, all.into_iter().skip(part).step_by(64), obs).map_err(|e| match e {
            Stop::Fail(m) => Stop::Fail(format!("{m}; save {}", list.name(i))),
            e => e,
        })
    }));
    let list = Arc::new(items(
        &Small {
            kinds: 1,
            containers: Some(0),
            ..Small::ONCE
        },
        t.pick(1, 2),
    ));
    out.push(phase("properties", 0, move |ch, obs| {
        let x = &list[ch.free(list.len())];
        obs.state(&(x.layout, x.header, &x.bytes));
        obs.show(|| format!("{} {}", brief(&x.p), hex(&x.bytes)));
        for cut in 0..x.bytes.len() {
            let b = &x.bytes[..cut];
            ensure!(
                call(|| x.read(&mut Cursor::new(b), &mut Vec::new()))?.is_err(),
                "the first {cut} of {} bytes are accepted as {}",
                x.bytes.len(),
                brief(&x.p)
            );
        }
        ensure!(
            call(|| x.read(&mut Cursor::new(&x.bytes), &mut Vec::new()))?.is_ok(),
            "{} rejected",
            brief(&x.p)
        );
        obs.calls(x.bytes.len() as u64 + 1);
        obs.swept(x.bytes.len() as u64);
        Ok(())
    }));
    let list = Arc::new(large());
    out.push(phase("large values", 0, move |ch, obs| {
        let x = &list[ch.free(list.len())];
        let n = x.bytes.len();
        obs.state(&(x.layout, x.header, &x.bytes));
        obs.show(|| format!("{} {}", brief(&x.p), hex(&x.bytes)));
        // Both ends and a grid between.
        let step = (n / t.pick(300, 3000)).max(1);
        let all: Vec<usize> = (0..n)
            .filter(|c| c % step == 0 || *c < 300 || n - c < 300)
            .collect();
        for cut in &all {
            let b = &x.bytes[..*cut];
            ensure!(
                call(|| x.read(&mut Cursor::new(b), &mut Vec::new()))?.is_err(),
                "the first {cut} of {n} bytes are accepted as {}",
                brief(&x.p)
            );
        }
        ensure!(
            call(|| x.read(&mut Cursor::new(&x.bytes), &mut Vec::new()))?.is_ok(),
            "{} rejected",
            brief(&x.p)
        );
        obs.calls(all.len() as u64 + 1);
        obs.validated(1);
        obs.swept(all.len() as u64);
        Ok(())
    }));
    out.push(phase("header", t.pick(2, 3), |ch, obs| {
        let h = header(ch, &Cfg::BASE);
        let mut e = Enc::new(Layout::default(), false);
        e.header(&h);
        obs.state(&e.buf);
        obs.show(|| hex(&e.buf));
        for cut in 0..e.buf.len() {
            ensure!(
                call(|| GvasHeader::read(&mut Cursor::new(&e.buf[..cut])))?.is_err(),
                "the first {cut} of {} bytes are accepted as a header",
                e.buf.len()
            );
        }
        obs.calls(e.buf.len() as u64);
        obs.swept(e.buf.len() as u64);
        Ok(())
    }));
    out
}

// ------------------------------------------------------------------ C08 ----

fn c08(t: Tier) -> Vec<Phase> {
    let j: Judge = Arc::new(|x, obs| {
        let Some(plain) = x.plain else { return Ok(()) };
        let got = call(|| x.entry.read(&mut Cursor::new(x.bytes), x.hints))?;
        let lay = match x.entry {
            Entry::Prop { layout, .. } => Layout::of(&versions(layout, 7)),
            _ => Layout::default(),
        };
        let mut d = Dec::new(plain, x.hints, lay);
        let same = match x.entry {
            Entry::File(w) => match (d.file(), &got) {
                (Ok(mut f), Ok(Val::File(g))) => {
                    f.wrap = w;
                    if d.ambiguous {
                        obs.outcome("repeated names");
                        Ok(())
                    } else {
                        obs.outcome("still a save");
                        bridge::same_file(&f, g)
                    }
                }
                (Err(_), Err(_)) => Ok(()),
                (Err(w), _) => Err(format!("accepted although it is not a save ({w:?})")),
                (Ok(_), Err(e)) => Err(format!("rejected although it is a save ({e})")),
                _ => unreachable!(),
            },
            Entry::Header => match (d.header(), &got) {
                (Ok(h), Ok(Val::Header(g))) => bridge::same_header(&h, g),
                (Err(_), Err(_)) => Ok(()),
                (Err(w), _) => Err(format!("accepted although it is not a header ({w:?})")),
                (Ok(_), Err(e)) => Err(format!("rejected although it is a header ({e})")),
                _ => unreachable!(),
            },
            Entry::Prop {
                ty, header, share, ..
            } => {
                let r = if header {
                    d.prop(ty)
                } else {
                    d.element(ty, share)
                };
                match (r, &got) {
                    (Ok(p), Ok(Val::Prop(g))) => {
                        if d.ambiguous {
                            Ok(())
                        } else {
                            obs.outcome("still a property");
                            bridge::same("", &p, g)
                        }
                    }
                    (Err(_), Err(_)) => Ok(()),
                    (Err(w), _) => Err(format!("accepted although it is not a {ty} ({w:?})")),
                    (Ok(_), Err(e)) => Err(format!("rejected although it is a {ty} ({e})")),
                    _ => unreachable!(),
                }
            }
            Entry::Str => match (d.string(), &got) {
                (Ok(a), Ok(Val::Str(b))) if a == *b => Ok(()),
                (Err(_), Err(_)) => Ok(()),
                _ => Err("string read differently".into()),
            },
            Entry::OptStr => match (d.opt_string(), &got) {
                (Ok(a), Ok(Val::OptStr(b))) if a == *b => Ok(()),
                (Err(_), Err(_)) => Ok(()),
                _ => Err("string read differently".into()),
            },
        };
        same.map_err(Stop::Fail)?;
        obs.outcome(outcome(&got));
        obs.validated(1);
        Ok(())
    });
    phases(
        t,
        Extent {
            short: t.pick(2, 2),
            reduced: t.pick(5, 7),
            raw: false,
            ..FULL
        },
        j,
    )
}

// ------------------------------------------------------------------ C23 ----

fn position(e: &Error) -> Option<u64> {
    match e {
        Error::Deserialize(e) => match e {
            D::InvalidHeader(_) => None,
            D::InvalidValueSize(_, _, p)
            | D::InvalidString(_, p)
            | D::InvalidStringTerminator(_, p)
            | D::InvalidBoolean(_, p)
            | D::MissingHint(_, _, p)
            | D::MissingArgument(_, p)
            | D::InvalidProperty(_, p)
            | D::InvalidEnumValue(_, _, p)
            | D::InvalidArrayIndex(_, p)
            | D::InvalidTerminator(_, p)
            | D::FromUtf16Error(_, p)
            | D::FromUtf8Error(_, p) => Some(*p),
        },
        _ => None,
    }
}

/// What the error has to be when `s` holds `v`. None: the reader may notice
/// only later, or not at all.
fn expected(s: &Span, old: u64, v: u64, e: &Error, end: usize) -> Option<Result<(), String>> {
    let at = |p: u64| p >= s.start as u64 && p <= s.end as u64;
    let framed = |p: u64| p >= s.start as u64 && p <= end as u64;
    let Error::Deserialize(d) = e else {
        return None;
    };
    let wide = s.end - s.start;
    let numeric = matches!(
        s.owner,
        "Int8"
            | "Int16"
            | "UInt16"
            | "Int"
            | "UInt32"
            | "Int64"
            | "UInt64"
            | "Float"
            | "Double"
            | "Bool"
    );
    let r = match s.kind {
        Kind::StrLen { optional } => {
            let n = v as u32 as i32;
            if n.unsigned_abs() > 131072 || n == 0 && !optional {
                match d {
                    D::InvalidString(x, p) => *x == n && at(*p),
                    _ => false,
                }
            } else {
                return None;
            }
        }
        Kind::StrTerm => match d {
            D::InvalidStringTerminator(x, p) => *x as u64 == v && at(*p),
            _ => false,
        },
        Kind::Separator => match d {
            D::InvalidTerminator(x, p) => *x as u64 == v && at(*p),
            _ => false,
        },
        Kind::Bool8 | Kind::Bool32 => {
            if v <= 1 {
                return None;
            }
            match d {
                D::InvalidBoolean(x, p) => *x as u64 == v && at(*p),
                _ => false,
            }
        }
        Kind::EnumByte => match d {
            D::InvalidEnumValue(_, x, p) if at(*p) => *x as u8 as u64 == v,
            // Another history or argument: its own fields decide.
            _ => return None,
        },
        Kind::ArrayIndex { strict: true } if !numeric => match d {
            D::InvalidArrayIndex(x, p) => *x as u64 == v && at(*p),
            _ => false,
        },
        Kind::ArrayIndex { strict: true } => match d {
            // The upper half of an eight byte size.
            D::InvalidValueSize(a, b, p) => {
                (*a >> 32 == v || *b >> 32 == v) && framed(*p)
                // Or an index of its own.
            }
            D::InvalidArrayIndex(x, p) => *x as u64 == v && at(*p),
            _ => false,
        },
        // Sizes of these decide how the value is read.
        Kind::PropSize
            if matches!(s.owner, "Byte" | "Array" | "Set" | "Unknown" | "StructBody") =>
        {
            return None
        }
        Kind::PropSize | Kind::InnerSize => match d {
            D::InvalidValueSize(a, b, p) => {
                let low = |x: u64| if wide == 4 { x as u32 as u64 } else { x };
                let (a, b) = (low(*a), low(*b));
                (a == v && b == old || a == old && b == v) && framed(*p)
            }
            D::InvalidProperty(m, p) => m.split(' ').any(|w| w == v.to_string()) && framed(*p),
            _ => false,
        },
        _ => return None,
    };
    Some(if r {
        Ok(())
    } else {
        Err(format!(
            "{:?} of {} at {}..{} set to {v}: reported as {e:?}",
            s.kind, s.owner, s.start, s.end
        ))
    })
}

/// Where the value framed by a size field ends, at most.
fn frame_end(x: &Doc, s: &Span) -> usize {
    let w = s.end - s.start;
    let mut b = [0u8; 8];
    b[..w].copy_from_slice(&x.enc.buf[s.start..s.end]);
    let n = u64::from_le_bytes(b) as usize;
    // Header strings and identifiers stand between the size and the value.
    let mut i = x.enc.spans.iter().position(|y| y.start == s.start).unwrap();
    while i < x.enc.spans.len() && x.enc.spans[i].kind != Kind::Separator {
        i += 1;
    }
    let after = x.enc.spans.get(i).map(|s| s.end).unwrap_or(s.end);
    (after + n).min(x.enc.buf.len())
}

/// The number stands in the message, in one notation or another.
fn mentions(message: &str, v: u32) -> bool {
    let words = |c: char| !c.is_ascii_alphanumeric() && c != '-';
    let own = [
        v.to_string(),
        (v as i32).to_string(),
        format!("{v:x}"),
        format!("{v:#x}"),
        format!("{v:08x}"),
        format!("{v:#010x}"),
    ];
    let said = |own: &[String]| {
        message
            .split(words)
            .any(|w| own.iter().any(|o| w.eq_ignore_ascii_case(o)))
    };
    // Byte by byte.
    let bytes = v.to_le_bytes();
    said(&own)
        || bytes
            .iter()
            .all(|b| said(&[b.to_string(), format!("{b:02x}"), format!("{b:#04x}")]))
}

/// Where the second property of a save with much in front begins, at least.
const FAR: usize = 70_000;

fn c23(t: Tier) -> Vec<Phase> {
    let fields = |name: &'static str, w: Wrap, bases: Arc<Vec<Base>>| {
        phase(name, 0, move |ch, obs| {
            let b = &bases[ch.free(bases.len())];
            let x = &b.doc;
            let s = &x.enc.spans[ch.free(x.enc.spans.len())];
            let width = s.end - s.start;
            if width > 8 || !framing(&s.kind) || s.end <= b.body {
                return Err(Stop::Prune);
            }
            let old_bytes = &x.enc.buf[s.start..s.end];
            let int = |v: &[u8]| {
                let mut b = [0u8; 8];
                b[..v.len()].copy_from_slice(v);
                u64::from_le_bytes(b)
            };
            let old = int(old_bytes);
            let values: Vec<Vec<u8>> = match width {
                1 => (0..=255u8)
                    .filter(|v| *v as u64 != old)
                    .map(|v| vec![v])
                    .collect(),
                2 => (0..=65535u16)
                    .filter(|v| *v as u64 != old)
                    .map(|v| v.to_le_bytes().to_vec())
                    .collect(),
                _ => boundary(old_bytes),
            };
            // Saves with much in front take a while each.
            let most = if s.start > FAR { 40 } else { values.len() };
            let values = &values[..most.min(values.len())];
            let end = match s.kind {
                Kind::PropSize | Kind::InnerSize => frame_end(x, s),
                Kind::ArrayIndex { .. } => {
                    let i = x.enc.spans.iter().position(|y| y.start == s.start).unwrap();
                    frame_end(x, &x.enc.spans[i - 1])
                }
                _ => s.end,
            };
            let mut bytes = x.enc.buf.clone();
            let mut precise = 0;
            for v in values {
                bytes[s.start..s.end].copy_from_slice(v);
                let v = int(v);
                let input = wrap(w, &bytes);
                match read(&input, w, &x.hints)? {
                    Ok(_) => obs.outcome("still a save"),
                    Err(e) => {
                        if let Some(p) = position(&e) {
                            ensure!(
                                p <= bytes.len() as u64 && (s.start < FAR || p >= FAR as u64),
                                "{e:?}: position outside the input of {} bytes; {:?} at {} set to {v} in {}",
                                bytes.len(),
                                s.kind,
                                s.start,
                                hex(&x.enc.buf)
                            );
                        }
                        match expected(s, old, v, &e, end) {
                            Some(Ok(())) => precise += 1,
                            Some(Err(m)) => return fail(format!("{m}; save {}", hex(&x.enc.buf))),
                            None => {
                                // A value the reader rejects by itself cannot
                                // run into anything else.
                                if let (Error::Io(_), true) = (&e, self_evident(s, v)) {
                                    return fail(format!(
                                        "{:?} at {} set to {v}: reported as {e:?}; save {}",
                                        s.kind,
                                        s.start,
                                        hex(&x.enc.buf)
                                    ));
                                }
                                obs.outcome("noticed later")
                            }
                        }
                    }
                }
            }
            obs.calls(values.len() as u64);
            obs.validated(precise);
            obs.outcomes("identified", precise);
            obs.swept(values.len() as u64);
            obs.show(|| format!("{:?} at {} of {}", s.kind, s.start, hex(&x.enc.buf)));
            Ok(())
        })
    };
    let bases = Arc::new(small(t));
    let set = Arc::new(tiny_set(1));
    let mut out = vec![
        fields("fields", Wrap::Plain, bases),
        fields("fields, uncompressed container", Wrap::PalNone, set.clone()),
        fields("fields, compressed", Wrap::PalZlib, set.clone()),
        fields("fields, compressed twice", Wrap::PalTwice, set.clone()),
    ];
    // The same far into a save.
    let far = |x: &Doc| {
        let mut f = x.file.clone();
        f.props
            .insert(0, ("far".into(), P::Unknown("Blob".into(), vec![0; FAR])));
        doc_spans(f).ok()
    };
    let list = set.iter().filter_map(|b| far(&b.doc)).map(base).collect();
    let list: Arc<Vec<Base>> = Arc::new(list);
    out.push(fields("far fields", Wrap::Plain, list.clone()));
    // Another type of the same length.
    let names = super::construct::types();
    let near = small(t);
    out.push(phase("other types", 0, move |ch, obs| {
        let i = ch.free(near.len() + list.len());
        let b = near.get(i).unwrap_or_else(|| &list[i - near.len()]);
        let x = &b.doc;
        let s = &x.enc.spans[ch.free(x.enc.spans.len())];
        let old = &x.enc.buf[s.start..s.end];
        if s.kind != Kind::StrBody || s.start < b.body || !old.ends_with(b"Property") {
            return Err(Stop::Prune);
        }
        let from = if i < near.len() { b.body } else { FAR };
        let (mut n, mut bad) = (0, 0);
        for name in names.iter().map(|n| n.as_bytes()) {
            if name.len() != old.len() || name == old || s.start < from {
                continue;
            }
            let mut bytes = x.enc.buf.clone();
            bytes[s.start..s.end].copy_from_slice(name);
            n += 1;
            if let Err(e) = read(&bytes, Wrap::Plain, &x.hints)? {
                let inside = |p| p >= from as u64 && p <= bytes.len() as u64;
                ensure!(
                    position(&e).is_none_or(inside),
                    "{e:?}: position outside {from}..{}; type at {} replaced by {} in {}",
                    bytes.len(),
                    s.start,
                    String::from_utf8_lossy(name),
                    hex(&x.enc.buf)
                );
                bad += position(&e).is_some() as u64;
            }
        }
        obs.swept(n);
        obs.calls(n);
        obs.validated(bad);
        obs.outcomes("identified", bad);
        obs.show(|| format!("type at {} of {}", s.start, hex(&x.enc.buf)));
        Ok(())
    }));
    // Versions and identifiers of the header.
    out.push(phase("header fields", 0, |ch, obs| {
        let layout = ch.free(LAYOUTS);
        let ue5 = ch.free(2) == 1;
        let mut h = plain_header(layout);
        if ue5 {
            h.ue5 = Some(1008);
        }
        let x = doc_spans(File {
            wrap: Wrap::Plain,
            hdr: h,
            props: vec![("a".into(), P::I32(1))],
        })?;
        let kinds = [
            Kind::Magic,
            Kind::SaveVersion,
            Kind::PkgVersion,
            Kind::Ue5Version,
            Kind::VersionFormat,
        ];
        let k = &kinds[ch.free(kinds.len())];
        let Some(s) = x.enc.spans.iter().find(|s| s.kind == *k) else {
            return Err(Stop::Prune);
        };
        let old = &x.enc.buf[s.start..s.end];
        let mut values = boundary(old);
        values.extend((0..4096u32).map(|v| v.to_le_bytes().to_vec()));
        let mut bytes = x.enc.buf.clone();
        let mut named = 0;
        for v in &values {
            bytes[s.start..s.end].copy_from_slice(v);
            if let Err(Error::Deserialize(D::InvalidHeader(m))) =
                read(&bytes, Wrap::Plain, &x.hints)?
            {
                // Another version may leave the next field to be reported.
                let v = u32::from_le_bytes(v[..].try_into().unwrap());
                if *k == Kind::SaveVersion && (2..=3).contains(&v) {
                    continue;
                }
                ensure!(mentions(&m, v), "{k:?} set to {v} is reported as {m:?}");
                named += 1;
            }
        }
        obs.state(&(layout, ue5, format!("{k:?}")));
        obs.swept(values.len() as u64);
        obs.calls(values.len() as u64);
        obs.validated(named);
        obs.outcomes("identified", named);
        obs.show(|| format!("{k:?}"));
        Ok(())
    }));
    // Text that is none.
    let mut texts: Vec<Doc> = Vec::new();
    for slot in 0..STRING_SLOTS {
        for text in ["abcd", "aé𝄞b", "𝄞"] {
            texts.extend(doc_spans(string_slot(slot, text.into())).ok());
        }
    }
    for slot in 0..STRING_SLOTS {
        texts.extend(
            doc_spans(string_slot(slot, "aé".into()))
                .ok()
                .and_then(|x| far(&x)),
        );
    }
    texts.extend(small(t).into_iter().map(|b| b.doc));
    out.push(phase("string contents", 0, move |ch, obs| {
        let x = &texts[ch.free(texts.len())];
        let i = ch.free(x.enc.spans.len());
        let s = &x.enc.spans[i];
        if s.kind != Kind::StrBody {
            return Err(Stop::Prune);
        }
        let (from, to) = (x.enc.spans[i - 1].start, x.enc.spans[i + 1].end);
        let wide = x.enc.spans[i + 1].end - x.enc.spans[i + 1].start == 2;
        let at = s.start + ch.free(s.end - s.start);
        let mut bytes = x.enc.buf.clone();
        let (mut n, mut bad) = (0, 0);
        for v in 0..=255u8 {
            bytes[at] = v;
            let body = &bytes[s.start..s.end];
            let units: Vec<u16> = body
                .chunks_exact(2)
                .map(|c| u16::from_le_bytes([c[0], c[1]]))
                .collect();
            let valid = match wide {
                true => String::from_utf16(&units).is_ok(),
                false => std::str::from_utf8(body).is_ok(),
            };
            if valid {
                continue;
            }
            n += 1;
            let said = match read(&bytes, Wrap::Plain, &x.hints)? {
                Ok(_) => "accepted".to_string(),
                Err(e) => {
                    let right = match &e {
                        Error::Deserialize(D::FromUtf16Error(_, p)) if wide => Some(*p),
                        Error::Deserialize(D::FromUtf8Error(u, p)) if u.as_bytes() == body => {
                            Some(*p)
                        }
                        _ => None,
                    };
                    if right.is_some_and(|p| p >= from as u64 && p <= to as u64) {
                        bad += 1;
                        continue;
                    }
                    format!("reported as {e:?}")
                }
            };
            return fail(format!(
                "string at {from}..{to} with byte {at} set to {v:#x}: {said}; save {}",
                hex(&x.enc.buf)
            ));
        }
        obs.swept(n);
        obs.calls(n);
        obs.validated(bad);
        obs.outcomes("identified", bad);
        obs.show(|| format!("string at {from} of {}", hex(&x.enc.buf)));
        Ok(())
    }));
    // Positions of every other error lie inside the input.
    let j: Judge = Arc::new(|x, obs| {
        let Some(plain) = x.plain else { return Ok(()) };
        let got = call(|| x.entry.read(&mut Cursor::new(x.bytes), x.hints))?;
        if let Err(e) = &got {
            if let Some(p) = position(e) {
                ensure!(
                    p <= plain.len() as u64,
                    "{e:?}: position outside the input of {} bytes",
                    plain.len()
                );
            }
        }
        obs.outcome(outcome(&got));
        Ok(())
    });
    out.extend(phases(
        t,
        Extent {
            pairs: t == Tier::Thorough,
            splices: false,
            short: t.pick(1, 2),
            reduced: t.pick(4, 6),
            raw: false,
        },
        j,
    ));
    out
}

/// Values that are wrong whatever follows.
fn self_evident(s: &Span, v: u64) -> bool {
    match s.kind {
        Kind::StrLen { optional } => {
            let n = v as u32 as i32;
            n.unsigned_abs() > 131072 || n == 0 && !optional
        }
        Kind::StrTerm | Kind::Separator => v != 0,
        Kind::Bool8 | Kind::Bool32 => v > 1,
        _ => false,
    }
}
