//! C14: the compressed container around a save.

use super::docs::*;
use super::roundtrip::{first_difference, read};
use super::Check;
use crate::bridge::{self, Form};
use crate::explore::*;
use crate::gen::Cfg;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::GvasFile;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C14",
    level: "model_checking",
    rule: "one case per choice sequence: a save, a compression mode, a stream with content and position; written, the envelope taken apart, and read back; or an envelope changed and read",
    assumptions: &["the zlib decoder used to take envelopes apart (flate2) is trusted"],
    phases: c14,
}];

const MODES: [Wrap; 3] = [Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice];

fn mode_byte(w: Wrap) -> u8 {
    match w {
        Wrap::PalNone => 0x30,
        Wrap::PalZlib => 0x31,
        _ => 0x32,
    }
}

/// Decompresses exactly one zlib stream: the data and how much was used.
fn inflate(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut d = flate2::bufread::ZlibDecoder::new(b);
    let mut v = Vec::new();
    d.read_to_end(&mut v).ok()?;
    let used = d.total_in() as usize;
    Some((v, used))
}

/// As much as can be decompressed.
fn inflate_some(b: &[u8]) -> Vec<u8> {
    let mut d = flate2::bufread::ZlibDecoder::new(b);
    let mut v = Vec::new();
    let mut buf = [0u8; 512];
    while let Ok(n) = d.read(&mut buf) {
        if n == 0 {
            break;
        }
        v.extend_from_slice(&buf[..n]);
    }
    v
}

/// Stream content and position before the call.
const STARTS: usize = 9;
fn stream(i: usize) -> (Vec<u8>, u64) {
    let fill = |n: usize| -> Vec<u8> { (0..n).map(|x| 0x80 | (x * 7) as u8).collect() };
    match i {
        0 => (vec![], 0),
        1 => (fill(1), 1),
        2 => (fill(12), 12),
        3 => (fill(77), 77),
        4 => (fill(2_000_000), 0),
        5 => (fill(2_000_000), 13),
        6 => (fill(40), 0),
        7 => (fill(40), 39),
        // Past the end.
        _ => (fill(3), 10),
    }
}

/// Takes the written envelope apart.
fn written(f: &GvasFile, w: Wrap, plain: &[u8], from: usize) -> Result<Vec<u8>, Stop> {
    let (before, at) = stream(from);
    let mut c = Cursor::new(before.clone());
    c.set_position(at);
    if let Err(e) = call(|| f.write(&mut c))? {
        return fail(format!("not written: {e}"));
    }
    let end = c.position() as usize;
    let out = c.into_inner();
    let at = at as usize;
    ensure!(end >= at + 12 && end <= out.len(), "left at {end}");
    for i in 0..at {
        let want = before.get(i).copied().unwrap_or(0);
        ensure!(out[i] == want, "byte {i} before the container changed");
    }
    ensure!(
        out.len() == before.len().max(end) && out[end..] == before[end.min(before.len())..],
        "bytes after the container changed ({} of {} bytes, container {at}..{end})",
        out.len(),
        before.len()
    );
    let b = &out[at..end];
    let word = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    ensure!(
        word(0) == plain.len(),
        "uncompressed length {} for {} bytes",
        word(0),
        plain.len()
    );
    ensure!(&b[8..11] == b"PlZ", "magic {:02x?}", &b[8..11]);
    ensure!(b[11] == mode_byte(w), "mode {:#x} for {w:?}", b[11]);
    let body = &b[12..];
    let (data, stored) = match w {
        Wrap::PalNone => (body.to_vec(), body.len()),
        Wrap::PalZlib => match inflate(body) {
            Some((d, n)) => {
                ensure!(n == body.len(), "{} bytes after the data", body.len() - n);
                (d, body.len())
            }
            None => return fail("payload does not decompress"),
        },
        _ => {
            let Some((inner, n)) = inflate(body) else {
                return fail("payload does not decompress");
            };
            ensure!(n == body.len(), "{} bytes after the data", body.len() - n);
            let Some((d, m)) = inflate(&inner) else {
                return fail("inner payload does not decompress");
            };
            ensure!(
                m == inner.len(),
                "{} bytes after the inner data",
                inner.len() - m
            );
            (d, inner.len())
        }
    };
    ensure!(
        data == plain,
        "payload is not the save, {}",
        first_difference(plain, &data)
    );
    ensure!(
        word(4) == stored,
        "compressed length {} for {stored} bytes",
        word(4)
    );
    Ok(out)
}

fn round(x: &Doc, w: Wrap, from: usize, obs: &mut Obs) -> Out {
    let mut model = x.file.clone();
    model.wrap = w;
    let f = bridge::file(&model, Form::Compact);
    let out = written(&f, w, &x.enc.buf, from).map_err(|e| match e {
        Stop::Fail(m) => Stop::Fail(format!("{w:?} at start {from}: {m}")),
        e => e,
    })?;
    // Read back from where it was written, whatever follows.
    let at = stream(from).1;
    let mut c = Cursor::new(&out);
    c.seek(SeekFrom::Start(at)).unwrap();
    let g = match call(|| {
        GvasFile::read_with_hints(&mut c, gvas::game_version::GameVersion::Palworld, &x.hints)
    })? {
        Ok(g) => g,
        Err(e) => return fail(format!("{w:?} at start {from}: not read back: {e}")),
    };
    bridge::same_file(&model, &g)
        .map_err(|m| Stop::Fail(format!("{w:?} at start {from}, read back: {m}")))?;
    ensure!(f == g, "{w:?} at start {from}: tree read back differs");
    obs.calls(2);
    obs.validated(2);
    Ok(())
}

fn blob(n: usize, style: usize) -> P {
    // From very compressible to not at all.
    let mut s = 0x1234_5678u32;
    P::Unknown(
        "B".into(),
        (0..n)
            .map(|i| match style {
                0 => 0,
                1 => (i % 251) as u8,
                _ => {
                    s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                    (s >> 24) as u8
                }
            })
            .collect(),
    )
}

fn must_reject(b: &[u8], x: &Doc, why: impl FnOnce() -> String) -> Out {
    if read(b, Wrap::PalZlib, &x.hints)?.is_ok() {
        return fail(format!("accepted: {}", why()));
    }
    Ok(())
}

fn c14(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();

    // Every save of the grammar, every mode and stream.
    let oracle: Oracle = Arc::new(|ch, x, obs| {
        let w = MODES[ch.free(3)];
        let from = ch.free(3) + 2;
        if from == 4 && x.bytes.len() < 2_000_000 {
            // A long stream once is enough; see the other phases.
            return round(x, w, 7, obs);
        }
        round(x, w, from, obs)
    });
    let mut d = Depth::light(t);
    d.grammar = t.pick(1, 2);
    d.structs = t.pick(0, 1);
    d.texts = t.pick(0, 1);
    d.fixtures = false;
    out.extend(doc_phases(Cfg::BASE, d, oracle));

    let docs = Arc::new(Small::ONCE.docs());
    let list = docs.clone();
    out.push(phase("every stream", 0, move |ch, obs| {
        let x = &list[ch.free(list.len())];
        let w = MODES[ch.free(3)];
        let from = ch.free(STARTS);
        obs.state(&(&x.bytes, w, from));
        obs.show(|| format!("{w:?} from stream {from}: {}", hex(&x.bytes)));
        round(x, w, from, obs)
    }));

    let step = t.pick(600usize, 5000);
    out.push(phase("payload sizes", 0, move |ch, obs| {
        let extra: Vec<usize> = (9..t.pick(21, 25))
            .flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1])
            .chain([32 * 1024 - 400, 32 * 1024 - 200, 65_521, 65_535 - 250])
            .collect();
        let n = ch.free(step + extra.len());
        let n = if n < step { n } else { extra[n - step] };
        let style = ch.free(3);
        let w = MODES[ch.free(3)];
        let from = [0, 3, 6][ch.free(3)];
        let x = doc(tiny(0, Wrap::Plain, blob(n, style)))?;
        obs.state(&(n, style, w, from));
        obs.show(|| format!("{n} bytes of kind {style}, {w:?}"));
        round(&x, w, from, obs)
    }));

    let list = docs.clone();
    out.push(phase("magic and mode", 0, move |ch, obs| {
        let x = &list[ch.free(list.len())];
        let w = MODES[ch.free(3)];
        let good = wrap(w, &x.enc.buf);
        let mut n = 0;
        for i in 8..12 {
            for v in 0..=255u8 {
                let mut b = good.clone();
                if b[i] == v || i == 11 && [0x30, 0x31, 0x32].contains(&v) {
                    continue;
                }
                b[i] = v;
                must_reject(&b, x, || {
                    format!("byte {i} of the envelope is {v:#x} ({w:?})")
                })?;
                n += 1;
            }
        }
        for m in ["PLZ", "plz", "ZlP", "\0\0\0", "CNK"] {
            let mut b = good.clone();
            b[8..11].copy_from_slice(m.as_bytes());
            must_reject(&b, x, || format!("magic {m:?} ({w:?})"))?;
            n += 1;
        }
        // A mode that does not describe the payload.
        for v in [0x30, 0x31, 0x32] {
            if v == mode_byte(w) {
                continue;
            }
            let mut b = good.clone();
            b[11] = v;
            must_reject(&b, x, || format!("mode {v:#x} on a {w:?} payload"))?;
            n += 1;
        }
        // Neither kind of file is taken for the other.
        must_reject(&x.enc.buf, x, || "a plain save as a container".into())?;
        ensure!(
            read(&good, Wrap::Plain, &x.hints)?.is_err(),
            "container accepted as a plain save"
        );
        obs.state(&(&x.bytes, w));
        obs.swept(n);
        obs.calls(n + 2);
        obs.outcomes("rejected", n + 2);
        Ok(())
    }));

    let list = docs.clone();
    out.push(phase("short payload", 0, move |ch, obs| {
        let x = &list[ch.free(list.len())];
        let w = MODES[ch.free(3)];
        let good = wrap(w, &x.enc.buf);
        let full = x.enc.buf.len();
        let (mut no, mut yes) = (0, 0);
        for cut in 0..good.len() {
            let b = &good[..cut];
            let have = if cut < 12 {
                0
            } else {
                match w {
                    Wrap::PalNone => cut - 12,
                    Wrap::PalZlib => inflate_some(&b[12..]).len(),
                    _ => inflate_some(&inflate_some(&b[12..])).len(),
                }
            };
            let r = read(b, w, &x.hints)?;
            // The end marker is followed by four bytes no reader needs; only
            // the other modes check that the whole length is there.
            let least = if w == Wrap::PalTwice { full - 4 } else { full };
            if have < least {
                ensure!(
                    r.is_err(),
                    "{w:?} payload cut to {cut} of {} bytes ({have} of {full}) is accepted",
                    good.len()
                );
                no += 1;
            } else if let Ok(g) = r {
                let mut m = x.file.clone();
                m.wrap = w;
                bridge::same_file(&m, &g).map_err(|m| Stop::Fail(format!("cut to {cut}: {m}")))?;
                yes += 1;
            }
        }
        // The declared length is more than there is.
        if w != Wrap::PalTwice {
            for more in [1u32, 2, 255, 256, 65536, u32::MAX - full as u32] {
                let mut b = good.clone();
                b[0..4].copy_from_slice(&(full as u32 + more).to_le_bytes());
                must_reject(&b, x, || {
                    format!("{w:?} with {full} bytes declared as {}", full as u32 + more)
                })?;
                no += 1;
            }
        }
        // A length that ends inside the save.
        for less in 5..=full.min(t.pick(40, 400)) {
            if w == Wrap::PalTwice {
                break;
            }
            let mut b = good.clone();
            b[0..4].copy_from_slice(&((full - less) as u32).to_le_bytes());
            must_reject(&b, x, || {
                format!("{w:?} with {full} bytes declared as {}", full - less)
            })?;
            no += 1;
        }
        obs.state(&(&x.bytes, w));
        obs.swept(no + yes);
        obs.calls(no + yes);
        obs.validated(yes);
        obs.outcomes("rejected", no);
        obs.outcomes("complete without the checksum", yes);
        Ok(())
    }));

    let list = docs;
    out.push(phase("other compressors", 0, move |ch, obs| {
        // Any zlib stream that expands to the save is read, followed by
        // anything.
        let x = &list[ch.free(list.len())];
        let level = ch.free(10) as u32;
        let outer = ch.free(10) as u32;
        let z = |b: &[u8], l: u32| {
            let mut e =
                flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(l));
            // In pieces with flushes, so that there are several blocks.
            for c in b.chunks(b.len() / 3 + 1) {
                e.write_all(c).unwrap();
                e.flush().unwrap();
            }
            e.finish().unwrap()
        };
        let inner = z(&x.enc.buf, level);
        for (mode, stored, body) in [
            (0x31, inner.len(), inner.clone()),
            (0x32, inner.len(), z(&inner, outer)),
        ] {
            if mode == 0x31 && outer != 0 {
                continue;
            }
            for tail in [0usize, 1, 1000] {
                let mut b = Vec::new();
                b.extend_from_slice(&(x.enc.buf.len() as u32).to_le_bytes());
                b.extend_from_slice(&(stored as u32).to_le_bytes());
                b.extend_from_slice(b"PlZ");
                b.push(mode);
                b.extend_from_slice(&body);
                b.extend(std::iter::repeat(0xAA).take(tail));
                let g = match read(&b, Wrap::PalZlib, &x.hints)? {
                    Ok(g) => g,
                    Err(e) => {
                        return fail(format!(
                            "valid container rejected ({e}): mode {mode:#x}, levels {level} {outer}, {tail} bytes after it"
                        ))
                    }
                };
                let mut m = x.file.clone();
                m.wrap = if mode == 0x31 { Wrap::PalZlib } else { Wrap::PalTwice };
                bridge::same_file(&m, &g).map_err(Stop::Fail)?;
                obs.calls(1);
                obs.validated(1);
            }
        }
        obs.state(&(&x.bytes, level, outer));
        Ok(())
    }));

    let list = Fixtures::new();
    out.push(phase("game saves", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let w = MODES[ch.free(3)];
        let from = [0, 3, 5][ch.free(3)];
        let x = list.get(i);
        obs.state(&(i, w, from));
        obs.show(|| format!("{} as {w:?} from stream {from}", list.name(i)));
        round(x, w, from, obs)
    }));
    out
}
