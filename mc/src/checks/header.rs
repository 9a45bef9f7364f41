//! C04 and C24: headers and version queries.

use super::docs::*;
use super::layouts::{place_in_list, unrelated};
use super::mutate::edits_at;
use super::Check;
use crate::bridge::{self, Hints};
use crate::decode::{Dec, Why};
use crate::explore::*;
use crate::gen::{versions, LAYOUTS};
use crate::model::*;
use crate::{ensure, Tier};
use gvas::custom_version::*;
use gvas::engine_version::{EngineVersion, FEngineVersion};
use gvas::error::{DeserializeError, Error};
use gvas::types::Guid;
use gvas::GvasHeader;
use std::io::{Cursor, Seek};

pub const CHECKS: &[Check] = &[
    Check {
        id: "C04",
        level: "model_checking",
        rule: "one case per header (swept cases: one per value of the swept field); read, compared with the reference decoder, written back",
        assumptions: &[],
        phases: c04,
    },
    Check {
        id: "C24",
        level: "model_checking",
        rule: "one case per (major, minor) pair, per (required, listed) version pair, per printed engine version",
        assumptions: &[],
        phases: c24,
    },
];

/// Reads a header from `bytes[at..]` and compares everything with the
/// reference decoder. Returns whether it was accepted.
fn header_case(bytes: &[u8], at: usize) -> Result<bool, Stop> {
    let none = Hints::new();
    let mut d = Dec::new(&bytes[at..], &none, Layout::default());
    let want = d.header();
    let mut c = Cursor::new(bytes);
    c.set_position(at as u64);
    let got = call(|| GvasHeader::read(&mut c))?;
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if d.ambiguous {
                return Ok(true);
            }
            bridge::same_header(&w, &g).map_err(Stop::Fail)?;
            let end = c.stream_position().unwrap() as usize;
            ensure!(
                end == at + d.i,
                "stream left at {end} after a header that ends at {}",
                at + d.i
            );
            let mut out = Vec::new();
            match call(|| g.write(&mut out))? {
                Ok(_) => {}
                Err(e) => return fail(format!("accepted header cannot be written: {e}")),
            }
            let mut e = Enc::new(Layout::default(), false);
            e.header(&w);
            ensure!(
                out == e.buf,
                "header written differently from the one read: {} / {}",
                hex(&e.buf),
                hex(&out)
            );
            Ok(true)
        }
        (Ok(_), Err(e)) => fail(format!("supported header rejected: {e}")),
        (Err(w), Ok(_)) => fail(format!("header accepted although unsupported ({w:?})")),
        (Err(Why::Header), Err(e)) => {
            ensure!(
                matches!(e, Error::Deserialize(DeserializeError::InvalidHeader(_))),
                "unsupported header reported as {e:?}, not as an invalid header"
            );
            Ok(false)
        }
        (Err(_), Err(_)) => Ok(false),
    }
}

fn enc_header(h: &Header) -> Enc {
    let mut e = Enc::new(Layout::default(), true);
    e.header(h);
    e
}

fn base(ue5: bool, layout: usize) -> Header {
    let mut h = plain_header(layout);
    if ue5 {
        h.ue5 = Some(1008);
        h.major = 5;
    }
    h
}

fn span(e: &Enc, k: &Kind) -> Option<(usize, usize)> {
    e.spans
        .iter()
        .find(|s| s.kind == *k)
        .map(|s| (s.start, s.end))
}

const U32S: [u32; 40] = [
    0,
    1,
    2,
    3,
    4,
    5,
    6,
    7,
    0x7F,
    0x80,
    0xFF,
    0x100,
    0x1FF,
    0x200,
    0x203,
    0x204,
    0x205,
    0x206,
    0x209,
    0x20A,
    0x20C,
    0x20D,
    0x20E,
    0x20F,
    0x305,
    998,
    999,
    1000,
    1001,
    1004,
    1008,
    1009,
    1010,
    1011,
    0xFFFF,
    0x10000,
    0x0200_0000,
    0x7FFF_FFFF,
    0x8000_0000,
    0xFFFF_FFFF,
];

fn c04(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let fields = [
        Kind::SaveVersion,
        Kind::PkgVersion,
        Kind::Ue5Version,
        Kind::VersionFormat,
    ];
    let bits: u32 = t.pick(24, 32);
    {
        let fields = fields.clone();
        let chunk = 1u64 << 16;
        let chunks = (1u64 << bits) / chunk;
        out.push(phase("every field value", 0, move |ch, obs| {
            let ue5 = ch.free(2) == 1;
            let f = ch.free(fields.len());
            let c = ch.free(chunks as usize + 1) as u64;
            let e = enc_header(&base(ue5, 0));
            let Some((s, n)) = span(&e, &fields[f]) else {
                return Err(Stop::Prune);
            };
            let mut b = e.buf.clone();
            let mut yes = 0;
            let mut total = 0;
            let mut one = |v: u32, b: &mut Vec<u8>| -> Out {
                b[s..n].copy_from_slice(&v.to_le_bytes());
                total += 1;
                if header_case(b, 0)? {
                    yes += 1;
                }
                Ok(())
            };
            if c < chunks {
                for v in c * chunk..(c + 1) * chunk {
                    one(v as u32, &mut b)?;
                }
            } else {
                // Sums of two powers of two, and their neighbours.
                for i in 0..32 {
                    for j in 0..32 {
                        for d in [0i64, 1, -1] {
                            let v = ((1i64 << i) + (1i64 << j) + d) as u32;
                            if (v as u64) >> bits != 0 || bits == 32 {
                                one(v, &mut b)?;
                            }
                        }
                    }
                }
            }
            obs.swept(total);
            obs.calls(total);
            obs.validated(total);
            obs.outcomes("accepted", yes);
            obs.outcomes("rejected", total - yes);
            obs.show(|| {
                format!(
                    "{:?} values {:#x}.. in {}",
                    fields[f],
                    c * chunk,
                    hex(&e.buf)
                )
            });
            Ok(())
        }));
    }
    out.push(phase("magic", 0, |ch, obs| {
        let i = ch.free(4);
        let j = ch.free(4);
        let x = ch.free(256);
        if j < i {
            return Err(Stop::Prune);
        }
        let e = enc_header(&base(false, 0));
        let mut b = e.buf.clone();
        let mut yes = 0;
        b[i] = x as u8;
        let n = if i == j { 1 } else { 256 };
        for y in 0..n {
            if i != j {
                b[j] = y as u8;
            }
            if header_case(&b, 0)? {
                yes += 1;
            }
        }
        obs.state(&(i, j, x));
        obs.calls(n as u64);
        obs.validated(n as u64);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", n as u64 - yes);
        Ok(())
    }));
    out.push(phase("field combinations", 0, |ch, obs| {
        let sv = U32S[ch.free(U32S.len())];
        let pkg = U32S[ch.free(U32S.len())];
        let layout = ch.free(2);
        let mut yes = 0;
        let mut total = 0;
        for ue5 in [None, Some(())] {
            for u in U32S {
                if ue5.is_none() && u != 0 {
                    continue;
                }
                for fmt in [0u32, 1, 2, 3, 4, 0x0300, 0x0300_0000, u32::MAX] {
                    // Byte layout with or without the UE5 field, any numbers.
                    let mut e = enc_header(&base(ue5.is_some(), layout));
                    for (k, v) in [
                        (Kind::SaveVersion, sv),
                        (Kind::PkgVersion, pkg),
                        (Kind::Ue5Version, u),
                        (Kind::VersionFormat, fmt),
                    ] {
                        if let Some((s, n)) = span(&e, &k) {
                            e.buf[s..n].copy_from_slice(&v.to_le_bytes());
                        }
                    }
                    total += 1;
                    if header_case(&e.buf, 0)? {
                        yes += 1;
                    }
                }
            }
        }
        obs.swept(total);
        obs.calls(total);
        obs.validated(total);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", total - yes);
        obs.show(|| format!("save version {sv:#x}, package {pkg:#x}, all UE5 and formats"));
        Ok(())
    }));
    out.push(phase("engine numbers", 0, move |ch, obs| {
        let field = ch.free(5);
        let hi = ch.free(256) as u32;
        let ue5 = ch.free(2) == 1;
        let mut h = base(ue5, 0);
        for lo in 0..256u32 {
            let v = hi << 8 | lo;
            match field {
                0 => h.major = v as u16,
                1 => h.minor = v as u16,
                2 => h.patch = v as u16,
                3 => h.change = v,
                _ => h.change = v << 16,
            }
            let e = enc_header(&h);
            ensure!(header_case(&e.buf, 0)?, "rejected");
        }
        obs.swept(256);
        obs.calls(256);
        obs.validated(256);
        obs.show(|| format!("engine field {field}, values {:#x}..", hi << 8));
        Ok(())
    }));
    out.push(phase("custom versions", 0, move |ch, obs| {
        // Lists of every length, keys that differ in one byte only, in both
        // orders, with boundary numbers.
        let n = ch.free(t.pick(260, 1100));
        let byte = ch.free(16);
        let order = ch.free(2);
        let ue5 = ch.free(2) == 1;
        let mut h = base(ue5, 0);
        h.versions = (0..n)
            .map(|i| {
                let mut g = [0x5A; 16];
                g[byte] = i as u8;
                g[(byte + 1) % 16] = (i >> 8) as u8;
                (g, [i as u32, u32::MAX - i as u32, 0x0102_0304][i % 3])
            })
            .collect();
        if order == 1 {
            h.versions.reverse();
        }
        let e = enc_header(&h);
        obs.state(&e.buf);
        obs.calls(1);
        obs.validated(1);
        ensure!(header_case(&e.buf, 0)?, "rejected");
        Ok(())
    }));
    out.push(phase("names and position", 0, move |ch, obs| {
        let layout = ch.free(LAYOUTS);
        let ue5 = ch.free(2) == 1;
        let which = ch.free(2);
        let style = ch.free(4);
        let n = ch.free(LENGTHS.len() + 40);
        let len = if n < 40 { n } else { LENGTHS[n - 40] };
        let at = [0usize, 1, 7, 4096][ch.free(4)];
        let tail = ch.free(3);
        let mut h = base(ue5, layout);
        h.versions = versions(layout, 7);
        let s = text_of_len(len, style);
        if which == 0 {
            h.branch = s;
        } else {
            h.class = s;
        }
        let e = enc_header(&h);
        let mut b = vec![0xA5; at];
        b.extend_from_slice(&e.buf);
        b.extend_from_slice(&[&[][..], &[0, 0, 0, 0], &[0xFF; 9]][tail]);
        obs.state(&b);
        obs.calls(1);
        obs.validated(1);
        ensure!(header_case(&b, at)?, "rejected");
        Ok(())
    }));
    out.push(phase("every byte", 0, move |ch, obs| {
        // Any byte of the header replaced by any other: the verdict is the
        // reference decoder's.
        let layout = ch.free(LAYOUTS);
        let ue5 = ch.free(2) == 1;
        let e = enc_header(&base(ue5, layout));
        let i = ch.free(e.buf.len());
        let mut b = e.buf.clone();
        b.extend_from_slice(&[0x33; 40]);
        let keep = b[i];
        let mut yes = 0;
        for v in 0..=255u8 {
            if v != keep {
                b[i] = v;
                if header_case(&b, 0)? {
                    yes += 1;
                }
            }
        }
        obs.swept(255);
        obs.calls(255);
        obs.validated(255);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", 255 - yes);
        obs.show(|| format!("byte {i} of {}", hex(&e.buf)));
        Ok(())
    }));
    out.push(phase("fields inserted, dropped", 0, move |ch, obs| {
        let layout = ch.free(LAYOUTS);
        let ue5 = ch.free(2) == 1;
        let h = base(ue5, layout);
        let points = enc_header(&h).points;
        let at = ch.free(points.len());
        let mut yes = 0;
        let mut total = 0;
        for tail in [&[][..], &[0; 24], &[0x33; 40]] {
            for e in edits_at(&points, at, &[]) {
                let mut x = Enc::new(Layout::default(), false);
                x.edits = vec![e];
                x.header(&h);
                x.buf.extend_from_slice(tail);
                total += 1;
                if header_case(&x.buf, 0)? {
                    yes += 1;
                }
            }
        }
        obs.swept(total);
        obs.calls(total);
        obs.validated(total);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", total - yes);
        obs.show(|| format!("field {at} of {}", hex(&enc_header(&h).buf)));
        Ok(())
    }));
    out.push(phase("every cut", 0, move |ch, obs| {
        let layout = ch.free(LAYOUTS);
        let ue5 = ch.free(2) == 1;
        let e = enc_header(&base(ue5, layout));
        let i = ch.free(e.buf.len());
        let b = &e.buf[..i];
        obs.state(b);
        obs.calls(1);
        obs.validated(1);
        ensure!(!header_case(b, 0)?, "accepted");
        obs.outcome("rejected");
        Ok(())
    }));
    out
}

fn release(major: u16, minor: u16) -> EngineVersion {
    use EngineVersion::*;
    const FOUR: [EngineVersion; 28] = [
        VER_UE4_0, VER_UE4_1, VER_UE4_2, VER_UE4_3, VER_UE4_4, VER_UE4_5, VER_UE4_6, VER_UE4_7,
        VER_UE4_8, VER_UE4_9, VER_UE4_10, VER_UE4_11, VER_UE4_12, VER_UE4_13, VER_UE4_14,
        VER_UE4_15, VER_UE4_16, VER_UE4_17, VER_UE4_18, VER_UE4_19, VER_UE4_20, VER_UE4_21,
        VER_UE4_22, VER_UE4_23, VER_UE4_24, VER_UE4_25, VER_UE4_26, VER_UE4_27,
    ];
    const FIVE: [EngineVersion; 3] = [VER_UE5_0, VER_UE5_1, VER_UE5_2];
    match major {
        4 => FOUR.get(minor as usize).copied().unwrap_or(UNKNOWN),
        5 => FIVE.get(minor as usize).copied().unwrap_or(UNKNOWN),
        _ => UNKNOWN,
    }
}

/// Name, number and query of one custom version.
struct Row {
    name: &'static str,
    number: u32,
    guid: Guid16,
    supported: fn(&gvas::properties::PropertyOptions) -> bool,
    listed: fn(&gvas::properties::PropertyOptions) -> (Guid, u32),
}

fn rows() -> Vec<Row> {
    let mut v: Vec<Row> = Vec::new();
    macro_rules! row {
        ($t:ident, $n:ident, $i:literal) => {
            v.push(Row {
                name: concat!(stringify!($t), "::", stringify!($n)),
                number: $i,
                guid: if stringify!($t) == "FEditorObjectVersion" {
                    GUID_EDITOR
                } else {
                    GUID_UE5_RELEASE
                },
                supported: |o| o.supports_version($t::$n),
                listed: |o| {
                    let c = o.get_custom_version::<$t>();
                    (c.key, c.version)
                },
            })
        };
    }
    custom_versions!(row);
    v
}

fn c24(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    out.push(phase("release table", 0, move |ch, obs| {
        // Thorough: all pairs. Quick: all pairs with one number below 512.
        let major = ch.free(65536) as u32;
        let step = ch.free(4) as u32;
        let mut e = FEngineVersion::new(major as u16, 0, 0, 0, String::new());
        let mut n = 0;
        let mut known = 0;
        for minor in step * 16384..(step + 1) * 16384 {
            if t == Tier::Quick && major >= 512 && minor >= 512 {
                break;
            }
            e.minor = minor as u16;
            let got = e.get_version();
            n += 1;
            let want = release(major as u16, minor as u16);
            if got != EngineVersion::UNKNOWN {
                known += 1;
            }
            ensure!(
                got == want,
                "release for {major}.{minor} is {got:?}, expected {want:?}"
            );
        }
        if n == 0 {
            return Err(Stop::Prune);
        }
        obs.swept(n);
        obs.calls(n);
        obs.validated(n);
        obs.outcomes("known", known);
        obs.outcomes("unknown", n - known);
        obs.show(|| format!("{major}.{}..", step * 16384));
        Ok(())
    }));
    let table = rows();
    out.push(phase("required and listed", 0, move |ch, obs| {
        let r = &table[ch.free(table.len())];
        let v = ch.free(70 + U32S.len());
        let v = if v < 70 { v as u32 } else { U32S[v - 70] };
        // Absent, alone, among others, only the other one listed.
        let how = ch.free(6);
        let other = if r.guid == GUID_EDITOR {
            GUID_UE5_RELEASE
        } else {
            GUID_EDITOR
        };
        let mut near = r.guid;
        near[15] ^= 1;
        let list = match how {
            0 => vec![],
            1 => vec![(r.guid, v)],
            2 => vec![(other, u32::MAX), (r.guid, v), (near, 0)],
            3 => vec![(other, v), (near, u32::MAX)],
            4 => {
                let (n, at) = place_in_list(ch);
                let mut l = unrelated(n);
                l.insert(at, (r.guid, v));
                l
            }
            _ => vec![(near, 0), (r.guid, v), (other, 0)],
        };
        let listed = list.iter().find(|x| x.0 == r.guid).map_or(0, |x| x.1);
        let vers = bridge::versions(&list);
        let none = Hints::new();
        let (sup, (key, num)) = call(|| {
            bridge::with_opts(&none, &vers, &mut Vec::new(), |o| {
                ((r.supported)(o), (r.listed)(o))
            })
        })?;
        obs.state(&(r.name, &list));
        obs.calls(2);
        obs.validated(1);
        obs.outcome(if sup { "supported" } else { "unsupported" });
        obs.show(|| format!("{} with {list:?}", r.name));
        ensure!(
            key.0 == r.guid && num == listed,
            "{}: listed version is {num} for {key}, expected {listed}",
            r.name
        );
        ensure!(
            sup == (listed >= r.number),
            "{} (number {}) supported={sup} with {listed} listed",
            r.name,
            r.number
        );
        Ok(())
    }));
    out.push(phase("printing", 0, |ch, obs| {
        const N: [u32; 9] = [0, 1, 9, 10, 27, 99, 255, 32768, 65535];
        let a = N[ch.free(9)] as u16;
        let b = N[ch.free(9)] as u16;
        let c = N[ch.free(9)] as u16;
        let l = [0u32, 1, 65536, 20979098, 0x7FFF_FFFF, 0x8000_0000, u32::MAX][ch.free(7)];
        let br = ["", "++UE4+Release-4.27", "é𝄞", "a-b+c", " x "][ch.free(5)];
        let e = FEngineVersion::new(a, b, c, l, br.to_string());
        let s = call(|| e.to_string())?;
        let want = format!("{a}.{b}.{c}-{l}+++{br}");
        obs.state(&want);
        obs.calls(1);
        obs.validated(1);
        obs.show(|| want.clone());
        ensure!(s == want, "prints as {s:?}, expected {want:?}");
        ensure!(
            (e.major, e.minor, e.patch, e.change_list, e.branch.as_str()) == (a, b, c, l, br),
            "constructor mixes up its arguments"
        );
        Ok(())
    }));
    out.push(phase("from headers", 0, |ch, obs| {
        // The header's own lists and engine version are what the queries see.
        let layout = ch.free(LAYOUTS);
        let ue5 = ch.free(2) == 1;
        let minor = ch.free(40) as u16;
        let major = 3 + ch.free(4) as u16;
        let mut h = base(ue5, layout);
        h.major = major;
        h.minor = minor;
        let e = enc_header(&h);
        let g = match call(|| GvasHeader::read(&mut Cursor::new(&e.buf)))? {
            Ok(g) => g,
            Err(e) => return fail(format!("header rejected: {e}")),
        };
        let eng = match &g {
            GvasHeader::Version2 { engine_version, .. } => engine_version,
            GvasHeader::Version3 { engine_version, .. } => engine_version,
        };
        ensure!(
            eng.get_version() == release(major, minor),
            "release of a header with {major}.{minor} is {:?}",
            eng.get_version()
        );
        let none = Hints::new();
        for r in rows() {
            let listed = h.versions.iter().find(|x| x.0 == r.guid).map_or(0, |x| x.1);
            let sup = bridge::with_opts(&none, g.get_custom_versions(), &mut Vec::new(), |o| {
                (r.supported)(o)
            });
            ensure!(
                sup == (listed >= r.number),
                "{} supported={sup} by a header listing {listed}",
                r.name
            );
        }
        obs.state(&e.buf);
        obs.calls(2);
        obs.validated(1);
        Ok(())
    }));
    out
}
