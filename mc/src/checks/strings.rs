//! C15 and C16: strings and identifiers.

use super::docs::*;
use super::roundtrip::{must_read, read, write};
use super::Check;
use crate::bridge::{self, Hints};
use crate::decode::Dec;
use crate::explore::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::error::{DeserializeError, Error};
use gvas::types::Guid;
use std::io::Cursor;
use std::str::FromStr;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C15",
        level: "model_checking",
        rule: "one case per string, per encoded string or per declared length (swept cases count each); compared with the reference codec in both directions",
        assumptions: &[],
        phases: c15,
    },
    Check {
        id: "C16",
        level: "model_checking",
        rule: "one case per identifier or per text (swept cases count each); compared with the definition of the conversions and of the accepted spellings",
        assumptions: &[],
        phases: c16,
    },
];

fn encoded(s: &str) -> Vec<u8> {
    let mut e = Enc::new(Layout::default(), false);
    e.string(s);
    e.buf
}

/// Both directions for one string, through all four primitives.
fn string_case(s: &str) -> Out {
    let want = encoded(s);
    let mut out = Vec::with_capacity(want.len());
    match call(|| out.write_string(s))? {
        Ok(_) => {}
        Err(e) => return fail(format!("writing {} fails: {e}", brief(&s))),
    }
    ensure!(
        out == want,
        "{} is written as {}, the format has {}",
        brief(&s),
        hex(&out),
        hex(&want)
    );
    out.clear();
    match call(|| out.write_fstring(Some(s)))? {
        Ok(_) => {}
        Err(e) => return fail(format!("writing {} fails: {e}", brief(&s))),
    }
    ensure!(
        out == want,
        "{} as optional string is written as {}",
        brief(&s),
        hex(&out)
    );
    // What follows must not matter.
    out.extend_from_slice(&[0x41, 0, 0x42]);
    let mut c = Cursor::new(&out);
    match call(|| c.read_string())? {
        Ok(g) => ensure!(g == s, "{} is read back as {}", brief(&s), brief(&g)),
        Err(e) => return fail(format!("{} is not read back: {e}", brief(&s))),
    }
    ensure!(
        c.position() as usize == want.len(),
        "reading {} stops at {} of {}",
        brief(&s),
        c.position(),
        want.len()
    );
    let mut c = Cursor::new(&out);
    match call(|| c.read_fstring())? {
        Ok(g) => ensure!(
            g.as_deref() == Some(s),
            "{} is read back as {}",
            brief(&s),
            brief(&g)
        ),
        Err(e) => return fail(format!("{} is not read back: {e}", brief(&s))),
    }
    ensure!(
        c.position() as usize == want.len(),
        "position after {}",
        brief(&s)
    );
    Ok(())
}

/// Encoded bytes of any kind, through both readers, against the reference.
fn raw_case(b: &[u8]) -> Result<bool, Stop> {
    let none = Hints::new();
    let mut d = Dec::new(b, &none, Layout::default());
    let want = d.opt_string();
    let mut c = Cursor::new(b);
    let got = call(|| c.read_fstring())?;
    let ok = match (&want, got) {
        (Ok(w), Ok(g)) => {
            ensure!(
                *w == g,
                "{} is read as {:?}, means {w:?}",
                hex(b),
                brief(&g)
            );
            ensure!(
                c.position() as usize == d.i,
                "{}: stopped at {}, string ends at {}",
                hex(b),
                c.position(),
                d.i
            );
            true
        }
        (Err(w), Ok(g)) => return fail(format!("{} is accepted as {} ({w:?})", hex(b), brief(&g))),
        (Ok(_), Err(e)) => return fail(format!("{} is rejected: {e}", hex(b))),
        (Err(_), Err(_)) => false,
    };
    let mut c = Cursor::new(b);
    let got = call(|| c.read_string())?;
    match (want, got) {
        (Ok(Some(w)), Ok(g)) => ensure!(w == g, "{} is read as {}", hex(b), brief(&g)),
        (Ok(None), Err(e)) => ensure!(
            matches!(e, Error::Deserialize(DeserializeError::InvalidString(0, _))),
            "absent string where one is required is reported as {e:?}"
        ),
        (Ok(None), Ok(g)) => {
            return fail(format!(
                "absent string is read as {g:?} where one is required"
            ))
        }
        (Ok(_), Err(e)) => return fail(format!("{} is rejected: {e}", hex(b))),
        (Err(w), Ok(g)) => return fail(format!("{} is accepted as {} ({w:?})", hex(b), brief(&g))),
        (Err(_), Err(_)) => {}
    }
    Ok(ok)
}

fn narrow(body: &[u8]) -> Vec<u8> {
    let mut v = ((body.len() + 1) as i32).to_le_bytes().to_vec();
    v.extend_from_slice(body);
    v.push(0);
    v
}

fn wide(units: &[u16]) -> Vec<u8> {
    let mut v = (-((units.len() + 1) as i32)).to_le_bytes().to_vec();
    for u in units {
        v.extend_from_slice(&u.to_le_bytes());
    }
    v.extend_from_slice(&[0, 0]);
    v
}

const EDGES: [char; 12] = [
    'a',
    '\0',
    '\u{7f}',
    '\u{80}',
    '\u{ff}',
    '\u{100}',
    '\u{D7FF}',
    '\u{E000}',
    '\u{FEFF}',
    '\u{FFFF}',
    '\u{10000}',
    '\u{10FFFF}',
];

/// UTF-16 units on either side of every boundary.
const UNITS: [u16; 18] = [
    0, 1, 0x41, 0x7F, 0x80, 0xFF, 0x100, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF,
    0xE000, 0xFEFF, 0xFFFE, 0xFFFF,
];

/// Bytes on either side of every UTF-8 boundary.
const BYTES: [u8; 26] = [
    0, 1, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1,
    0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF3, 0xF4, 0xF5, 0xFF,
];

fn c15(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    out.push(phase("every character", 0, |ch, obs| {
        let block = ch.free(0x110000 / 1024) as u32;
        let place = ch.free(6);
        let mut n = 0;
        let mut s = String::new();
        for c in block * 1024..(block + 1) * 1024 {
            let Some(c) = char::from_u32(c) else { continue };
            s.clear();
            match place {
                0 => s.push(c),
                1 => {
                    s.push(c);
                    s.push('a');
                }
                2 => {
                    s.push_str("ab");
                    s.push(c);
                }
                3 => {
                    s.push(c);
                    s.push('𝄞');
                    s.push(c);
                }
                4 => {
                    s.push('é');
                    s.push(c);
                }
                _ => {
                    for _ in 0..40 {
                        s.push(c);
                    }
                }
            }
            string_case(&s)?;
            n += 1;
        }
        if n == 0 {
            return Err(Stop::Prune);
        }
        obs.swept(n);
        obs.calls(4 * n);
        obs.validated(n);
        obs.show(|| format!("characters from U+{:04X}, place {place}", block * 1024));
        Ok(())
    }));
    let len = t.pick(5, 6);
    out.push(phase("short strings", 0, move |ch, obs| {
        let n = ch.free(len + 1);
        let s: String = (0..n).map(|_| EDGES[ch.free(EDGES.len())]).collect();
        string_case(&s)?;
        obs.state(&s);
        obs.calls(4);
        obs.validated(1);
        obs.show(|| format!("{s:?}"));
        Ok(())
    }));
    out.push(phase("lengths", 0, move |ch, obs| {
        let style = ch.free(4);
        let n = match t {
            // Every length.
            Tier::Thorough => ch.free(131072),
            Tier::Quick => {
                let i = ch.free(1100 + 3 * 17 + 40);
                if i < 1100 {
                    i
                } else if i < 1100 + 51 {
                    (1usize << ((i - 1100) / 3)) + (i - 1100) % 3 - 1
                } else {
                    131072 - 40 + (i - 1151)
                }
            }
        };
        let s = text_of_len(n, style);
        string_case(&s)?;
        obs.state(&(n, style));
        obs.calls(4);
        obs.validated(1);
        obs.show(|| format!("{n} code units, style {style}"));
        Ok(())
    }));
    let wide_pairs = t == Tier::Thorough;
    out.push(phase("every 16-bit unit", 0, move |ch, obs| {
        // Thorough: every pair of units. Quick: every unit next to a boundary
        // one, in both orders and in the middle.
        let hi = ch.free(256) as u16;
        let order = ch.free(if wide_pairs { 256 } else { 4 });
        let mut n = 0;
        let mut yes = 0;
        for lo in 0..256u16 {
            let u = hi << 8 | lo;
            if wide_pairs {
                for x in 0..256u16 {
                    let w = (order as u16) << 8 | x;
                    n += 1;
                    yes += raw_case(&wide(&[u, w]))? as u64;
                }
            }
            if order >= 4 {
                continue;
            }
            for x in UNITS {
                let b = match order {
                    0 => wide(&[u, x]),
                    1 => wide(&[x, u]),
                    2 => wide(&[0xD800, u, x]),
                    _ => wide(&[x, u, 0x41]),
                };
                n += 1;
                yes += raw_case(&b)? as u64;
            }
        }
        obs.swept(n);
        obs.calls(2 * n);
        obs.validated(n);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", n - yes);
        obs.show(|| format!("units {:#x}.., order {order}", hi << 8));
        Ok(())
    }));
    let n = t.pick(4, 5);
    out.push(phase("short 16-bit strings", 0, move |ch, obs| {
        let n = ch.free(n + 1);
        let mut u = Vec::new();
        for _ in 0..n {
            u.push(UNITS[ch.free(UNITS.len())]);
        }
        let b = wide(&u);
        let ok = raw_case(&b)?;
        obs.state(&b);
        obs.calls(2);
        obs.validated(1);
        obs.outcome(if ok { "accepted" } else { "rejected" });
        obs.show(|| hex(&b));
        Ok(())
    }));
    out.push(phase("every byte string", 0, move |ch, obs| {
        // All bodies of up to three bytes (thorough: four).
        let a = ch.free(256) as u8;
        let b = ch.free(256) as u8;
        let mut n = 0;
        let mut yes = 0;
        if b == 0 {
            n += 1;
            yes += raw_case(&narrow(&[a]))? as u64;
        }
        n += 1;
        yes += raw_case(&narrow(&[a, b]))? as u64;
        for c in 0..=255u8 {
            n += 1;
            yes += raw_case(&narrow(&[a, b, c]))? as u64;
            if wide_pairs {
                for d in 0..=255u8 {
                    n += 1;
                    yes += raw_case(&narrow(&[a, b, c, d]))? as u64;
                }
            }
        }
        obs.swept(n);
        obs.calls(2 * n);
        obs.validated(n);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", n - yes);
        obs.show(|| format!("bodies starting {a:02x}{b:02x}"));
        Ok(())
    }));
    out.push(phase("byte string edges", 0, move |ch, obs| {
        let n = 4 + ch.free(2);
        let mut v = Vec::new();
        for i in 0..n {
            // Four free bytes; a fifth only after a lead byte.
            let k = if i == 4 { 4 } else { BYTES.len() };
            v.push(BYTES[ch.free(k)]);
        }
        let b = narrow(&v);
        let ok = raw_case(&b)?;
        obs.state(&b);
        obs.calls(2);
        obs.validated(1);
        obs.outcome(if ok { "accepted" } else { "rejected" });
        obs.show(|| hex(&b));
        Ok(())
    }));
    out.push(phase("declared lengths", 0, move |ch, obs| {
        // Every declared length, without the data it promises.
        let chunks = t.pick(5, 65536);
        let i = ch.free(chunks + 1);
        let have = ch.free(4);
        let mut n = 0;
        let mut yes = 0;
        let mut one = |v: i32| -> Out {
            let mut b = v.to_le_bytes().to_vec();
            b.extend_from_slice(&[0; 10][..[0, 1, 2, 10][have]]);
            n += 1;
            yes += raw_case(&b)? as u64;
            Ok(())
        };
        if i == chunks {
            for a in 0..32 {
                for b in 0..32 {
                    for d in -1i64..=1 {
                        one(((1i64 << a) + (1i64 << b) + d) as i32)?;
                    }
                }
            }
        } else {
            let first = match t {
                Tier::Quick => (i as i64 - 2) * 65536 - 32768,
                Tier::Thorough => (i as i64) * 65536 - (1i64 << 31),
            };
            for v in first..first + 65536 {
                one(v as i32)?;
            }
        }
        obs.swept(n);
        obs.calls(2 * n);
        obs.validated(n);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", n - yes);
        obs.show(|| format!("lengths block {i}, {have}"));
        Ok(())
    }));
    out.push(phase("long encoded strings", 0, move |ch, obs| {
        // Declared lengths with all, one unit less, one unit more and one
        // byte less than the data, or without the terminator.
        let widechars = ch.free(2) == 1;
        let how = ch.free(5);
        let i = ch.free(t.pick(800, 131075));
        let n = match t {
            Tier::Thorough => i,
            Tier::Quick if i < 700 => i,
            Tier::Quick => 131075 - (800 - i),
        };
        let unit = if widechars { 2 } else { 1 };
        let len = if widechars { -(n as i32) } else { n as i32 };
        let mut b = len.to_le_bytes().to_vec();
        for k in 0..n.saturating_sub(1) {
            b.push(b'a' + (k % 7) as u8);
            if widechars {
                b.push(0);
            }
        }
        if n > 0 {
            b.extend_from_slice(&[0, 0][..unit]);
        }
        match how {
            0 => {}
            1 => b.truncate(b.len().saturating_sub(unit)),
            2 => b.extend_from_slice(&[0, 0][..unit]),
            3 => b.truncate(b.len().saturating_sub(1)),
            _ => {
                if n == 0 {
                    return Err(Stop::Prune);
                }
                let e = b.len() - 1;
                b[e] = 1;
            }
        }
        let ok = raw_case(&b)?;
        obs.state(&(n, widechars, how));
        obs.calls(2);
        obs.validated(1);
        obs.outcome(if ok { "accepted" } else { "rejected" });
        obs.show(|| format!("declared length {len}, variant {how}"));
        Ok(())
    }));
    out.push(phase("terminators", 0, |ch, obs| {
        let v = ch.free(65536) as u16;
        let body = ch.free(4);
        let units: &[u16] = [&[][..], &[0x41], &[0], &[0xD834, 0xDD1E]][body];
        let mut b = wide(units);
        let e = b.len();
        b[e - 2..].copy_from_slice(&v.to_le_bytes());
        let mut yes = raw_case(&b)? as u64;
        let mut n = 1;
        if v < 256 {
            let mut b = narrow(&[&[][..], b"A", b"\0", "é".as_bytes()][body]);
            let e = b.len();
            b[e - 1] = v as u8;
            n += 1;
            yes += raw_case(&b)? as u64;
        }
        obs.swept(n);
        obs.calls(2 * n);
        obs.validated(n);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", n - yes);
        obs.show(|| format!("terminator {v:#06x} after body {body}"));
        Ok(())
    }));
    out.push(phase("strings in saves", 0, move |ch, obs| {
        let slot = ch.free(STRING_SLOTS);
        let which = ch.free(LENGTHS.len() * 4 + EDGES.len() * EDGES.len());
        let s = if which < LENGTHS.len() * 4 {
            text_of_len(LENGTHS[which / 4], which % 4)
        } else {
            let w = which - LENGTHS.len() * 4;
            [EDGES[w / EDGES.len()], EDGES[w % EDGES.len()]]
                .iter()
                .collect()
        };
        let x = doc(string_slot(slot, s))?;
        let f = must_read(&x)?;
        bridge::same_file(&x.file, &f).map_err(Stop::Fail)?;
        match write(&f)? {
            Ok(o) => ensure!(o == x.bytes, "string in slot {slot} is written differently"),
            Err(e) => return fail(format!("string in slot {slot} is not written: {e}")),
        }
        obs.state(&(slot, which));
        obs.calls(2);
        obs.validated(1);
        Ok(())
    }));
    out.push(phase("absent and empty", 0, move |ch, obs| {
        let p = |a: Option<&str>, i: usize| -> P {
            let s = a.map(String::from);
            match i {
                0 => P::Str(s),
                1 => P::Name(0, s),
                2 => P::Text(Text {
                    flags: 0,
                    hist: Hist::Base(s, None, Some("x".into())),
                }),
                3 => P::Text(Text {
                    flags: 0,
                    hist: Hist::Base(None, s, Some(String::new())),
                }),
                4 => P::Text(Text {
                    flags: 0,
                    hist: Hist::Base(Some(String::new()), None, s),
                }),
                5 => P::Text(Text {
                    flags: 0,
                    hist: Hist::Invariant(s),
                }),
                6 => P::Text(Text {
                    flags: 0,
                    hist: Hist::Number(Box::new(Arg::Float(0x3FC0_0000)), None, s),
                }),
                7 => P::Text(Text {
                    flags: 0,
                    hist: Hist::Currency(s, Box::new(Arg::Float(0x3FC0_0000)), None, None),
                }),
                8 => P::Text(Text {
                    flags: 0,
                    hist: Hist::Currency(None, Box::new(Arg::Float(0x3FC0_0000)), None, s),
                }),
                9 => P::Array(Arr {
                    ty: "StrProperty".into(),
                    info: None,
                    el: vec![
                        P::Str(s.clone()),
                        P::Str(None),
                        P::Str(Some(String::new())),
                        P::Str(s),
                    ],
                }),
                10 => P::Set(
                    "NameProperty".into(),
                    0,
                    vec![P::Name(0, s), P::Name(0, Some("t".into()))],
                ),
                11 => P::Map(
                    "StrProperty".into(),
                    "StrProperty".into(),
                    0,
                    vec![
                        (P::Str(s), P::Str(None)),
                        (P::Str(Some("k".into())), P::Str(Some(String::new()))),
                    ],
                ),
                12 => P::Map(
                    "NameProperty".into(),
                    "NameProperty".into(),
                    0,
                    vec![(P::Name(0, Some("k".into())), P::Name(0, s))],
                ),
                _ => P::Text(Text {
                    flags: 0,
                    hist: Hist::Percent(Box::new(Arg::Float(0x3FC0_0000)), None, s),
                }),
            }
        };
        let i = ch.free(14);
        let v = ch.free(3);
        let x = doc(one(
            1,
            Wrap::Plain,
            "a",
            p([None, Some(""), Some("\0")][v], i),
        ))?;
        let f = must_read(&x)?;
        bridge::same_file(&x.file, &f).map_err(Stop::Fail)?;
        // The same save with another of the three values is another tree.
        for w in 0..3 {
            if w != v {
                let y = doc(one(
                    1,
                    Wrap::Plain,
                    "a",
                    p([None, Some(""), Some("\0")][w], i),
                ))?;
                match read(&y.bytes, Wrap::Plain, &y.hints)? {
                    Ok(g) => ensure!(f != g, "absent, empty and zero strings are not told apart"),
                    Err(e) => return fail(format!("rejected: {e}")),
                }
            }
        }
        match write(&f)? {
            Ok(o) => ensure!(o == x.bytes, "written differently"),
            Err(e) => return fail(format!("not written: {e}")),
        }
        let mut o = Vec::new();
        match call(|| o.write_fstring(None))? {
            Ok(_) => ensure!(o == [0; 4], "absent string is written as {}", hex(&o)),
            Err(e) => return fail(format!("absent string is not written: {e}")),
        }
        obs.state(&(i, v));
        obs.calls(5);
        obs.validated(3);
        Ok(())
    }));
    out
}

/// Definition of the textual form.
fn guid_text(g: &Guid16) -> String {
    if *g == [0; 16] {
        return "0".into();
    }
    let mut s = String::new();
    for (i, b) in g.iter().enumerate() {
        if [4, 6, 8, 10].contains(&i) {
            s.push('-');
        }
        s.push(char::from(b"0123456789ABCDEF"[(b >> 4) as usize]));
        s.push(char::from(b"0123456789ABCDEF"[(b & 15) as usize]));
    }
    s
}

enum Verdict {
    Must(Guid16),
    /// Unusual decoration: may be refused, but means this if accepted.
    May(Guid16),
    Never,
}

fn digits(s: &str) -> Option<Guid16> {
    if s == "0" {
        return Some([0; 16]);
    }
    let d: Option<Vec<u8>> = s.chars().map(|c| c.to_digit(16).map(|x| x as u8)).collect();
    let d = d?;
    if d.len() != 32 {
        return None;
    }
    let mut g = [0; 16];
    for i in 0..16 {
        g[i] = d[2 * i] << 4 | d[2 * i + 1];
    }
    Some(g)
}

fn spelling(s: &str) -> Verdict {
    // Hexadecimal digits separated by hyphens, optionally in braces, with
    // white space around.
    let t = s.trim();
    let inner = match t.strip_prefix('{') {
        Some(x) => x.strip_suffix('}'),
        None => Some(t),
    };
    if let Some(x) = inner {
        if !x.starts_with('-') && !x.ends_with('-') {
            if let Some(g) = digits(&x.replace('-', "")) {
                return Verdict::Must(g);
            }
        }
    }
    let bare: String = s
        .chars()
        .filter(|c| !c.is_whitespace() && !"{}-".contains(*c))
        .collect();
    match digits(&bare) {
        Some(g) => Verdict::May(g),
        None => Verdict::Never,
    }
}

fn parse_case(s: &str) -> Result<bool, Stop> {
    let got = call(|| Guid::from_str(s))?;
    let json = serde_json::Value::String(s.to_string());
    let by_serde = call(|| serde_json::from_value::<Guid>(json))?;
    ensure!(
        got.is_ok() == by_serde.is_ok(),
        "{s:?}: parsing and deserialising disagree"
    );
    match (spelling(s), got) {
        (Verdict::Must(g), Ok(x)) | (Verdict::May(g), Ok(x)) => {
            ensure!(x.0 == g, "{s:?} parses as {x}, means {}", guid_text(&g));
            ensure!(by_serde.unwrap().0 == g, "{s:?} deserialises differently");
            Ok(true)
        }
        (Verdict::Must(_), Err(_)) => fail(format!("{s:?} is rejected")),
        (Verdict::Never, Ok(x)) => fail(format!("{s:?} parses as {x}")),
        (_, Err(_)) => Ok(false),
    }
}

fn guid_case(g: Guid16) -> Out {
    call(|| {
        let a = Guid::from_u8(g);
        let text = guid_text(&g);
        let w: [u32; 4] =
            std::array::from_fn(|i| u32::from_le_bytes(g[4 * i..4 * i + 4].try_into().unwrap()));
        let n = u128::from_le_bytes(g);
        if a.to_u8() != g || a.0 != g {
            return Err(format!("bytes of {text} are not kept"));
        }
        if a.to_u32() != w || <[u32; 4]>::from(a) != w {
            return Err(format!("words of {text} are {:x?}", a.to_u32()));
        }
        if a.to_u128() != n || u128::from(a) != n {
            return Err(format!("number of {text} is {:x}", a.to_u128()));
        }
        if Guid::from_u32(w) != a || Guid::from(w) != a {
            return Err(format!("from words: {text} becomes {}", Guid::from_u32(w)));
        }
        if Guid::from_u128(n) != a || Guid::from(n) != a {
            return Err(format!(
                "from number: {text} becomes {}",
                Guid::from_u128(n)
            ));
        }
        if a.is_zero() != (g == [0; 16]) {
            return Err(format!("is_zero of {text} is {}", a.is_zero()));
        }
        if a.to_string() != text {
            return Err(format!("{text} prints as {a}"));
        }
        match Guid::from_str(&text) {
            Ok(b) if b == a => Ok(()),
            Ok(b) => Err(format!("{text} parses as {b}")),
            Err(_) => Err(format!("{text} is not parsed")),
        }
    })?
    .map_err(Stop::Fail)
}

fn guid_slow_case(g: Guid16) -> Out {
    let a = Guid(g);
    let text = guid_text(&g);
    let dbg = call(|| format!("{a:?}"))?;
    ensure!(dbg == format!("Guid({text})"), "{text} prints as {dbg}");
    let j = call(|| serde_json::to_string(&a))?;
    let want = format!("\"{text}\"");
    ensure!(
        matches!(&j, Ok(x) if *x == want),
        "{text} serialises as {j:?}"
    );
    match call(|| serde_json::from_str::<Guid>(&want))? {
        Ok(b) => ensure!(b.0 == g, "{text} deserialises as {b}"),
        Err(e) => return fail(format!("{text} does not deserialise: {e}")),
    }
    let mut out = Vec::new();
    match call(|| out.write_guid(&a))? {
        Ok(()) => ensure!(out == g, "{text} is written as {}", hex(&out)),
        Err(e) => return fail(format!("{text} is not written: {e}")),
    }
    let mut c = Cursor::new(&out);
    match call(|| c.read_guid())? {
        Ok(b) => ensure!(b.0 == g && c.position() == 16, "{text} is read as {b}"),
        Err(e) => return fail(format!("{text} is not read: {e}")),
    }
    Ok(())
}

const DISTINCT: Guid16 = [
    0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0, 0x0F, 0x1E, 0x2D, 0x3C, 0x4B, 0x5A, 0x69, 0x87,
];

fn spellings() -> Vec<String> {
    let c = guid_text(&DISTINCT);
    vec![
        c.clone(),
        c.to_lowercase(),
        c.replace('-', ""),
        format!("{{{c}}}"),
        format!(" {}\n", c.replace('-', "").to_lowercase()),
    ]
}

fn c16(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    out.push(phase("every byte pair", 0, move |ch, obs| {
        let i = ch.free(16);
        let j = ch.free(16);
        let base = ch.free(3);
        let x = ch.free(256) as u8;
        if j < i || (i == j && x > 0) {
            return Err(Stop::Prune);
        }
        let mut g = [[0; 16], DISTINCT, [0xFF; 16]][base];
        let mut n = 0;
        for y in 0..=255u8 {
            if i != j {
                g[i] = x;
            }
            g[j] = y;
            guid_case(g)?;
            if x == 0 || y == 0 || t == Tier::Thorough {
                guid_slow_case(g)?;
            }
            n += 1;
        }
        obs.swept(n);
        obs.calls(12 * n);
        obs.validated(n);
        obs.show(|| format!("bytes {i} and {j} of base {base}, first {x:02x}"));
        Ok(())
    }));
    out.push(phase("byte triples", 0, move |ch, obs| {
        const V: [u8; 7] = [0, 1, 0x0A, 0x7F, 0x80, 0xA0, 0xFF];
        let p = [ch.free(16), ch.free(16), ch.free(16)];
        if !(p[0] < p[1] && p[1] < p[2]) {
            return Err(Stop::Prune);
        }
        let mut n = 0;
        for base in [[0; 16], DISTINCT] {
            for a in V {
                for b in V {
                    for c in V {
                        let mut g = base;
                        g[p[0]] = a;
                        g[p[1]] = b;
                        g[p[2]] = c;
                        guid_case(g)?;
                        guid_slow_case(g)?;
                        n += 1;
                    }
                }
            }
        }
        obs.swept(n);
        obs.calls(17 * n);
        obs.validated(n);
        obs.show(|| format!("bytes {p:?}"));
        Ok(())
    }));
    let count = move |obs: &mut Obs, n: u64, yes: u64| {
        obs.swept(n);
        obs.calls(2 * n);
        obs.validated(n);
        obs.outcomes("accepted", yes);
        obs.outcomes("rejected", n - yes);
    };
    out.push(phase("one character changed", 0, move |ch, obs| {
        let forms = spellings();
        let f = ch.free(forms.len());
        let s: Vec<char> = forms[f].chars().collect();
        let i = ch.free(s.len() + 1);
        let op = ch.free(3);
        let mut n = 0;
        let mut yes = 0;
        if op == 2 {
            if i == s.len() {
                return Err(Stop::Prune);
            }
            let mut v = s.clone();
            v.remove(i);
            n += 1;
            yes += parse_case(&v.iter().collect::<String>())? as u64;
        } else {
            // Every character of the first planes in quick, all in thorough.
            for c in 0..t.pick(0x3000u32, 0x110000) {
                let Some(c) = char::from_u32(c) else { continue };
                let mut v = s.clone();
                if op == 0 && i < s.len() {
                    v[i] = c;
                } else {
                    v.insert(i, c);
                }
                n += 1;
                yes += parse_case(&v.iter().collect::<String>())? as u64;
            }
        }
        count(obs, n, yes);
        obs.show(|| format!("{:?}, position {i}, operation {op}", forms[f]));
        Ok(())
    }));
    const ALPHA: [char; 16] = [
        '0', '9', 'a', 'F', 'g', '-', '{', '}', '+', ' ', '\u{e9}', '\0', '\u{FF10}', 'x', '_', '𝄞',
    ];
    out.push(phase("two characters changed", 0, move |ch, obs| {
        let forms = spellings();
        let f = ch.free(forms.len());
        let s: Vec<char> = forms[f].chars().collect();
        let i = ch.free(s.len());
        let j = ch.free(s.len());
        if j <= i {
            return Err(Stop::Prune);
        }
        let mut n = 0;
        let mut yes = 0;
        for a in ALPHA {
            for b in ALPHA {
                // Replace both, or insert both.
                let mut v = s.clone();
                v[i] = a;
                v[j] = b;
                yes += parse_case(&v.iter().collect::<String>())? as u64;
                // Replace both with a removal in front, so that multi-byte
                // characters can fill the length.
                let mut w = v.clone();
                w.remove(0);
                yes += parse_case(&w.iter().collect::<String>())? as u64;
                let mut v = s.clone();
                v.insert(j, b);
                v.insert(i, a);
                yes += parse_case(&v.iter().collect::<String>())? as u64;
                n += 3;
            }
        }
        count(obs, n, yes);
        obs.show(|| format!("{:?}, positions {i} and {j}", forms[f]));
        Ok(())
    }));
    let len = t.pick(5, 6);
    out.push(phase("short texts", 0, move |ch, obs| {
        let n = ch.free(len + 1);
        let s: String = (0..n).map(|_| ALPHA[ch.free(ALPHA.len())]).collect();
        let ok = parse_case(&s)?;
        obs.state(&s);
        obs.calls(2);
        obs.validated(1);
        obs.outcome(if ok { "accepted" } else { "rejected" });
        obs.show(|| format!("{s:?}"));
        Ok(())
    }));
    out.push(phase("digit runs", 0, move |ch, obs| {
        // Any number of digits, of characters of any width, with decoration.
        let n = ch.free(80);
        let c = ['0', '1', 'f', 'A', 'g', 'é', '€', '𝄞', '٣', '-'][ch.free(10)];
        let lead = ["", "{", "0x", "-", " ", "+", "é"][ch.free(7)];
        let tail = ["", "}", "h", "-", " ", "0", "é"][ch.free(7)];
        let s = format!("{lead}{}{tail}", c.to_string().repeat(n));
        let ok = parse_case(&s)?;
        obs.state(&s);
        obs.calls(2);
        obs.validated(1);
        obs.outcome(if ok { "accepted" } else { "rejected" });
        obs.show(|| format!("{s:?}"));
        Ok(())
    }));
    out.push(phase("hyphen places", 0, move |ch, obs| {
        // Hyphens at any two places of the bare digits; mixed case.
        let i = ch.free(33);
        let j = ch.free(33);
        let mut case = ch.free(32);
        let mut s: Vec<char> = guid_text(&DISTINCT).replace('-', "").chars().collect();
        for c in s.iter_mut() {
            if case & 1 == 1 {
                *c = c.to_ascii_lowercase();
            }
            case = (case >> 1) | ((case & 1) << 4);
        }
        s.insert(i.max(j), '-');
        s.insert(i.min(j), '-');
        let s: String = s.iter().collect();
        let ok = parse_case(&s)?;
        obs.state(&s);
        obs.calls(2);
        obs.validated(1);
        obs.outcome(if ok { "accepted" } else { "rejected" });
        Ok(())
    }));
    out
}
