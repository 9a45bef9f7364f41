//! C13: layouts that depend on the custom versions of the header.

use super::docs::*;
use super::roundtrip::{first_difference, read, write};
use super::Check;
use crate::bridge::{self, Form, Hints};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::text_property::FText;
use gvas::properties::{Property, PropertyTrait};
use std::io::Cursor;

pub const CHECKS: &[Check] = &[Check {
    id: "C13",
    level: "model_checking",
    rule: "one case per choice sequence: a list of custom versions; every value whose layout depends on one is read and written under it, and written in the other width",
    assumptions: &[],
    phases: c13,
}];

/// Every place a coordinate struct or a text can stand in.
fn places(p: P) -> Vec<P> {
    let custom = |p: P| SV::Custom(vec![("i".into(), p), ("j".into(), P::I32(7))]);
    let mut out = vec![
        P::Struct("T".into(), [0; 16], custom(p.clone())),
        P::Array(Arr {
            ty: "StructProperty".into(),
            info: Some(("f".into(), "T".into(), [0; 16])),
            el: vec![P::Body(custom(p.clone())), P::Body(custom(p.clone()))],
        }),
        P::Map(
            "StrProperty".into(),
            "StructProperty".into(),
            0,
            vec![(P::Str(Some("k".into())), P::Body(custom(p.clone())))],
        ),
    ];
    let el = match &p {
        P::Struct(ty, g, v) => {
            out.push(P::Array(Arr {
                ty: "StructProperty".into(),
                info: Some(("f".into(), ty.clone(), *g)),
                el: vec![P::Body(v.clone()), P::Body(v.clone())],
            }));
            P::Body(v.clone())
        }
        p => {
            out.push(P::Array(Arr {
                ty: p.type_name().into(),
                info: None,
                el: vec![p.clone(), p.clone()],
            }));
            p.clone()
        }
    };
    let ty = p.type_name().to_string();
    out.push(P::Set(ty.clone(), 0, vec![el.clone(), el.clone()]));
    out.push(P::Map(
        ty.clone(),
        "IntProperty".into(),
        0,
        vec![(el.clone(), P::I32(5))],
    ));
    for (k, key) in [
        ("EnumProperty", P::Enum(None, "k".into())),
        ("NameProperty", P::Name(0, Some("k".into()))),
        ("StrProperty", P::Str(Some("k".into()))),
        ("IntProperty", P::I32(3)),
    ] {
        out.push(P::Map(k.into(), ty.clone(), 0, vec![(key, el.clone())]));
    }
    out.push(p);
    out
}

fn coords(wide: bool) -> Vec<P> {
    let mut ch = Ch::new(&[]);
    let mut g = Gen {
        ch: &mut ch,
        cfg: Cfg {
            names: false,
            headers: false,
            ..Cfg::BASE
        },
        lay: Layout {
            wide_coords: wide,
            ..Layout::default()
        },
    };
    (1..=4)
        .map(|w| {
            let v = g.sv_of(w, 0);
            g.struct_prop(v)
        })
        .collect()
}

fn plain_text(s: &str) -> Text {
    Text {
        flags: 2,
        hist: Hist::Base(None, Some("k".into()), Some(s.into())),
    }
}

fn text(hist: Hist) -> Text {
    Text { flags: 8, hist }
}

/// Every history that holds an argument, around it.
fn around(a: Arg) -> Vec<Text> {
    let fmt = || Box::new(plain_text("{0}"));
    let nf = Some(NumFmt {
        sign: true,
        group: false,
        round: 3,
        digits: [1, 2, 3, 4],
    });
    vec![
        text(Hist::Ordered(fmt(), vec![a.clone()])),
        text(Hist::Ordered(
            fmt(),
            vec![Arg::Float(7), a.clone(), a.clone()],
        )),
        text(Hist::Named(fmt(), vec![("n".into(), a.clone())])),
        text(Hist::ArgFmt(fmt(), vec![("n".into(), a.clone())])),
        text(Hist::Number(Box::new(a.clone()), nf.clone(), None)),
        text(Hist::Percent(Box::new(a.clone()), None, Some("en".into()))),
        text(Hist::Currency(Some("EUR".into()), Box::new(a), nf, None)),
    ]
}

fn args(wide: bool) -> Vec<Text> {
    let two = if wide {
        [Arg::Int64(-3 << 40), Arg::UInt64(5 << 50)]
    } else {
        [Arg::Int(-3), Arg::UInt(u32::MAX)]
    };
    let mut out = Vec::new();
    for a in two {
        for t in around(a) {
            // Inside further texts.
            out.push(text(Hist::Transform(Box::new(t.clone()), 1)));
            out.push(text(Hist::Ordered(
                Box::new(plain_text("x")),
                vec![Arg::Text(t.clone())],
            )));
            out.push(text(Hist::Ordered(Box::new(t.clone()), vec![])));
            out.push(t);
        }
    }
    out
}

fn empties(culture: bool) -> Vec<Text> {
    let mut one = vec![text(Hist::Empty), plain_text("s")];
    if culture {
        one.push(text(Hist::Invariant(Some("inv".into()))));
        one.push(text(Hist::Invariant(Some(String::new()))));
        one.push(text(Hist::Invariant(None)));
    }
    let mut out = Vec::new();
    for t in one {
        out.push(text(Hist::Transform(Box::new(t.clone()), 0)));
        out.push(text(Hist::Ordered(
            Box::new(t.clone()),
            vec![Arg::Text(t.clone()), Arg::Double(4)],
        )));
        out.push(text(Hist::Named(
            Box::new(t.clone()),
            vec![("q".into(), Arg::Text(t.clone()))],
        )));
        out.push(t);
    }
    out
}

/// All affected values under a layout.
fn affected(l: Layout, everywhere: bool) -> Vec<P> {
    let base: Vec<P> = coords(l.wide_coords)
        .into_iter()
        .chain(args(l.wide_args).into_iter().map(P::Text))
        .chain(empties(l.culture_flag).into_iter().map(P::Text))
        .chain([
            // Not affected by any version.
            P::Struct("LinearColor".into(), [0; 16], SV::Color([1, 2, 3, 4])),
            P::Struct("IntPoint".into(), [0; 16], SV::Point(1, -2)),
            P::F32(0x3fc0_0000),
            P::F64(0x3ff8_0000_0000_0000),
        ])
        .collect();
    if everywhere {
        base.into_iter().flat_map(places).collect()
    } else {
        base
    }
}

/// Values in a width the layout does not have.
fn mismatched(l: Layout, everywhere: bool) -> Vec<P> {
    let base: Vec<P> = coords(!l.wide_coords)
        .into_iter()
        .chain(args(!l.wide_args).into_iter().map(P::Text))
        .collect();
    if everywhere {
        base.into_iter().flat_map(places).collect()
    } else {
        base
    }
}

fn file(hdr: &Header, p: P) -> File {
    File {
        wrap: Wrap::Plain,
        hdr: hdr.clone(),
        props: vec![("a".into(), p), ("z".into(), P::I8(0x5A))],
    }
}

/// Reads and writes every affected value under the header.
fn follows(hdr: &Header, everywhere: bool, obs: &mut Obs) -> Out {
    let l = Layout::of(&hdr.versions);
    let vers = bridge::versions(&hdr.versions);
    for p in affected(l, everywhere) {
        let x = doc(file(hdr, p.clone()))?;
        let at = || format!("{} under {:?}", brief(&p), listed(hdr));
        let g = match read(&x.bytes, Wrap::Plain, &x.hints)? {
            Ok(g) => g,
            Err(e) => return fail(format!("rejected ({e}): {}", at())),
        };
        bridge::same_file(&x.file, &g).map_err(|m| Stop::Fail(format!("{m}: {}", at())))?;
        let out = match write(&g)? {
            Ok(o) => o,
            Err(e) => return fail(format!("not written back ({e}): {}", at())),
        };
        ensure!(
            out == x.bytes,
            "written in another layout: {}, {}",
            at(),
            first_difference(&x.bytes, &out)
        );
        let built = bridge::file(&x.file, Form::Generic);
        match write(&built)? {
            Ok(o) => ensure!(
                o == x.bytes,
                "built value written in another layout: {}, {}",
                at(),
                first_difference(&x.bytes, &o)
            ),
            Err(e) => return fail(format!("not written ({e}): {}", at())),
        }
        // The same value on its own.
        let mut e = Enc::new(l, false);
        e.prop_with_type(&p);
        match call(|| bridge::write_prop(&bridge::prop(&p, Form::Compact), true, &vers))? {
            Ok((b, _)) => ensure!(
                b == e.buf,
                "written on its own in another layout: {}, {}",
                at(),
                first_difference(&e.buf, &b)
            ),
            Err(e) => return fail(format!("not written on its own ({e}): {}", at())),
        }
        obs.state(&x.bytes);
        obs.calls(4);
        obs.validated(4);
    }
    Ok(())
}

fn listed(h: &Header) -> Vec<(String, u32)> {
    h.versions.iter().map(|(g, v)| (hex(&g[..4]), *v)).collect()
}

/// Tries every writer on a value of the wrong width.
fn refused(hdr: &Header, everywhere: bool, obs: &mut Obs) -> Out {
    let l = Layout::of(&hdr.versions);
    let vers = bridge::versions(&hdr.versions);
    let none = Hints::new();
    for p in mismatched(l, everywhere) {
        for form in [Form::Compact, Form::Generic] {
            let at = |how: &str| {
                format!(
                    "{how} writes {} under {:?}, which stores it in another width",
                    brief(&p),
                    listed(hdr)
                )
            };
            let f = bridge::file(&file(hdr, p.clone()), form);
            ensure!(write(&f)?.is_err(), "{}", at("GvasFile::write"));
            let q: Property = bridge::prop(&p, form);
            for header in [true, false] {
                ensure!(
                    call(|| bridge::write_prop(&q, header, &vers))?.is_err(),
                    "{}",
                    at("Property::write")
                );
            }
            let mut sink = Vec::new();
            match (&q, &p) {
                (Property::StructProperty(s), P::Struct(_, _, v))
                    if !matches!(v, SV::Custom(_)) =>
                {
                    let v: &StructPropertyValue = &s.value;
                    let r = call(|| {
                        bridge::with_opts(&none, &vers, &mut Vec::new(), |o| {
                            v.write(&mut sink, false, o)
                        })
                    })?;
                    ensure!(r.is_err(), "{}", at("StructPropertyValue::write"));
                }
                (Property::TextProperty(t), _) => {
                    let t: &FText = &t.value;
                    let r = call(|| {
                        bridge::with_opts(&none, &vers, &mut Vec::new(), |o| {
                            t.write(&mut Cursor::new(&mut sink), o)
                        })
                    })?;
                    ensure!(r.is_err(), "{}", at("FText::write"));
                }
                _ => {}
            }
            obs.calls(4);
            obs.validated(3);
            obs.outcome("refused");
        }
        obs.state(&(&hdr.versions, &p));
    }
    Ok(())
}

fn numbers(t: Tier) -> Vec<u32> {
    let mut v: Vec<u32> = (0..t.pick(130u32, 4096)).collect();
    for b in 0..32 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << b) + d) as u32);
        }
    }
    // The number that is right, with one other byte set.
    for n in [VER_WIDE_ARGS, VER_WIDE_COORDS, VER_CULTURE_FLAG] {
        for d in [-1i64, 0, 1] {
            for s in [8, 16, 24, 31] {
                v.push((n as i64 + d) as u32 | 1 << s);
            }
        }
    }
    v.extend([u32::MAX, u32::MAX - 1, i32::MAX as u32]);
    v.sort();
    v.dedup();
    v
}

const AROUND: [Option<u32>; 14] = [
    None,
    Some(0),
    Some(1),
    Some(11),
    Some(12),
    Some(13),
    Some(27),
    Some(28),
    Some(29),
    Some(31),
    Some(32),
    Some(33),
    Some(i32::MAX as u32 + 1),
    Some(u32::MAX),
];

/// Length of a list of unrelated versions and a place in it: every one in
/// short lists, the first, middle and last of longer ones.
pub fn place_in_list(ch: &mut Ch) -> (usize, usize) {
    const LONG: [usize; 14] = [
        31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096,
    ];
    let n = ch.free(20 + LONG.len());
    if n < 20 {
        (n, ch.free(n + 1))
    } else {
        let n = LONG[n - 20];
        (n, [0, n / 2, n - 1, n][ch.free(4)])
    }
}

pub fn unrelated(n: usize) -> Vec<(Guid16, u32)> {
    (0..n)
        .map(|i| {
            let mut g = [0x5C; 16];
            g[3..7].copy_from_slice(&(i as u32).to_le_bytes());
            (g, [u32::MAX, 0, 1000][i % 3])
        })
        .collect()
}

fn c13(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let nums = numbers(t);
    for mismatch in [false, true] {
        let nums = nums.clone();
        let name = if mismatch {
            "wrong width, each number"
        } else {
            "each number"
        };
        out.push(phase(name, 0, move |ch, obs| {
            let feature = ch.free(2);
            let n = nums[ch.free(nums.len())];
            let other = [None, Some(0), Some(u32::MAX)][ch.free(3)];
            let mut hdr = tiny_header(0);
            let keys = [GUID_UE5_RELEASE, GUID_EDITOR];
            hdr.versions.push((keys[feature], n));
            if let Some(o) = other {
                hdr.versions.push((keys[1 - feature], o));
            }
            obs.show(|| format!("{:?}", listed(&hdr)));
            if mismatch {
                refused(&hdr, false, obs)
            } else {
                follows(&hdr, false, obs)
            }
        }));
    }
    for mismatch in [false, true] {
        let name = if mismatch {
            "wrong width, both features, everywhere"
        } else {
            "both features, everywhere"
        };
        out.push(phase(name, 0, move |ch, obs| {
            let a = AROUND[ch.free(AROUND.len())];
            let b = AROUND[ch.free(AROUND.len())];
            // Position in the list, with unrelated versions around.
            let order = ch.free(4);
            let other = |n: u8, v: u32| {
                let mut g = GUID_UE5_RELEASE;
                g[n as usize] ^= 0x80;
                (g, v)
            };
            let mut hdr = tiny_header(0);
            let mut v = Vec::new();
            v.extend(a.map(|n| (GUID_UE5_RELEASE, n)));
            v.extend(b.map(|n| (GUID_EDITOR, n)));
            match order {
                0 => {}
                1 => v.reverse(),
                2 => {
                    v.insert(0, other(15, u32::MAX));
                    v.push(other(0, 0));
                }
                _ => {
                    v.insert(v.len() / 2, other(7, 1000));
                    v.insert(0, ([0; 16], u32::MAX));
                    v.push(([0xFF; 16], 0));
                }
            }
            hdr.versions = v;
            obs.show(|| format!("{:?}", listed(&hdr)));
            if mismatch {
                refused(&hdr, true, obs)
            } else {
                follows(&hdr, true, obs)
            }
        }));
    }
    out.push(phase("other header fields", 0, |ch, obs| {
        // Nothing else in the header selects a layout.
        let a = [None, Some(12), Some(27), Some(28), Some(40)][ch.free(5)];
        let b = [None, Some(31), Some(32)][ch.free(3)];
        let mut hdr = tiny_header(0);
        hdr.versions.extend(a.map(|n| (GUID_UE5_RELEASE, n)));
        hdr.versions.extend(b.map(|n| (GUID_EDITOR, n)));
        hdr.ue5 = [None, Some(1000), Some(1004), Some(1009)][ch.free(4)];
        hdr.pkg = [0x205, 0x20A, 0x20D][ch.free(3)];
        let (major, minor) = [(4, 0), (4, 27), (5, 0), (5, 3), (0, 0), (6, 1)][ch.free(6)];
        hdr.major = major;
        hdr.minor = minor;
        obs.show(|| format!("{hdr:?}"));
        follows(&hdr, false, obs)?;
        refused(&hdr, false, obs)
    }));
    out.push(phase("similar identifiers", 0, |ch, obs| {
        // A high number listed for a different identifier changes nothing.
        let feature = ch.free(2);
        let how = ch.free(16 * 8 + 3);
        let low = ch.free(2) == 1;
        let key = [GUID_UE5_RELEASE, GUID_EDITOR][feature];
        let mut g = key;
        match how {
            n if n < 128 => g[n / 8] ^= 1 << (n % 8),
            128 => g.reverse(),
            129 => g.rotate_left(4),
            // Words in the other byte order.
            _ => {
                for w in g.chunks_mut(4) {
                    w.reverse();
                }
            }
        }
        let mut hdr = tiny_header(0);
        hdr.versions.push((g, 1000));
        if low {
            hdr.versions.push((key, 5));
        }
        obs.show(|| format!("{:?}", listed(&hdr)));
        follows(&hdr, false, obs)?;
        refused(&hdr, false, obs)
    }));
    out.push(phase("long lists", 0, |ch, obs| {
        // The place in the list changes nothing.
        let (n, at) = place_in_list(ch);
        let feature = ch.free(2);
        let high = ch.free(2) == 1;
        let key = [GUID_UE5_RELEASE, GUID_EDITOR][feature];
        let mut hdr = tiny_header(0);
        hdr.versions = unrelated(n);
        hdr.versions.insert(at, (key, if high { 1000 } else { 5 }));
        obs.show(|| format!("number {at} of {}", n + 1));
        follows(&hdr, false, obs)?;
        refused(&hdr, false, obs)
    }));
    out
}
