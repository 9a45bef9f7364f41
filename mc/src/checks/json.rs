//! C18: conversion to JSON and back.

use super::docs::*;
use super::roundtrip::{first_difference, write};
use super::Check;
use crate::bridge::{self, Form};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::properties::Property;
use gvas::GvasFile;
use serde_json::Value;
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C18",
    level: "model_checking",
    rule: "one case per choice sequence: a tree in compact and generic form, taken through JSON text and through the in-memory JSON value, compared with the reference model component by component and by its bytes",
    assumptions: &["serde_json is built to parse floating-point numbers exactly and to keep the order of object members, and its limit of 128 nested levels is lifted"],
    phases: c18,
}];

fn fin(v: u32) -> bool {
    f32::from_bits(v).is_finite()
}
fn fin64(v: u64) -> bool {
    f64::from_bits(v).is_finite()
}

fn finite_text(t: &Text) -> bool {
    let arg = |a: &Arg| match a {
        Arg::Float(v) => fin(*v),
        Arg::Double(v) => fin64(*v),
        Arg::Text(t) => finite_text(t),
        _ => true,
    };
    match &t.hist {
        Hist::Named(s, a) | Hist::ArgFmt(s, a) => finite_text(s) && a.iter().all(|(_, a)| arg(a)),
        Hist::Ordered(s, a) => finite_text(s) && a.iter().all(arg),
        Hist::Number(a, _, _) | Hist::Percent(a, _, _) | Hist::Currency(_, a, _, _) => arg(a),
        Hist::Transform(s, _) => finite_text(s),
        _ => true,
    }
}

fn finite_sv(v: &SV) -> bool {
    match v {
        SV::V2F(a) => a.iter().all(|v| fin(*v)),
        SV::VF(a) | SV::RF(a) => a.iter().all(|v| fin(*v)),
        SV::QF(a) | SV::Color(a) => a.iter().all(|v| fin(*v)),
        SV::V2D(a) => a.iter().all(|v| fin64(*v)),
        SV::VD(a) | SV::RD(a) => a.iter().all(|v| fin64(*v)),
        SV::QD(a) => a.iter().all(|v| fin64(*v)),
        SV::Custom(f) => f.iter().all(|(_, p)| finite(p)),
        _ => true,
    }
}

pub fn finite(p: &P) -> bool {
    match p {
        P::F32(v) => fin(*v),
        P::F64(v) => fin64(*v),
        P::Text(t) => finite_text(t),
        P::Struct(_, _, v) | P::Body(v) => finite_sv(v),
        P::Array(a) => a.el.iter().all(finite),
        P::Set(_, _, el) => el.iter().all(finite),
        P::Map(_, _, _, e) => e.iter().all(|(k, v)| finite(k) && finite(v)),
        _ => true,
    }
}

pub fn parse<'a, T, R>(mut d: serde_json::Deserializer<R>) -> serde_json::Result<T>
where
    T: serde::de::DeserializeOwned,
    R: serde_json::de::Read<'a>,
{
    d.disable_recursion_limit();
    let x = T::deserialize(&mut d)?;
    d.end()?;
    Ok(x)
}

const WAYS: [&str; 4] = ["text", "value", "indented text", "parsed text"];

/// Through the text or the value, or text that went through a value, as an
/// editor would produce it.
fn through<T>(x: &T, way: usize) -> Result<T, Stop>
where
    T: serde::Serialize + serde::de::DeserializeOwned,
{
    let bad = |how: &str, e: serde_json::Error| Stop::Fail(format!("{how} fails: {e}"));
    let text = |x: &T| call(|| serde_json::to_string(x))?.map_err(|e| bad("conversion to text", e));
    let value =
        |x: &T| call(|| serde_json::to_value(x))?.map_err(|e| bad("conversion to a value", e));
    match way {
        0 => {
            let t = text(x)?;
            call(|| parse(serde_json::Deserializer::from_str(&t)))?
                .map_err(|e| bad(&format!("conversion from {}", brief(&t)), e))
        }
        1 => {
            let v = value(x)?;
            call(|| serde_json::from_value(v))?.map_err(|e| bad("conversion from a value", e))
        }
        2 => {
            let v = value(x)?;
            let t = serde_json::to_string_pretty(&v).map_err(|e| bad("formatting", e))?;
            drop(v);
            call(|| parse(serde_json::Deserializer::from_reader(t.as_bytes())))?
                .map_err(|e| bad(&format!("conversion from {}", brief(&t)), e))
        }
        _ => {
            let t = text(x)?;
            let v: Value =
                parse(serde_json::Deserializer::from_str(&t)).map_err(|e| bad("parsing", e))?;
            call(|| serde_json::from_value(v))?
                .map_err(|e| bad(&format!("conversion from parsed {}", brief(&t)), e))
        }
    }
}

fn round(x: &Doc, form: Form, obs: &mut Obs) -> Out {
    for way in 0..WAYS.len() {
        one_way(x, form, way, obs)?;
    }
    Ok(())
}

fn one_way(x: &Doc, form: Form, way: usize, obs: &mut Obs) -> Out {
    let f = bridge::file(&x.file, form);
    let want = match write(&f)? {
        Ok(b) => b,
        Err(e) => return fail(format!("tree cannot be written: {e}")),
    };
    let g: GvasFile = through(&f, way)?;
    let way = WAYS[way];
    bridge::same_file(&x.file, &g)
        .map_err(|m| Stop::Fail(format!("after {way} ({form:?}): {m}")))?;
    ensure!(f == g, "after {way} ({form:?}): trees compare unequal");
    match write(&g)? {
        Ok(b) => ensure!(
            b == want,
            "after {way} ({form:?}): bytes differ, {}",
            first_difference(&want, &b)
        ),
        Err(e) => return fail(format!("after {way} ({form:?}): cannot be written: {e}")),
    }
    obs.calls(2);
    obs.validated(1);
    Ok(())
}

/// A value on its own, and in lists and options as callers hold them.
fn alone(p: &P, form: Form, obs: &mut Obs) -> Out {
    let q = bridge::prop(p, form);
    for (i, way) in WAYS.iter().enumerate() {
        let r: Property = through(&q, i)?;
        bridge::same("", p, &r).map_err(|m| Stop::Fail(format!("on its own after {way}: {m}")))?;
        ensure!(q == r, "on its own after {way}: compares unequal");
    }
    obs.calls(4);
    obs.validated(4);
    Ok(())
}

const TRICKY: [&str; 36] = [
    "type",
    "value",
    "values",
    "guid",
    "type_name",
    "property_type",
    "properties",
    "structs",
    "field_name",
    "key_type",
    "value_type",
    "allocation_flags",
    "CustomStruct",
    "StructProperty",
    "IntProperty",
    "flags",
    "history",
    "enum_type",
    "name",
    "raw",
    "bools",
    "bytes",
    "enum_bools",
    "str_ints",
    "header",
    "deserialized_game_version",
    "custom_versions",
    "null",
    "true",
    "0",
    "-1",
    "",
    "\u{0}",
    "a\"b\\c/\u{8}\u{c}\n\r\t\u{1f}\u{7f}\u{2028}",
    "00000000-0000-0000-0000-000000000000",
    "Name",
];

fn floats(t: Tier) -> Vec<u32> {
    let mut m: Vec<u32> = vec![0, 1, 2, 3, 0x7F_FFFF, 0x7F_FFFE, 0x2A_AAAA, 0x55_5555];
    for b in 0..23 {
        m.push(1 << b);
        m.push(0x7F_FFFF ^ (1 << b));
    }
    if t == Tier::Thorough {
        for b in 0..23 {
            for c in 0..b {
                m.push(1 << b | 1 << c);
            }
        }
    }
    m.sort();
    m.dedup();
    m
}

/// Float values in each kind of representation.
fn float_file(place: usize, v: &[u32]) -> File {
    let named = |i: usize| format!("p{i}");
    let mut props = Vec::new();
    match place {
        0 => props.extend(v.iter().enumerate().map(|(i, x)| (named(i), P::F32(*x)))),
        1 => props.push((
            "a".into(),
            P::Array(Arr {
                ty: "FloatProperty".into(),
                info: None,
                el: v.iter().map(|x| P::F32(*x)).collect(),
            }),
        )),
        2 => props.push((
            "a".into(),
            P::Array(Arr {
                ty: "StructProperty".into(),
                info: Some(("a".into(), "LinearColor".into(), [0; 16])),
                el: v
                    .chunks(4)
                    .map(|c| {
                        let mut a = [0; 4];
                        a[..c.len()].copy_from_slice(c);
                        P::Body(SV::Color(a))
                    })
                    .collect(),
            }),
        )),
        3 => props.extend(v.chunks(2).enumerate().map(|(i, c)| {
            let mut a = [0; 2];
            a[..c.len()].copy_from_slice(c);
            (named(i), P::Struct("Vector2D".into(), [0; 16], SV::V2F(a)))
        })),
        _ => props.push((
            "a".into(),
            P::Text(Text {
                flags: 0,
                hist: Hist::Ordered(
                    Box::new(Text {
                        flags: 0,
                        hist: Hist::Empty,
                    }),
                    v.iter().map(|x| Arg::Float(*x)).collect(),
                ),
            }),
        )),
    }
    File {
        wrap: Wrap::Plain,
        hdr: tiny_header(0),
        props,
    }
}

fn double_file(place: usize, v: &[u64]) -> File {
    let named = |i: usize| format!("p{i}");
    let mut props = Vec::new();
    match place {
        0 => props.extend(v.iter().enumerate().map(|(i, x)| (named(i), P::F64(*x)))),
        1 => props.push((
            "a".into(),
            P::Array(Arr {
                ty: "DoubleProperty".into(),
                info: None,
                el: v.iter().map(|x| P::F64(*x)).collect(),
            }),
        )),
        2 => props.push((
            "a".into(),
            P::Array(Arr {
                ty: "StructProperty".into(),
                info: Some(("a".into(), "Vector2D".into(), [0; 16])),
                el: v
                    .chunks(2)
                    .map(|c| {
                        let mut a = [0; 2];
                        a[..c.len()].copy_from_slice(c);
                        P::Body(SV::V2D(a))
                    })
                    .collect(),
            }),
        )),
        _ => props.push((
            "a".into(),
            P::Text(Text {
                flags: 0,
                hist: Hist::Ordered(
                    Box::new(Text {
                        flags: 0,
                        hist: Hist::Empty,
                    }),
                    v.iter().map(|x| Arg::Double(*x)).collect(),
                ),
            }),
        )),
    }
    File {
        wrap: Wrap::Plain,
        hdr: tiny_header(1),
        props,
    }
}

fn c18(t: Tier) -> Vec<Phase> {
    let cfg = Cfg {
        finite: true,
        wraps: &[Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice],
        ..Cfg::BASE
    };
    let mut d = Depth::light(t);
    d.containers = t.pick(1, 2);
    d.structs = t.pick(2, 2);
    d.texts = t.pick(2, 2);
    d.grammar = t.pick(3, 4);
    d.triples = true;
    d.counts = true;
    d.orders = Some(t.pick(4, 5));
    d.bytes = Some(t == Tier::Thorough);
    let large = t.pick(100_000, 1_000_000);
    let mut out = doc_phases(
        cfg,
        d,
        Arc::new(move |_, x, obs| {
            if !x.file.props.iter().all(|(_, p)| finite(p)) {
                return Err(Stop::Prune);
            }
            if x.bytes.len() > large {
                return one_way(x, Form::Compact, 0, obs);
            }
            for form in [Form::Compact, Form::Generic] {
                round(x, form, obs)?;
                if x.file.props.len() <= 4 {
                    for (_, p) in &x.file.props {
                        alone(p, form, obs)?;
                    }
                }
            }
            Ok(())
        }),
    );

    let list = Fixtures::new();
    out.push(phase("game saves", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let form = [Form::Compact, Form::Generic][ch.free(2)];
        let way = ch.free(WAYS.len());
        let x = list.get(i);
        // The same through the value takes gigabytes for the largest.
        let size = x.enc.buf.len();
        if size > t.pick(200_000, 4_000_000) && way > 0 || size > 3_000_000 && form == Form::Generic
        {
            return Err(Stop::Prune);
        }
        if !x.file.props.iter().all(|(_, p)| finite(p)) {
            return Err(Stop::Prune);
        }
        obs.state(&(i, form as u8, way));
        obs.show(|| format!("{} {form:?}", list.name(i)));
        one_way(x, form, way, obs)
    }));

    out.push(phase("telling names", 0, |ch, obs| {
        let slot = ch.free(STRING_SLOTS + 4);
        let s = TRICKY[ch.free(TRICKY.len())].to_string();
        let other = TRICKY[ch.free(TRICKY.len())].to_string();
        let wrap = [Wrap::Plain, Wrap::PalZlib][ch.free(2)];
        let custom = |s: String, p: P| SV::Custom(vec![(s, p)]);
        let mut f = if slot < STRING_SLOTS {
            let mut f = string_slot(slot, s);
            f.props[1].0 = other;
            f
        } else {
            let p = match slot - STRING_SLOTS {
                0 => P::Struct(
                    other.clone(),
                    [0; 16],
                    custom(s.clone(), P::Struct(other, [0; 16], custom(s, P::I32(1)))),
                ),
                1 => P::Array(Arr {
                    ty: "StructProperty".into(),
                    info: Some((s.clone(), other.clone(), [0; 16])),
                    el: vec![P::Body(custom(s, P::Str(Some(other))))],
                }),
                2 => P::Map(
                    "StructProperty".into(),
                    "StructProperty".into(),
                    1,
                    vec![(
                        P::Body(custom(s.clone(), P::Str(None))),
                        P::Body(custom(other, P::Name(0, Some(s)))),
                    )],
                ),
                _ => P::Text(Text {
                    flags: 0,
                    hist: Hist::Named(
                        Box::new(Text {
                            flags: 1,
                            hist: Hist::Table(other.clone(), s.clone()),
                        }),
                        vec![(s, Arg::Int(1)), (format!("{other}!"), Arg::UInt(2))],
                    ),
                }),
            };
            one(0, Wrap::Plain, "a", p)
        };
        f.wrap = wrap;
        let x = doc(f)?;
        obs.state(&x.bytes);
        obs.show(|| brief(&x.file.props));
        round(&x, Form::Compact, obs)?;
        round(&x, Form::Generic, obs)
    }));

    out.push(phase("characters", 0, |ch, obs| {
        // Every character, in values and in names.
        let block = ch.free(0x110000 / 1024);
        let mut f = one(0, Wrap::Plain, "a", P::I32(0));
        f.props.clear();
        let mut n = 0;
        for c in (block as u32 * 1024..(block as u32 + 1) * 1024).filter_map(char::from_u32) {
            f.props
                .push((format!("{c}"), P::Str(Some(format!("x{c}y{c}")))));
            n += 1;
        }
        if n == 0 {
            return Err(Stop::Prune);
        }
        let x = doc(f)?;
        obs.state(&x.bytes);
        obs.swept(n);
        obs.show(|| format!("characters from {:#x}", block * 1024));
        round(&x, Form::Compact, obs)
    }));

    out.push(phase("identifiers", 0, |ch, obs| {
        let place = ch.free(4);
        let byte = ch.free(17);
        let base = [0u8, 0xFF, 0xA5][ch.free(3)];
        let mut list: Vec<[u8; 16]> = (0..=255u8)
            .map(|v| {
                let mut g = [base; 16];
                if byte < 16 {
                    g[byte] = v;
                } else {
                    // All different, so that the order of the parts shows.
                    for (i, x) in g.iter_mut().enumerate() {
                        *x = v.wrapping_add(i as u8 * 17);
                    }
                }
                g
            })
            .collect();
        list.sort();
        list.dedup();
        let mut f = one(0, Wrap::Plain, "a", P::I32(0));
        let n = list.len() as u64;
        match place {
            0 => f.hdr.versions = list.into_iter().map(|g| (g, 3)).collect(),
            p => f.props.extend(list.into_iter().enumerate().map(|(i, g)| {
                (
                    format!("g{i}"),
                    match p {
                        1 => P::Struct("Guid".into(), g, SV::Guid(g)),
                        2 => P::Struct("S".into(), g, SV::Custom(vec![("q".into(), P::I8(1))])),
                        _ => P::Array(Arr {
                            ty: "StructProperty".into(),
                            info: Some(("a".into(), "Guid".into(), g)),
                            el: vec![P::Body(SV::Guid(g))],
                        }),
                    },
                )
            })),
        }
        let x = doc(f)?;
        obs.state(&x.bytes);
        obs.swept(n);
        obs.show(|| format!("{n} identifiers in place {place}"));
        round(&x, Form::Compact, obs)
    }));

    let m = floats(t);
    out.push(phase("floats", 0, move |ch, obs| {
        let place = ch.free(5);
        let hi = ch.free(512) as u32;
        let v: Vec<u32> = m.iter().map(|x| hi << 23 | x).filter(|v| fin(*v)).collect();
        if v.is_empty() {
            return Err(Stop::Prune);
        }
        let x = doc(float_file(place, &v))?;
        obs.state(&x.bytes);
        obs.swept(v.len() as u64);
        obs.show(|| format!("floats {:#x}.. in place {place}", v[0]));
        round(&x, Form::Compact, obs)
    }));
    out.push(phase("doubles", 0, move |ch, obs| {
        let place = ch.free(4);
        let hi = ch.free(4096) as u64;
        let top = (1u64 << 52) - 1;
        let mut v: Vec<u64> = vec![
            0,
            1,
            2,
            3,
            top,
            top - 1,
            top / 3,
            top / 3 * 2,
            1 << 29,
            (1 << 29) - 1,
        ];
        for b in (0..52).step_by(t.pick(5, 1)) {
            v.push(1 << b);
            v.push(top ^ (1 << b));
        }
        v.sort();
        v.dedup();
        let v: Vec<u64> = v
            .into_iter()
            .map(|x| hi << 52 | x)
            .filter(|v| fin64(*v))
            .collect();
        if v.is_empty() {
            return Err(Stop::Prune);
        }
        let x = doc(double_file(place, &v))?;
        obs.state(&x.bytes);
        obs.swept(v.len() as u64);
        obs.show(|| format!("doubles {:#x}.. in place {place}", v[0]));
        round(&x, Form::Compact, obs)
    }));

    if t == Tier::Thorough {
        out.push(phase("all floats", 0, |ch, obs| {
            // Every finite float, through text, in two representations.
            let hi = ch.free(65536) as u32;
            let v: Vec<u32> = (0..65536u32)
                .map(|lo| hi << 16 | lo)
                .filter(|v| fin(*v))
                .collect();
            if v.is_empty() {
                return Err(Stop::Prune);
            }
            for place in [1, 2] {
                let p = float_file(place, &v).props.remove(0).1;
                let q = bridge::prop(&p, Form::Compact);
                let text = match call(|| serde_json::to_string(&q))? {
                    Ok(t) => t,
                    Err(e) => return fail(format!("conversion to text fails: {e}")),
                };
                let r: Property = match call(|| serde_json::from_str(&text))? {
                    Ok(r) => r,
                    Err(e) => return fail(format!("conversion from text fails: {e}")),
                };
                bridge::same("", &p, &r).map_err(Stop::Fail)?;
            }
            obs.swept(v.len() as u64);
            obs.calls(4);
            obs.validated(2);
            obs.state(&hi);
            Ok(())
        }));
    }
    out
}
