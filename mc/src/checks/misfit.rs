//! C25: writing trees whose parts contradict each other.

use super::construct::{alphabet, types};
use super::docs::*;
use super::roundtrip::first_difference;
use super::Check;
use crate::bridge::{self, Form};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::int_property::IntProperty;
use gvas::properties::map_property::MapProperty;
use gvas::properties::set_property::SetProperty;
use gvas::properties::struct_property::{StructProperty, StructPropertyValue};
use gvas::properties::Property;
use gvas::types::map::HashableIndexMap;
use gvas::types::Guid;
use std::io::Cursor;
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C25",
    level: "model_checking",
    rule: "one case per choice sequence: a tree assembled from public types whose declared types, names, widths and contents are chosen independently; each is written by every write operation",
    assumptions: &[],
    phases: c25,
}];

/// Text at the start of some output, and what follows it.
fn split_string(b: &[u8]) -> Option<(String, &[u8])> {
    let n = i32::from_le_bytes(b.get(..4)?.try_into().unwrap());
    if n >= 0 {
        let s = b.get(4..4 + n as usize)?;
        let s = std::str::from_utf8(s.strip_suffix(&[0])?).ok()?;
        Some((s.into(), &b[4 + n as usize..]))
    } else {
        let end = 4 + 2 * n.unsigned_abs() as usize;
        let u: Vec<u16> = b
            .get(4..end)?
            .chunks(2)
            .map(|c| u16::from_le_bytes([c[0], c[1]]))
            .collect();
        Some((String::from_utf16(u.strip_suffix(&[0])?).ok()?, &b[end..]))
    }
}

/// Every write operation on one value, under one list of versions.
fn written(p: &Property, layout: usize, obs: &mut Obs) -> Out {
    let vers = bridge::versions(&versions(layout, 7));
    let at = |op: &str| format!("{op} of {}", brief(p));
    let body = call(|| bridge::write_prop(p, false, &vers))?;
    let full = call(|| bridge::write_prop(p, true, &vers))?;
    obs.calls(2);
    if let Ok((b, n)) = &body {
        ensure!(
            *n == b.len(),
            "{} reports {n} bytes but writes {}",
            at("writing without header"),
            b.len()
        );
    }
    // A list holds as many members as it says, each as written alone.
    let members: Option<Vec<&Property>> = match p {
        Property::ArrayProperty(ArrayProperty::Properties { properties, .. }) => {
            Some(properties.iter().collect())
        }
        Property::SetProperty(s) => Some(s.properties.iter().collect()),
        Property::MapProperty(MapProperty::Properties { value, .. }) => {
            Some(value.iter().flat_map(|(k, v)| [k, v]).collect())
        }
        _ => None,
    };
    if let (Ok((b, _)), Some(m)) = (&body, members) {
        let mut want = Vec::new();
        let n = match p {
            Property::MapProperty(_) => m.len() / 2,
            _ => m.len(),
        };
        want.extend((n as u32).to_le_bytes());
        for x in m {
            match call(|| bridge::write_prop(x, false, &vers))? {
                Ok((b, _)) => want.extend(b),
                Err(e) => {
                    return fail(format!("{} succeeds, its member: {e}", at("writing")));
                }
            }
        }
        ensure!(
            b.ends_with(&want),
            "{} gives other members, {}",
            at("writing"),
            first_difference(&want, &b[b.len().saturating_sub(want.len())..])
        );
    }
    let (out, n) = match full {
        Ok(x) => x,
        Err(_) => {
            obs.outcome("refused");
            return Ok(());
        }
    };
    ensure!(
        n == out.len(),
        "{} reports {n} bytes but writes {}",
        at("writing with header"),
        out.len()
    );
    // Type, size, index, further header fields, zero, value.
    let Ok((body, _)) = body else {
        return fail(format!(
            "{} succeeds although its value is refused",
            at("writing with header")
        ));
    };
    let Some((_, rest)) = split_string(&out) else {
        return fail(format!("{}: no type name", at("writing with header")));
    };
    ensure!(
        rest.len() >= 9 + body.len() || matches!(p, Property::BoolProperty(_)),
        "{}: {} bytes after the type name for a value of {}",
        at("writing with header"),
        rest.len(),
        body.len()
    );
    let size = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
    let inline = matches!(p, Property::BoolProperty(_));
    ensure!(
        size == if inline { 0 } else { body.len() },
        "{} declares {size} bytes for a value of {}",
        at("writing with header"),
        body.len()
    );
    if !inline {
        let split = rest.len() - body.len();
        ensure!(
            rest[split..] == body[..] && rest[split - 1] == 0,
            "{} does not end with the value",
            at("writing with header")
        );
    }
    obs.outcome("written");
    obs.validated(1);
    Ok(())
}

/// The value as a property of a file, in every container mode.
fn in_file(p: &Property, name: &str, layout: usize, obs: &mut Obs) -> Out {
    let (full, _) =
        match call(|| bridge::write_prop(p, true, &bridge::versions(&versions(layout, 7))))? {
            Ok(x) => x,
            Err(_) => (vec![], 0),
        };
    let mut f = bridge::file(&tiny(layout, Wrap::Plain, P::I8(1)), Form::Compact);
    f.properties.insert_full(name.to_string(), p.clone());
    for w in [Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice] {
        f.deserialized_game_version = bridge::mode(w);
        let r = call(|| {
            let mut out = Cursor::new(Vec::new());
            let r = f.write(&mut out);
            (r.is_ok(), out.into_inner())
        })?;
        obs.calls(1);
        ensure!(
            r.0 != full.is_empty(),
            "a file with {} under {name:?}: writing it {}, writing the value {}",
            brief(p),
            if r.0 { "succeeds" } else { "fails" },
            if full.is_empty() { "fails" } else { "succeeds" }
        );
        if !r.0 {
            continue;
        }
        // The value stands in the plain file as it is written alone.
        if w == Wrap::Plain {
            ensure!(
                r.1.windows(full.len()).any(|x| x == full),
                "a file with {} does not contain it as written alone",
                brief(p)
            );
        }
        // Whatever was written, reading it returns.
        let hints = bridge::Hints::new();
        let back = call(|| {
            gvas::GvasFile::read_with_hints(&mut Cursor::new(&r.1), bridge::game(w), &hints).is_ok()
        })?;
        obs.calls(1);
        obs.outcome(if back { "read back" } else { "not readable" });
    }
    Ok(())
}

fn struct_values() -> Vec<StructPropertyValue> {
    let mut v: Vec<StructPropertyValue> = collect(0, |ch| {
        let cfg = Cfg {
            headers: false,
            names: false,
            ..Cfg::BASE
        };
        Ok(match pick_struct(ch, &cfg).1 {
            P::Struct(_, _, v) | P::Body(v) => Some(v),
            _ => None,
        })
    })
    .into_iter()
    .flatten()
    .map(|v| bridge::sv(&v, Form::Compact))
    .collect();
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(std::mem::discriminant(x)));
    // Fields that cannot stand in a struct.
    for p in [
        Property::StructPropertyValue(StructPropertyValue::Guid(Guid([1; 16]))),
        bridge::prop(&P::Enum(None, "a".into()), Form::Compact),
        bridge::prop(&P::Byte(None, ByteVal::Label("L".into())), Form::Compact),
    ] {
        for name in ["", "None", "a"] {
            for n in [0, 1, 2] {
                let mut m = HashableIndexMap::new();
                m.insert(name.to_string(), vec![p.clone(); n]);
                v.push(StructPropertyValue::CustomStruct(m));
            }
        }
    }
    v
}

const STRUCTS: [&str; 14] = [
    "Vector",
    "Vector2D",
    "Rotator",
    "Quat",
    "DateTime",
    "Timespan",
    "LinearColor",
    "IntPoint",
    "Guid",
    "GameplayTagContainer",
    "S",
    "",
    "None",
    "структура",
];

const NAMES: [&str; 6] = ["m", "a", "", "None", "имя", "a\0b"];

fn maps_by_key(how: usize, vt: &str, v: &[Property]) -> MapProperty {
    let m: HashableIndexMap<String, Property> = HashableIndexMap(
        v.iter()
            .enumerate()
            .map(|(i, p)| (["", "None"][i % 2].to_string(), p.clone()))
            .collect(),
    );
    let value_type = vt.to_string();
    match how {
        0 => MapProperty::EnumProperty {
            value_type,
            enum_props: m,
        },
        1 => MapProperty::NameProperty {
            value_type,
            name_props: m,
        },
        _ => MapProperty::StrProperty {
            value_type,
            str_props: m,
        },
    }
}

fn c25(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let abc: Arc<Vec<Property>> = Arc::new(
        alphabet()
            .iter()
            .map(|p| bridge::prop(p, Form::Compact))
            .collect(),
    );
    let tys = Arc::new(types());
    let svs = Arc::new(struct_values());
    let n = abc.len();
    let pick = |a: &[Property], i: &[usize]| -> Vec<Property> {
        i.iter()
            .filter(|i| **i > 0)
            .map(|i| a[*i - 1].clone())
            .collect()
    };

    let (a, ty) = (abc.clone(), tys.clone());
    out.push(phase("arrays and sets", 0, move |ch, obs| {
        let how = ch.free(2);
        let ty = &ty[ch.free(ty.len())];
        let (i, j) = (ch.free(n + 1), ch.free(n + 1));
        let properties = pick(&a, &[i, j]);
        let p = if how == 0 {
            Property::ArrayProperty(ArrayProperty::Properties {
                property_type: ty.clone(),
                properties,
            })
        } else {
            Property::SetProperty(SetProperty::new(ty.clone(), 3, properties))
        };
        obs.state(&p);
        obs.show(|| brief(&p));
        written(&p, 0, obs)
    }));

    let (a, ty) = (abc.clone(), tys.clone());
    out.push(phase("counts", 0, move |ch, obs| {
        let how = ch.free(3);
        let ty = &ty[ch.free(ty.len())];
        let x = &a[ch.free(n)];
        let len = [17usize, 300, 1100, 70_000][ch.free(t.pick(3, 4))];
        let properties = vec![x.clone(); len];
        let p = match how {
            0 => Property::ArrayProperty(ArrayProperty::Properties {
                property_type: ty.clone(),
                properties,
            }),
            1 => Property::SetProperty(SetProperty::new(ty.clone(), 3, properties)),
            _ => {
                let keys = (0..len).map(|i| IntProperty::new(i as i32).into());
                Property::MapProperty(MapProperty::Properties {
                    key_type: ty.clone(),
                    value_type: ty.clone(),
                    allocation_flags: 0,
                    value: HashableIndexMap(keys.zip(properties).collect()),
                })
            }
        };
        obs.state(&p);
        obs.show(|| format!("{len} in {how} of {ty}: {}", brief(x)));
        written(&p, 0, obs)
    }));

    let (a, ty) = (abc.clone(), tys.clone());
    let every = t == Tier::Thorough;
    out.push(phase("maps", 0, move |ch, obs| {
        let (kt, vt) = (&ty[ch.free(ty.len())], &ty[ch.free(ty.len())]);
        let (i, j) = (ch.free(n), ch.free(n));
        // A second entry turned the other way round.
        let second = every && ch.free(2) == 1 && i != j;
        let mut value = HashableIndexMap::new();
        value.insert(a[i].clone(), a[j].clone());
        if second {
            value.insert(a[j].clone(), a[i].clone());
        }
        let p = Property::MapProperty(MapProperty::Properties {
            key_type: kt.clone(),
            value_type: vt.clone(),
            allocation_flags: 0,
            value,
        });
        obs.state(&p);
        obs.show(|| brief(&p));
        written(&p, 0, obs)
    }));

    let (a, ty) = (abc.clone(), tys.clone());
    out.push(phase("maps by key type", 0, move |ch, obs| {
        let how = ch.free(3);
        let vt = &ty[ch.free(ty.len())];
        let (i, j) = (ch.free(n + 1), ch.free(n + 1));
        let p = Property::MapProperty(maps_by_key(how, vt, &pick(&a, &[i, j])));
        obs.state(&p);
        obs.show(|| brief(&p));
        written(&p, 0, obs)
    }));

    let sv = svs.clone();
    out.push(phase("structs", 0, move |ch, obs| {
        let how = ch.free(3);
        let name = STRUCTS[ch.free(STRUCTS.len())];
        let v = &sv[ch.free(sv.len())];
        let second = ch.free(sv.len() + 1);
        if how == 0 && second > 0 {
            return Err(Stop::Prune);
        }
        let p = match how {
            0 => {
                Property::StructProperty(StructProperty::new(Guid([2; 16]), name.into(), v.clone()))
            }
            1 => Property::ArrayProperty(ArrayProperty::Structs {
                field_name: name.into(),
                type_name: name.into(),
                guid: Guid([3; 16]),
                structs: std::iter::once(v)
                    .chain(second.checked_sub(1).map(|i| &sv[i]))
                    .cloned()
                    .collect(),
            }),
            _ => {
                let mut m = HashableIndexMap::new();
                m.insert(
                    Property::StructPropertyValue(v.clone()),
                    match second {
                        0 => Property::StructPropertyValue(v.clone()),
                        i => Property::StructPropertyValue(sv[i - 1].clone()),
                    },
                );
                Property::MapProperty(MapProperty::Properties {
                    key_type: "StructProperty".into(),
                    value_type: name.into(),
                    allocation_flags: 1,
                    value: m,
                })
            }
        };
        obs.state(&p);
        obs.show(|| brief(&p));
        (0..LAYOUTS).try_for_each(|l| written(&p, l, obs))
    }));

    // Values of every layout under every layout.
    let k = t.pick(1, 2);
    for (name, pick) in [("texts", pick_text as Pick), ("other layouts", pick_struct)] {
        out.push(phase(name, k, move |ch, obs| {
            let (_, p) = pick(ch, &Cfg::BASE);
            let p = bridge::prop(&p, Form::Compact);
            obs.state(&p);
            obs.show(|| brief(&p));
            (0..LAYOUTS).try_for_each(|l| written(&p, l, obs))
        }));
    }

    out.push(phase("strings beyond the limit", 0, |ch, obs| {
        let slot = ch.free(STRING_SLOTS);
        let len = [131_071usize, 131_072, 131_073, 300_000][ch.free(4)];
        let style = ch.free(3);
        let f = string_slot(slot, text_of_len(len, style));
        obs.state(&(slot, len, style));
        obs.show(|| format!("place {slot}, {len} characters, style {style}"));
        let g = bridge::file(&f, Form::Compact);
        let r = call(|| {
            let mut out = Cursor::new(Vec::new());
            let r = g.write(&mut out);
            (r.is_ok(), out.into_inner())
        })?;
        obs.calls(1);
        if !r.0 {
            obs.outcome("refused");
            return Ok(());
        }
        // What counts as written is the whole of it.
        ensure!(
            r.1 == encode_file(&f).buf,
            "place {slot}, {len} characters: other bytes are written"
        );
        obs.validated(1);
        obs.outcome("written");
        Ok(())
    }));

    let (a, ty, sv) = (abc, tys, svs);
    out.push(phase("in files", 0, move |ch, obs| {
        let name = NAMES[ch.free(NAMES.len())];
        let how = ch.free(6);
        let p = match how {
            0 => a[ch.free(n)].clone(),
            1 => Property::StructProperty(StructProperty::new(
                Guid([0; 16]),
                STRUCTS[ch.free(STRUCTS.len())].into(),
                sv[ch.free(sv.len())].clone(),
            )),
            2 => Property::ArrayProperty(ArrayProperty::Properties {
                property_type: ty[ch.free(ty.len())].clone(),
                properties: vec![a[ch.free(n)].clone()],
            }),
            3 => Property::SetProperty(SetProperty::new(
                ty[ch.free(ty.len())].clone(),
                0,
                vec![a[ch.free(n)].clone()],
            )),
            4 => Property::MapProperty(maps_by_key(
                2,
                &ty[ch.free(ty.len())],
                &[a[ch.free(n)].clone()],
            )),
            // A misfit inside a struct inside an array of structs.
            _ => {
                let x = Property::ArrayProperty(ArrayProperty::Properties {
                    property_type: ty[ch.free(ty.len())].clone(),
                    properties: vec![a[ch.free(n)].clone()],
                });
                let mut m = HashableIndexMap::new();
                m.insert("f".to_string(), vec![x]);
                Property::ArrayProperty(ArrayProperty::Structs {
                    field_name: "F".into(),
                    type_name: "S".into(),
                    guid: Guid([0; 16]),
                    structs: vec![StructPropertyValue::CustomStruct(m)],
                })
            }
        };
        obs.state(&(name, &p));
        obs.show(|| brief(&p));
        in_file(&p, name, ch.free(2), obs)
    }));
    out
}
