//! C20: histories of edits, saves and reloads.

use super::docs::*;
use super::roundtrip::{first_difference, read, write};
use super::Check;
use crate::bridge::{self, Form};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::streams::{Plan, Sink};
use crate::{ensure, Tier};
use gvas::game_version::DeserializedGameVersion;
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::int_property::*;
use gvas::properties::map_property::MapProperty;
use gvas::properties::str_property::StrProperty;
use gvas::properties::struct_property::{StructProperty, StructPropertyValue};
use gvas::properties::text_property::FTextHistory;
use gvas::properties::Property;
use gvas::types::map::HashableIndexMap;
use gvas::types::Guid;
use gvas::{GvasFile, GvasHeader};
use ordered_float::OrderedFloat;

pub const CHECKS: &[Check] = &[Check {
    id: "C20",
    level: "model_checking",
    rule: "one case per sequence of operations from a starting file: each operation is applied to the tree and to the reference model, and the tree and its bytes compared with the model",
    assumptions: &[],
    phases: c20,
}];

/// The model and the library's tree, edited in step.
struct Pair {
    m: File,
    f: GvasFile,
}

fn s(x: &str) -> String {
    x.to_string()
}

impl Pair {
    fn mp(&mut self, n: &str) -> Option<&mut P> {
        self.m.props.iter_mut().find(|p| p.0 == n).map(|p| &mut p.1)
    }
    fn at(&self, n: &str) -> Option<usize> {
        self.m.props.iter().position(|p| p.0 == n)
    }
    fn lp(&mut self, n: &str) -> &mut Property {
        self.f.properties.get_mut(n).expect("in step")
    }

    /// A field of the struct "st".
    fn fields(&mut self) -> Option<&mut Vec<(String, P)>> {
        match self.mp("st")? {
            P::Struct(_, _, SV::Custom(f)) => Some(f),
            _ => None,
        }
    }
    fn lfields(&mut self) -> &mut HashableIndexMap<String, Vec<Property>> {
        self.lp("st")
            .get_struct_mut()
            .and_then(|s| s.value.get_custom_struct_mut())
            .expect("in step")
    }
    fn put(&mut self, name: &str, p: P) {
        self.f
            .properties
            .insert(s(name), bridge::prop(&p, Form::Compact));
        match self.mp(name) {
            Some(x) => *x = p,
            None => self.m.props.push((s(name), p)),
        }
    }
}

/// Edits the array "arr" whichever form it has.
fn ints(x: &mut Pair, f: &dyn Fn(&mut Vec<i32>)) -> Option<()> {
    let P::Array(a) = x.mp("arr")? else {
        return None;
    };
    let mut v: Vec<i32> =
        a.el.iter()
            .map(|p| match p {
                P::I32(v) => Some(*v),
                _ => None,
            })
            .collect::<Option<_>>()?;
    f(&mut v);
    a.el = v.iter().map(|v| P::I32(*v)).collect();
    match x.lp("arr").get_array_mut().expect("in step") {
        ArrayProperty::Ints { ints } => f(ints),
        ArrayProperty::Properties { properties, .. } => {
            let mut v: Vec<i32> = properties
                .iter()
                .map(|p| p.get_int().expect("in step").value)
                .collect();
            f(&mut v);
            *properties = v.into_iter().map(|v| IntProperty::new(v).into()).collect();
        }
        _ => unreachable!("in step"),
    }
    Some(())
}

/// Edits the map "map" of strings to numbers whichever form it has.
fn entries(x: &mut Pair, f: &dyn Fn(&mut indexmap::IndexMap<String, i32>)) -> Option<()> {
    let P::Map(_, _, _, e) = x.mp("map")? else {
        return None;
    };
    let mut v: indexmap::IndexMap<String, i32> = e
        .iter()
        .map(|e| match e {
            (P::Str(Some(k)), P::I32(v)) => Some((k.clone(), *v)),
            _ => None,
        })
        .collect::<Option<_>>()?;
    f(&mut v);
    *e = v
        .iter()
        .map(|(k, v)| (P::Str(Some(k.clone())), P::I32(*v)))
        .collect();
    match x.lp("map").get_map_mut().expect("in step") {
        MapProperty::StrInt { str_ints } => f(str_ints),
        MapProperty::Properties { value, .. } => {
            let mut v: indexmap::IndexMap<String, i32> = value
                .iter()
                .map(|(k, v)| {
                    (
                        k.get_str().and_then(|k| k.value.clone()).expect("in step"),
                        v.get_int().expect("in step").value,
                    )
                })
                .collect();
            f(&mut v);
            value.clear();
            for (k, n) in v {
                value.insert(StrProperty::from(k).into(), IntProperty::new(n).into());
            }
        }
        _ => unreachable!("in step"),
    }
    Some(())
}

fn structs(x: &mut Pair) -> Option<(&mut Arr, &mut Vec<StructPropertyValue>)> {
    let Pair { m, f } = x;
    let a = match &mut m.props.iter_mut().find(|p| p.0 == "sarr")?.1 {
        P::Array(a) => a,
        _ => return None,
    };
    match f.properties.get_mut("sarr")?.get_array_mut()? {
        ArrayProperty::Structs { structs, .. } => Some((a, structs)),
        _ => None,
    }
}

fn reload(x: &mut Pair) -> Result<(), String> {
    let d = match doc(x.m.clone()) {
        Ok(d) => d,
        Err(_) => return Err("not a document".into()),
    };
    let out = write(&x.f)
        .map_err(|_| "panic".to_string())?
        .map_err(|e| e.to_string())?;
    x.f = read(&out, x.m.wrap, &d.hints)
        .map_err(|_| "panic while reading".to_string())?
        .map_err(|e| format!("own file rejected: {e}"))?;
    Ok(())
}

type Op = (&'static str, fn(&mut Pair) -> Option<()>);

const OPS: &[Op] = &[
    // First the environment.
    ("reload", |x| match reload(x) {
        Ok(()) => Some(()),
        Err(e) => panic!("reload: {e}"),
    }),
    ("clone", |x| {
        x.f = x.f.clone();
        Some(())
    }),
    ("through JSON", |x| {
        let t = serde_json::to_string(&x.f).expect("to JSON");
        x.f = serde_json::from_str(&t).expect("from JSON");
        Some(())
    }),
    ("failed save", |x| {
        let plan = Plan {
            room: Some(40),
            ..Plan::default()
        };
        let mut sink = Sink::new(Vec::new(), 0, &plan);
        assert!(x.f.write(&mut sink).is_err(), "a full disk is not reported");
        Some(())
    }),
    // The list of properties.
    ("append", |x| {
        if x.at("new").is_some() {
            return None;
        }
        x.put("new", P::F64(4.5f64.to_bits()));
        Some(())
    }),
    ("insert first", |x| {
        if x.at("first").is_some() {
            return None;
        }
        x.m.props.insert(0, (s("first"), P::Str(Some(s("f")))));
        x.f.properties
            .shift_insert(0, s("first"), StrProperty::from("f").into());
        Some(())
    }),
    ("replace by another type", |x| {
        x.at("i")?;
        x.put("i", P::Object(s("/Game/X")));
        Some(())
    }),
    ("replace by a struct", |x| {
        x.at("s")?;
        x.put("s", P::Struct(s("Guid"), [2; 16], SV::Guid([0xAB; 16])));
        Some(())
    }),
    ("remove", |x| {
        let i = x.at("i")?;
        x.m.props.remove(i);
        x.f.properties.shift_remove("i");
        Some(())
    }),
    ("swap remove", |x| {
        let i = x.at("s")?;
        x.m.props.swap_remove(i);
        x.f.properties.swap_remove("s");
        Some(())
    }),
    ("rename in place", |x| {
        let i = x.at("s")?;
        if x.at("renamed").is_some() {
            return None;
        }
        x.m.props[i].0 = s("renamed");
        let (j, _, v) = x.f.properties.shift_remove_full("s").expect("in step");
        x.f.properties.shift_insert(j, s("renamed"), v);
        Some(())
    }),
    ("move first to last", |x| {
        let n = x.m.props.len();
        if n < 2 {
            return None;
        }
        let p = x.m.props.remove(0);
        x.m.props.push(p);
        x.f.properties.move_index(0, n - 1);
        Some(())
    }),
    ("reverse", |x| {
        x.m.props.reverse();
        x.f.properties.reverse();
        Some(())
    }),
    ("sort", |x| {
        x.m.props.sort_by(|a, b| a.0.cmp(&b.0));
        x.f.properties.sort_keys();
        Some(())
    }),
    ("keep some", |x| {
        x.m.props.retain(|p| p.0.len() > 1);
        x.f.properties.retain(|k, _| k.len() > 1);
        Some(())
    }),
    ("clear", |x| {
        x.m.props.clear();
        x.f.properties.clear();
        Some(())
    }),
    ("copy", |x| {
        if x.at("copy").is_some() {
            return None;
        }
        let p = x.mp("st")?.clone();
        let v = x.lp("st").clone();
        x.m.props.push((s("copy"), p));
        x.f.properties.insert(s("copy"), v);
        Some(())
    }),
    ("exchange two", |x| {
        let (a, b) = (x.at("st")?, x.at("set")?);
        x.m.props.swap(a, b);
        x.f.properties.swap_indices(a, b);
        Some(())
    }),
    // Values.
    ("number", |x| {
        let P::I32(v) = x.mp("i")? else { return None };
        *v = v.wrapping_add(257);
        let v = &mut x.lp("i").get_int_mut().expect("in step").value;
        *v = v.wrapping_add(257);
        Some(())
    }),
    ("longer string", |x| {
        let P::Str(v) = x.mp("s")? else { return None };
        *v = Some("longer ".repeat(20));
        x.lp("s").get_str_mut().expect("in step").value = Some("longer ".repeat(20));
        Some(())
    }),
    ("no string", |x| {
        let P::Str(v) = x.mp("s")? else { return None };
        *v = None;
        x.lp("s").get_str_mut().expect("in step").value = None;
        Some(())
    }),
    ("string with more characters", |x| {
        let P::Str(v) = x.mp("s")? else { return None };
        let t = format!("{}ß𝄞", v.clone().unwrap_or_default());
        *v = Some(t.clone());
        x.lp("s").get_str_mut().expect("in step").value = Some(t);
        Some(())
    }),
    ("name", |x| {
        let P::Name(_, v) = x.mp("name")? else {
            return None;
        };
        *v = Some(s("other name"));
        x.lp("name").get_name_mut().expect("in step").value = Some(s("other name"));
        Some(())
    }),
    ("flag", |x| {
        let P::Bool(v) = x.mp("flag")? else {
            return None;
        };
        *v = !*v;
        let v = &mut x.lp("flag").get_bool_mut().expect("in step").value;
        *v = !*v;
        Some(())
    }),
    ("byte to label", |x| {
        let P::Byte(n, v) = x.mp("byte")? else {
            return None;
        };
        *n = Some(s("EColour"));
        *v = ByteVal::Label(s("EColour::Red"));
        let b = x.lp("byte").get_byte_mut().expect("in step");
        b.name = Some(s("EColour"));
        b.value = BytePropertyValue::Namespaced(s("EColour::Red"));
        Some(())
    }),
    ("label to byte", |x| {
        let P::Byte(_, v) = x.mp("byte")? else {
            return None;
        };
        *v = ByteVal::Plain(77);
        x.lp("byte").get_byte_mut().expect("in step").value = BytePropertyValue::Byte(77);
        Some(())
    }),
    ("enum value", |x| {
        let P::Enum(_, v) = x.mp("enum")? else {
            return None;
        };
        v.push_str("::B");
        x.lp("enum")
            .get_enum_mut()
            .expect("in step")
            .value
            .push_str("::B");
        Some(())
    }),
    ("text flags", |x| {
        let P::Text(t) = x.mp("text")? else {
            return None;
        };
        t.flags ^= 0x12;
        x.lp("text").get_text_mut().expect("in step").value.flags ^= 0x12;
        Some(())
    }),
    ("text source", |x| {
        let P::Text(t) = x.mp("text")? else {
            return None;
        };
        let Hist::Base(_, _, v) = &mut t.hist else {
            return None;
        };
        *v = Some(s("changed source"));
        match &mut x.lp("text").get_text_mut().expect("in step").value.history {
            FTextHistory::Base { source_string, .. } => *source_string = Some(s("changed source")),
            _ => unreachable!("in step"),
        }
        Some(())
    }),
    ("text of another kind", |x| {
        let P::Text(t) = x.mp("text")? else {
            return None;
        };
        t.hist = Hist::Table(s("table"), s("key"));
        x.lp("text").get_text_mut().expect("in step").value.history =
            FTextHistory::StringTableEntry {
                table_id: s("table"),
                key: s("key"),
            };
        Some(())
    }),
    ("delegates", |x| {
        let P::MInline(l) = x.mp("multi")? else {
            return None;
        };
        l.push((s("obj"), s("fn")));
        x.lp("multi")
            .get_multicast_inline_delegate_mut()
            .expect("in step")
            .value
            .delegates
            .push(gvas::properties::delegate_property::Delegate::new(
                s("obj"),
                s("fn"),
            ));
        Some(())
    }),
    ("field path", |x| {
        let P::FieldPath(l, o) = x.mp("path")? else {
            return None;
        };
        l.insert(0, s("p"));
        o.push('x');
        let v = &mut x.lp("path").get_field_path_mut().expect("in step").value;
        v.path.insert(0, s("p"));
        v.resolved_owner.push('x');
        Some(())
    }),
    // Structs.
    ("field value", |x| {
        let f = x.fields()?;
        let P::I32(v) = &mut f.iter_mut().find(|f| f.0 == "x")?.1 else {
            return None;
        };
        *v -= 1000;
        x.lfields()
            .get_mut("x")
            .and_then(|l| l[0].get_int_mut())
            .expect("in step")
            .value -= 1000;
        Some(())
    }),
    ("new field", |x| {
        let f = x.fields()?;
        if f.iter().any(|f| f.0 == "fresh") {
            return None;
        }
        f.push((s("fresh"), P::Str(Some(s("field")))));
        x.lfields()
            .insert(s("fresh"), vec![StrProperty::from("field").into()]);
        Some(())
    }),
    ("remove field", |x| {
        let f = x.fields()?;
        f.iter().position(|f| f.0 == "x")?;
        f.retain(|f| f.0 != "x");
        x.lfields().shift_remove("x").expect("in step");
        Some(())
    }),
    ("repeat field", |x| {
        let f = x.fields()?;
        let i = f.iter().rposition(|f| f.0 == "x")?;
        f.insert(i + 1, (s("x"), P::I32(-9)));
        x.lfields()
            .get_mut("x")
            .expect("in step")
            .push(IntProperty::new(-9).into());
        Some(())
    }),
    ("component", |x| {
        let f = x.fields()?;
        let P::Struct(_, _, SV::VF(v)) = &mut f.iter_mut().find(|f| f.0 == "v")?.1 else {
            return None;
        };
        v[1] = 0x8000_0000;
        x.lfields()
            .get_mut("v")
            .and_then(|l| l[0].get_struct_mut())
            .and_then(|s| s.value.get_vector_f_mut())
            .expect("in step")
            .y = OrderedFloat(-0.0);
        Some(())
    }),
    ("struct identifier", |x| {
        let P::Struct(_, g, _) = x.mp("st")? else {
            return None;
        };
        g[5] ^= 0x40;
        x.lp("st").get_struct_mut().expect("in step").guid.0[5] ^= 0x40;
        Some(())
    }),
    ("struct in a struct", |x| {
        let f = x.fields()?;
        let inner = SV::Custom(f.clone());
        if f.len() > 12 {
            return None;
        }
        *f = vec![(s("in"), P::Struct(s("In"), [0; 16], inner))];
        let l = x.lfields();
        let old = std::mem::replace(l, HashableIndexMap::new());
        l.insert(
            s("in"),
            vec![StructProperty::new(
                Guid::default(),
                s("In"),
                StructPropertyValue::CustomStruct(old),
            )
            .into()],
        );
        Some(())
    }),
    // Containers.
    ("array push", |x| ints(x, &|v| v.push(-1))),
    ("array shorten", |x| {
        ints(x, &|v| {
            if !v.is_empty() {
                v.remove(0);
            }
        })
    }),
    ("array clear", |x| ints(x, &|v| v.clear())),
    ("array sort", |x| ints(x, &|v| v.sort())),
    ("array of another type", |x| {
        let P::Array(a) = x.mp("arr")? else {
            return None;
        };
        a.ty = s("StrProperty");
        a.el = vec![P::Str(None), P::Str(Some(s("é")))];
        *x.lp("arr").get_array_mut().expect("in step") = ArrayProperty::Strings {
            strings: vec![None, Some(s("é"))],
        };
        Some(())
    }),
    ("struct array push", |x| {
        let (a, l) = structs(x)?;
        let e = a.el.first()?.clone();
        a.el.push(e);
        l.push(l[0].clone());
        Some(())
    }),
    ("struct array element", |x| {
        let (a, l) = structs(x)?;
        let P::Body(SV::Custom(f)) = a.el.last_mut()? else {
            return None;
        };
        f[0].1 = P::U16(0xBEEF);
        match l.last_mut()? {
            StructPropertyValue::CustomStruct(m) => m[0] = vec![UInt16Property::new(0xBEEF).into()],
            _ => unreachable!("in step"),
        }
        Some(())
    }),
    ("struct array clear", |x| {
        let (a, l) = structs(x)?;
        a.el.clear();
        l.clear();
        Some(())
    }),
    ("map insert", |x| {
        entries(x, &|m| {
            m.insert(s("zz"), 9);
        })
    }),
    ("map change", |x| {
        entries(x, &|m| {
            if let Some((_, v)) = m.get_index_mut(0) {
                *v += 1;
            }
        })
    }),
    ("map remove", |x| {
        entries(x, &|m| {
            m.shift_remove_index(0);
        })
    }),
    ("map flags", |x| {
        let P::Map(_, _, f, _) = x.mp("map")? else {
            return None;
        };
        *f ^= 3;
        let flags = *f;
        let m = x.lp("map").get_map_mut().expect("in step");
        let (k, v, _, e) = bridge::map_entries(m);
        *m = MapProperty::new(k, v, flags, HashableIndexMap(e.into_iter().collect()));
        Some(())
    }),
    ("set", |x| {
        let P::Set(_, f, l) = x.mp("set")? else {
            return None;
        };
        *f += 1;
        l.insert(0, P::Name(0, Some(s("in set"))));
        let v = x.lp("set").get_set_mut().expect("in step");
        v.allocation_flags += 1;
        v.properties.insert(
            0,
            gvas::properties::name_property::NameProperty::from("in set").into(),
        );
        Some(())
    }),
    // The header.
    ("class name", |x| {
        x.m.hdr.class.push_str("_C");
        match &mut x.f.header {
            GvasHeader::Version2 {
                save_game_class_name,
                ..
            }
            | GvasHeader::Version3 {
                save_game_class_name,
                ..
            } => save_game_class_name.push_str("_C"),
        }
        Some(())
    }),
    ("custom version", |x| {
        let g = [0x77; 16];
        let v = match &mut x.f.header {
            GvasHeader::Version2 {
                custom_versions, ..
            }
            | GvasHeader::Version3 {
                custom_versions, ..
            } => custom_versions,
        };
        if v.shift_remove(&Guid(g)).is_some() {
            x.m.hdr.versions.retain(|e| e.0 != g);
        } else {
            v.insert(Guid(g), 3);
            x.m.hdr.versions.push((g, 3));
        }
        Some(())
    }),
    ("engine version", |x| {
        x.m.hdr.patch += 1;
        x.m.hdr.branch = s("ветка");
        match &mut x.f.header {
            GvasHeader::Version2 { engine_version, .. }
            | GvasHeader::Version3 { engine_version, .. } => {
                engine_version.patch += 1;
                engine_version.branch = s("ветка");
            }
        }
        Some(())
    }),
    ("header version", |x| {
        let (ue5, h) = match x.f.header.clone() {
            GvasHeader::Version2 {
                package_file_version,
                engine_version,
                custom_version_format,
                custom_versions,
                save_game_class_name,
            } => (
                Some(1009),
                GvasHeader::Version3 {
                    package_file_version,
                    package_file_version_ue5: 1009,
                    engine_version,
                    custom_version_format,
                    custom_versions,
                    save_game_class_name,
                },
            ),
            GvasHeader::Version3 {
                package_file_version,
                engine_version,
                custom_version_format,
                custom_versions,
                save_game_class_name,
                ..
            } => (
                None,
                GvasHeader::Version2 {
                    package_file_version,
                    engine_version,
                    custom_version_format,
                    custom_versions,
                    save_game_class_name,
                },
            ),
        };
        x.m.hdr.ue5 = ue5;
        x.f.header = h;
        Some(())
    }),
    ("container mode", |x| {
        x.m.wrap = match x.m.wrap {
            Wrap::Plain => Wrap::PalNone,
            Wrap::PalNone => Wrap::PalZlib,
            Wrap::PalZlib => Wrap::PalTwice,
            Wrap::PalTwice => Wrap::Plain,
        };
        let v: DeserializedGameVersion = bridge::mode(x.m.wrap);
        x.f.deserialized_game_version = v;
        Some(())
    }),
];

const STARTS: usize = 4;
fn start(i: usize) -> (File, Form) {
    let rich = vec![
        (s("i"), P::I32(0x0102_0304)),
        (s("s"), P::Str(Some(s("text")))),
        (
            s("st"),
            P::Struct(
                s("Thing"),
                [0; 16],
                SV::Custom(vec![
                    (s("x"), P::I32(5)),
                    (s("x"), P::I32(6)),
                    (s("longer"), P::Str(None)),
                    (
                        s("v"),
                        P::Struct(s("Vector"), [0; 16], SV::VF([1, 2, 0x3f80_0000])),
                    ),
                ]),
            ),
        ),
        (
            s("arr"),
            P::Array(Arr {
                ty: s("IntProperty"),
                info: None,
                el: vec![P::I32(9), P::I32(-3)],
            }),
        ),
        (
            s("sarr"),
            P::Array(Arr {
                ty: s("StructProperty"),
                info: Some((s("sarr"), s("Item"), [1; 16])),
                el: vec![
                    P::Body(SV::Custom(vec![
                        (s("q"), P::I8(1)),
                        (s("r"), P::Bool(true)),
                    ])),
                    P::Body(SV::Custom(vec![
                        (s("q"), P::I8(2)),
                        (s("r"), P::Bool(false)),
                    ])),
                ],
            }),
        ),
        (
            s("map"),
            P::Map(
                s("StrProperty"),
                s("IntProperty"),
                0,
                vec![
                    (P::Str(Some(s("b"))), P::I32(1)),
                    (P::Str(Some(s("a"))), P::I32(2)),
                ],
            ),
        ),
        (
            s("set"),
            P::Set(s("NameProperty"), 0, vec![P::Name(0, Some(s("n")))]),
        ),
        (
            s("text"),
            P::Text(Text {
                flags: 2,
                hist: Hist::Base(Some(s("ns")), Some(s("k")), Some(s("src"))),
            }),
        ),
        (s("name"), P::Name(0, Some(s("nm")))),
        (s("flag"), P::Bool(true)),
        (s("byte"), P::Byte(Some(s("None")), ByteVal::Plain(3))),
        (s("enum"), P::Enum(Some(s("EKind")), s("EKind::A"))),
        (s("multi"), P::MInline(vec![(s("o"), s("f"))])),
        (s("path"), P::FieldPath(vec![s("a")], s("own"))),
        (s("unk"), P::Unknown(s("StrangeProperty"), vec![1, 2, 3])),
        (s("f"), P::F32(0x8000_0000)),
    ];
    let file = |props, wrap| File {
        wrap,
        hdr: plain_header(0),
        props,
    };
    match i {
        0 => (file(rich, Wrap::Plain), Form::Compact),
        1 => (file(rich, Wrap::PalZlib), Form::Generic),
        2 => {
            // Hostile order: everything edited sits last.
            let mut r = rich;
            r.reverse();
            (file(r, Wrap::PalNone), Form::Generic)
        }
        _ => (
            file(vec![(s("s"), P::Str(None))], Wrap::PalTwice),
            Form::Compact,
        ),
    }
}

/// The tree and its bytes are those of the model; saving changes nothing.
fn agrees(x: &Pair, done: &[&str]) -> Out {
    let at = |m: String| Stop::Fail(format!("after {done:?}: {m}"));
    bridge::same_file(&x.m, &x.f).map_err(at)?;
    let before = x.f.clone();
    let enc = encode_file(&x.m);
    let mut last: Option<Vec<u8>> = None;
    for _ in 0..2 {
        let out = match write(&x.f)? {
            Ok(o) => o,
            Err(e) => return Err(at(format!("cannot be saved: {e}"))),
        };
        if let Some(l) = &last {
            ensure!(
                *l == out,
                "after {done:?}: saving twice gives different bytes"
            );
        }
        let plain = match x.m.wrap {
            Wrap::Plain => out.clone(),
            w => match unwrap_container(&out) {
                Some((v, p)) if v == w => p,
                _ => return Err(at("container cannot be taken apart".into())),
            },
        };
        ensure!(
            plain == enc.buf,
            "after {done:?}: saved bytes differ, {}",
            first_difference(&enc.buf, &plain)
        );
        ensure!(before == x.f, "after {done:?}: saving changed the tree");
        last = Some(out);
    }
    bridge::same_file(&x.m, &x.f).map_err(at)
}

fn history(ch: &mut Ch, obs: &mut Obs, starts: usize, len: usize) -> Out {
    let (m, form) = start(ch.free(starts));
    let each = ch.free(2) == 0;
    let f = bridge::file(&m, form);
    let mut x = Pair { m, f };
    let mut done = Vec::new();
    for _ in 0..len {
        let (name, op) = OPS[ch.free(OPS.len())];
        done.push(name);
        let y = &mut x;
        match call(move || op(y)) {
            Ok(Some(())) => {}
            Ok(None) => return Err(Stop::Prune),
            Err(Stop::Fail(m)) => return fail(format!("after {done:?}: {m}")),
            Err(e) => return Err(e),
        }
        obs.calls(1);
        obs.outcome(name);
        // Without a save in between, or with one after every step.
        if each {
            agrees(&x, &done)?;
            obs.calls(2);
            obs.validated(1);
        }
    }
    agrees(&x, &done)?;
    let mut y = Pair {
        m: x.m.clone(),
        f: x.f.clone(),
    };
    if let Err(e) = reload(&mut y) {
        return fail(format!("after {done:?}: {e}"));
    }
    bridge::same_file(&y.m, &y.f)
        .map_err(|m| Stop::Fail(format!("after {done:?} and a reload: {m}")))?;
    obs.state(&x.m);
    obs.calls(4);
    obs.validated(2);
    obs.show(|| format!("{done:?}"));
    Ok(())
}

// ---------------------------------------------- anything for anything ----

const PLACES: usize = 6;

/// A file with a property in a place.
fn holding(place: usize, layout: usize, name: &str, p: P) -> File {
    let mut l = vec![
        (s("p"), P::I32(0x0102_0304)),
        (s("z"), P::Str(Some(s("t")))),
    ];
    if place == 2 {
        l.insert(1, (s(name), P::I32(4)));
        l.insert(2, (s(name), p));
    } else {
        l.insert(1, (s(name), p));
    }
    let body = |l| P::Body(SV::Custom(l));
    let st = s("StructProperty");
    let whole = match place {
        0 => {
            return File {
                wrap: Wrap::Plain,
                hdr: plain_header(layout),
                props: l,
            }
        }
        1 | 2 => P::Struct(s("S"), [0; 16], SV::Custom(l)),
        3 => P::Array(Arr {
            ty: st,
            info: Some((s("s"), s("S"), [0; 16])),
            el: vec![body(vec![(s("q"), P::I8(1))]), body(l)],
        }),
        4 => P::Map(
            s("StrProperty"),
            st,
            0,
            vec![(P::Str(Some(s("k"))), body(l))],
        ),
        _ => P::Map(s("IntProperty"), st, 0, vec![(P::I32(1), body(l))]),
    };
    File {
        wrap: Wrap::Plain,
        hdr: plain_header(layout),
        props: vec![(s("s"), whole), (s("e"), P::Bool(true))],
    }
}

/// The fields around that property.
fn holder(f: &mut GvasFile) -> Option<&mut HashableIndexMap<String, Vec<Property>>> {
    let v = match f.properties.get_mut("s")? {
        Property::StructProperty(v) => &mut v.value,
        Property::ArrayProperty(ArrayProperty::Structs { structs, .. }) => structs.last_mut()?,
        Property::MapProperty(m) => {
            let p = match m {
                MapProperty::StrProperty { str_props, .. } => str_props.get_index_mut(0)?.1,
                MapProperty::Properties { value, .. } => value.get_index_mut(0)?.1,
                _ => return None,
            };
            match p {
                Property::StructPropertyValue(v) => v,
                Property::StructProperty(v) => &mut v.value,
                _ => return None,
            }
        }
        _ => return None,
    };
    v.get_custom_struct_mut()
}

/// Replaces a property by another and back, in a tree that was read.
fn replaced(ch: &mut Ch, place: usize, layout: usize, a: P, b: P, obs: &mut Obs) -> Out {
    let form = [Form::Compact, Form::Generic][ch.free(2)];
    let m = holding(place, layout, "a", a.clone());
    let d = doc(m.clone())?;
    let f = match read(&d.bytes, m.wrap, &d.hints)? {
        Ok(f) => f,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    let mut x = Pair { m, f };
    obs.state(&(place, &a, &b));
    obs.show(|| format!("{} by {} in {place}", brief(&a), brief(&b)));
    for (p, step) in [(&b, "replacing"), (&a, "putting back")] {
        let v = bridge::prop(p, form);
        let at = match place {
            0 => x.f.properties.get_mut("a"),
            _ => holder(&mut x.f).and_then(|h| h.get_mut("a")?.last_mut()),
        };
        match at {
            Some(q) => *q = v,
            None => return fail(format!("the property cannot be reached in place {place}")),
        }
        x.m = holding(place, layout, "a", p.clone());
        // In a tree of its own it has to be a save.
        doc(x.m.clone())?;
        agrees(&x, &[step]).map_err(|e| match e {
            Stop::Fail(m) => Stop::Fail(format!("{m}; {} by {}", brief(&a), brief(&b))),
            e => e,
        })?;
        if let Err(e) = reload(&mut x) {
            return fail(format!("{step} {} by {}: {e}", brief(&a), brief(&b)));
        }
    }
    obs.calls(7);
    obs.validated(4);
    bridge::same_file(&x.m, &x.f).map_err(Stop::Fail)
}

/// Changes the value that stands last.
fn beside(m: File, obs: &mut Obs) -> Out {
    let d = doc(m.clone())?;
    let f = match read(&d.bytes, m.wrap, &d.hints)? {
        Ok(f) => f,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    let mut x = Pair { m, f };
    let Some(at) = x.m.props.iter().position(|p| p.0 == "z") else {
        return Err(Stop::Prune);
    };
    x.m.props[at].1 = P::I32(-1);
    match x.f.properties.get_mut("z").and_then(|p| p.get_int_mut()) {
        Some(v) => v.value = -1,
        None => return fail("the value beside is missing"),
    }
    obs.calls(3);
    obs.validated(2);
    agrees(&x, &["a value beside"])
}

const NAMES: [&str; 14] = [
    "n",
    "",
    " ",
    "none",
    "NONE",
    "None ",
    "None\0",
    "a.b",
    "é",
    "p\0",
    "P",
    "StructProperty",
    "Nn",
    "zz",
];

/// Inserts, renames and removes fields under any name.
fn named(ch: &mut Ch, obs: &mut Obs) -> Out {
    let place = ch.free(PLACES);
    let name = NAMES[ch.free(NAMES.len())];
    let at = ch.free(3);
    let m = holding(place, 0, "a", P::Str(Some(s("v"))));
    let d = doc(m.clone())?;
    let f = match read(&d.bytes, m.wrap, &d.hints)? {
        Ok(f) => f,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    let mut x = Pair { m, f };
    let fields = |m: &mut File, f: &mut dyn FnMut(&mut Vec<(String, P)>)| {
        if place == 0 {
            return f(&mut m.props);
        }
        match &mut m.props[0].1 {
            P::Struct(_, _, SV::Custom(l)) => f(l),
            P::Array(a) => match a.el.last_mut() {
                Some(P::Body(SV::Custom(l))) => f(l),
                _ => unreachable!("place"),
            },
            P::Map(_, _, _, e) => match &mut e[0].1 {
                P::Body(SV::Custom(l)) => f(l),
                _ => unreachable!("place"),
            },
            _ => unreachable!("place"),
        }
    };
    obs.state(&(place, name, at));
    obs.show(|| format!("{name:?} in {place} at {at}"));
    let p = P::I16(0x1234);
    let v = bridge::prop(&p, Form::Compact);
    // Groups of the struct: a repeated name is one of them.
    let skip = if place == 2 && at == 2 { 1 } else { 0 };
    fields(&mut x.m, &mut |l| l.insert(at + skip, (s(name), p.clone())));
    let mut missing = false;
    match place {
        0 => {
            x.f.properties.shift_insert(at, s(name), v);
        }
        _ => match holder(&mut x.f) {
            Some(h) => {
                h.shift_insert(at, s(name), vec![v]);
            }
            None => missing = true,
        },
    }
    ensure!(!missing, "the fields cannot be reached in place {place}");
    let said = |e| match e {
        Stop::Fail(m) => Stop::Fail(format!("{m}; name {name:?} in place {place}")),
        e => e,
    };
    agrees(&x, &["insert"]).map_err(said)?;
    if let Err(e) = reload(&mut x) {
        return fail(format!("inserting {name:?} in place {place}: {e}"));
    }
    agrees(&x, &["insert", "reload"]).map_err(said)?;
    fields(&mut x.m, &mut |l| {
        l.remove(at + skip);
    });
    match place {
        0 => {
            x.f.properties.shift_remove(name);
        }
        _ => {
            holder(&mut x.f).map(|h| h.shift_remove(name));
        }
    }
    agrees(&x, &["insert", "reload", "remove"]).map_err(said)?;
    obs.calls(9);
    obs.validated(6);
    Ok(())
}

// ------------------------------------------------------------- accessors ----

macro_rules! accessors {
    ($t:ident, $($variant:ident $get:ident $get_mut:ident),* $(,)?) => {
        |p: &mut $t| -> Vec<(&'static str, bool, bool, bool)> {
            let mut out = Vec::new();
            $({
                // Where the value is, and where each accessor says it is.
                let own = match &*p {
                    $t::$variant(x) => Some(x as *const _ as usize),
                    #[allow(unreachable_patterns)]
                    _ => None,
                };
                let got = p.$get().map(|x| x as *const _ as usize);
                let got_mut = p.$get_mut().map(|x| x as *const _ as usize);
                out.push((stringify!($get), own.is_some(), got == own, got_mut == own));
            })*
            out
        }
    };
}

fn accessors(obs: &mut Obs, p: &P) -> Out {
    let all = accessors!(Property,
        ArrayProperty get_array get_array_mut,
        EnumProperty get_enum get_enum_mut,
        BoolProperty get_bool get_bool_mut,
        ByteProperty get_byte get_byte_mut,
        DoubleProperty get_f64 get_f64_mut,
        FloatProperty get_f32 get_f32_mut,
        Int16Property get_i16 get_i16_mut,
        Int64Property get_i64 get_i64_mut,
        Int8Property get_i8 get_i8_mut,
        IntProperty get_int get_int_mut,
        UInt16Property get_u16 get_u16_mut,
        UInt32Property get_u32 get_u32_mut,
        UInt64Property get_u64 get_u64_mut,
        MapProperty get_map get_map_mut,
        NameProperty get_name get_name_mut,
        ObjectProperty get_object_ref get_object_ref_mut,
        DelegateProperty get_delegate get_delegate_mut,
        MulticastInlineDelegateProperty get_multicast_inline_delegate get_multicast_inline_delegate_mut,
        MulticastSparseDelegateProperty get_multicast_sparse_delegate get_multicast_sparse_delegate_mut,
        FieldPathProperty get_field_path get_field_path_mut,
        SetProperty get_set get_set_mut,
        StrProperty get_str get_str_mut,
        StructProperty get_struct get_struct_mut,
        TextProperty get_text get_text_mut,
        UnknownProperty get_unknown get_unknown_mut,
    );
    let inner = accessors!(StructPropertyValue,
        VectorF get_vector_f get_vector_f_mut,
        VectorD get_vector_d get_vector_d_mut,
        RotatorF get_rotator_f get_rotator_f_mut,
        RotatorD get_rotator_d get_rotator_d_mut,
        QuatF get_quat_f get_quat_f_mut,
        QuatD get_quat_d get_quat_d_mut,
        DateTime get_date_time get_date_time_mut,
        IntPoint get_int_point get_int_point_mut,
        Guid get_guid get_guid_mut,
        CustomStruct get_custom_struct get_custom_struct_mut,
    );
    let mut q = bridge::prop(p, Form::Compact);
    let mut res = call(|| all(&mut q))?;
    let yes = res.iter().filter(|r| r.1).count();
    ensure!(
        yes == 1 || matches!(q, Property::StructPropertyValue(_)),
        "no accessor for {}",
        brief(p)
    );
    match &mut q {
        Property::StructPropertyValue(v) => res.extend(call(|| inner(v))?),
        Property::StructProperty(v) => res.extend(call(|| inner(&mut v.value))?),
        _ => {}
    }
    for (name, own, get, get_mut) in &res {
        ensure!(
            *get,
            "{name} {} {}",
            if *own {
                "does not give"
            } else {
                "gives something for"
            },
            brief(p)
        );
        ensure!(
            *get_mut,
            "{name}_mut {} {}",
            if *own {
                "does not give"
            } else {
                "gives something for"
            },
            brief(p)
        );
        obs.outcome(if *own { "own type" } else { "another type" });
    }
    // Looking, even with leave to change, changes nothing.
    bridge::same("", p, &q).map_err(|m| Stop::Fail(format!("after every accessor: {m}")))?;
    obs.calls(2 * res.len() as u64);
    obs.validated(2 * res.len() as u64 + 1);
    Ok(())
}

fn c20(t: Tier) -> Vec<Phase> {
    vec![
        phase("single edits", 0, |ch, obs| history(ch, obs, STARTS, 1)),
        phase("two edits", 0, |ch, obs| history(ch, obs, STARTS, 2)),
        phase("three edits", 0, move |ch, obs| {
            history(ch, obs, t.pick(1, STARTS), 3)
        }),
        phase("four edits", 0, |ch, obs| history(ch, obs, 1, 4)),
        phase("field names", 0, named),
        phase("anything for anything", 0, move |ch, obs| {
            let cfg = Cfg {
                names: false,
                ..Cfg::BASE
            };
            let place = ch.free(PLACES);
            let picks = [pick_kind as Pick, pick_struct, pick_container, pick_text];
            let (layout, a) = picks[ch.free(4)](ch, &cfg);
            let k = ch.free(KINDS.len());
            let b = Gen {
                ch,
                cfg,
                lay: Layout::of(&versions(layout, 7)),
            }
            .prop_of(KINDS[k], 1);
            replaced(ch, place, layout, a, b, obs)
        }),
        phase("counts", 0, move |ch, obs| {
            // Long lists that become longer and short again, or stay as they are.
            let kind = ch.free(63);
            let n = [2, 17, 64, 255, 1000, 65_535][ch.free(6)];
            if kind > 60 {
                return beside(counted(kind, n, &mut Ch::new(&[])), obs);
            }
            let p = |n| counted(kind, n, &mut Ch::new(&[])).props.swap_remove(0).1;
            let (a, b) = (p(n), p(n + 1));
            if n < 2000 || t == Tier::Thorough {
                replaced(ch, 0, 0, a, b.clone(), obs)?;
            } else if ch.free(2) > 0 {
                return Err(Stop::Prune);
            }
            beside(one(0, Wrap::Plain, "a", b), obs)
        }),
        phase("accessors", 0, |ch, obs| {
            let cfg = Cfg {
                names: false,
                ..Cfg::BASE
            };
            let pick = [pick_kind as Pick, pick_struct, pick_container, pick_text][ch.free(4)];
            let (_, p) = pick(ch, &cfg);
            obs.state(&p);
            obs.show(|| brief(&p));
            accessors(obs, &p)?;
            if let P::Struct(_, _, v) = &p {
                accessors(obs, &P::Body(v.clone()))?;
            }
            Ok(())
        }),
    ]
    .into_iter()
    .filter(|p| t == Tier::Thorough || p.name != "four edits")
    .collect()
}
