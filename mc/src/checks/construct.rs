//! C17: constructors of containers.

use super::docs::*;
use super::roundtrip::first_difference;
use super::Check;
use crate::bridge::{self, Form};
use crate::decode::canon;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::map_property::MapProperty;
use gvas::properties::set_property::SetProperty;
use gvas::properties::Property;
use gvas::types::map::HashableIndexMap;
use gvas::types::Guid;
use std::collections::HashSet;
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C17",
    level: "model_checking",
    rule: "one case per choice sequence: a declared type, struct information or flags, and a list of elements or entries from an alphabet of all property kinds, passed to the constructor; the result is compared with the list and its bytes with the reference encoding",
    assumptions: &[],
    phases: c17,
}];

/// Elements of every kind. Those that differ only in a part that is not stored
/// in containers come next to each other.
pub fn alphabet() -> Vec<P> {
    let s = |x: &str| Some(x.to_string());
    let base = |x: &str| Text {
        flags: 0,
        hist: Hist::Base(None, None, s(x)),
    };
    let custom = SV::Custom(vec![("f".into(), P::I32(9))]);
    vec![
        P::I32(0),
        P::I32(-7),
        P::Bool(true),
        P::Bool(false),
        P::Str(s("a")),
        P::Str(s("")),
        P::Str(None),
        P::Str(s("ж")),
        P::Name(0, s("a")),
        P::Name(1, s("a")),
        P::Name(0, None),
        P::Name(0, s("")),
        P::Enum(None, "a".into()),
        P::Enum(s("T"), "a".into()),
        P::Enum(s(""), "a".into()),
        P::Enum(None, "".into()),
        P::Byte(None, ByteVal::Plain(0)),
        P::Byte(None, ByteVal::Plain(200)),
        P::Byte(s("B"), ByteVal::Plain(200)),
        P::Byte(None, ByteVal::Label("L".into())),
        P::Byte(s("B"), ByteVal::Label("L".into())),
        P::F32(0),
        P::F32(0x8000_0000),
        P::F32(0x7fc1_2345),
        P::F32(0x3fc0_0001),
        P::F64(0),
        P::F64(1 << 63),
        P::I8(-1),
        P::I16(-2),
        P::U16(3),
        P::U32(4),
        P::I64(-5),
        P::U64(6),
        P::Object("a".into()),
        P::Delegate("a".into(), "b".into()),
        P::MInline(vec![("a".into(), "b".into())]),
        P::MSparse(vec![]),
        P::FieldPath(vec!["a".into()], "b".into()),
        P::Text(base("a")),
        P::Text(Text {
            flags: 5,
            hist: Hist::Empty,
        }),
        P::Body(SV::Guid([7; 16])),
        P::Body(SV::VF([0, 0x8000_0000, 1])),
        P::Body(custom.clone()),
        P::Body(SV::Custom(vec![])),
        P::Struct("S".into(), [1; 16], custom),
        P::Struct("Guid".into(), [0; 16], SV::Guid([7; 16])),
        P::Unknown("MysteryProperty".into(), vec![1, 2]),
        P::Array(Arr {
            ty: "IntProperty".into(),
            info: None,
            el: vec![P::I32(1)],
        }),
        P::Set("IntProperty".into(), 0, vec![P::I32(1)]),
        P::Map(
            "IntProperty".into(),
            "BoolProperty".into(),
            0,
            vec![(P::I32(1), P::Bool(true))],
        ),
    ]
}

pub fn types() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for k in ELEMENTS.iter().chain(&KINDS) {
        let t = type_of(k);
        if !v.contains(&t) {
            v.push(t);
        }
    }
    v.push(String::new());
    v.push("boolproperty".into());
    v
}

/// What the constructed value writes, with and without its header.
fn bytes(p: &Property, want: &P, at: &dyn Fn() -> String) -> Out {
    let vers = bridge::versions(&[]);
    let mut e = Enc::new(Layout::default(), false);
    e.prop_with_type(want);
    let mut b = Enc::new(Layout::default(), false);
    b.body(want);
    for (header, want) in [(true, &e.buf), (false, &b.buf)] {
        match call(|| bridge::write_prop(p, header, &vers))? {
            Ok((got, n)) => ensure!(
                got == *want && n == want.len(),
                "{} writes other bytes (reported {n}), {}",
                at(),
                first_difference(want, &got)
            ),
            Err(x) => return fail(format!("{} cannot be written: {x}", at())),
        }
    }
    Ok(())
}

fn array_case(ty: &str, info: usize, el: &[&P], obs: &mut Obs) -> Out {
    let list: Vec<P> = el.iter().map(|p| (*p).clone()).collect();
    let info = match info {
        0 => None,
        1 => Some(("F".to_string(), "S".to_string(), [0u8; 16])),
        _ => Some(("".to_string(), "Guid".to_string(), [9u8; 16])),
    };
    let given: Vec<Property> = list
        .iter()
        .map(|p| bridge::prop(p, Form::Compact))
        .collect();
    let at = || format!("array of {ty:?} with {info:?} from {}", brief(&list));
    let got = call(|| {
        ArrayProperty::new(
            ty.to_string(),
            info.clone().map(|(a, b, g)| (a, b, Guid(g))),
            given,
        )
    })?;
    obs.calls(1);
    obs.validated(1);
    let structs = list.iter().all(|p| matches!(p, P::Body(_)));
    if info.is_some() && !(ty == "StructProperty" && structs) {
        ensure!(got.is_err(), "{} is not refused", at());
        obs.outcome("refused");
        return Ok(());
    }
    let got = match got {
        Ok(g) => g,
        // Structs without the information they need: either way is sound.
        Err(_) if ty == "StructProperty" && info.is_none() => {
            obs.outcome("refused");
            return Ok(());
        }
        Err(e) => return fail(format!("{} is refused: {e}", at())),
    };
    obs.outcome(match &got {
        ArrayProperty::Properties { .. } => "generic form",
        ArrayProperty::Structs { .. } => "struct form",
        _ => "compact form",
    });
    let want = P::Array(Arr {
        ty: ty.to_string(),
        info: info.clone(),
        el: list.clone(),
    });
    let got = Property::ArrayProperty(got);
    bridge::same("", &want, &got).map_err(|m| Stop::Fail(format!("{}: {m}", at())))?;
    bytes(&got, &want, &at)
}

fn map_case(kt: &str, vt: &str, flags: u32, ent: &[(&P, &P)], obs: &mut Obs) -> Out {
    let list: Vec<(P, P)> = ent
        .iter()
        .map(|(k, v)| ((*k).clone(), (*v).clone()))
        .collect();
    let mut seen = HashSet::new();
    if !list.iter().all(|(k, _)| seen.insert(canon(k))) {
        return Err(Stop::Prune);
    }
    let given: HashableIndexMap<Property, Property> = HashableIndexMap(
        list.iter()
            .map(|(k, v)| {
                (
                    bridge::prop(k, Form::Compact),
                    bridge::prop(v, Form::Compact),
                )
            })
            .collect(),
    );
    let at = || {
        format!(
            "map of {kt:?} to {vt:?}, flags {flags:#x}, from {}",
            brief(&list)
        )
    };
    ensure!(
        given.len() == list.len(),
        "different keys count as equal: {}",
        at()
    );
    let got = call(|| MapProperty::new(kt.to_string(), vt.to_string(), flags, given))?;
    obs.calls(1);
    obs.validated(1);
    obs.outcome(match &got {
        MapProperty::Properties { .. } => "generic form",
        _ => "compact form",
    });
    let want = P::Map(kt.to_string(), vt.to_string(), flags, list.clone());
    let got = Property::MapProperty(got);
    bridge::same("", &want, &got).map_err(|m| Stop::Fail(format!("{}: {m}", at())))?;
    bytes(&got, &want, &at)
}

fn set_case(ty: &str, flags: u32, el: &[&P], obs: &mut Obs) -> Out {
    let list: Vec<P> = el.iter().map(|p| (*p).clone()).collect();
    let given: Vec<Property> = list
        .iter()
        .map(|p| bridge::prop(p, Form::Compact))
        .collect();
    let at = || format!("set of {ty:?}, flags {flags:#x}, from {}", brief(&list));
    let got = call(|| SetProperty::new(ty.to_string(), flags, given))?;
    obs.calls(1);
    obs.validated(1);
    let want = P::Set(ty.to_string(), flags, list.clone());
    let got = Property::SetProperty(got);
    bridge::same("", &want, &got).map_err(|m| Stop::Fail(format!("{}: {m}", at())))?;
    bytes(&got, &want, &at)
}

/// A container of the grammar: the constructor gives what a reader gives.
fn whole(layout: usize, p: &P, obs: &mut Obs) -> Out {
    let vers = bridge::versions(&versions(layout, 7));
    let got = call(|| match p {
        P::Array(a) => ArrayProperty::new(
            a.ty.clone(),
            a.info.clone().map(|(a, b, g)| (a, b, Guid(g))),
            a.el.iter()
                .map(|e| bridge::prop(e, Form::Compact))
                .collect(),
        )
        .map(Property::from),
        P::Map(k, v, f, ent) => Ok(MapProperty::new(
            k.clone(),
            v.clone(),
            *f,
            HashableIndexMap(
                ent.iter()
                    .map(|(a, b)| {
                        (
                            bridge::prop(a, Form::Compact),
                            bridge::prop(b, Form::Compact),
                        )
                    })
                    .collect(),
            ),
        )
        .into()),
        P::Set(k, f, el) => Ok(SetProperty::new(
            k.clone(),
            *f,
            el.iter().map(|e| bridge::prop(e, Form::Compact)).collect(),
        )
        .into()),
        _ => unreachable!(),
    })?;
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail(format!("{} is refused: {e}", brief(p))),
    };
    bridge::same("", p, &got).map_err(Stop::Fail)?;
    ensure!(
        got == bridge::prop(p, Form::Compact),
        "constructed value is not the one a reader gives: {}",
        brief(p)
    );
    let mut e = Enc::new(Layout::of(&versions(layout, 7)), false);
    e.prop_with_type(p);
    match call(|| bridge::write_prop(&got, true, &vers))? {
        Ok((b, _)) => ensure!(
            b == e.buf,
            "{} writes other bytes, {}",
            brief(p),
            first_difference(&e.buf, &b)
        ),
        Err(x) => return fail(format!("{} cannot be written: {x}", brief(p))),
    }
    obs.calls(2);
    obs.validated(2);
    Ok(())
}

fn c17(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let abc = Arc::new(alphabet());
    let ty = Arc::new(types());
    let n = abc.len();

    let (a, tys) = (abc.clone(), ty.clone());
    out.push(phase("arrays", 0, move |ch, obs| {
        let ty = &tys[ch.free(tys.len())];
        let info = ch.free(3);
        let first = ch.free(n + 1);
        if first == 0 {
            obs.swept(1);
            return array_case(ty, info, &[], obs);
        }
        let x = &a[first - 1];
        obs.show(|| format!("arrays of {ty} starting with {}", brief(x)));
        array_case(ty, info, &[x], obs)?;
        for y in a.iter() {
            array_case(ty, info, &[x, y], obs)?;
        }
        obs.swept(n as u64 + 1);
        Ok(())
    }));

    let (a, tys) = (abc.clone(), ty.clone());
    out.push(phase("arrays of three", 0, move |ch, obs| {
        let ty = &tys[ch.free(tys.len())];
        let info = ch.free(t.pick(2, 3));
        let x = &a[ch.free(n)];
        // The declared type's own elements, then one of any kind anywhere.
        if t == Tier::Quick && x.type_name() != *ty {
            return Err(Stop::Prune);
        }
        obs.show(|| format!("arrays of {ty} starting with {}", brief(x)));
        let mut k = 0;
        for y in a.iter() {
            if t == Tier::Quick && y.type_name() != *ty {
                continue;
            }
            for z in a.iter() {
                array_case(ty, info, &[x, y, z], obs)?;
                array_case(ty, info, &[x, z, y], obs)?;
                array_case(ty, info, &[z, x, y], obs)?;
                k += 3;
            }
        }
        obs.swept(k);
        Ok(())
    }));

    let (a, tys) = (abc.clone(), ty.clone());
    out.push(phase("maps, one entry", 0, move |ch, obs| {
        let kt = &tys[ch.free(tys.len())];
        let vt = &tys[ch.free(tys.len())];
        let flags = [0, 1, 0x8000_0000][ch.free(3)];
        obs.show(|| format!("maps of {kt} to {vt}, flags {flags:#x}"));
        map_case(kt, vt, flags, &[], obs)?;
        for k in a.iter() {
            for v in a.iter() {
                map_case(kt, vt, flags, &[(k, v)], obs)?;
            }
        }
        obs.swept((n * n) as u64 + 1);
        Ok(())
    }));

    let (a, tys) = (abc.clone(), ty.clone());
    out.push(phase("maps, two entries", 0, move |ch, obs| {
        // One entry of the declared types, one of any, in both orders.
        let kt = &tys[ch.free(tys.len())];
        let vt = &tys[ch.free(tys.len())];
        let flags = [0, 2][ch.free(2)];
        let compact = ["EnumProperty", "NameProperty", "StrProperty"].contains(&kt.as_str());
        if t == Tier::Quick && !compact && kt != "IntProperty" && kt != "StructProperty" {
            return Err(Stop::Prune);
        }
        let k1 = &a[ch.free(n)];
        if k1.type_name() != *kt {
            return Err(Stop::Prune);
        }
        obs.show(|| format!("maps of {kt} to {vt}, flags {flags:#x}, from {}", brief(k1)));
        let mut m = 0;
        let vals = || a.iter().filter(|p| p.type_name() == *vt).take(t.pick(2, 9));
        for v1 in vals() {
            for k2 in a.iter() {
                if canon(k1) == canon(k2) {
                    continue;
                }
                for v2 in a.iter() {
                    map_case(kt, vt, flags, &[(k1, v1), (k2, v2)], obs)?;
                    map_case(kt, vt, flags, &[(k2, v2), (k1, v1)], obs)?;
                    m += 2;
                }
            }
        }
        obs.swept(m);
        Ok(())
    }));

    let (a, tys) = (abc.clone(), ty.clone());
    out.push(phase("maps, all keys of a type", 0, move |ch, obs| {
        // Every order of three, and all at once, of the keys of one type.
        let kt = &tys[ch.free(tys.len())];
        let vt = &tys[ch.free(tys.len())];
        let keys: Vec<&P> = {
            let mut v: Vec<&P> = Vec::new();
            for p in a.iter().filter(|p| p.type_name() == *kt) {
                if !v.iter().any(|q| canon(q) == canon(p)) {
                    v.push(p);
                }
            }
            v
        };
        let vals: Vec<&P> = a.iter().filter(|p| p.type_name() == *vt).collect();
        if keys.is_empty() || vals.is_empty() {
            return Err(Stop::Prune);
        }
        obs.show(|| format!("maps of {kt} to {vt}"));
        let ent: Vec<(&P, &P)> = keys
            .iter()
            .enumerate()
            .map(|(i, k)| (*k, vals[i % vals.len()]))
            .collect();
        map_case(kt, vt, 0, &ent, obs)?;
        let mut m = 1;
        for i in 0..ent.len() {
            for j in 0..ent.len() {
                for l in 0..ent.len() {
                    if i != j && j != l && i != l {
                        map_case(kt, vt, 0, &[ent[i], ent[j], ent[l]], obs)?;
                        m += 1;
                    }
                }
            }
        }
        obs.swept(m);
        Ok(())
    }));

    let (a, tys) = (abc, ty);
    out.push(phase("sets", 0, move |ch, obs| {
        let ty = &tys[ch.free(tys.len())];
        let flags = [0, 1, u32::MAX][ch.free(3)];
        let first = ch.free(n + 1);
        if first == 0 {
            obs.swept(1);
            return set_case(ty, flags, &[], obs);
        }
        let x = &a[first - 1];
        obs.show(|| format!("sets of {ty} starting with {}", brief(x)));
        set_case(ty, flags, &[x], obs)?;
        for y in a.iter() {
            set_case(ty, flags, &[x, y], obs)?;
            set_case(ty, flags, &[x, y, x], obs)?;
        }
        obs.swept(2 * n as u64 + 1);
        Ok(())
    }));

    // Whole containers of the grammar, in the form the reader produces.
    let cfg = Cfg {
        names: false,
        ..Cfg::BASE
    };
    out.push(phase("containers", t.pick(1, 2), move |ch, obs| {
        let (layout, p) = pick_container(ch, &cfg);
        if !crate::decode::well_formed(&p) {
            return Err(Stop::Prune);
        }
        obs.state(&(layout, &p));
        obs.show(|| brief(&p));
        whole(layout, &p, obs)
    }));

    // Many members, all of one type or one of them of another.
    let list = counts();
    out.push(phase("counts", 0, move |ch, obs| {
        let kind = ch.free(52);
        let n = list[ch.free(list.len())];
        let odd = ch.free(4);
        if odd > 0 && (n == 0 || n > t.pick(1_100, 70_000)) {
            return Err(Stop::Prune);
        }
        let mut f = counted(kind, n, &mut Ch::new(&[]));
        let mut p = f.props.swap_remove(0).1;
        obs.state(&(kind, n, odd));
        obs.show(|| format!("{n} members, {}", brief(&p)));
        if odd == 0 {
            return whole(0, &p, obs);
        }
        let at = [0, n / 2, n - 1][odd - 1];
        let other = |p: &P| match p {
            P::Bool(_) => P::I8(3),
            _ => P::Bool(true),
        };
        match &mut p {
            P::Array(a) => {
                a.el[at] = other(&a.el[at]);
                let el: Vec<&P> = a.el.iter().collect();
                array_case(&a.ty, a.info.is_some() as usize, &el, obs)
            }
            P::Set(ty, flags, el) => {
                el[at] = other(&el[at]);
                let el: Vec<&P> = el.iter().collect();
                set_case(ty, *flags, &el, obs)
            }
            P::Map(k, v, flags, ent) => {
                ent[at].1 = other(&ent[at].1);
                let ent: Vec<(&P, &P)> = ent.iter().map(|(k, v)| (k, v)).collect();
                map_case(k, v, *flags, &ent, obs)
            }
            _ => unreachable!(),
        }
    }));
    out
}
