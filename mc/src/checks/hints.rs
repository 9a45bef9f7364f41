//! C12: hints.

use super::docs::*;
use super::roundtrip::read;
use super::Check;
use crate::bridge::{self, Hints};
use crate::decode::{Dec, Why};
use crate::explore::*;
use crate::gen::Cfg;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::error::{DeserializeError, Error};
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C12",
    level: "model_checking",
    rule: "one case per choice sequence: a save derived from the format grammar; it is read with every subset of the hints it needs, with hints for other paths and with hints of other types",
    assumptions: &[],
    phases: c12,
}];

/// Types a hint can name; those that are not built in stand for any custom struct.
const TYPES: [&str; 20] = [
    "Vector2D",
    "Vector",
    "Rotator",
    "Quat",
    "DateTime",
    "Timespan",
    "Guid",
    "LinearColor",
    "IntPoint",
    "GameplayTagContainer",
    "HintedStruct",
    "",
    // Almost the name of a built-in one.
    " Guid",
    "Guid ",
    "guid",
    "GUID",
    "Guid\0",
    "FGuid",
    "Guid.Guid",
    "StructProperty",
];

/// Reads with these hints and compares with the reference decoder. Returns the
/// missing path.
fn compare(x: &Doc, h: &Hints) -> Result<Option<String>, Stop> {
    let mut d = Dec::new(&x.enc.buf, h, Layout::default());
    let want = d.file();
    let got = read(&x.bytes, x.file.wrap, h)?;
    match (want, got) {
        (Ok(mut w), Ok(g)) => {
            w.wrap = x.file.wrap;
            if !d.ambiguous {
                bridge::same_file(&w, &g).map_err(|m| Stop::Fail(format!("{m}; hints {h:?}")))?;
            }
            Ok(None)
        }
        (Err(Why::MissingHint(path, pos)), Err(e)) => {
            match &e {
                Error::Deserialize(DeserializeError::MissingHint(ty, p, at)) => ensure!(
                    **ty == *"StructProperty" && **p == *path && *at == pos as u64,
                    "missing hint reported for {ty} at path {p:?} position {at}, it is {path:?} at {pos}; hints {h:?}"
                ),
                e => {
                    return fail(format!(
                        "missing hint for {path:?} at {pos} is reported as {e:?}; hints {h:?}"
                    ))
                }
            }
            Ok(Some(path))
        }
        (Err(Why::MissingHint(path, _)), Ok(_)) => fail(format!(
            "accepted without the hint for {path:?}; hints {h:?}"
        )),
        (Err(_), Err(e)) => {
            ensure!(
                !matches!(e, Error::Deserialize(DeserializeError::MissingHint(..))),
                "needless hint asked for: {e}; hints {h:?}"
            );
            Ok(None)
        }
        (Err(w), Ok(_)) => fail(format!("accepted ({w:?}) with hints {h:?}")),
        (Ok(_), Err(e)) => fail(format!("rejected ({e}) with hints {h:?}")),
    }
}

fn needed(x: &Doc) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for u in &x.enc.untyped {
        if !v.contains(&u.path) {
            v.push(u.path.clone());
        }
    }
    v
}

fn oracle(max: usize) -> Oracle {
    Arc::new(move |_, x, obs| {
        let need = needed(x);
        let mut n = 0u64;
        // Every subset of the hints it needs.
        let k = need.len().min(max);
        let mut missing = 0;
        for set in 0..1u32 << k {
            let h: Hints = need
                .iter()
                .enumerate()
                .filter(|(i, _)| *i >= k || set >> i & 1 == 1)
                .map(|(_, p)| (p.clone(), x.hints[p].clone()))
                .collect();
            n += 1;
            if compare(x, &h)?.is_some() {
                missing += 1;
            }
        }
        // Supplying what is asked for, one at a time.
        let mut h = Hints::new();
        let mut rounds = 0;
        while let Some(p) = compare(x, &h)? {
            n += 1;
            rounds += 1;
            ensure!(
                rounds <= need.len() && need.contains(&p),
                "asks for {p:?}, which is not an untyped struct of the save"
            );
            h.insert(p.clone(), x.hints[&p].clone());
        }
        ensure!(
            rounds == need.len(),
            "asks for {rounds} of {} hints",
            need.len()
        );
        // Hints for other paths.
        let mut other = Vec::new();
        for p in x.enc.paths.iter().chain(&need) {
            for q in [
                p.clone(),
                format!("{p}."),
                format!(".{p}"),
                p.to_lowercase(),
                p.replace(".StructProperty", ""),
                format!("{p}.StructProperty"),
                p.replacen("a.", "", 1),
                p.replace(".Key", ".Value"),
                p.replace(".Value", ".Key"),
                p.rsplit_once('.').map(|x| x.1).unwrap_or("").to_string(),
                p.split_once('.').map(|x| x.1).unwrap_or("").to_string(),
                p.trim().to_string(),
                format!(" {p}"),
                format!("{p} "),
                p.to_uppercase(),
                p.replace([' ', '\0'], ""),
                p.replace(|c: char| c.is_ascii_digit(), ""),
                p.replace('.', "/"),
            ] {
                if !need.contains(&q) && !other.contains(&q) {
                    other.push(q);
                }
            }
        }
        for ty in ["Guid", "HintedStruct"] {
            let mut h: Hints = other.iter().map(|p| (p.clone(), ty.to_string())).collect();
            n += 1;
            ensure!(
                compare(x, &h)?.is_some() == !need.is_empty(),
                "hints for other paths make up for the missing one"
            );
            h.extend(x.hints.clone());
            n += 1;
            ensure!(
                compare(x, &h)?.is_none(),
                "hint asked for although it is there"
            );
        }
        // Hints of another type.
        for p in need.iter().take(max) {
            for ty in TYPES {
                let mut h = x.hints.clone();
                h.insert(p.clone(), ty.to_string());
                n += 1;
                compare(x, &h)?;
            }
        }
        obs.calls(n);
        obs.validated(n);
        obs.outcome(if need.is_empty() {
            "self-describing"
        } else {
            "needs hints"
        });
        obs.outcomes("missing hint reported", missing + rounds as u64);
        Ok(())
    })
}

const NAMES: [&str; 22] = [
    "a",
    "",
    " ",
    " a",
    "a ",
    "A",
    "a.b",
    ".a",
    "a.",
    ".",
    "a..b",
    "a\0",
    "\0",
    "a_0",
    "a0",
    "a[0]",
    "*",
    "Key",
    "Value",
    "StructProperty",
    "MapProperty",
    "\u{e9}",
];

/// The path with any one character left out, added or changed, and any
/// component left out, repeated or exchanged with the next.
fn near(p: &str) -> Vec<String> {
    let c: Vec<char> = p.chars().collect();
    let of = |l: &[char]| l.iter().collect::<String>();
    let mut out = Vec::new();
    for i in 0..=c.len() {
        for x in [' ', '.', '\0', '*', 'a', '0'] {
            out.push(of(&[&c[..i], &[x], &c[i..]].concat()));
        }
        if i < c.len() {
            out.push(of(&[&c[..i], &c[i + 1..]].concat()));
            out.push(of(&c[..i]));
            out.push(of(&c[i..]));
            for x in [
                c[i].to_ascii_uppercase(),
                c[i].to_ascii_lowercase(),
                ' ',
                '.',
                '/',
                ':',
                '*',
                '?',
            ] {
                out.push(of(&[&c[..i], &[x], &c[i + 1..]].concat()));
            }
        }
    }
    let l: Vec<&str> = p.split('.').collect();
    for i in 0..l.len() {
        out.push([&l[..i], &l[i + 1..]].concat().join("."));
        out.push([&l[..=i], &l[i..]].concat().join("."));
        out.push([&l[..i], &["*"], &l[i + 1..]].concat().join("."));
        if i + 1 < l.len() {
            let mut m = l.clone();
            m.swap(i, i + 1);
            out.push(m.join("."));
        }
    }
    out
}

/// A save whose untyped structs are under these names.
fn named(form: usize, outer: &str, inner: &str) -> File {
    let leaf = || P::Body(SV::Guid([7; 16]));
    let st = "StructProperty".to_string();
    let int = "IntProperty".to_string();
    let within = |form: usize, el: P| match form {
        0 => P::Map(int.clone(), st.clone(), 0, vec![(P::I32(1), el)]),
        1 => P::Map(st.clone(), int.clone(), 0, vec![(el, P::I32(1))]),
        _ => P::Set(st.clone(), 0, vec![el]),
    };
    let custom = |p: P| SV::Custom(vec![(inner.to_string(), p)]);
    let p = match form {
        0..=2 => P::Struct("S".into(), [0; 16], custom(within(form, leaf()))),
        3..=11 => within(form / 3 - 1, P::Body(custom(within(form % 3, leaf())))),
        _ => P::Array(Arr {
            ty: st.clone(),
            info: Some((outer.to_string(), "S".into(), [0; 16])),
            el: vec![P::Body(custom(within(form - 12, leaf())))],
        }),
    };
    one(1, Wrap::Plain, outer, p)
}

/// Nothing but the exact path will do.
fn exact(x: &Doc, obs: &mut Obs) -> Out {
    let need = needed(x);
    let mut n = 0;
    for p in &need {
        let mut all: Hints = near(p)
            .into_iter()
            .filter(|q| q != p)
            .map(|q| (q, "IntPoint".to_string()))
            .collect();
        obs.swept(all.len() as u64);
        for q in need.iter().filter(|q| *q != p) {
            all.insert(q.clone(), x.hints[q].clone());
        }
        ensure!(
            compare(x, &all)?.as_ref() == Some(p),
            "the hint for {p:?} is made up for by another"
        );
        all.insert(p.clone(), x.hints[p].clone());
        ensure!(
            compare(x, &all)?.is_none(),
            "hint asked for although it is there"
        );
        n += 2;
    }
    obs.calls(n);
    obs.validated(n);
    Ok(())
}

fn c12(t: Tier) -> Vec<Phase> {
    let mut d = Depth::full(t);
    d.spans = true;
    d.grammar = t.pick(3, 4);
    d.containers = t.pick(1, 2);
    d.bytes = Some(t == Tier::Thorough);
    d.structs = t.pick(1, 2);
    d.texts = t.pick(0, 1);
    d.chain = t.pick(4, 5);
    d.pairs = t.pick(0, 1);
    d.lengths = false;
    d.counts = false;
    d.fixtures = false;
    let cfg = Cfg {
        depth: 3,
        ..Cfg::BASE
    };
    let mut out = doc_phases(cfg, d, oracle(6));
    out.retain(|p| p.name != "scalars" && p.name != "headers");
    let near = phase("near paths", 0, |ch, obs| {
        let outer = NAMES[ch.free(NAMES.len())];
        let inner = NAMES[ch.free(NAMES.len())];
        let f = named(ch.free(15), outer, inner);
        let x = doc_spans(f)?;
        obs.state(&x.bytes);
        obs.show(|| brief(&x.file.props));
        exact(&x, obs)
    });
    out.insert(0, near);
    // What was read before leaves no trace in the path.
    let o = oracle(2);
    let after = phase("after others", 0, move |ch, obs| {
        let (layout, first) = match ch.free(5) {
            4 => (1, named(ch.free(15), "f", "g").props.remove(0).1),
            i => [pick_kind as Pick, pick_container, pick_struct, pick_text][i](ch, &cfg),
        };
        let form = ch.free(15);
        let mut f = one(layout, Wrap::Plain, "f", first);
        f.props.insert(1, named(form, "o", "i").props.remove(0));
        let place = ch.free(4);
        if place > 0 {
            let body = P::Body(SV::Custom(std::mem::take(&mut f.props)));
            let st = "StructProperty".to_string();
            let p = match (place, body) {
                (1, P::Body(sv)) => P::Struct("S".into(), [0; 16], sv),
                (2, b) => P::Array(Arr {
                    ty: st,
                    info: Some(("s".into(), "S".into(), [0; 16])),
                    el: vec![b.clone(), b],
                }),
                (_, b) => P::Map(
                    "IntProperty".into(),
                    st,
                    0,
                    vec![(P::I32(1), b.clone()), (P::I32(2), b)],
                ),
            };
            f.props = vec![("s".to_string(), p)];
        }
        let x = doc_spans(f)?;
        obs.state(&x.bytes);
        obs.show(|| brief(&x.file.props));
        o(ch, &x, obs)
    });
    out.insert(1, after);
    // The same inside a container: offsets are those of the plain save.
    let mut d = Depth::light(t);
    d.spans = true;
    let cfg = Cfg {
        wraps: &[Wrap::PalZlib],
        ..cfg
    };
    for mut p in doc_phases(cfg, d, oracle(4)) {
        if ["structs", "nesting"].contains(&p.name.as_str()) {
            p.name = format!("{}, compressed", p.name);
            out.push(p);
        }
    }
    out
}
