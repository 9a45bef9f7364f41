//! C27: JSON that was edited or damaged.

use super::docs::*;
use super::json::finite;
use super::roundtrip::write;
use super::Check;
use crate::bridge::{self, Form};
use crate::explore::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::types::Guid;
use gvas::GvasFile;
use serde_json::{json, Map, Value};
use std::collections::HashSet;
use std::str::FromStr;
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C27",
    level: "model_checking",
    rule: "one case per choice sequence: the JSON of a tree with one place changed, converted back; if it is accepted, the JSON of the result is compared with the changed JSON",
    assumptions: &["serde_json is built to parse floating-point numbers exactly and to keep the order of object members"],
    phases: c27,
}];

/// A place in a JSON value.
type Place = Vec<usize>;

fn places(v: &Value, at: &mut Place, out: &mut Vec<Place>) {
    out.push(at.clone());
    let n = match v {
        Value::Array(l) => l.len(),
        Value::Object(m) => m.len(),
        _ => 0,
    };
    for i in 0..n {
        at.push(i);
        places(child(v, i).1, at, out);
        at.pop();
    }
}

fn child(v: &Value, i: usize) -> (Option<&str>, &Value) {
    match v {
        Value::Array(l) => (None, &l[i]),
        Value::Object(m) => {
            let (k, v) = m.iter().nth(i).unwrap();
            (Some(k), v)
        }
        _ => unreachable!(),
    }
}

fn get<'a>(v: &'a Value, at: &[usize]) -> &'a Value {
    at.iter().fold(v, |v, i| child(v, *i).1)
}

fn get_mut<'a>(v: &'a mut Value, at: &[usize]) -> &'a mut Value {
    at.iter().fold(v, |v, i| match v {
        Value::Array(l) => &mut l[*i],
        Value::Object(m) => m.iter_mut().nth(*i).unwrap().1,
        _ => unreachable!(),
    })
}

fn path(v: &Value, at: &[usize]) -> String {
    let mut s = String::new();
    let mut v = v;
    for i in at {
        let (k, next) = child(v, *i);
        match k {
            Some(k) => s.push_str(&format!(".{k}")),
            None => s.push_str(&format!("[{i}]")),
        }
        v = next;
    }
    s
}

fn values() -> Vec<Value> {
    let mut all = vec![
        Value::Null,
        json!(true),
        json!(false),
        json!(""),
        json!("x"),
        json!("0"),
        json!("zz"),
        json!("é\u{1F600}"),
        json!("a5"),
        json!("None"),
        json!("01020304-0506-0708-090A-0B0C0D0E0F10"),
        json!("IntProperty"),
        json!("StructProperty"),
        json!("FloatProperty"),
        json!("Guid"),
        json!([]),
        json!([null]),
        json!([1]),
        json!(["x"]),
        json!([["x", 1]]),
        json!({}),
        json!({"x": 1}),
        json!({"type": "IntProperty", "value": 1}),
        json!({"type": "IntProperty"}),
        json!(0.5),
        json!(-0.0),
        json!(1e300),
        json!(16777217.0),
        json!(u64::MAX),
    ];
    for b in [0, 7, 8, 15, 16, 31, 32, 53, 63] {
        for n in [(1i128 << b) - 1, 1 << b, -(1 << b), -(1 << b) - 1] {
            if let Ok(n) = u64::try_from(n) {
                all.push(json!(n));
            } else if let Ok(n) = i64::try_from(n) {
                all.push(json!(n));
            }
        }
    }
    all.dedup();
    all
}

fn restructured(
    m: &Map<String, Value>,
    f: impl Fn(usize, &str, &Value, &mut Vec<(String, Value)>),
) -> Value {
    let mut l = Vec::new();
    for (i, (k, v)) in m.iter().enumerate() {
        f(i, k, v, &mut l);
    }
    Value::Object(l.into_iter().collect())
}

/// Every change of the value at one place: to something else, and of its
/// members or elements.
fn changes(v: &Value, all: &[Value]) -> Vec<(Value, String)> {
    let mut out: Vec<(Value, String)> = all
        .iter()
        .filter(|x| *x != v)
        .map(|x| (x.clone(), format!("replaced by {x}")))
        .collect();
    match v {
        Value::Array(l) => {
            for i in 0..l.len() {
                let mut x = l.clone();
                x.remove(i);
                out.push((Value::Array(x), format!("element {i} removed")));
                let mut x = l.clone();
                x.insert(i, l[i].clone());
                out.push((Value::Array(x), format!("element {i} repeated")));
                if i > 0 {
                    let mut x = l.clone();
                    x.swap(i - 1, i);
                    out.push((Value::Array(x), format!("element {i} moved up")));
                }
            }
        }
        Value::Object(m) => {
            for i in 0..m.len() {
                out.push((
                    restructured(m, |j, k, v, l| {
                        if i != j {
                            l.push((k.into(), v.clone()));
                        }
                    }),
                    format!("member {i} removed"),
                ));
                out.push((
                    restructured(m, |j, k, v, l| {
                        l.push((if i == j { "zz".into() } else { k.into() }, v.clone()));
                    }),
                    format!("member {i} renamed"),
                ));
            }
            out.push((
                restructured(m, |i, k, v, l| {
                    if i == 0 {
                        l.push(("zz".into(), json!(1)));
                    }
                    l.push((k.into(), v.clone()));
                }),
                "member added".into(),
            ));
            out.push((
                Value::Object(
                    m.iter()
                        .rev()
                        .map(|(k, v)| (k.clone(), v.clone()))
                        .collect(),
                ),
                "members reversed".into(),
            ));
        }
        Value::String(s) => {
            out.push((json!(format!("{s}x")), "lengthened".into()));
            out.push((json!(s.to_lowercase()), "in lower case".into()));
            out.push((json!(s.to_uppercase()), "in upper case".into()));
        }
        Value::Number(n) => {
            if let Some(n) = n.as_i64() {
                out.push((json!(n.wrapping_add(1)), "one more".into()));
                out.push((json!(n as f64), "as a float".into()));
                out.push((json!(n.to_string()), "as a string".into()));
            }
        }
        _ => (),
    }
    out
}

/// Members whose own members are entries of the save.
const ENTRIES: [&str; 14] = [
    "properties",
    "CustomStruct",
    "custom_versions",
    "arguments",
    "enum_bools",
    "enum_ints",
    "enum_props",
    "name_bools",
    "name_ints",
    "name_props",
    "str_bools",
    "str_ints",
    "str_props",
    "str_strs",
];

fn keys(v: &Value, out: &mut HashSet<String>) {
    match v {
        Value::Array(l) => l.iter().for_each(|v| keys(v, out)),
        Value::Object(m) => m.iter().for_each(|(k, v)| {
            out.insert(k.clone());
            keys(v, out);
        }),
        _ => (),
    }
}

/// What a comparison has to know about the change.
struct Change {
    /// The members of the JSON before it; others mean nothing.
    known: HashSet<String>,
    /// Whether a value has another form now, so that some members may be gone.
    retagged: bool,
}

impl Change {
    fn of(v: &Value, retagged: bool) -> Change {
        let mut known = HashSet::new();
        keys(v, &mut known);
        Change { known, retagged }
    }
}

/// Members that say which form a value has.
const TAGS: [&str; 4] = ["type", "history", "rounding", "transform"];

fn zero(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Number(n) => n.as_f64() == Some(0.0),
        Value::String(s) => s == "0",
        _ => false,
    }
}

/// Whether these are entries with a key given twice.
fn repeated(l: &[Value]) -> bool {
    let keys: Vec<_> = l
        .iter()
        .filter_map(|e| Some(serde_json::to_string(e.as_array()?.first()?).unwrap()))
        .collect();
    let mut k = keys.clone();
    k.sort();
    k.dedup();
    k.len() < keys.len()
}

/// Where the JSON of the result says something else than the JSON it was made
/// of.
fn differs(at: &str, c: &Change, a: &Value, b: &Value) -> Option<String> {
    let no = || {
        Some(format!(
            "{at}: {} became {}",
            brief(&a.to_string()),
            brief(&b.to_string())
        ))
    };
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x == y {
                return None;
            }
            if !y.is_f64() {
                return no();
            }
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            // A number in a float property is rounded to what it can hold.
            if x == y || x as f32 as f64 == y {
                return None;
            }
            no()
        }
        // And may be too large for it, for which JSON has no number.
        (Value::Number(x), Value::Null) if (x.as_f64().unwrap() as f32).is_infinite() => None,
        (Value::String(x), Value::String(y)) => {
            if x == y {
                return None;
            }
            match (Guid::from_str(x), Guid::from_str(y)) {
                (Ok(x), Ok(y)) if x == y => None,
                _ if x.eq_ignore_ascii_case(y) && x.bytes().all(|c| c.is_ascii_hexdigit()) => None,
                _ => no(),
            }
        }
        (Value::Array(x), Value::Array(_)) if repeated(x) => None,
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return no();
            }
            (0..x.len()).find_map(|i| differs(&format!("{at}[{i}]"), c, &x[i], &y[i]))
        }
        // Members can also be given by their order.
        (Value::Array(x), Value::Object(y)) => {
            if x.len() != y.len() {
                return no();
            }
            x.iter()
                .zip(y)
                .find_map(|(v, (k, w))| differs(&format!("{at}.{k}"), c, v, w))
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                let canonical = Guid::from_str(k).map_or(k.clone(), |g| g.to_string());
                match y.get(k).or_else(|| y.get(&canonical)) {
                    // A form can also be given by its number.
                    Some(w) if v.is_number() && w.is_string() && TAGS.contains(&k.as_str()) => (),
                    Some(w) => {
                        if let Some(d) = differs(&format!("{at}.{k}"), c, v, w) {
                            return Some(d);
                        }
                    }
                    None if zero(v) || c.retagged => (),
                    None if !c.known.contains(k) && !ENTRIES.iter().any(|e| at.ends_with(e)) => (),
                    None => return Some(format!("{at}.{k}: dropped")),
                }
            }
            for (k, w) in y {
                let same = |g: &String| Guid::from_str(g).is_ok_and(|g| g.to_string() == *k);
                if !x.contains_key(k) && !w.is_null() && !x.keys().any(same) {
                    return Some(format!("{at}.{k}: appeared as {w}"));
                }
            }
            None
        }
        _ if a == b => None,
        _ => no(),
    }
}

/// Converts it and checks what comes out. Whether it was accepted.
fn taken(w: &Value, c: &Change) -> Result<bool, Stop> {
    let g: GvasFile = match call(|| serde_json::from_value(w.clone()))? {
        Ok(g) => g,
        Err(_) => return Ok(false),
    };
    same_meaning(w, c, &g)?;
    Ok(true)
}

fn same_meaning(w: &Value, c: &Change, g: &GvasFile) -> Out {
    let back = match call(|| serde_json::to_value(g))? {
        Ok(b) => b,
        Err(e) => return fail(format!("accepted, then {e}")),
    };
    if let Some(d) = differs("", c, w, &back) {
        return fail(d);
    }
    let _ = write(g)?;
    Ok(())
}

fn about(what: impl Fn() -> String) -> impl Fn(Stop) -> Stop {
    move |s| match s {
        Stop::Fail(m) => Stop::Fail(format!("{}: {m}", what())),
        s => s,
    }
}

fn c27(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let mut all = Small::ONCE.docs();
    for wrap in [Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice] {
        for ue5 in [None, Some(1004)] {
            let mut f = tiny(1, wrap, P::Name(3, Some("n".into())));
            f.hdr.ue5 = ue5;
            all.extend(doc(f));
        }
    }
    let all: Vec<Doc> = all
        .into_iter()
        .filter(|x| x.file.props.iter().all(|(_, p)| finite(p)))
        .collect();
    let all = Arc::new(all);
    let vals = Arc::new(values());

    let a = all.clone();
    out.push(phase("one change", 0, move |ch, obs| {
        let x = &a[ch.free(a.len())];
        let form = [Form::Compact, Form::Generic][ch.free(2)];
        let f = bridge::file(&x.file, form);
        let v = serde_json::to_value(&f).map_err(|e| Stop::Fail(format!("{e}")))?;
        let mut l = Vec::new();
        places(&v, &mut vec![], &mut l);
        let at = &l[ch.free(l.len())];
        obs.state(&(&x.bytes, form as u8, at));
        obs.show(|| format!("{} of {}", path(&v, at), brief(&x.file.props)));
        let (mut ok, mut bad) = (0, 0);
        let tag = at.last().is_some_and(|i| {
            let k = child(get(&v, &at[..at.len() - 1]), *i).0;
            k.is_some_and(|k| TAGS.contains(&k))
        });
        let c = Change::of(&v, tag);
        for (new, what) in changes(get(&v, at), &vals) {
            let mut w = v.clone();
            *get_mut(&mut w, at) = new;
            match taken(&w, &c).map_err(about(|| format!("{} {what}", path(&v, at))))? {
                true => ok += 1,
                false => bad += 1,
            }
        }
        obs.swept(ok + bad);
        obs.calls(ok + bad);
        obs.validated(ok);
        obs.outcomes("accepted", ok);
        obs.outcomes("refused", bad);
        Ok(())
    }));

    // Parts of a document put in place of each other.
    let a = all.clone();
    out.push(phase("parts exchanged", 0, move |ch, obs| {
        let x = &a[ch.free(a.len())];
        let v = serde_json::to_value(bridge::file(&x.file, Form::Compact))
            .map_err(|e| Stop::Fail(format!("{e}")))?;
        let mut l = Vec::new();
        places(&v, &mut vec![], &mut l);
        obs.state(&x.bytes);
        obs.show(|| brief(&x.file.props));
        let (mut ok, mut bad) = (0, 0);
        let c = Change::of(&v, true);
        for i in &l {
            for j in &l {
                if get(&v, i) == get(&v, j) {
                    continue;
                }
                let mut w = v.clone();
                *get_mut(&mut w, i) = get(&v, j).clone();
                let what = || format!("{} put at {}", path(&v, j), path(&v, i));
                match taken(&w, &c).map_err(about(what))? {
                    true => ok += 1,
                    false => bad += 1,
                }
            }
        }
        obs.swept(ok + bad);
        obs.calls(ok + bad);
        obs.validated(ok);
        obs.outcomes("accepted", ok);
        obs.outcomes("refused", bad);
        Ok(())
    }));

    // The text cut and changed anywhere.
    let bytes: &'static [u8] = t.pick(b"\"0-{,", b"\"\\0159-+.eE{}[]:, tfn\0\x1f\x7f\x80\xc3\xff");
    out.push(phase("text changed", 0, move |ch, obs| {
        let x = &all[ch.free(all.len())];
        let v = serde_json::to_value(bridge::file(&x.file, Form::Compact))
            .map_err(|e| Stop::Fail(format!("{e}")))?;
        let text = v.to_string();
        let c = Change::of(&v, false);
        obs.state(&x.bytes);
        obs.show(|| brief(&x.file.props));
        let (mut ok, mut bad) = (0, 0);
        for i in 0..text.len() {
            let cut = &text.as_bytes()[..i];
            ensure!(
                call(|| serde_json::from_slice::<GvasFile>(cut))?.is_err(),
                "text accepted after {i} of {} bytes",
                text.len()
            );
            bad += 1;
            for b in bytes {
                let mut s = text.clone().into_bytes();
                if s[i] == *b {
                    continue;
                }
                s[i] = *b;
                let g: GvasFile = match call(|| serde_json::from_slice(&s))? {
                    Ok(g) => g,
                    Err(_) => {
                        bad += 1;
                        continue;
                    }
                };
                ok += 1;
                let what = || format!("byte {i} is {:?}", *b as char);
                let w: Value = match serde_json::from_slice(&s) {
                    Ok(w) => w,
                    Err(e) => return fail(format!("{}: accepted, but {e}", what())),
                };
                same_meaning(&w, &c, &g).map_err(about(what))?;
            }
        }
        obs.swept(ok + bad);
        obs.calls(ok + bad);
        obs.validated(ok);
        obs.outcomes("accepted", ok);
        obs.outcomes("refused", bad);
        Ok(())
    }));
    out
}
