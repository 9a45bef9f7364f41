//! C19: equality and hashing.

use super::docs::*;
use super::Check;
use crate::bridge::{self, Form};
use crate::decode::{canon, well_formed};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::properties::Property;
use gvas::types::map::HashableIndexMap;
use gvas::types::Guid;
use gvas::GvasFile;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C19",
    level: "model_checking",
    rule: "one case per choice sequence: all pairs of a set of values of one shape, or one value against all values of all shapes; equality compared with that of the model, hashes of equal values compared",
    assumptions: &[],
    phases: c19,
}];

/// A second hash function that shares nothing with the standard one.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

fn hashes<T: Hash>(t: &T) -> [u64; 2] {
    let mut a = DefaultHasher::new();
    t.hash(&mut a);
    let mut b = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut b);
    [a.finish(), b.finish()]
}

struct V<T> {
    v: T,
    /// Values with the same content up to what equality may ignore.
    class: usize,
    /// Values built from the same model value in the same form.
    exact: usize,
    /// None for types that cannot be hashed.
    hash: Option<[u64; 2]>,
}

/// Every pair, and every triple of values with the same content.
fn relation<T: Eq + Debug>(list: &[V<T>], obs: &mut Obs) -> Out {
    let mut equal = 0;
    let mut classes: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, a) in list.iter().enumerate() {
        classes.entry(a.class).or_default().push(i);
        for b in list {
            pair(a, b, &mut equal)?;
        }
    }
    let mut triples = 0u64;
    for c in classes.values().filter(|c| c.len() > 2 && c.len() < 60) {
        for &i in c {
            for &j in c.iter().filter(|j| list[i].v == list[**j].v) {
                for &k in c {
                    triples += 1;
                    ensure!(
                        list[j].v != list[k].v || list[i].v == list[k].v,
                        "equality is not transitive: {} {} {}",
                        brief(&list[i].v),
                        brief(&list[j].v),
                        brief(&list[k].v)
                    );
                }
            }
        }
    }
    let n = list.len() as u64;
    obs.calls(n * n + 3 * triples);
    obs.validated(n * n);
    obs.outcomes("equal", equal);
    obs.outcomes("different", n * n - equal);
    Ok(())
}

fn pair<T: Eq + Debug>(a: &V<T>, b: &V<T>, equal: &mut u64) -> Out {
    let eq = a.v == b.v;
    ensure!(
        eq != (a.v != b.v),
        "both equal and unequal: {} and {}",
        brief(&a.v),
        brief(&b.v)
    );
    ensure!(
        eq == (b.v == a.v),
        "equality is not symmetric: {} and {}",
        brief(&a.v),
        brief(&b.v)
    );
    if eq {
        *equal += 1;
        ensure!(
            a.class == b.class,
            "different values compare equal: {} and {}",
            brief(&a.v),
            brief(&b.v)
        );
        ensure!(
            a.hash == b.hash,
            "equal values hash differently: {} and {}",
            brief(&a.v),
            brief(&b.v)
        );
    } else {
        ensure!(
            a.exact != b.exact,
            "a value does not equal itself: {} and {}",
            brief(&a.v),
            brief(&b.v)
        );
    }
    Ok(())
}

struct Ids<K>(HashMap<K, usize>);
impl<K: Hash + Eq> Ids<K> {
    fn id(&mut self, k: K) -> usize {
        let n = self.0.len();
        *self.0.entry(k).or_insert(n)
    }
}

/// Model values as library values, in both forms and as clones.
fn values(ps: &[P]) -> Vec<V<Property>> {
    let mut classes = Ids(HashMap::new());
    let mut exact = Ids(HashMap::new());
    let mut out = Vec::new();
    for p in ps {
        let class = classes.id(canon(p));
        let a = bridge::prop(p, Form::Compact);
        let b = bridge::prop(p, Form::Generic);
        let c = a.clone();
        for (v, form) in [(a, 0), (b, 1), (c, 0)] {
            let hash = Some(hashes(&v));
            out.push(V {
                v,
                class,
                exact: exact.id((p.clone(), form)),
                hash,
            });
        }
    }
    out
}

/// Usable as keys: each is found again, as itself or an equal value.
fn keys(list: &[V<Property>]) -> Out {
    let mut m: HashMap<&Property, usize> = HashMap::new();
    for x in list {
        m.entry(&x.v).or_insert(x.class);
    }
    for x in list {
        let again = x.v.clone();
        ensure!(
            m.get(&again) == Some(&x.class),
            "value used as a key is not found again: {}",
            brief(&x.v)
        );
    }
    Ok(())
}

fn set(ps: Vec<P>, obs: &mut Obs) -> Out {
    let ps: Vec<P> = ps.into_iter().filter(well_formed).collect();
    for p in &ps {
        obs.state(p);
    }
    obs.show(|| format!("{} values like {}", ps.len(), brief(&ps.first())));
    let list = values(&ps);
    relation(&list, obs)?;
    keys(&list)
}

/// All orders of a short list.
fn orders<T: Clone>(l: &[T]) -> Vec<Vec<T>> {
    if l.len() <= 1 {
        return vec![l.to_vec()];
    }
    let mut out = Vec::new();
    for i in 0..l.len() {
        let mut rest = l.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x.clone());
            out.push(o);
        }
    }
    out
}

/// Subsets of a list with up to n members.
fn subsets<T: Clone>(l: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for x in l {
        for s in out.clone() {
            if s.len() < n {
                let mut s = s;
                s.push(x.clone());
                out.push(s);
            }
        }
    }
    out
}

/// What is done to a list: nothing, another order, or one member changed.
#[derive(Clone, Copy, PartialEq)]
enum Change {
    Nothing,
    Reverse,
    Rotate,
    Swap(usize, usize),
    Remove(usize),
    Copy(usize, usize),
}

fn change<T: Clone>(l: &mut Vec<T>, c: Change, copy: fn(&mut T, T)) {
    match c {
        Change::Nothing => (),
        Change::Reverse => l.reverse(),
        Change::Rotate => l.rotate_left(1),
        Change::Swap(a, b) => l.swap(a, b),
        Change::Remove(a) => drop(l.remove(a)),
        Change::Copy(a, b) => {
            let x = l[a].clone();
            copy(&mut l[b], x);
        }
    }
}

fn changed(mut p: P, c: Change) -> P {
    match &mut p {
        P::Array(a) => change(&mut a.el, c, |to, x| *to = x),
        P::Set(_, _, l) => change(l, c, |to, x| *to = x),
        P::Map(_, _, _, l) => change(l, c, |to, x| to.1 = x.1),
        P::MInline(l) => change(l, c, |to, x| to.1 = x.1),
        P::FieldPath(l, _) => change(l, c, |to, x| *to = x),
        P::Struct(_, _, SV::Tags(l)) => change(l, c, |to, x| *to = x),
        P::Struct(_, _, SV::Custom(l)) => change(l, c, |to, x| to.1 = x.1),
        P::Unknown(_, l) => change(l, c, |to, x| *to = x),
        P::Text(t) => match &mut t.hist {
            Hist::Ordered(_, l) => change(l, c, |to, x| *to = x),
            Hist::Named(_, l) => change(l, c, |to, x| to.1 = x.1),
            _ => (),
        },
        _ => (),
    }
    p
}

fn c19(t: Tier) -> Vec<Phase> {
    const CFG: Cfg = Cfg {
        names: true,
        headers: false,
        ..Cfg::BASE
    };
    fn gen<'a, 'b>(ch: &'a mut Ch<'b>, layout: usize) -> Gen<'a, 'b> {
        Gen {
            ch,
            cfg: CFG,
            lay: Layout::of(&versions(layout, 7)),
        }
    }
    let mut out = Vec::new();
    let k = t.pick(2, 3);
    out.push(phase("kinds", 0, move |ch, obs| {
        let layout = ch.free(2);
        let kind = KINDS[ch.free(KINDS.len())];
        // Deviations of large values multiply quickly.
        let k = if ["Struct", "Array", "Map", "Set", "Text"].contains(&kind) {
            k - 1
        } else {
            k
        };
        set(collect(k, |ch| Ok(gen(ch, layout).prop_of(kind, 1))), obs)
    }));
    let k = t.pick(1, 2);
    out.push(phase("structs", 0, move |ch, obs| {
        let layout = ch.free(2);
        let which = ch.free(STRUCTS);
        let full = ch.free(2) == 1;
        let k = if which < 8 { k + 1 } else { k };
        set(
            collect(k, |ch| {
                let mut g = gen(ch, layout);
                let v = g.sv_of(which, 1);
                Ok(if full { g.struct_prop(v) } else { P::Body(v) })
            }),
            obs,
        )
    }));
    out.push(phase("texts", 0, move |ch, obs| {
        let layout = ch.free(2);
        let h = ch.free(HISTS);
        set(
            collect(k, |ch| {
                let flags = [0, 1, u32::MAX][ch.choose(3)];
                Ok(P::Text(Text {
                    flags,
                    hist: gen(ch, layout).hist_of(h, 1),
                }))
            }),
            obs,
        )
    }));
    out.push(phase("arrays and sets", 0, move |ch, obs| {
        let set_too = ch.free(2) == 1;
        let e = ELEMENTS[ch.free(ELEMENTS.len())];
        let n = ch.free(4);
        set(
            collect(k, |ch| {
                let mut g = gen(ch, 0);
                Ok(if set_too {
                    g.set_of(e, n, 1)
                } else {
                    g.array_of(e, n, 1)
                })
            }),
            obs,
        )
    }));
    let km = t.pick(1, 2);
    out.push(phase("maps", 0, move |ch, obs| {
        let a = ELEMENTS[ch.free(MAP_ELEMENTS)];
        let b = ELEMENTS[ch.free(MAP_ELEMENTS)];
        let n = ch.free(t.pick(3, 4));
        let km = if n > 2 { km - 1 } else { km };
        set(collect(km, |ch| Ok(gen(ch, 0).map_of(a, b, n, 1))), obs)
    }));

    // Everything against everything, in the default values and one deviation.
    let kk = t.pick(0, 1);
    let all: Arc<Vec<V<Property>>> = Arc::new({
        let mut ps: Vec<P> = Vec::new();
        let cfg = CFG;
        for pick in [pick_kind as Pick, pick_struct, pick_text] {
            ps.extend(collect(kk, |ch| Ok(pick(ch, &cfg).1)));
        }
        ps.extend(collect(0, |ch| Ok(pick_container(ch, &cfg).1)));
        ps.extend(collect(0, |ch| Ok(pick_nesting(ch, 1))));
        ps.extend(super::items::elements(1).into_iter().map(|i| i.p));
        ps.retain(well_formed);
        let mut seen = std::collections::HashSet::new();
        ps.retain(|p| seen.insert(hash_of(p)));
        values(&ps)
    });
    out.push(phase("across shapes", 0, move |ch, obs| {
        let a = &all[ch.free(all.len())];
        let mut equal = 0;
        for b in all.iter() {
            pair(a, b, &mut equal)?;
        }
        obs.state(&hash_of(&format!("{:?}", a.v)));
        obs.calls(all.len() as u64);
        obs.validated(all.len() as u64);
        obs.outcomes("equal", equal);
        obs.outcomes("different", all.len() as u64 - equal);
        obs.show(|| format!("{} against all", brief(&a.v)));
        Ok(())
    }));

    // Named entries in every order, with some entries changed or missing.
    out.push(phase("orders", 0, move |ch, obs| {
        let place = ch.free(9);
        let n = t.pick(3, 4);
        let vals: Vec<P> = vec![P::I32(1), P::I32(2), P::Str(Some("s".into()))];
        let names = ["a", "b", "", "c"];
        let pool: Vec<(String, P)> = names[..n]
            .iter()
            .flat_map(|k| vals.iter().map(|v| (k.to_string(), v.clone())))
            .collect();
        let text = |v: &P| match v {
            P::I32(v) => Arg::Int(*v),
            _ => Arg::UInt(2),
        };
        let boolean = |v: &P| P::Bool(matches!(v, P::I32(1)));
        let int = |v: &P| match v {
            P::I32(v) => P::I32(*v),
            _ => P::I32(0),
        };
        let string = |v: &P| match v {
            P::I32(v) => P::Str(Some(v.to_string())),
            _ => P::Str(None),
        };
        let mut ps = Vec::new();
        for s in subsets(&pool, n) {
            let mut names: Vec<&str> = s.iter().map(|e| e.0.as_str()).collect();
            names.sort();
            names.dedup();
            if names.len() != s.len() {
                continue;
            }
            for o in orders(&s) {
                let map = |kt: &str, vt: &str, key: &dyn Fn(&str) -> P, val: &dyn Fn(&P) -> P| {
                    P::Map(
                        kt.into(),
                        vt.into(),
                        0,
                        o.iter().map(|(k, v)| (key(k), val(v))).collect(),
                    )
                };
                let base = || {
                    Box::new(Text {
                        flags: 0,
                        hist: Hist::Empty,
                    })
                };
                let str_key = |k: &str| P::Str(Some(k.to_string()));
                let name_key = |k: &str| P::Name(0, Some(k.to_string()));
                let enum_key = |k: &str| P::Enum(None, k.to_string());
                ps.push(match place {
                    0 => P::Body(SV::Custom(o)),
                    1 => P::Array(Arr {
                        ty: "StructProperty".into(),
                        info: Some(("f".into(), "T".into(), [0; 16])),
                        el: vec![P::Body(SV::Custom(o))],
                    }),
                    2 => map("StrProperty", "IntProperty", &str_key, &int),
                    3 => map("NameProperty", "BoolProperty", &name_key, &boolean),
                    4 => map("EnumProperty", "IntProperty", &enum_key, &int),
                    5 => map("StrProperty", "StrProperty", &str_key, &string),
                    6 => map(
                        "StructProperty",
                        "IntProperty",
                        &|k| P::Body(SV::Custom(vec![(k.to_string(), P::I8(0))])),
                        &int,
                    ),
                    7 => P::Text(Text {
                        flags: 0,
                        hist: Hist::Named(
                            base(),
                            o.iter().map(|(k, v)| (k.clone(), text(v))).collect(),
                        ),
                    }),
                    _ => P::Text(Text {
                        flags: 0,
                        hist: Hist::ArgFmt(
                            base(),
                            o.iter().map(|(k, v)| (k.clone(), text(v))).collect(),
                        ),
                    }),
                });
            }
        }
        set(ps, obs)
    }));

    out.push(phase("repeated fields", 0, |ch, obs| {
        // Lists under one name keep their order.
        let pool: Vec<P> = vec![P::I32(1), P::I32(2), P::I32(1), P::Bool(true)];
        let names = [["x", "y"], ["y", "x"]][ch.free(2)];
        let mut ps = Vec::new();
        for a in subsets(&pool, 3) {
            for b in subsets(&pool[..2], 2) {
                for a in orders(&a) {
                    for b in orders(&b) {
                        let mut l: Vec<(String, P)> = a
                            .iter()
                            .map(|p| (names[0].to_string(), p.clone()))
                            .collect();
                        l.extend(b.iter().map(|p| (names[1].to_string(), p.clone())));
                        ps.push(P::Body(SV::Custom(l)));
                    }
                }
            }
        }
        set(ps, obs)
    }));

    // The map type itself.
    fn maps<K, V2>(entries: Vec<(K, V2)>, most: usize, obs: &mut Obs) -> Out
    where
        K: Clone + Hash + Eq + Debug + Ord,
        V2: Clone + Hash + Eq + Debug + Ord,
    {
        let mut classes = Ids(HashMap::new());
        let mut exact = Ids(HashMap::new());
        let mut list = Vec::new();
        for s in subsets(&entries, most) {
            let mut keys: Vec<&K> = s.iter().map(|e| &e.0).collect();
            keys.sort();
            keys.dedup();
            if keys.len() != s.len() {
                continue;
            }
            for o in orders(&s) {
                let mut sorted = o.clone();
                sorted.sort();
                let m = HashableIndexMap(o.iter().cloned().collect());
                // The same by other routes: with a removed entry, cloned.
                let mut m2 = m.clone();
                if let Some((k, v)) = o.first() {
                    m2.insert(k.clone(), v.clone());
                }
                for v in [m, m2] {
                    let hash = Some(hashes(&v));
                    list.push(V {
                        v,
                        class: classes.id(sorted.clone()),
                        exact: exact.id(o.clone()),
                        hash,
                    });
                }
            }
        }
        obs.state(&format!("{entries:?}"));
        obs.swept(list.len() as u64);
        obs.show(|| format!("maps of {entries:?}"));
        relation(&list, obs)
    }
    out.push(phase("map type", 0, move |ch, obs| {
        let most = t.pick(3, 4);
        match ch.free(5) {
            // Keys and values that can stand for each other.
            0 => maps(
                (0..3u32)
                    .flat_map(|k| (0..3u32).map(move |v| (k, v)))
                    .collect(),
                most,
                obs,
            ),
            1 => maps(
                ["", "a", "b", "ab"]
                    .iter()
                    .flat_map(|k| ["", "a", "b"].map(|v| (k.to_string(), v.to_string())))
                    .collect(),
                3,
                obs,
            ),
            2 => maps(
                (0..3i64)
                    .flat_map(|k| [(k, vec![0u8]), (k, vec![]), (k, vec![0, 1])])
                    .collect(),
                most,
                obs,
            ),
            3 => maps(
                (0..t.pick(6u8, 7)).map(|k| (k, 0u8)).collect(),
                t.pick(5, 6),
                obs,
            ),
            _ => maps(
                (0..3u64)
                    .flat_map(|k| [(k, None), (k, Some(0u64)), (k, Some(1 << 40))])
                    .collect(),
                most,
                obs,
            ),
        }
    }));

    // Long lists, with their members in other orders or one of them changed.
    let list = counts();
    out.push(phase("counts", 0, move |ch, obs| {
        let kind = ch.free(61);
        let n = list[ch.free(list.len())];
        if n < 5 || n > t.pick(1_100, 5_000) {
            return Err(Stop::Prune);
        }
        let mut f = counted(kind, n, &mut Ch::new(&[]));
        let p = f.props.swap_remove(0).1;
        let at = [0, 1, n / 2, n - 2, n - 1];
        let mut all = vec![Change::Nothing, Change::Reverse, Change::Rotate];
        for (i, &a) in at.iter().enumerate() {
            all.push(Change::Remove(a));
            for &b in &at[..i] {
                all.push(Change::Swap(b, a));
                all.push(Change::Copy(b, a));
            }
        }
        // All pairs of short lists, each of the longer with the one not changed.
        let ps = all.into_iter().map(|c| changed(p.clone(), c));
        if n <= 12 {
            return set(ps.collect(), obs);
        }
        for q in ps {
            set(vec![p.clone(), q], obs)?;
        }
        Ok(())
    }));

    // Files and headers.
    let cfg = Cfg {
        wraps: &[Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice],
        ..Cfg::BASE
    };
    let files: Arc<(Vec<V<GvasFile>>, Vec<V<gvas::GvasHeader>>)> = Arc::new({
        let list = collect(t.pick(2, 2), |ch| Ok(gen_file(ch, &cfg)));
        let mut fs = Vec::new();
        let mut hs = Vec::new();
        let mut fc = Ids(HashMap::new());
        let mut fe = Ids(HashMap::new());
        let mut hc = Ids(HashMap::new());
        let mut he = Ids(HashMap::new());
        for mut f in list {
            if !crate::decode::file_well_formed(&f) {
                continue;
            }
            for turned in [false, true] {
                if turned {
                    f.props.reverse();
                    f.hdr.versions.reverse();
                }
                let mut c = f.clone();
                c.hdr.versions.sort();
                c.props.iter_mut().for_each(|p| p.1 = canon(&p.1));
                c.props.sort_by(|a, b| a.0.cmp(&b.0));
                let class = fc.id(format!("{c:?}"));
                let hclass = hc.id(format!("{:?}", c.hdr));
                let v = bridge::file(&f, Form::Compact);
                for v in [v.clone(), v] {
                    hs.push(V {
                        v: v.header.clone(),
                        class: hclass,
                        exact: he.id(format!("{:?}", f.hdr)),
                        hash: None,
                    });
                    fs.push(V {
                        v,
                        class,
                        exact: fe.id(format!("{f:?}")),
                        hash: None,
                    });
                }
            }
        }
        (fs, hs)
    });
    out.push(phase("files", 0, move |ch, obs| {
        let i = ch.free(files.0.len());
        let mut equal = 0;
        for b in &files.0 {
            pair(&files.0[i], b, &mut equal)?;
        }
        for b in &files.1 {
            pair(&files.1[i], b, &mut equal)?;
        }
        let n = 2 * files.0.len() as u64;
        obs.state(&format!("{:?}", files.0[i].v));
        obs.calls(n);
        obs.validated(n);
        obs.outcomes("equal", equal);
        obs.outcomes("different", n - equal);
        obs.show(|| brief(&files.0[i].v));
        Ok(())
    }));
    out.push(phase("identifiers", 0, |ch, obs| {
        let mut list = Vec::new();
        let base = [0u8, 0xFF][ch.free(2)];
        let mut add = |g: [u8; 16]| {
            let id = list.len();
            for v in [Guid(g), Guid::from_u128(u128::from_le_bytes(g))] {
                list.push(V {
                    v,
                    class: id,
                    exact: id,
                    hash: Some(hashes(&v)),
                });
            }
        };
        add([base; 16]);
        for bit in 0..128 {
            let mut g = [base; 16];
            g[bit / 8] ^= 1 << (bit % 8);
            add(g);
        }
        obs.state(&base);
        obs.swept(129);
        relation(&list, obs)
    }));
    out
}
