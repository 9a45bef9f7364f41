//! C21: calls do not influence each other.

use super::docs::*;
use super::Check;
use crate::bridge::{self, Form, Hints};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::sched::{self, Stops};
use crate::streams::{Plan, Sink};
use crate::{ensure, Tier};
use gvas::properties::{Property, PropertyTrait};
use gvas::{GvasFile, GvasHeader};
use std::io::Cursor;
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

pub const CHECKS: &[Check] = &[Check {
    id: "C21",
    level: "model_checking",
    rule: "one case per sequence of calls, each sequence in a process of its own, or per schedule of two calls with the places where one is stopped for the other; every result is compared with that of the same call in a fresh process",
    assumptions: &[
        "threads are switched at allocations and stream operations; a schedule has at most two switches",
    ],
    phases: c21,
}];

/// Inputs and trees, prepared before the calls.
struct Inputs {
    hdr: Header,
    rich: Doc,
    wide: Doc,
    hinted: Doc,
    props: Vec<(P, usize)>,
    trees: Vec<GvasFile>,
}

fn s(x: &str) -> String {
    x.to_string()
}

/// Trees are used by two threads at once.
struct Shared(Inputs);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

fn inputs() -> &'static Inputs {
    static IN: OnceLock<Shared> = OnceLock::new();
    let x = IN.get_or_init(|| {
        let text = |h| Text { flags: 1, hist: h };
        let base = || text(Hist::Base(None, Some(s("k")), Some(s("v"))));
        let custom = |p: P| SV::Custom(vec![(s("x"), p), (s("y"), P::Bool(true))]);
        let rich = |wide: bool| {
            let vec = if wide {
                SV::VD([1, 2, 3])
            } else {
                SV::VF([1, 2, 3])
            };
            let arg = if wide { Arg::Int64(5) } else { Arg::Int(5) };
            vec![
                (s("i"), P::I32(7)),
                (
                    s("st"),
                    P::Struct(
                        s("T"),
                        [0; 16],
                        custom(P::Struct(s("Vector"), [0; 16], vec)),
                    ),
                ),
                (
                    s("arr"),
                    P::Array(Arr {
                        ty: s("StructProperty"),
                        info: Some((s("arr"), s("U"), [0; 16])),
                        el: vec![P::Body(custom(P::Str(Some(s("é")))))],
                    }),
                ),
                (
                    s("txt"),
                    P::Text(text(Hist::Named(Box::new(base()), vec![(s("n"), arg)]))),
                ),
                (
                    s("map"),
                    P::Map(
                        s("NameProperty"),
                        s("IntProperty"),
                        0,
                        vec![(P::Name(0, Some(s("a"))), P::I32(1))],
                    ),
                ),
            ]
        };
        let file = |layout: usize, wrap, props| File {
            wrap,
            hdr: tiny_header(layout),
            props,
        };
        let d = |f: File| doc(f).ok().expect("document");
        let hinted = d(file(
            0,
            Wrap::Plain,
            vec![
                (
                    s("m"),
                    P::Map(
                        s("StructProperty"),
                        s("StructProperty"),
                        0,
                        vec![(
                            P::Body(SV::Guid([3; 16])),
                            P::Body(custom(P::Set(
                                s("StructProperty"),
                                0,
                                vec![P::Body(SV::Point(1, 2))],
                            ))),
                        )],
                    ),
                ),
                (
                    s("z"),
                    P::Set(s("StructProperty"), 0, vec![P::Body(SV::DateTime(9))]),
                ),
            ],
        ));
        let rich_doc = d(file(0, Wrap::Plain, rich(false)));
        let wide = d(file(1, Wrap::Plain, rich(true)));
        let mut trees = Vec::new();
        for w in [Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice] {
            let mut f = rich_doc.file.clone();
            f.wrap = w;
            trees.push(bridge::file(&f, Form::Compact));
        }
        trees.push(bridge::file(&wide.file, Form::Generic));
        // Values of the wrong width: cannot be written.
        let mut f = wide.file.clone();
        f.hdr = tiny_header(0);
        trees.push(bridge::file(&f, Form::Compact));
        let mut f = rich_doc.file.clone();
        f.props.remove(1);
        f.hdr = tiny_header(1);
        trees.push(bridge::file(&f, Form::Compact));
        let props = rich_doc
            .file
            .props
            .iter()
            .map(|p| (p.1.clone(), 0))
            .chain(wide.file.props.iter().map(|p| (p.1.clone(), 1)))
            .chain(hinted.file.props.iter().map(|p| (p.1.clone(), 0)))
            .collect();
        Shared(Inputs {
            hdr: tiny_header(1),
            rich: rich_doc,
            wide,
            hinted,
            props,
            trees,
        })
    });
    &x.0
}

fn digest<T: std::fmt::Debug, E: std::fmt::Debug>(r: Result<Result<T, E>, Stop>) -> String {
    match r {
        Ok(Ok(v)) => {
            let t = format!("{v:?}");
            format!("ok {:016x} {} chars", hash_of(t.as_bytes()), t.len())
        }
        Ok(Err(e)) => format!("error {e:?}").chars().take(400).collect(),
        Err(Stop::Fail(m)) => format!("panic {m}"),
        Err(Stop::Prune) => unreachable!(),
    }
}

fn get(b: &[u8], w: Wrap, h: &Hints) -> String {
    digest(call(|| {
        GvasFile::read_with_hints(&mut Stops(Cursor::new(b)), bridge::game(w), h)
    }))
}

fn put(f: &GvasFile) -> String {
    digest(call(|| {
        let mut c = Stops(Cursor::new(Vec::new()));
        f.write(&mut c).map(|_| c.0.into_inner())
    }))
}

fn changed(b: &[u8], find: &[u8], skip: usize, with: &[u8]) -> Vec<u8> {
    let at = b
        .windows(find.len())
        .position(|w| w == find)
        .expect("present")
        + skip;
    let mut v = b.to_vec();
    v[at..at + with.len()].copy_from_slice(with);
    v
}

type Op = (&'static str, fn(&'static Inputs) -> String);

/// Calls covering success, every class of failure, hints and containers.
const OPS: &[Op] = &[
    ("read", |x| get(&x.rich.bytes, Wrap::Plain, &x.rich.hints)),
    ("read, missing hint inside a map", |x| {
        let mut h = x.hinted.hints.clone();
        h.retain(|_, v| v != "IntPoint");
        get(&x.hinted.bytes, Wrap::Plain, &h)
    }),
    ("read with hints", |x| {
        get(&x.hinted.bytes, Wrap::Plain, &x.hinted.hints)
    }),
    ("read, cut inside a struct", |x| {
        let n = x.rich.bytes.len();
        get(&x.rich.bytes[..n / 2], Wrap::Plain, &x.rich.hints)
    }),
    ("read wide", |x| {
        get(&x.wide.bytes, Wrap::Plain, &x.wide.hints)
    }),
    ("write", |x| put(&x.trees[0])),
    ("write, wrong width", |x| put(&x.trees[5])),
    ("read double zlib", |x| {
        get(
            &wrap(Wrap::PalTwice, &x.rich.bytes),
            Wrap::PalTwice,
            &x.rich.hints,
        )
    }),
    ("write zlib", |x| put(&x.trees[2])),
    ("property read, fails inside", |x| {
        let (p, l) = &x.props[1];
        prop_read(p, *l, 20, &Hints::new())
    }),
    ("property read", |x| {
        let (p, l) = &x.props[1];
        prop_read(p, *l, 0, &Hints::new())
    }),
    ("property write", |x| {
        let (p, l) = &x.props[3];
        prop_write(p, *l)
    }),
    ("header", |x| {
        let mut e = Enc::new(Layout::default(), false);
        e.header(&x.hdr);
        digest(call(|| GvasHeader::read(&mut Stops(Cursor::new(&e.buf)))))
    }),
    ("read, no hints", |x| {
        get(&x.hinted.bytes, Wrap::Plain, &Hints::new())
    }),
    ("read, hint of another type", |x| {
        let mut h = x.hinted.hints.clone();
        for v in h.values_mut() {
            *v = s("Vector");
        }
        get(&x.hinted.bytes, Wrap::Plain, &h)
    }),
    ("read, needless hints", |x| {
        get(&x.rich.bytes, Wrap::Plain, &x.hinted.hints)
    }),
    ("read zlib", |x| {
        get(
            &wrap(Wrap::PalZlib, &x.wide.bytes),
            Wrap::PalZlib,
            &x.wide.hints,
        )
    }),
    ("read stored", |x| {
        get(
            &wrap(Wrap::PalNone, &x.rich.bytes),
            Wrap::PalNone,
            &x.rich.hints,
        )
    }),
    ("read damaged zlib", |x| {
        let mut b = wrap(Wrap::PalZlib, &x.rich.bytes);
        let n = b.len();
        b[n / 2] ^= 0x55;
        get(&b, Wrap::PalZlib, &x.rich.hints)
    }),
    ("plain save as container", |x| {
        get(&x.rich.bytes, Wrap::PalZlib, &x.rich.hints)
    }),
    ("container as plain save", |x| {
        get(
            &wrap(Wrap::PalZlib, &x.rich.bytes),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("empty input", |_| get(&[], Wrap::Plain, &Hints::new())),
    ("bad magic", |x| {
        get(
            &changed(&x.rich.bytes, b"GVAS", 0, b"GVAX"),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("bad size", |x| {
        get(
            &changed(&x.rich.bytes, b"IntProperty\0", 12, &[5]),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("bad terminator byte", |x| {
        get(
            &changed(&x.rich.bytes, b"IntProperty\0", 20, &[9]),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("bad array index", |x| {
        get(
            &changed(&x.rich.bytes, b"IntProperty\0", 16, &[9]),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("bad string terminator", |x| {
        get(
            &changed(&x.rich.bytes, b"IntProperty\0", 11, b"!"),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("bad string length", |x| {
        get(
            &changed(
                &x.rich.bytes,
                b"\x0c\0\0\0IntProperty\0",
                0,
                &[0, 0, 0, 0x7F],
            ),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("bad UTF-8", |x| {
        get(
            &changed(&x.rich.bytes, b"IntProperty\0", 2, &[0xFF]),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("bad boolean", |x| {
        get(
            &changed(&x.rich.bytes, b"BoolProperty\0", 21, &[7]),
            Wrap::Plain,
            &x.rich.hints,
        )
    }),
    ("write wide", |x| put(&x.trees[4])),
    ("write stored", |x| put(&x.trees[1])),
    ("write double zlib", |x| put(&x.trees[3])),
    ("write, argument of the wrong width", |x| put(&x.trees[6])),
    ("write to a full disk", |x| {
        let plan = Plan {
            room: Some(100),
            ..Plan::default()
        };
        digest(call(|| {
            let mut k = Sink::new(Vec::new(), 0, &plan);
            x.trees[2].write(&mut k).map(|_| k.bytes)
        }))
    }),
    ("property read with hints", |x| {
        let (p, l) = &x.props[10];
        prop_read(
            p,
            *l,
            0,
            &Hints::from([(s("SetProperty.StructProperty"), s("DateTime"))]),
        )
    }),
    ("property read without hints", |x| {
        let (p, l) = &x.props[11];
        prop_read(p, *l, 0, &Hints::new())
    }),
    ("text property", |x| {
        let (p, l) = &x.props[8];
        prop_read(p, *l, 0, &Hints::new())
    }),
    ("text property in the other width", |x| {
        let (p, _) = &x.props[8];
        prop_write(p, 0)
    }),
    ("JSON", |x| {
        digest(call(|| serde_json::to_string(&x.trees[0])))
    }),
    ("from JSON", |x| {
        let t = serde_json::to_string(&x.trees[4]).expect("JSON");
        digest(call(|| serde_json::from_str::<GvasFile>(&t)))
    }),
];
/// Calls used with two switches in the quick tier.
const TWO: [usize; 12] = [12, 9, 3, 21, 22, 0, 1, 2, 5, 6, 10, 11];

fn prop_read(p: &P, layout: usize, less: usize, h: &Hints) -> String {
    let v = bridge::versions(&versions(layout, 7));
    let mut e = Enc::new(Layout::of(&versions(layout, 7)), false);
    e.prop(p);
    let b = &e.buf[..e.buf.len() - less.min(e.buf.len())];
    let mut st = vec![s("outer")];
    let r = call(|| {
        bridge::with_opts(h, &v, &mut st, |o| {
            Property::new(&mut Stops(Cursor::new(b)), p.type_name(), true, o, None)
        })
    });
    format!("{} {st:?}", digest(r))
}

fn prop_write(p: &P, layout: usize) -> String {
    let v = bridge::versions(&versions(layout, 7));
    let q = bridge::prop(p, Form::Compact);
    let h = Hints::new();
    digest(call(|| {
        let mut c = Stops(Cursor::new(Vec::new()));
        bridge::with_opts(&h, &v, &mut Vec::new(), |o| q.write(&mut c, true, o))
            .map(|n| (n, c.0.into_inner()))
    }))
}

/// Runs calls one after another and prints their results.
pub fn probe_calls(list: &[String]) {
    install_hook();
    let x = inputs();
    // i, or i:n for n times.
    for i in list {
        let (i, n) = i.split_once(':').unwrap_or((i, "1"));
        for _ in 0..n.parse().unwrap() {
            println!(
                "{}",
                (OPS[i.parse::<usize>().unwrap()].1)(x).replace('\n', " ")
            );
        }
    }
}

fn child(what: &str, args: &[String]) -> Result<Vec<String>, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(me)
        .args(["probe", what])
        .args(args)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("process ended with {}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout)
        .lines()
        .map(|l| l.to_string())
        .collect())
}

/// The results of calls made one after another in a process of their own.
fn fresh(list: &[usize]) -> Result<Vec<String>, String> {
    let list: Vec<String> = list.iter().map(|i| i.to_string()).collect();
    child("calls", &list)
}

/// What each call gives as the first call of a process.
fn expected() -> &'static Vec<String> {
    static E: OnceLock<Vec<String>> = OnceLock::new();
    E.get_or_init(|| {
        (0..OPS.len())
            .map(|i| match fresh(&[i]) {
                Ok(v) if v.len() == 1 => v[0].clone(),
                r => format!("no result: {r:?}"),
            })
            .collect()
    })
}

fn sequence(list: &[usize], obs: &mut Obs) -> Out {
    let want = expected();
    let names: Vec<&str> = list.iter().map(|i| OPS[*i].0).collect();
    let got = match fresh(list) {
        Ok(g) => g,
        Err(e) => return fail(format!("{names:?}: {e}")),
    };
    ensure!(got.len() == list.len(), "{names:?}: {} results", got.len());
    for (n, (i, g)) in list.iter().zip(&got).enumerate() {
        ensure!(
            *g == want[*i],
            "call {n} of {names:?} gives {g}, alone it gives {}",
            want[*i]
        );
    }
    obs.state(list);
    obs.calls(list.len() as u64);
    obs.validated(list.len() as u64);
    obs.outcome(if got[0].starts_with("ok") {
        "after success"
    } else {
        "after failure"
    });
    obs.show(|| format!("{names:?}"));
    Ok(())
}

fn count_places(op: usize, x: &'static Inputs) -> u32 {
    // The first run also fills caches.
    (OPS[op].1)(x);
    sched::count(|| (OPS[op].1)(x)).1
}

pub fn probe_places() {
    install_hook();
    for i in 0..OPS.len() {
        println!("{}", count_places(i, inputs()));
    }
}

/// How many places each call can be stopped at.
fn places() -> &'static Vec<usize> {
    static N: OnceLock<Vec<usize>> = OnceLock::new();
    N.get_or_init(|| {
        let l = child("places", &[]).unwrap_or_default();
        l.iter().map(|x| x.parse().expect("number")).collect()
    })
}

/// Two calls under the schedules that stop the first at `i` (or at each of its
/// places) and the second at each of its places (or nowhere).
pub fn probe_pairs(a: &[String]) {
    install_hook();
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let (a, b, at) = (n(0), n(1), a[2].parse::<u32>().ok());
    let x = inputs();
    let places = |op| count_places(op, x);
    let list: Vec<(u32, u32)> = match at {
        None => (0..places(a)).map(|i| (i, u32::MAX)).collect(),
        Some(i) if i < places(a) => (0..places(b)).map(|j| (i, j)).collect(),
        _ => Vec::new(),
    };
    let mut blocked = 0;
    for (i, j) in list {
        let (ra, rb, kept) =
            sched::interleave(|| (OPS[a].1)(inputs()), i, || (OPS[b].1)(inputs()), j);
        println!("{}", ra.replace('\n', " "));
        println!("{}", rb.replace('\n', " "));
        println!("{kept}");
        blocked += !kept as u32;
        // Calls that wait for each other have fewer schedules.
        if blocked == 3 {
            break;
        }
    }
}

fn pairs(a: usize, b: usize, at: Option<u32>, obs: &mut Obs) -> Out {
    let want = expected();
    let (na, nb) = (OPS[a].0, OPS[b].0);
    let at = at.map(|i| i.to_string()).unwrap_or("-".into());
    let got = match child("pairs", &[a.to_string(), b.to_string(), at.clone()]) {
        Ok(g) => g,
        Err(e) => return fail(format!("{na} while {nb}: {e}")),
    };
    for (n, l) in got.chunks_exact(3).enumerate() {
        for (op, other, r) in [(a, nb, &l[0]), (b, na, &l[1])] {
            ensure!(
                *r == want[op],
                "{} gives {r} while {other} runs, alone it gives {} (schedule {at}, {n})",
                OPS[op].0,
                want[op]
            );
        }
        obs.outcome(if l[2] == "true" {
            "schedule"
        } else {
            "blocked schedule"
        });
    }
    let n = got.len() as u64 / 3;
    if n == 0 {
        return Err(Stop::Prune);
    }
    obs.swept(n);
    obs.calls(2 * n);
    obs.validated(2 * n);
    obs.show(|| format!("{na} while {nb}: {n} schedules from {at}"));
    Ok(())
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

// ------------------------------------------------------- neighbouring saves ----

/// Two saves that have most in common, read and written in turn. What each call
/// has to give follows from the model.
fn in_turn(a: &Doc, b: &Doc, obs: &mut Obs) -> Out {
    for (n, x) in [a, b, a, b].into_iter().enumerate() {
        let g = match super::roundtrip::read(&x.bytes, x.file.wrap, &x.hints)? {
            Ok(g) => g,
            Err(e) => {
                return fail(format!(
                    "read {n} in turn fails: {e}; first {}, second {}",
                    brief(&a.file),
                    brief(&b.file)
                ))
            }
        };
        bridge::same_file(&x.file, &g).map_err(|m| {
            Stop::Fail(format!(
                "read {n} in turn: {m}; first {}, second {}",
                brief(&a.file),
                brief(&b.file)
            ))
        })?;
    }
    let trees = [
        bridge::file(&a.file, Form::Compact),
        bridge::file(&b.file, Form::Compact),
    ];
    for i in [1, 0, 1, 0] {
        let x = [a, b][i];
        let out = match super::roundtrip::write(&trees[i])? {
            Ok(o) => o,
            Err(e) => return fail(format!("writing in turn fails: {e}; {}", brief(&x.file))),
        };
        let same = match x.file.wrap {
            Wrap::Plain | Wrap::PalNone => out == x.bytes,
            w => unwrap_container(&out).is_some_and(|(v, plain)| v == w && plain == x.enc.buf),
        };
        ensure!(
            same,
            "writing in turn gives other bytes; first {}, second {}",
            brief(&b.file),
            brief(&a.file)
        );
    }
    obs.state(&(&a.file, &b.file));
    obs.calls(8);
    obs.validated(8);
    obs.show(|| format!("{} and {}", brief(&a.file.props), brief(&b.file.props)));
    Ok(())
}

/// Version lists of the same length for every layout.
fn version_lists() -> Vec<Vec<(Guid16, u32)>> {
    let mut out = Vec::new();
    let filler = [0x77; 16];
    for ue5 in [
        None,
        Some(VER_WIDE_ARGS - 1),
        Some(VER_WIDE_ARGS),
        Some(VER_WIDE_COORDS - 1),
        Some(VER_WIDE_COORDS),
    ] {
        for editor in [None, Some(VER_CULTURE_FLAG - 1), Some(VER_CULTURE_FLAG)] {
            let a = ue5.map_or((filler, 40), |n| (GUID_UE5_RELEASE, n));
            let b = editor.map_or(([0x78; 16], 40), |n| (GUID_EDITOR, n));
            out.push(vec![a, b]);
            out.push(vec![b, a]);
        }
    }
    out
}

/// A save with every value whose layout the versions decide.
fn laid_out(list: &[(Guid16, u32)]) -> Doc {
    let cfg = Cfg {
        headers: false,
        names: false,
        ..Cfg::BASE
    };
    let lay = Layout::of(list);
    let mut props = Vec::new();
    for pick in [pick_struct as Pick, pick_text] {
        for (l, p) in collect(0, |ch| Ok(pick(ch, &cfg))) {
            let untyped = {
                let mut e = Enc::new(lay, false);
                e.prop(&p);
                !e.untyped.is_empty()
            };
            if Layout::of(&versions(l, 7)) == lay && !untyped {
                props.push((format!("p{}", props.len()), p));
            }
        }
    }
    let mut hdr = tiny_header(0);
    hdr.versions = list.to_vec();
    doc(File {
        wrap: Wrap::Plain,
        hdr,
        props,
    })
    .ok()
    .expect("document")
}

/// Struct types whose values have the same number of bytes.
fn alike() -> Vec<Vec<SV>> {
    vec![
        vec![
            SV::Guid([5; 16]),
            SV::Color([0x0505_0505; 4]),
            SV::QF([0x0505_0505; 4]),
        ],
        vec![
            SV::DateTime(0x0505_0505_0505_0505),
            SV::Timespan(0x0505_0505_0505_0505),
            SV::Point(0x0505_0505, 0x0505_0505),
            SV::V2F([0x0505_0505; 2]),
        ],
        vec![SV::VF([0x0505_0505; 3]), SV::RF([0x0505_0505; 3])],
    ]
}

fn neighbours(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let docs: Arc<Vec<Doc>> = Arc::new(version_lists().iter().map(|l| laid_out(l)).collect());
    out.push(phase("versions in turn", 0, move |ch, obs| {
        let a = &docs[ch.free(docs.len())];
        let b = &docs[ch.free(docs.len())];
        in_turn(a, b, obs)
    }));

    // The same bytes under other hints.
    out.push(phase("hints in turn", 0, move |ch, obs| {
        let lists = alike();
        let l = &lists[ch.free(lists.len())];
        let (a, b) = (&l[ch.free(l.len())], &l[ch.free(l.len())]);
        let place = ch.free(4);
        let make = |v: &SV| {
            let el = P::Body(v.clone());
            let set = P::Set(s("StructProperty"), 0, vec![el.clone()]);
            let p = match place {
                0 => set,
                1 => P::Map(
                    s("StructProperty"),
                    s("IntProperty"),
                    0,
                    vec![(el, P::I32(1))],
                ),
                2 => P::Map(
                    s("IntProperty"),
                    s("StructProperty"),
                    0,
                    vec![(P::I32(1), el)],
                ),
                _ => P::Struct(s("S"), [0; 16], SV::Custom(vec![(s("x"), set)])),
            };
            doc(tiny(0, Wrap::Plain, p))
        };
        let (a, b) = (make(a)?, make(b)?);
        ensure!(a.bytes == b.bytes, "the inputs differ");
        in_turn(&a, &b, obs)
    }));

    // Every value next to every other that differs in one choice.
    let wraps = [Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice];
    for (name, k, pick) in [
        ("kinds in turn", 2, pick_kind as Pick),
        ("containers in turn", t.pick(1, 2), pick_container),
        ("structs in turn", 2, pick_struct),
        ("texts in turn", t.pick(2, 3), pick_text),
    ] {
        out.push(phase(name, k, move |ch, obs| {
            let cfg = Cfg {
                headers: false,
                ..Cfg::BASE
            };
            let w = match name {
                _ if name.starts_with("kinds") => wraps[ch.free(4)],
                _ => Wrap::Plain,
            };
            let start = ch.trail.len();
            let (l, p) = pick(ch, &cfg);
            let trail: Vec<(u32, bool)> = ch.trail[start..].iter().map(|x| (x.0, x.2)).collect();
            // The same choices up to the last deviation.
            let Some(last) = trail.iter().rposition(|(v, free)| *v != 0 && !free) else {
                return Err(Stop::Prune);
            };
            let prefix: Vec<u32> = trail[..last].iter().map(|x| x.0).collect();
            let mut other = Ch::new(&prefix);
            let (m, q) = pick(&mut other, &cfg);
            in_turn(&doc(tiny(l, w, p))?, &doc(tiny(m, w, q))?, obs)
        }));
    }

    // Strings of the same length, different in one character.
    out.push(phase("strings in turn", 0, move |ch, obs| {
        let slot = ch.free(STRING_SLOTS);
        let len = [1usize, 2, 8, 32, 64, 100, 300, 5000][ch.free(8)];
        let at = [0, len / 2, len - 1][ch.free(3)];
        let style = ch.free(3);
        let text = |c: char| -> String {
            let mut v: Vec<char> = text_of_len(len, [0, 1, 2][style]).chars().collect();
            let n = v.len();
            v[at.min(n - 1)] = c;
            v.into_iter().collect()
        };
        let pair = [('A', 'B'), ('A', 'a'), ('A', 'É'), ('É', 'é')][ch.free(4)];
        let a = doc(string_slot(slot, text(pair.0)))?;
        let b = doc(string_slot(slot, text(pair.1)))?;
        in_turn(&a, &b, obs)
    }));

    // Headers that differ in one field.
    out.push(phase("headers in turn", 1, move |ch, obs| {
        let start = ch.trail.len();
        let f = gen_file(ch, &Cfg::BASE);
        let trail: Vec<(u32, bool)> = ch.trail[start..].iter().map(|x| (x.0, x.2)).collect();
        let Some(last) = trail.iter().rposition(|(v, free)| *v != 0 && !free) else {
            return Err(Stop::Prune);
        };
        let prefix: Vec<u32> = trail[..last].iter().map(|x| x.0).collect();
        let g = gen_file(&mut Ch::new(&prefix), &Cfg::BASE);
        in_turn(&doc(f)?, &doc(g)?, obs)
    }));
    let field = |i: usize, v: usize| {
        let mut h = tiny_header(1);
        h.ue5 = Some(1004);
        match i {
            0 => h.pkg = 0x205 + v as u32,
            1 => h.ue5 = Some(1000 + v as u32),
            2 => h.major = v as u16,
            3 => h.minor = v as u16,
            4 => h.patch = v as u16,
            5 => h.change = v as u32,
            6 => h.versions[0].0[15] = v as u8,
            7 => h.versions[1].1 = 30 + v as u32,
            _ => h.versions.push(([v as u8; 16], v as u32)),
        }
        h
    };
    out.push(phase("header fields in turn", 0, move |ch, obs| {
        let i = ch.free(9);
        let (a, b) = (ch.free(8), ch.free(8));
        let make = |v| {
            let mut f = tiny(0, Wrap::Plain, P::Str(Some(s("v"))));
            f.hdr = field(i, v);
            doc(f)
        };
        in_turn(&make(a)?, &make(b)?, obs)
    }));
    out
}

fn c21(t: Tier) -> Vec<Phase> {
    let n = OPS.len();
    let mut out = Vec::new();
    out.push(phase("one call", 0, move |ch, obs| {
        // Repeated, and the results are those the model predicts.
        let i = ch.free(n);
        let want = &expected()[i];
        ensure!(
            !want.starts_with("panic") && !want.starts_with("no result"),
            "{}: {want}",
            OPS[i].0
        );
        obs.show(|| format!("{}: {want}", OPS[i].0));
        sequence(&[i, i, i], obs)
    }));
    out.push(phase("two calls", 0, move |ch, obs| {
        let (a, b) = (ch.free(n), ch.free(n));
        sequence(&[a, b], obs)
    }));
    out.push(phase("three calls", 0, move |ch, obs| {
        let l = [ch.free(n), ch.free(n), ch.free(n)];
        sequence(&l, obs)
    }));
    if t == Tier::Thorough {
        out.push(phase("four calls", 0, move |ch, obs| {
            let l = [ch.free(n), ch.free(n), ch.free(n), ch.free(n)];
            sequence(&l, obs)
        }));
    }
    let times = t.pick(400, 4000);
    out.push(phase("many calls", 0, move |ch, obs| {
        let (a, b) = (ch.free(n), ch.free(n));
        let (na, nb) = (OPS[a].0, OPS[b].0);
        let mut l = vec![a; times];
        l.push(b);
        let got = match child("calls", &[format!("{a}:{times}"), b.to_string()]) {
            Ok(g) => g,
            Err(e) => return fail(format!("{na} {times} times, then {nb}: {e}")),
        };
        ensure!(got.len() == l.len(), "{na}, {nb}: {} results", got.len());
        for (k, (i, g)) in l.iter().zip(&got).enumerate() {
            ensure!(
                *g == expected()[*i],
                "call {k} of {na} {times} times, then {nb}: {g}, alone {}",
                expected()[*i]
            );
        }
        obs.state(&(a, b));
        obs.calls(l.len() as u64);
        obs.validated(l.len() as u64);
        obs.outcome(if got[0].starts_with("ok") {
            "after successes"
        } else {
            "after failures"
        });
        obs.show(|| format!("{na} {times} times, then {nb}"));
        Ok(())
    }));
    out.push(phase("one call inside another", 0, move |ch, obs| {
        let (a, b) = (ch.free(n), ch.free(n));
        pairs(a, b, None, obs)
    }));
    let two: Vec<usize> = t.pick(TWO.to_vec(), (0..n).collect());
    out.push(phase("two switches", 0, move |ch, obs| {
        let a = two[ch.free(two.len())];
        let b = two[ch.free(two.len())];
        let i = ch.free(places().get(a).copied().unwrap_or(1).max(1)) as u32;
        pairs(a, b, Some(i), obs)
    }));

    out.extend(neighbours(t));

    // The order in which hints were added, and others among them.
    let docs: Arc<Vec<Doc>> = Arc::new(
        Small {
            containers: Some(0),
            nesting: 3,
            ..Small::ONCE
        }
        .docs()
        .into_iter()
        .filter(|d| d.hints.len() >= 2)
        .collect(),
    );
    out.push(phase("order of hints", 0, move |ch, obs| {
        let x = &docs[ch.free(docs.len())];
        let mut list: Vec<(String, String)> = x
            .hints
            .iter()
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        list.sort();
        list.truncate(5);
        let rest: Vec<(&String, &String)> = x
            .hints
            .iter()
            .filter(|(k, _)| !list.iter().any(|l| l.0 == **k))
            .collect();
        let mut n = 0;
        for extra in [0, 1, 100] {
            for p in permutations(list.len()) {
                let mut h = Hints::with_capacity(if extra == 1 { 1000 } else { 0 });
                for e in 0..extra {
                    h.insert(format!("q{e}"), s("Guid"));
                }
                for i in p {
                    h.insert(list[i].0.clone(), list[i].1.clone());
                }
                for (k, v) in &rest {
                    h.insert((*k).clone(), (*v).clone());
                }
                let g = match super::roundtrip::read(&x.bytes, Wrap::Plain, &h)? {
                    Ok(g) => g,
                    Err(e) => return fail(format!("rejected with {h:?}: {e}")),
                };
                bridge::same_file(&x.file, &g).map_err(Stop::Fail)?;
                n += 1;
            }
        }
        obs.state(&x.bytes);
        obs.swept(n);
        obs.calls(n);
        obs.validated(n);
        obs.show(|| format!("{n} hint maps for {}", brief(&x.file.props)));
        Ok(())
    }));
    out
}
