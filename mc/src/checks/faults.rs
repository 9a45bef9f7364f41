//! C09 and C10: the environment's answers, enumerated.

use super::docs::*;
use super::items::*;
use super::Check;
use crate::bridge::{self, Form};
use crate::explore::*;
use crate::model::*;
use crate::streams::*;
use crate::{ensure, Tier};
use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::error::Error;
use gvas::properties::Property;
use gvas::types::Guid;
use gvas::{GvasFile, GvasHeader};
use std::io::ErrorKind;
use std::sync::Arc;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C09",
        level: "fault_enumeration",
        rule: "one case per (reader, input, chunking, fault positions and kinds); the result is compared with that of an undisturbed stream",
        assumptions: &[],
        phases: c09,
    },
    Check {
        id: "C10",
        level: "fault_enumeration",
        rule: "one case per (writer, value, chunking, fault positions and kinds); the sink's content is compared with that of an undisturbed sink",
        assumptions: &[],
        phases: c10,
    },
];

/// Something that can be read or written, with its stored form.
enum Thing {
    File(Doc),
    Header(Header, Vec<u8>),
    Prop(Item),
    Str(Option<String>, Vec<u8>),
    Guid(Guid16),
    Bool(bool, Vec<u8>),
    Enum(u8),
}

#[derive(PartialEq, Debug)]
enum Val {
    File(GvasFile),
    Header(GvasHeader),
    Prop(Property),
    Str(Option<String>),
    Guid(Guid),
    Bool(bool),
    Enum(i8),
}

impl Thing {
    fn bytes(&self) -> &[u8] {
        match self {
            Thing::File(d) => &d.bytes,
            Thing::Header(_, b) | Thing::Str(_, b) | Thing::Bool(_, b) => b,
            Thing::Prop(i) => &i.bytes,
            Thing::Guid(g) => g,
            Thing::Enum(b) => std::slice::from_ref(b),
        }
    }
    fn read(&self, r: &mut Source) -> Result<Val, Error> {
        Ok(match self {
            Thing::File(d) => Val::File(GvasFile::read_with_hints(
                r,
                bridge::game(d.file.wrap),
                &d.hints,
            )?),
            Thing::Header(..) => Val::Header(GvasHeader::read(r)?),
            Thing::Prop(i) => Val::Prop(i.read(r, &mut Vec::new())?),
            Thing::Str(Some(_), _) => Val::Str(Some(r.read_string()?)),
            Thing::Str(None, _) => Val::Str(r.read_fstring()?),
            Thing::Guid(_) => Val::Guid(r.read_guid()?),
            Thing::Bool(_, b) if b.len() == 1 => Val::Bool(r.read_bool()?),
            Thing::Bool(..) => Val::Bool(r.read_b32()?),
            Thing::Enum(_) => Val::Enum(
                r.read_enum::<gvas::game_version::PalworldCompressionType>()?
                    .into(),
            ),
        })
    }
    fn value(&self) -> Val {
        match self {
            Thing::File(d) => Val::File(bridge::file(&d.file, Form::Compact)),
            Thing::Header(h, _) => Val::Header(bridge::header(h)),
            Thing::Prop(i) => Val::Prop(i.build(Form::Compact)),
            Thing::Str(s, _) => Val::Str(s.clone()),
            Thing::Guid(g) => Val::Guid(Guid(*g)),
            Thing::Bool(b, _) => Val::Bool(*b),
            Thing::Enum(b) => Val::Enum(*b as i8),
        }
    }
    fn write(&self, v: &Val, w: &mut Sink) -> Result<(), Error> {
        match (self, v) {
            (Thing::File(_), Val::File(f)) => f.write(w)?,
            (Thing::Header(..), Val::Header(h)) => {
                h.write(w)?;
            }
            (Thing::Prop(i), Val::Prop(p)) => {
                i.write(p, w)?;
            }
            (Thing::Str(..), Val::Str(Some(s))) => {
                w.write_string(s)?;
            }
            (Thing::Str(..), Val::Str(s)) => {
                w.write_fstring(s.as_deref())?;
            }
            (Thing::Guid(_), Val::Guid(g)) => w.write_guid(g)?,
            (Thing::Bool(_, b), Val::Bool(v)) if b.len() == 1 => w.write_bool(*v)?,
            (Thing::Bool(..), Val::Bool(v)) => w.write_b32(*v)?,
            (Thing::Enum(_), Val::Enum(v)) => w.write_enum(*v)?,
            _ => unreachable!(),
        }
        Ok(())
    }
    fn brief(&self) -> String {
        match self {
            Thing::File(d) => format!("save in {:?}: {}", d.file.wrap, brief(&d.file.props)),
            Thing::Header(h, _) => format!("header {}", brief(h)),
            Thing::Prop(i) => format!("property (header {}) {}", i.header, brief(&i.p)),
            Thing::Str(s, _) => format!("string {}", brief(s)),
            Thing::Guid(_) => "identifier".into(),
            Thing::Bool(..) => "boolean".into(),
            Thing::Enum(_) => "enumeration".into(),
        }
    }
}

fn things(t: Tier, k: u32, wraps: &[Wrap]) -> Vec<Thing> {
    let small = Small {
        kinds: k,
        containers: if k > 0 { Some(0) } else { None },
        structs: Some(0),
        texts: Some(0),
        nesting: t.pick(1, 2),
    };
    let mut out = Vec::new();
    for l in 0..crate::gen::LAYOUTS {
        for ue5 in [None, Some(1004)] {
            let mut h = tiny_header(l);
            h.ue5 = ue5;
            h.class = "Klässe".into();
            let mut e = Enc::new(Layout::default(), false);
            e.header(&h);
            out.push(Thing::Header(h, e.buf));
        }
    }
    for s in [
        None,
        Some(""),
        Some("abc"),
        Some("é𝄞"),
        Some("long enough for chunks"),
    ] {
        let mut e = Enc::new(Layout::default(), false);
        let s = s.map(String::from);
        e.opt_string(&s);
        out.push(Thing::Str(s, e.buf));
    }
    out.push(Thing::Guid([
        1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16,
    ]));
    out.push(Thing::Bool(true, vec![1]));
    out.push(Thing::Bool(true, vec![1, 0, 0, 0]));
    out.push(Thing::Enum(0x31));
    for i in items(&small, k) {
        out.push(Thing::Prop(i));
    }
    for w in wraps {
        let docs = if *w == Wrap::Plain {
            small.docs()
        } else {
            Small {
                kinds: 0,
                containers: None,
                structs: None,
                texts: None,
                nesting: 0,
            }
            .docs()
        };
        for mut d in docs {
            d.file.wrap = *w;
            if let Ok(x) = doc(d.file) {
                out.push(Thing::File(x));
            }
        }
    }
    out
}

const ALL_WRAPS: [Wrap; 4] = [Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice];

const KINDS: [ErrorKind; 6] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
];

/// Kinds a caller might want to treat in a special way.
const ERRORS: [ErrorKind; 20] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::ResourceBusy,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

/// Pieces of large values.
const LARGE: [usize; 4] = [0, 100, 1000, 4096];

const CHUNKS: [usize; 5] = [0, 1, 2, 3, 7];

/// Positions of faults: every operation, of the long ones those at both ends.
fn place(ch: &mut Ch, ops: usize) -> usize {
    let n = ch.free(ops.min(64));
    if ops > 64 && n >= 32 {
        ops - 64 + n
    } else {
        n
    }
}

fn clean_read(th: &Thing) -> Result<(Val, Source<'_>), Stop> {
    static CLEAN: Plan = Plan {
        chunk: 0,
        ragged: false,
        data: Vec::new(),
        seeks: Vec::new(),
        flushes: Vec::new(),
        room: None,
        full_is_zero: false,
    };
    let mut s = Source::new(th.bytes(), &CLEAN);
    match call(|| th.read(&mut s))? {
        Ok(v) => Ok((v, s)),
        Err(e) => fail(format!("rejected from an undisturbed stream: {e}")),
    }
}

/// How many operations the run with this chunking makes.
fn read_ops(th: &Thing, chunk: usize) -> Result<Ops, Stop> {
    let plan = Plan {
        chunk,
        ..Plan::default()
    };
    let mut s = Source::new(th.bytes(), &plan);
    let r = call(|| th.read(&mut s))?;
    ensure!(r.is_ok(), "fails when delivered in pieces of {chunk} bytes");
    Ok(s.ops)
}

fn read_case(th: &Thing, plan: &Plan, obs: &mut Obs) -> Out {
    let (want, clean) = clean_read(th)?;
    let mut s = Source::new(th.bytes(), plan);
    let got = call(|| th.read(&mut s))?;
    obs.calls(2);
    obs.validated(1);
    obs.show(|| format!("{} with {plan:?}", th.brief()));
    let seek_interrupted = plan
        .seeks
        .iter()
        .any(|x| x.1 == Fault::Interrupted && x.0 < s.ops.seeks);
    match got {
        Err(Error::Io(e)) if s.ops.failed > 0 => {
            ensure!(
                e.to_string() == MESSAGE,
                "stream error replaced by {e:?}; {} with {plan:?}",
                th.brief()
            );
            let kind = plan.data.iter().chain(&plan.seeks).find_map(|x| match x.1 {
                Fault::Fail(k) => Some(k),
                _ => None,
            });
            ensure!(
                Some(e.kind()) == kind,
                "stream error {kind:?} reported as {:?}",
                e.kind()
            );
            obs.outcome("stream error returned");
            Ok(())
        }
        Err(e) if s.ops.failed > 0 => fail(format!(
            "stream error reported as {e:?}; {} with {plan:?}",
            th.brief()
        )),
        Err(_) if seek_interrupted => {
            obs.outcome("interrupted seek returned");
            Ok(())
        }
        Err(e) => fail(format!("fails: {e}; {} with {plan:?}", th.brief())),
        Ok(_) if s.ops.failed > 0 => fail(format!(
            "returns a value although the stream failed; {} with {plan:?}",
            th.brief()
        )),
        Ok(v) => {
            ensure!(
                v == want,
                "a different value is read; {} with {plan:?}",
                th.brief()
            );
            // Where the stream ends up is part of the result, except past a
            // compressed payload, where it depends on read-ahead.
            let fixed = match th {
                Thing::File(d) => !matches!(d.file.wrap, Wrap::PalZlib | Wrap::PalTwice),
                _ => true,
            };
            ensure!(
                !fixed || s.pos == clean.pos,
                "stream left at {} instead of {}; {} with {plan:?}",
                s.pos,
                clean.pos,
                th.brief()
            );
            obs.outcome("same value");
            Ok(())
        }
    }
}

/// A fault of any kind a reader can meet.
fn read_fault(ch: &mut Ch, all: bool) -> Fault {
    match ch.free(if all { 2 + KINDS.len() } else { 3 }) {
        0 => Fault::Short,
        1 => Fault::Interrupted,
        k => Fault::Fail(KINDS[k - 2]),
    }
}

fn c09(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let some = Arc::new(things(t, 0, &ALL_WRAPS));
    let many = Arc::new(things(t, 1, &ALL_WRAPS));

    let list = many.clone();
    let top = t.pick(40, 200);
    out.push(phase("piece sizes", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let chunk = 1 + ch.free(top);
        let ragged = ch.free(2) == 1;
        obs.state(&(i, chunk, ragged));
        let plan = Plan {
            chunk,
            ragged,
            ..Plan::default()
        };
        read_case(&list[i], &plan, obs)
    }));
    let list = many.clone();
    out.push(phase("one fault", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let chunk = CHUNKS[ch.free(t.pick(2, CHUNKS.len()))];
        let ops = read_ops(th, chunk)?;
        let n = ch.free(ops.data + ops.seeks);
        let f = read_fault(ch, true);
        obs.state(&(i, chunk, n, f));
        let mut plan = Plan {
            chunk,
            ..Plan::default()
        };
        if n < ops.data {
            plan.data.push((n, f));
        } else if f == Fault::Short {
            return Err(Stop::Prune);
        } else {
            plan.seeks.push((n - ops.data, f));
        }
        read_case(th, &plan, obs)
    }));
    let list = some.clone();
    out.push(phase("error kinds", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let ops = read_ops(th, 0)?;
        let n = ch.free(ops.data + ops.seeks);
        let f = Fault::Fail(ERRORS[ch.free(ERRORS.len())]);
        obs.state(&(i, n, f));
        let mut plan = Plan::default();
        if n < ops.data {
            plan.data.push((n, f));
        } else {
            plan.seeks.push((n - ops.data, f));
        }
        read_case(th, &plan, obs)
    }));
    let list = some.clone();
    out.push(phase("two faults", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let chunk = match th {
            // Whole-file readers take everything in one go.
            Thing::File(_) => [0, th.bytes().len() / 16, 2][ch.free(t.pick(2, 3))],
            _ => 0,
        };
        let ops = read_ops(th, chunk)?;
        let a = ch.free(ops.data);
        // The first fault makes later operations shift.
        let b = ch.free(ops.data + 1);
        if b <= a {
            return Err(Stop::Prune);
        }
        let fa = [Fault::Short, Fault::Interrupted][ch.free(2)];
        let fb = read_fault(ch, false);
        obs.state(&(i, chunk, a, b, fa, fb));
        let plan = Plan {
            chunk,
            data: vec![(a, fa), (b, fb)],
            ..Plan::default()
        };
        read_case(th, &plan, obs)
    }));
    if t == Tier::Thorough {
        let list = some.clone();
        out.push(phase("three faults", 0, move |ch, obs| {
            let i = ch.free(list.len());
            let th = &list[i];
            if matches!(th, Thing::File(d) if d.file.wrap == Wrap::Plain) || th.bytes().len() > 80 {
                return Err(Stop::Prune);
            }
            let ops = read_ops(th, 0)?;
            let a = ch.free(ops.data);
            let b = ch.free(ops.data + 1);
            if b <= a {
                return Err(Stop::Prune);
            }
            let c = ch.free(ops.data + 2);
            if c <= b {
                return Err(Stop::Prune);
            }
            let fa = [Fault::Short, Fault::Interrupted][ch.free(2)];
            let fb = [Fault::Short, Fault::Interrupted][ch.free(2)];
            let fc = read_fault(ch, false);
            obs.state(&(i, a, b, c, fa, fb, fc));
            let plan = Plan {
                data: vec![(a, fa), (b, fb), (c, fc)],
                ..Plan::default()
            };
            read_case(th, &plan, obs)
        }));
    }
    let list = some.clone();
    out.push(phase("every operation interrupted", 0, move |ch, obs| {
        // Bursts: each operation fails to start n times before it runs.
        let i = ch.free(list.len());
        let th = &list[i];
        let burst = 1 + ch.free(3);
        let chunk = CHUNKS[ch.free(CHUNKS.len())];
        obs.state(&(i, burst, chunk));
        let plan = Plan {
            chunk,
            data: (0..100_000usize)
                .take_while(|n| *n < 12 * th.bytes().len() + 64)
                .filter(|n| n % (burst + 1) != burst)
                .map(|n| (n, Fault::Interrupted))
                .collect(),
            ..Plan::default()
        };
        read_case(th, &plan, obs)
    }));
    let list = some;
    out.push(phase("truncated", 0, move |ch, obs| {
        // An incomplete input stays rejected however it is delivered.
        let i = ch.free(list.len());
        let th = &list[i];
        let n = th.bytes().len();
        let cut = ch.free(n);
        let chunk = 1 + ch.free(4);
        static CLEAN: Plan = Plan {
            chunk: 0,
            ragged: false,
            data: Vec::new(),
            seeks: Vec::new(),
            flushes: Vec::new(),
            room: None,
            full_is_zero: false,
        };
        let plan = Plan {
            chunk,
            ..Plan::default()
        };
        let a = call(|| th.read(&mut Source::new(&th.bytes()[..cut], &CLEAN)))?;
        let b = call(|| th.read(&mut Source::new(&th.bytes()[..cut], &plan)))?;
        obs.state(&(i, cut, chunk));
        obs.calls(2);
        obs.validated(1);
        let same = match (&a, &b) {
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            // Bytes after the last compressed data are looked at or not
            // depending on read-ahead.
            _ => matches!(th, Thing::File(d) if matches!(d.file.wrap, Wrap::PalZlib | Wrap::PalTwice)),
        };
        ensure!(
            same,
            "first {cut} bytes read at once: {}, in pieces of {chunk}: {}; {}",
            a.map(|_| "accepted".to_string()).unwrap_or_else(|e| e.to_string()),
            b.map(|_| "accepted".to_string()).unwrap_or_else(|e| e.to_string()),
            th.brief()
        );
        obs.outcome(if a.is_ok() { "accepted" } else { "rejected" });
        Ok(())
    }));
    let list: Vec<Thing> = large().into_iter().map(Thing::Prop).collect();
    out.push(phase("large values", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let chunk = LARGE[ch.free(LARGE.len())];
        let mut plan = Plan {
            chunk,
            ..Plan::default()
        };
        if ch.free(2) == 1 {
            let n = place(ch, read_ops(&list[i], chunk)?.data);
            let f = read_fault(ch, false);
            plan.data.push((n, f));
        }
        obs.state(&(i, format!("{plan:?}")));
        read_case(&list[i], &plan, obs)
    }));
    let list = fixtures();
    out.push(phase("game saves", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let f = &list[i];
        let chunk = [1usize, 2, 7, 13, 4095, 4096, 4097, 65536][ch.free(8)];
        let read = |plan: &Plan| {
            let mut s = Source::new(&f.bytes, plan);
            let g = if f.pal {
                gvas::game_version::GameVersion::Palworld
            } else {
                gvas::game_version::GameVersion::Default
            };
            (
                call(|| GvasFile::read_with_hints(&mut s, g, &f.hints)),
                s.ops,
            )
        };
        let (want, _) = read(&Plan::default());
        let want = want?;
        let plan = Plan {
            chunk,
            ..Plan::default()
        };
        let (got, ops) = read(&plan);
        obs.state(&(i, chunk));
        obs.calls(2);
        obs.validated(1);
        let (want, got) = match (want, got?) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return fail(format!("{}: {:?} / {:?}", f.name, a.err(), b.err())),
        };
        ensure!(
            want == got,
            "{}: in pieces of {chunk} a different tree",
            f.name
        );
        // A failure at the first, the middle and the last operation.
        for n in [0, ops.data / 2, ops.data - 1] {
            let plan = Plan {
                chunk,
                data: vec![(n, Fault::Fail(ErrorKind::Other))],
                ..Plan::default()
            };
            let (got, _) = read(&plan);
            obs.calls(1);
            match got? {
                Err(Error::Io(e)) if e.to_string() == MESSAGE => {}
                r => {
                    return fail(format!(
                        "{}: failure at operation {n} gives {}",
                        f.name,
                        r.map(|_| "a value".into())
                            .unwrap_or_else(|e| e.to_string())
                    ))
                }
            }
        }
        Ok(())
    }));
    out
}

// -------------------------------------------------------------- writing ----

/// Content and position of the sink before the call.
const STARTS: [(usize, u64); 4] = [(0, 0), (5, 5), (300, 2), (0, 9)];

fn start(i: usize) -> (Vec<u8>, u64) {
    let (n, p) = STARTS[i];
    ((0..n).map(|x| 0xE0 ^ x as u8).collect(), p)
}

fn clean_write(th: &Thing, v: &Val, at: usize, chunk: usize) -> Result<(Vec<u8>, u64, Ops), Stop> {
    let plan = Plan {
        chunk,
        ..Plan::default()
    };
    let (b, p) = start(at);
    let mut s = Sink::new(b, p, &plan);
    match call(|| th.write(v, &mut s))? {
        Ok(()) => Ok((s.bytes, s.pos, s.ops)),
        Err(e) if chunk == 0 => fail(format!("not written to an undisturbed sink: {e}")),
        Err(_) => Err(Stop::Prune),
    }
}

fn write_case(th: &Thing, at: usize, plan: &Plan, obs: &mut Obs) -> Out {
    let v = th.value();
    let (want, pos, _) = clean_write(th, &v, at, 0)?;
    let (b, p) = start(at);
    let mut s = Sink::new(b, p, plan);
    let got = call(|| th.write(&v, &mut s))?;
    obs.calls(2);
    obs.validated(1);
    obs.show(|| format!("{} with {plan:?}", th.brief()));
    match got {
        Ok(()) => {
            ensure!(
                s.ops.failed == 0,
                "success although the sink failed; {} with {plan:?}",
                th.brief()
            );
            ensure!(
                s.bytes == want && s.pos == pos,
                "success with incomplete or different output ({} bytes at {}, complete: {} at {pos}); {} with {plan:?}",
                s.bytes.len(),
                s.pos,
                want.len(),
                th.brief()
            );
            obs.outcome("complete output");
        }
        Err(_) => obs.outcome("error returned"),
    }
    Ok(())
}

fn write_fault(ch: &mut Ch) -> Fault {
    match ch.free(6) {
        0 => Fault::Short,
        1 => Fault::Interrupted,
        2 => Fault::Zero,
        3 => Fault::Fail(ErrorKind::Other),
        4 => Fault::Fail(ErrorKind::StorageFull),
        _ => Fault::Fail(ErrorKind::WouldBlock),
    }
}

fn c10(t: Tier) -> Vec<Phase> {
    let mut out = Vec::new();
    let some = Arc::new(things(t, 0, &ALL_WRAPS));
    let many = Arc::new(things(t, 1, &ALL_WRAPS));

    let list = many.clone();
    let top = t.pick(24, 100);
    out.push(phase("piece sizes", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let at = ch.free(STARTS.len());
        let chunk = 1 + ch.free(top);
        let ragged = ch.free(2) == 1;
        obs.state(&(i, at, chunk, ragged));
        let plan = Plan {
            chunk,
            ragged,
            ..Plan::default()
        };
        write_case(&list[i], at, &plan, obs)
    }));
    let list = many.clone();
    out.push(phase("one fault", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let at = ch.free(t.pick(2, STARTS.len()));
        let chunk = CHUNKS[ch.free(t.pick(2, CHUNKS.len()))];
        let (_, _, ops) = clean_write(th, &th.value(), at, chunk)?;
        let n = ch.free(ops.data + ops.seeks + ops.flushes);
        let f = write_fault(ch);
        obs.state(&(i, at, chunk, n, f));
        let mut plan = Plan {
            chunk,
            ..Plan::default()
        };
        if n < ops.data {
            plan.data.push((n, f));
        } else if matches!(f, Fault::Short | Fault::Zero) {
            return Err(Stop::Prune);
        } else if n < ops.data + ops.seeks {
            plan.seeks.push((n - ops.data, f));
        } else {
            plan.flushes.push((n - ops.data - ops.seeks, f));
        }
        write_case(th, at, &plan, obs)
    }));
    let list = some.clone();
    out.push(phase("error kinds", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let (_, _, ops) = clean_write(th, &th.value(), 1, 0)?;
        let n = ch.free(ops.data + ops.seeks + ops.flushes);
        let f = Fault::Fail(ERRORS[ch.free(ERRORS.len())]);
        obs.state(&(i, n, f));
        let mut plan = Plan::default();
        if n < ops.data {
            plan.data.push((n, f));
        } else if n < ops.data + ops.seeks {
            plan.seeks.push((n - ops.data, f));
        } else {
            plan.flushes.push((n - ops.data - ops.seeks, f));
        }
        write_case(th, 1, &plan, obs)
    }));
    let list = some.clone();
    out.push(phase("two faults", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let chunk = match th {
            Thing::File(_) => [0, th.bytes().len() / 16, 2][ch.free(t.pick(2, 3))],
            _ => 0,
        };
        let (_, _, ops) = clean_write(th, &th.value(), 1, chunk)?;
        let a = ch.free(ops.data);
        let b = ch.free(ops.data + 1);
        if b <= a {
            return Err(Stop::Prune);
        }
        let fa = [Fault::Short, Fault::Interrupted][ch.free(2)];
        let fb = [
            Fault::Short,
            Fault::Interrupted,
            Fault::Zero,
            Fault::Fail(ErrorKind::Other),
        ][ch.free(4)];
        obs.state(&(i, chunk, a, b, fa, fb));
        let plan = Plan {
            chunk,
            data: vec![(a, fa), (b, fb)],
            ..Plan::default()
        };
        write_case(th, 1, &plan, obs)
    }));
    if t == Tier::Thorough {
        let list = some.clone();
        out.push(phase("three faults", 0, move |ch, obs| {
            let i = ch.free(list.len());
            let th = &list[i];
            if th.bytes().len() > 80 {
                return Err(Stop::Prune);
            }
            let (_, _, ops) = clean_write(th, &th.value(), 1, 0)?;
            let a = ch.free(ops.data);
            let b = ch.free(ops.data + 1);
            if b <= a {
                return Err(Stop::Prune);
            }
            let c = ch.free(ops.data + 2);
            if c <= b {
                return Err(Stop::Prune);
            }
            let fa = [Fault::Short, Fault::Interrupted][ch.free(2)];
            let fb = [Fault::Short, Fault::Interrupted][ch.free(2)];
            let fc = [
                Fault::Short,
                Fault::Interrupted,
                Fault::Zero,
                Fault::Fail(ErrorKind::Other),
            ][ch.free(4)];
            obs.state(&(i, a, b, c, fa, fb, fc));
            let plan = Plan {
                data: vec![(a, fa), (b, fb), (c, fc)],
                ..Plan::default()
            };
            write_case(th, 1, &plan, obs)
        }));
    }
    let list = many;
    out.push(phase("sink full", 0, move |ch, obs| {
        // Room for every number of bytes below the complete output.
        let i = ch.free(list.len());
        let th = &list[i];
        let at = ch.free(2);
        let zero = ch.free(2) == 1;
        let (_, _, ops) = clean_write(th, &th.value(), at, 0)?;
        let room = ch.free(ops.moved + 1);
        obs.state(&(i, at, zero, room));
        let plan = Plan {
            room: Some(room),
            full_is_zero: zero,
            ..Plan::default()
        };
        write_case(th, at, &plan, obs)
    }));
    let list = some;
    out.push(phase("every operation interrupted", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let burst = 1 + ch.free(3);
        let chunk = CHUNKS[ch.free(CHUNKS.len())];
        obs.state(&(i, burst, chunk));
        let plan = Plan {
            chunk,
            data: (0..100_000usize)
                .take_while(|n| *n < 12 * th.bytes().len() + 64)
                .filter(|n| n % (burst + 1) != burst)
                .map(|n| (n, Fault::Interrupted))
                .collect(),
            ..Plan::default()
        };
        write_case(th, 1, &plan, obs)
    }));
    // Payloads larger than any internal buffer.
    let big: Arc<Vec<Thing>> = Arc::new(
        ALL_WRAPS
            .iter()
            .flat_map(|w| {
                [3000usize, 40_000, 150_000].map(|n| {
                    let mut x = 1u32;
                    let noise: Vec<u8> = (0..n)
                        .map(|_| {
                            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                            (x >> 24) as u8
                        })
                        .collect();
                    Thing::File(
                        doc(tiny(0, *w, P::Unknown("Blob".into(), noise)))
                            .unwrap_or_else(|_| panic!()),
                    )
                })
            })
            .collect(),
    );
    let list: Vec<Thing> = large().into_iter().map(Thing::Prop).collect();
    out.push(phase("large values", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let chunk = LARGE[ch.free(LARGE.len())];
        let mut plan = Plan {
            chunk,
            ..Plan::default()
        };
        if ch.free(2) == 1 {
            let (_, _, ops) = clean_write(th, &th.value(), 1, chunk)?;
            let n = place(ch, ops.data);
            plan.data.push((n, write_fault(ch)));
        }
        obs.state(&(i, format!("{plan:?}")));
        write_case(th, 1, &plan, obs)
    }));
    let list = big;
    out.push(phase("large saves", 0, move |ch, obs| {
        let i = ch.free(list.len());
        let th = &list[i];
        let chunk = [0usize, 511, 4096, 32768][ch.free(4)];
        let (_, _, ops) = clean_write(th, &th.value(), 1, chunk)?;
        let n = ch.free(ops.data + ops.seeks + 20);
        let f = write_fault(ch);
        obs.state(&(i, chunk, n, f));
        let mut plan = Plan {
            chunk,
            ..Plan::default()
        };
        if n < ops.data {
            plan.data.push((n, f));
        } else if matches!(f, Fault::Short | Fault::Zero) {
            return Err(Stop::Prune);
        } else if n < ops.data + ops.seeks {
            plan.seeks.push((n - ops.data, f));
        } else {
            let k = n - ops.data - ops.seeks;
            plan.room = Some(ops.moved - 1 - k * (ops.moved - 1) / 19);
            plan.full_is_zero = f == Fault::Interrupted;
        }
        write_case(th, 1, &plan, obs)
    }));
    out
}
