//! Malformed inputs: systematic changes to small saves, and short inputs.

use super::docs::*;
use super::items::*;
use crate::bridge::{self, Hints};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::Tier;
use gvas::cursor_ext::ReadExt;
use gvas::error::Error;
use gvas::properties::Property;
use gvas::{GvasFile, GvasHeader};
use std::io::{Read, Seek};
use std::sync::Arc;

/// A way into the reader.
#[derive(Clone, Copy, Debug)]
pub enum Entry<'a> {
    File(Wrap),
    Header,
    Prop {
        ty: &'a str,
        header: bool,
        share: Option<u32>,
        layout: usize,
    },
    Str,
    OptStr,
}

pub enum Val {
    File(GvasFile),
    Header(GvasHeader),
    Prop(Property),
    Str(String),
    OptStr(Option<String>),
}

impl Entry<'_> {
    pub fn read<R: Read + Seek>(&self, r: &mut R, hints: &Hints) -> Result<Val, Error> {
        Ok(match self {
            Entry::File(w) => Val::File(GvasFile::read_with_hints(r, bridge::game(*w), hints)?),
            Entry::Header => Val::Header(GvasHeader::read(r)?),
            Entry::Prop {
                ty,
                header,
                share,
                layout,
            } => {
                let v = bridge::versions(&versions(*layout, 7));
                Val::Prop(bridge::with_opts(hints, &v, &mut Vec::new(), |o| {
                    Property::new(r, ty, *header, o, *share)
                })?)
            }
            Entry::Str => Val::Str(r.read_string()?),
            Entry::OptStr => Val::OptStr(r.read_fstring()?),
        })
    }
}

/// One input for the reader.
pub struct In<'a> {
    pub entry: Entry<'a>,
    pub bytes: &'a [u8],
    /// What the container holds, where that is known.
    pub plain: Option<&'a [u8]>,
    pub hints: &'a Hints,
}

pub type Judge = Arc<dyn Fn(&In, &mut Obs) -> Out + Send + Sync>;

pub fn judge(j: &Judge, x: &In, obs: &mut Obs) -> Out {
    obs.calls += 1;
    j(x, obs).map_err(|e| match e {
        Stop::Fail(m) => Stop::Fail(format!(
            "{m}; input of {:?} ({} bytes): {}",
            x.entry,
            x.bytes.len(),
            hex(x.bytes)
        )),
        e => e,
    })
}

/// A small save that gets changed.
pub struct Base {
    pub doc: Doc,
    /// First byte after the header.
    pub body: usize,
    /// First point after the header.
    head: usize,
}

pub fn base(doc: Doc) -> Base {
    let mut e = Enc::new(Layout::default(), true);
    e.header(&doc.file.hdr);
    Base {
        body: e.buf.len(),
        head: e.points.len(),
        doc,
    }
}

pub fn small(t: Tier) -> Vec<Base> {
    let mut v = Small {
        kinds: t.pick(0, 1),
        containers: None,
        structs: Some(0),
        texts: Some(t.pick(0, 1)),
        nesting: t.pick(1, 2),
    }
    .docs();
    v.extend(containers(t));
    v.extend(empty());
    v.into_iter().map(base).collect()
}

/// Everything that holds a list, with an empty one: a count is then the last
/// thing that can be wrong.
fn empty() -> Vec<Doc> {
    let text = |flags| Text {
        flags,
        hist: Hist::Base(None, None, None),
    };
    let source = || Box::new(text(1));
    let mut all = vec![
        P::MInline(vec![]),
        P::MSparse(vec![]),
        P::FieldPath(vec![], "o".into()),
        P::Struct("S".into(), [3; 16], SV::Custom(vec![])),
        P::Struct("GameplayTagContainer".into(), [0; 16], SV::Tags(vec![])),
        P::Unknown("MysteryProperty".into(), vec![]),
    ];
    for hist in [
        Hist::Named(source(), vec![]),
        Hist::Ordered(source(), vec![]),
        Hist::ArgFmt(source(), vec![]),
    ] {
        all.push(P::Text(Text { flags: 2, hist }));
    }
    for ty in ["Int", "Str", "Byte", "Struct", "Mystery"].map(|t| format!("{t}Property")) {
        let info = (ty == "StructProperty").then(|| ("a".into(), "S".into(), [4; 16]));
        all.push(P::Map("IntProperty".into(), ty.clone(), 0, vec![]));
        all.push(P::Set(ty.clone(), 0, vec![]));
        all.push(P::Array(Arr {
            ty,
            info,
            el: vec![],
        }));
    }
    all.into_iter()
        .map(|p| match doc_spans(tiny(1, Wrap::Plain, p)) {
            Ok(d) => d,
            Err(e) => panic!("{e:?}"),
        })
        .collect()
}

/// Arrays and sets of every element kind, and maps in which every kind is a key
/// and a value.
fn containers(t: Tier) -> Vec<Doc> {
    let cfg = Cfg {
        headers: false,
        names: false,
        ..Cfg::BASE
    };
    collect(0, |ch| {
        let layout = ch.free(2);
        let kind = ch.free(t.pick(3, 4));
        let e = ch.free(ELEMENTS.len());
        let mut g = Gen {
            ch,
            cfg,
            lay: Layout::of(&versions(layout, 7)),
        };
        let p = match kind {
            0 => g.array_of(ELEMENTS[e], 2, 1),
            1 => g.set_of(ELEMENTS[e], 2, 1),
            _ => {
                if e >= MAP_ELEMENTS {
                    return Err(Stop::Prune);
                }
                if kind == 2 {
                    g.map_of(ELEMENTS[e], ELEMENTS[(e + 1) % MAP_ELEMENTS], 2, 1)
                } else {
                    g.map_of(ELEMENTS[e], ELEMENTS[(e * 5 + 2) % MAP_ELEMENTS], 1, 1)
                }
            }
        };
        doc_spans(tiny(layout, Wrap::Plain, p))
    })
}

/// One of each property type.
pub fn tiny_set(layout: usize) -> Vec<Base> {
    let cfg = Cfg {
        headers: false,
        names: false,
        ..Cfg::BASE
    };
    collect(0, |ch| {
        let k = ch.free(KINDS.len());
        let mut g = Gen {
            ch,
            cfg,
            lay: Layout::of(&versions(layout, 7)),
        };
        let p = g.prop_of(KINDS[k], 1);
        doc_spans(tiny(layout, Wrap::Plain, p))
    })
    .into_iter()
    .map(base)
    .collect()
}

pub fn framing(k: &Kind) -> bool {
    !matches!(
        k,
        Kind::StrBody
            | Kind::Value
            | Kind::Id
            | Kind::Padding
            | Kind::EngineField
            | Kind::VersionKey
    )
}

/// Boundary values for a field of this width.
pub fn boundary(old: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 127, 128, 255, 256];
    let w = old.len();
    let mut b = [0u8; 8];
    b[..w].copy_from_slice(old);
    let o = u64::from_le_bytes(b);
    for d in [1u64, 2, 4, 8, 9] {
        v.push(o.wrapping_add(d));
        v.push(o.wrapping_sub(d));
    }
    v.push(o.wrapping_neg());
    v.push(o.wrapping_mul(2));
    if w >= 4 {
        for x in [
            65535u64,
            65536,
            131071,
            131072,
            131073,
            1 << 20,
            1 << 24,
            (1 << 28) + 1,
            (1 << 30) + 3,
            (1 << 31) - 1,
            1 << 31,
            (1 << 31) + 1,
            (1 << 32) - 9,
            (1 << 32) - 2,
            (1 << 32) - 1,
        ] {
            v.push(x);
        }
        for x in [1u64, 2, 3, 4, 5, 131071, 131072, 131073] {
            v.push(x.wrapping_neg());
        }
    }
    if w == 8 {
        for x in [
            1u64 << 32,
            o | 1 << 32,
            o | 1 << 63,
            o | 0xFF << 56,
            u64::MAX,
        ] {
            v.push(x);
        }
    }
    let mut out: Vec<Vec<u8>> = v.iter().map(|x| x.to_le_bytes()[..w].to_vec()).collect();
    out.sort();
    out.dedup();
    out.retain(|x| x != old);
    out
}

/// A few of them, for combinations.
fn few(old: &[u8]) -> Vec<Vec<u8>> {
    let w = old.len();
    let mut b = [0u8; 8];
    b[..w].copy_from_slice(old);
    let o = u64::from_le_bytes(b);
    let l: Vec<u64> = if w == 1 {
        vec![0, 1, 2, 4, 255]
    } else {
        vec![
            0,
            1,
            o.wrapping_add(1),
            o.wrapping_sub(1),
            o.wrapping_neg(),
            o.wrapping_mul(2),
            (1 << 31) - 1,
            u32::MAX as u64,
        ]
    };
    let mut out: Vec<Vec<u8>> = l.iter().map(|x| x.to_le_bytes()[..w].to_vec()).collect();
    out.sort();
    out.dedup();
    out.retain(|x| x != old);
    out
}

const SPLICED: [&[u8]; 6] = [
    &[0],
    &[1],
    &[0xFF],
    &[0, 0, 0, 0],
    &[0xFF, 0xFF, 0xFF, 0x7F],
    b"\x05\0\0\0None\0",
];

const INSERTED: [&[u8]; 5] = [
    &[0, 0],
    &[0; 8],
    &[0; 16],
    b"\x02\0\0\0a\0",
    b"\x02\0\0\0a\0\x0c\0\0\0IntProperty\0\x04\0\0\0\0\0\0\0\0\x07\0\0\0",
];

/// Encodings that take the place of a whole string.
const STRINGS: [&[u8]; 20] = [
    // Absent, empty, empty in the wide encoding.
    &[0, 0, 0, 0],
    &[1, 0, 0, 0, 0],
    &[0xFF, 0xFF, 0xFF, 0xFF, 0, 0],
    // Without or with a wrong terminator.
    &[1, 0, 0, 0, 1],
    &[2, 0, 0, 0, b'a', b'a'],
    &[0xFE, 0xFF, 0xFF, 0xFF, b'a', 0, 1, 0],
    &[0xFE, 0xFF, 0xFF, 0xFF, b'a', 0, 0, 1],
    // The wide encoding of what is usually stored narrow.
    &[0xFE, 0xFF, 0xFF, 0xFF, b'a', 0, 0, 0],
    // Zero characters.
    &[3, 0, 0, 0, 0, 0, 0],
    &[4, 0, 0, 0, b'a', 0, b'b', 0],
    // UTF-8, valid and not.
    &[3, 0, 0, 0, 0xC3, 0xA9, 0],
    &[3, 0, 0, 0, 0xC3, 0x28, 0],
    &[2, 0, 0, 0, 0xC3, 0],
    &[2, 0, 0, 0, b'a', 0xC3],
    &[3, 0, 0, 0, 0xC0, 0x80, 0],
    // Surrogates, paired and not.
    &[0xFD, 0xFF, 0xFF, 0xFF, 0x34, 0xD8, 0x1E, 0xDD, 0, 0],
    &[0xFD, 0xFF, 0xFF, 0xFF, 0x34, 0xD8, b'a', 0, 0, 0],
    &[0xFE, 0xFF, 0xFF, 0xFF, 0x34, 0xD8, 0, 0],
    &[0xFE, 0xFF, 0xFF, 0xFF, 0x1E, 0xDD, 0, 0],
    &[0xFE, 0xFF, 0xFF, 0xFF, b'a', 0, 0x34, 0xD8],
];

/// Changes at a point: insertions, deletions, other strings and, where the
/// present content is given, other values.
pub fn edits_at(points: &[Option<Kind>], at: usize, old: &[u8]) -> Vec<Edit> {
    let fixed = |k: &Option<Kind>| matches!(k, Some(Kind::PropSize | Kind::InnerSize));
    let mut out = Vec::new();
    if fixed(&points[at]) {
        return out;
    }
    let mut push = |drop, bytes: &[u8]| {
        let bytes = bytes.to_vec();
        out.push(Edit { at, drop, bytes });
    };
    for s in SPLICED.iter().chain(&INSERTED) {
        push(0, s);
    }
    for k in 1..=4 {
        if at + k > points.len() || points[at..at + k].iter().any(fixed) {
            break;
        }
        push(k, &[]);
    }
    if let Some(Kind::StrLen { .. }) = &points[at] {
        let mut k = 1;
        while let Some(Some(Kind::StrBody | Kind::StrTerm)) = points.get(at + k) {
            k += 1;
        }
        for s in STRINGS {
            push(k, s);
        }
    }
    if !old.is_empty() {
        for v in few(old) {
            push(1, &v);
        }
    }
    out
}

/// Strings of a document: where length, body and terminator are.
pub fn strings_of(x: &Enc) -> Vec<(usize, usize, String)> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < x.spans.len() {
        if let Kind::StrLen { .. } = x.spans[i].kind {
            let start = x.spans[i].start;
            let mut j = i + 1;
            let mut body = String::new();
            if j < x.spans.len() && x.spans[j].kind == Kind::StrBody {
                body = String::from_utf8_lossy(&x.buf[x.spans[j].start..x.spans[j].end]).into();
                j += 1;
            }
            if j < x.spans.len() && x.spans[j].kind == Kind::StrTerm {
                out.push((start, x.spans[j].end, body));
                i = j;
            }
        }
        i += 1;
    }
    out
}

const STRUCT_NAMES: [&str; 11] = [
    "Vector2D",
    "Vector",
    "Rotator",
    "Quat",
    "DateTime",
    "Timespan",
    "Guid",
    "LinearColor",
    "IntPoint",
    "GameplayTagContainer",
    "Other",
];

pub fn stored(s: &str) -> Vec<u8> {
    let mut e = Enc::new(Layout::default(), false);
    e.string(s);
    e.buf
}

/// The hint paths of a document also name its structs after a change of name,
/// so that changed saves get past the first lookup.
fn plain_in<'a>(b: &'a Base, bytes: &'a [u8]) -> In<'a> {
    In {
        entry: Entry::File(Wrap::Plain),
        bytes,
        plain: Some(bytes),
        hints: &b.doc.hints,
    }
}

#[derive(Clone, Copy)]
pub struct Extent {
    /// Field combinations of this many fields.
    pub pairs: bool,
    pub splices: bool,
    /// Longest input over all byte values.
    pub short: usize,
    /// Longest input over the reduced alphabet.
    pub reduced: usize,
    /// Changes of compressed bytes.
    pub raw: bool,
}

/// Every change to every small save.
pub fn phases(t: Tier, x: Extent, j: Judge) -> Vec<Phase> {
    let mut out = Vec::new();
    let bases = Arc::new(small(t));

    let (b, o) = (bases.clone(), j.clone());
    out.push(phase("unchanged", 0, move |ch, obs| {
        // What gets changed below is a save, and means what the model says.
        let x = &b[ch.free(b.len())];
        obs.state(&x.doc.bytes);
        obs.show(|| hex(&x.doc.bytes));
        let g = super::roundtrip::must_read(&x.doc)?;
        bridge::same_file(&x.doc.file, &g).map_err(Stop::Fail)?;
        obs.validated(1);
        judge(&o, &plain_in(x, &x.doc.bytes), obs)
    }));

    let (b, o) = (bases.clone(), j.clone());
    out.push(phase("one byte", 0, move |ch, obs| {
        let i = ch.free(b.len());
        let x = &b[i];
        // One header is enough: the header is the same in all of them.
        let from = if i == 0 || i == b.len() / 2 {
            0
        } else {
            x.body
        };
        let at = from + ch.free(x.doc.bytes.len() - from);
        let mut bytes = x.doc.bytes.clone();
        let old = bytes[at];
        for v in 0..=255u8 {
            if v != old {
                bytes[at] = v;
                judge(&o, &plain_in(x, &bytes), obs)?;
            }
        }
        obs.show(|| format!("byte {at} of {}", hex(&x.doc.bytes)));
        obs.swept(255);
        Ok(())
    }));

    let (b, o) = (bases.clone(), j.clone());
    out.push(phase("one field", 0, move |ch, obs| {
        let x = &b[ch.free(b.len())];
        let s = &x.doc.enc.spans[ch.free(x.doc.enc.spans.len())];
        if s.end - s.start > 8 || s.end <= x.body && !framing(&s.kind) {
            return Err(Stop::Prune);
        }
        let mut bytes = x.doc.bytes.clone();
        let all = boundary(&x.doc.bytes[s.start..s.end]);
        for v in &all {
            bytes[s.start..s.end].copy_from_slice(v);
            judge(&o, &plain_in(x, &bytes), obs)?;
        }
        obs.show(|| format!("{:?} at {} of {}", s.kind, s.start, hex(&x.doc.bytes)));
        obs.swept(all.len() as u64);
        Ok(())
    }));

    if x.pairs {
        let (b, o) = (bases.clone(), j.clone());
        out.push(phase("two fields", 0, move |ch, obs| {
            let x = &b[ch.free(b.len())];
            let f: Vec<&Span> = x
                .doc
                .enc
                .spans
                .iter()
                .filter(|s| s.start >= x.body && framing(&s.kind))
                .collect();
            let p = &f[ch.free(f.len())];
            let q = &f[ch.free(f.len())];
            if p.start >= q.start {
                return Err(Stop::Prune);
            }
            let mut bytes = x.doc.bytes.clone();
            let ps = few(&x.doc.bytes[p.start..p.end]);
            let qs = few(&x.doc.bytes[q.start..q.end]);
            for v in &ps {
                bytes[p.start..p.end].copy_from_slice(v);
                for w in &qs {
                    bytes[q.start..q.end].copy_from_slice(w);
                    judge(&o, &plain_in(x, &bytes), obs)?;
                }
            }
            obs.show(|| {
                format!(
                    "{:?} at {} and {:?} at {} of {}",
                    p.kind,
                    p.start,
                    q.kind,
                    q.start,
                    hex(&x.doc.bytes)
                )
            });
            obs.swept((ps.len() * qs.len()) as u64);
            Ok(())
        }));
    }

    let (b, o) = (bases.clone(), j.clone());
    out.push(phase("cut, inserted, deleted", 0, move |ch, obs| {
        let x = &b[ch.free(b.len())];
        let at = x.body + ch.free(x.doc.bytes.len() - x.body);
        let orig = &x.doc.bytes;
        let mut n = 0;
        let mut go = |v: &[u8], obs: &mut Obs| {
            n += 1;
            judge(&o, &plain_in(x, v), obs)
        };
        go(&orig[..at], obs)?;
        for s in SPLICED {
            let mut v = orig[..at].to_vec();
            v.extend_from_slice(s);
            v.extend_from_slice(&orig[at..]);
            go(&v, obs)?;
        }
        for k in 1..=16.min(orig.len() - at) {
            let mut v = orig[..at].to_vec();
            v.extend_from_slice(&orig[at + k..]);
            go(&v, obs)?;
        }
        obs.show(|| format!("at {at} of {}", hex(orig)));
        obs.swept(n);
        Ok(())
    }));

    let (b, o) = (bases.clone(), j.clone());
    out.push(phase("fields repeated, swapped", 0, move |ch, obs| {
        let x = &b[ch.free(b.len())];
        let cuts: Vec<usize> = x
            .doc
            .enc
            .spans
            .iter()
            .map(|s| s.start)
            .filter(|s| *s >= x.body)
            .chain([x.doc.bytes.len()])
            .collect();
        let i = ch.free(cuts.len() - 1);
        let orig = &x.doc.bytes;
        let mut n = 0;
        for w in 1..=6 {
            let Some(end) = cuts.get(i + w) else { break };
            let mut v = orig[..*end].to_vec();
            v.extend_from_slice(&orig[cuts[i]..]);
            judge(&o, &plain_in(x, &v), obs)?;
            n += 1;
            for u in 1..=4 {
                let Some(next) = cuts.get(i + w + u) else {
                    break;
                };
                let mut v = orig[..cuts[i]].to_vec();
                v.extend_from_slice(&orig[*end..*next]);
                v.extend_from_slice(&orig[cuts[i]..*end]);
                v.extend_from_slice(&orig[*next..]);
                judge(&o, &plain_in(x, &v), obs)?;
                n += 1;
            }
        }
        obs.show(|| format!("field {i} of {}", hex(orig)));
        obs.swept(n);
        Ok(())
    }));

    let (b, o) = (bases.clone(), j.clone());
    out.push(phase("sizes kept right", 0, move |ch, obs| {
        // The same kind of change, with every enclosing size adjusted to it.
        let i = ch.free(b.len());
        let x = &b[i];
        let points = &x.doc.enc.points;
        let at = ch.free(points.len());
        if at < x.head && i != 0 && i != b.len() / 2 {
            return Err(Stop::Prune);
        }
        let edits = edits_at(points, at, &[]);
        if edits.is_empty() {
            return Err(Stop::Prune);
        }
        for e in &edits {
            let v = encode_file_edited(&x.doc.file, vec![e.clone()]);
            judge(&o, &plain_in(x, &v), obs)?;
        }
        obs.show(|| format!("point {at} of {}", hex(&x.doc.bytes)));
        obs.swept(edits.len() as u64);
        Ok(())
    }));

    if x.pairs {
        let mut set = tiny_set(0);
        set.extend(tiny_set(1));
        let (b, o) = (Arc::new(set), j.clone());
        let near = t.pick(12, usize::MAX);
        out.push(phase("sizes kept right, two changes", 0, move |ch, obs| {
            let x = &b[ch.free(b.len())];
            let points = &x.doc.enc.points;
            let p = x.head + ch.free(points.len() - x.head);
            let q = ch.free(points.len());
            if q <= p || q - p > near {
                return Err(Stop::Prune);
            }
            // The field at a point, for changes of its value.
            let field = |n: usize| -> &[u8] {
                let k = points[..n].iter().filter(|k| k.is_some()).count();
                let s = &x.doc.enc.spans[k];
                &x.doc.bytes[s.start..s.end]
            };
            let old = |n: usize| match &points[n] {
                Some(_) if field(n).len() <= 8 => field(n),
                _ => &[],
            };
            let ps = edits_at(points, p, old(p));
            let qs = edits_at(points, q, old(q));
            let mut n = 0;
            for e in &ps {
                if q < p + e.drop {
                    continue;
                }
                for f in &qs {
                    let v = encode_file_edited(&x.doc.file, vec![e.clone(), f.clone()]);
                    judge(&o, &plain_in(x, &v), obs)?;
                    n += 1;
                }
            }
            if n == 0 {
                return Err(Stop::Prune);
            }
            obs.show(|| format!("points {p} and {q} of {}", hex(&x.doc.bytes)));
            obs.swept(n);
            Ok(())
        }));
    }

    let (b, o) = (bases.clone(), j.clone());
    out.push(phase("types exchanged", 0, move |ch, obs| {
        let x = &b[ch.free(b.len())];
        let all = strings_of(&x.doc.enc);
        let (start, end, old) = &all[ch.free(all.len())];
        if *start < x.body {
            return Err(Stop::Prune);
        }
        let mut names: Vec<String> = ELEMENTS.iter().map(|e| type_of(e)).collect();
        names.extend(["ArrayProperty", "SetProperty", "MapProperty", "", "None"].map(String::from));
        names.extend(STRUCT_NAMES.map(String::from));
        // Hints for whatever path the new name gives rise to.
        let mut n = 0;
        for new in &names {
            if new == old {
                continue;
            }
            let mut v = x.doc.bytes[..*start].to_vec();
            v.extend_from_slice(&stored(new));
            v.extend_from_slice(&x.doc.bytes[*end..]);
            for hinted in [None, Some("Guid"), Some("Other")] {
                let mut h = x.doc.hints.clone();
                if let Some(ty) = hinted {
                    for p in [
                        "a.ArrayProperty.StructProperty",
                        "a.SetProperty.StructProperty",
                        "a.MapProperty.Key.StructProperty",
                        "a.MapProperty.Value.StructProperty",
                    ] {
                        h.entry(p.into()).or_insert(ty.into());
                    }
                }
                let i = In {
                    entry: Entry::File(Wrap::Plain),
                    bytes: &v,
                    plain: Some(&v),
                    hints: &h,
                };
                judge(&o, &i, obs)?;
                n += 1;
            }
        }
        obs.show(|| format!("{old:?} at {start} of {}", hex(&x.doc.bytes)));
        obs.swept(n);
        Ok(())
    }));

    // A container of any type whose elements are stored in a way that belongs
    // elsewhere: with their header, with their type name, or as bare contents
    // where containers in containers have none.
    let o = j.clone();
    out.push(phase("elements stored otherwise", 0, move |ch, obs| {
        let kind = KINDS[ch.free(KINDS.len())];
        let form = ch.free(3);
        let place = ch.free(4);
        let count = 1 + ch.free(2);
        let cfg = Cfg {
            headers: false,
            names: false,
            ..Cfg::BASE
        };
        let p = Gen {
            ch,
            cfg,
            lay: Layout::of(&versions(1, 7)),
        }
        .prop_of(kind, 1);
        let mut e = Enc::new(Layout::of(&versions(1, 7)), false);
        match form {
            0 => e.prop(&p),
            1 => e.prop_with_type(&p),
            _ => e.body(&p),
        }
        let ty = p.type_name().to_string();
        let raw = P::Unknown(ty.clone(), e.buf);
        let int = "IntProperty".to_string();
        let el = |n| std::iter::repeat(raw.clone()).take(n).collect::<Vec<_>>();
        let p = match place {
            0 => P::Array(Arr {
                ty,
                info: None,
                el: el(count),
            }),
            1 => P::Set(ty, 0, el(count)),
            2 => P::Map(int, ty, 0, (0..).map(P::I32).zip(el(count)).collect()),
            _ => P::Map(
                ty,
                int,
                0,
                el(1).into_iter().map(|k| (k, P::I32(1))).collect(),
            ),
        };
        let bytes = encode_file(&tiny(1, Wrap::Plain, p)).buf;
        obs.state(&bytes);
        obs.show(|| format!("{kind}, form {form}, place {place}: {}", hex(&bytes)));
        for hinted in [None, Some("Guid"), Some("Other")] {
            let h: Hints = hinted
                .iter()
                .flat_map(|ty| {
                    [
                        "ArrayProperty",
                        "SetProperty",
                        "MapProperty.Key",
                        "MapProperty.Value",
                    ]
                    .map(|c| (format!("a.{c}.StructProperty"), ty.to_string()))
                })
                .collect();
            let i = In {
                entry: Entry::File(Wrap::Plain),
                bytes: &bytes,
                plain: Some(&bytes),
                hints: &h,
            };
            judge(&o, &i, obs)?;
        }
        Ok(())
    }));

    if x.splices {
        let set = Arc::new(tiny_set(0));
        let (b, o) = (set, j.clone());
        out.push(phase("spliced", 0, move |ch, obs| {
            let x = &b[ch.free(b.len())];
            let y = &b[ch.free(b.len())];
            let cut = |x: &Base| -> Vec<usize> {
                x.doc
                    .enc
                    .spans
                    .iter()
                    .map(|s| s.start)
                    .filter(|s| *s >= x.body)
                    .collect()
            };
            let (xs, ys) = (cut(x), cut(y));
            let at = xs[ch.free(xs.len())];
            for k in &ys {
                let mut v = x.doc.bytes[..at].to_vec();
                v.extend_from_slice(&y.doc.bytes[*k..]);
                judge(&o, &plain_in(x, &v), obs)?;
            }
            obs.show(|| {
                format!(
                    "{} cut at {at} with {}",
                    hex(&x.doc.bytes),
                    hex(&y.doc.bytes)
                )
            });
            obs.swept(ys.len() as u64);
            Ok(())
        }));
    }

    // Single properties.
    let k = t.pick(0, 1);
    let list = Arc::new(items(&Small::ONCE, k));
    let (l, o) = (list.clone(), j.clone());
    out.push(phase("one byte of a property", 0, move |ch, obs| {
        let x = &l[ch.free(l.len())];
        let shares = [x.share, Some(0), Some(1), Some(u32::MAX)];
        let share = shares[ch.free(4)];
        if x.bytes.is_empty() {
            return Err(Stop::Prune);
        }
        let at = ch.free(x.bytes.len());
        let mut bytes = x.bytes.clone();
        let entry = Entry::Prop {
            ty: x.p.type_name(),
            header: x.header,
            share,
            layout: x.layout,
        };
        let old = bytes[at];
        for v in 0..=255u8 {
            if v != old {
                bytes[at] = v;
                let i = In {
                    entry,
                    bytes: &bytes,
                    plain: Some(&bytes),
                    hints: &x.hints,
                };
                judge(&o, &i, obs)?;
            }
        }
        let i = In {
            entry,
            bytes: &x.bytes[..at],
            plain: Some(&x.bytes[..at]),
            hints: &x.hints,
        };
        judge(&o, &i, obs)?;
        obs.show(|| format!("byte {at} of {:?} {}", entry, hex(&x.bytes)));
        obs.swept(256);
        Ok(())
    }));

    // Short inputs to every way in.
    for (name, alphabet, len) in [
        ("short inputs", None, x.short),
        (
            "short inputs over few bytes",
            Some([0u8, 1, 2, 4, 5, 0xFF]),
            x.reduced,
        ),
    ] {
        let o = j.clone();
        out.push(phase(name, 0, move |ch, obs| {
            let kind = ch.free(5);
            let mut types: Vec<String> = ELEMENTS[..MAP_ELEMENTS + 1]
                .iter()
                .map(|e| type_of(e))
                .collect();
            types.extend(["ArrayProperty", "SetProperty", "MapProperty"].map(String::from));
            let mut hints = Hints::new();
            let (entry, lead) = match kind {
                0 => (
                    Entry::File([Wrap::Plain, Wrap::PalNone][ch.free(2)]),
                    vec![],
                ),
                1 => (Entry::Header, vec![]),
                2 => ([Entry::Str, Entry::OptStr][ch.free(2)], vec![]),
                // A header, and then a short body.
                3 => {
                    let mut e = Enc::new(Layout::default(), false);
                    e.header(&tiny_header(ch.free(2)));
                    if ch.free(2) == 1 {
                        e.string("a");
                        e.string(&types[ch.free(types.len())]);
                    }
                    (Entry::File(Wrap::Plain), e.buf)
                }
                _ => {
                    let ty = &types[ch.free(types.len())];
                    let header = ch.free(2) == 1;
                    let share = [None, Some(0), Some(1), Some(2), Some(5), Some(u32::MAX)]
                        [ch.free(if header { 1 } else { 6 })];
                    hints.insert(
                        "StructProperty".into(),
                        STRUCT_NAMES[ch.free(if ty == "StructProperty" && !header {
                            11
                        } else {
                            1
                        })]
                        .into(),
                    );
                    (
                        Entry::Prop {
                            ty,
                            header,
                            share,
                            layout: ch.free(2),
                        },
                        vec![],
                    )
                }
            };
            // The tail: all words up to the bound, the first letter a choice.
            let size = alphabet.map(|a| a.len()).unwrap_or(256);
            let letter = |i: usize| alphabet.map(|a| a[i]).unwrap_or(i as u8);
            let n = ch.free(len + 1);
            let mut word = vec![0usize; n];
            if n > 0 {
                word[0] = ch.free(size);
            }
            let mut bytes = lead.clone();
            bytes.extend(word.iter().map(|i| letter(*i)));
            let mut count = 0u64;
            loop {
                for (i, w) in word.iter().enumerate() {
                    bytes[lead.len() + i] = letter(*w);
                }
                let i = In {
                    entry,
                    bytes: &bytes,
                    plain: match entry {
                        Entry::File(Wrap::PalNone) => None,
                        _ => Some(&bytes),
                    },
                    hints: &hints,
                };
                judge(&o, &i, obs)?;
                count += 1;
                let mut p = n;
                loop {
                    if p <= 1 {
                        obs.show(|| format!("{entry:?} {}", hex(&bytes)));
                        obs.swept(count);
                        return Ok(());
                    }
                    p -= 1;
                    word[p] += 1;
                    if word[p] < size {
                        break;
                    }
                    word[p] = 0;
                }
            }
        }));
    }

    // Containers: changed before and after compression.
    let set = Arc::new(tiny_set(1));
    let (b, o) = (set.clone(), j.clone());
    out.push(phase("compressed, one field", 0, move |ch, obs| {
        let w = [Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice][ch.free(3)];
        let x = &b[ch.free(b.len())];
        let s = &x.doc.enc.spans[ch.free(x.doc.enc.spans.len())];
        if s.end - s.start > 8 || s.end <= x.body {
            return Err(Stop::Prune);
        }
        let mut plain = x.doc.bytes.clone();
        let all = boundary(&x.doc.bytes[s.start..s.end]);
        for v in &all {
            plain[s.start..s.end].copy_from_slice(v);
            let bytes = wrap(w, &plain);
            let i = In {
                entry: Entry::File(w),
                bytes: &bytes,
                plain: Some(&plain),
                hints: &x.doc.hints,
            };
            judge(&o, &i, obs)?;
        }
        obs.show(|| format!("{w:?} {:?} at {} of {}", s.kind, s.start, hex(&x.doc.bytes)));
        obs.swept(all.len() as u64);
        Ok(())
    }));
    if x.raw {
        let (b, o) = (set, j.clone());
        out.push(phase("compressed, one byte", 0, move |ch, obs| {
            let w = [Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice][ch.free(3)];
            let x = &b[ch.free(b.len())];
            let orig = wrap(w, &x.doc.bytes);
            let at = ch.free(orig.len());
            let mut bytes = orig.clone();
            for v in 0..=255u8 {
                if v == orig[at] {
                    continue;
                }
                bytes[at] = v;
                let i = In {
                    entry: Entry::File(w),
                    bytes: &bytes,
                    plain: None,
                    hints: &x.doc.hints,
                };
                judge(&o, &i, obs)?;
            }
            obs.show(|| format!("{w:?} byte {at} of {}", hex(&orig)));
            obs.swept(255);
            Ok(())
        }));
        let o = j.clone();
        let set = Arc::new(tiny_set(0));
        out.push(phase("envelope", 0, move |ch, obs| {
            let x = &set[ch.free(set.len())];
            let w = [Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice][ch.free(3)];
            let orig = wrap(w, &x.doc.bytes);
            let values: Vec<Vec<u8>> = {
                let mut v = boundary(&orig[0..4]);
                v.push(orig[0..4].to_vec());
                v
            };
            let first = &values[ch.free(values.len())];
            let mut n = 0;
            let seconds = boundary(&orig[4..8]);
            for second in &seconds {
                for mode in [0x30, 0x31, 0x32] {
                    let mut v = orig.clone();
                    v[0..4].copy_from_slice(first);
                    v[4..8].copy_from_slice(second);
                    v[11] = mode;
                    let i = In {
                        entry: Entry::File(w),
                        bytes: &v,
                        plain: None,
                        hints: &x.doc.hints,
                    };
                    judge(&o, &i, obs)?;
                    n += 1;
                }
            }
            obs.show(|| format!("length {first:02x?} of {}", hex(&orig)));
            obs.swept(n);
            Ok(())
        }));
    }
    out
}
