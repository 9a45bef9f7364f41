//! Document spaces shared by several checks.

use crate::bridge::Hints;
use crate::decode::{self, file_well_formed};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::Tier;
use std::sync::{Arc, OnceLock};

/// A model document with its reference encoding.
pub struct Doc {
    pub file: File,
    /// Plain save with what the encoder knows about it.
    pub enc: Enc,
    /// The save in its container.
    pub bytes: Vec<u8>,
    pub hints: Hints,
}

fn build(file: File, spans: bool) -> Result<Doc, Stop> {
    if !file_well_formed(&file) {
        return Err(Stop::Prune);
    }
    let enc = if spans {
        encode_file_spans(&file)
    } else {
        encode_file(&file)
    };
    let hints = hints_for(&enc).ok_or(Stop::Prune)?;
    let bytes = wrap(file.wrap, &enc.buf);
    Ok(Doc {
        file,
        enc,
        bytes,
        hints,
    })
}

pub fn doc(file: File) -> Result<Doc, Stop> {
    build(file, false)
}

pub fn doc_spans(file: File) -> Result<Doc, Stop> {
    build(file, true)
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

/// Short rendering of a model value for samples and messages.
pub fn brief<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 700 {
        let mut e = 700;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} chars)", &s[..e], s.len())
    } else {
        s
    }
}

pub type Oracle = Arc<dyn Fn(&mut Ch, &Doc, &mut Obs) -> Out + Send + Sync>;

/// How deep each shared space is explored.
#[derive(Clone, Copy)]
pub struct Depth {
    pub grammar: u32,
    pub containers: u32,
    pub structs: u32,
    pub texts: u32,
    pub chain: usize,
    /// Deviations around values that are all empty, all zero, all extreme...
    pub alike: u32,
    pub pairs: u32,
    pub triples: bool,
    pub lengths: bool,
    /// Longest list whose every order is explored.
    pub orders: Option<usize>,
    pub counts: bool,
    /// Changes of each byte of small documents: none, every bit, every value.
    pub bytes: Option<bool>,
    pub fixtures: bool,
    pub spans: bool,
}

impl Depth {
    pub fn full(t: Tier) -> Depth {
        Depth {
            grammar: t.pick(4, 5),
            containers: t.pick(2, 3),
            structs: t.pick(2, 3),
            texts: t.pick(3, 3),
            chain: t.pick(4, 6),
            alike: t.pick(1, 2),
            pairs: t.pick(1, 2),
            triples: true,
            lengths: true,
            orders: Some(t.pick(5, 6)),
            counts: true,
            bytes: Some(true),
            fixtures: true,
            spans: false,
        }
    }
    pub fn light(t: Tier) -> Depth {
        Depth {
            grammar: t.pick(2, 3),
            containers: t.pick(0, 1),
            structs: t.pick(1, 2),
            texts: t.pick(1, 2),
            chain: t.pick(3, 4),
            alike: t.pick(0, 1),
            pairs: t.pick(0, 1),
            triples: false,
            lengths: false,
            orders: None,
            counts: false,
            bytes: None,
            fixtures: false,
            spans: false,
        }
    }
}

/// A header that selects a layout and is otherwise fixed.
pub fn plain_header(layout: usize) -> Header {
    Header {
        pkg: 522,
        ue5: None,
        major: 4,
        minor: 27,
        patch: 2,
        change: 0x1234_5678,
        branch: "++UE4+Release-4.27".into(),
        versions: versions(layout, 7),
        class: "/Script/Game.Save".into(),
    }
}

pub fn one(layout: usize, wrap: Wrap, name: &str, p: P) -> File {
    File {
        wrap,
        hdr: plain_header(layout),
        props: vec![
            (name.into(), p),
            // A neighbour, so that a framing mistake has something to hit.
            ("z".into(), P::I32(0x5A5A_0102)),
        ],
    }
}

fn gen<'a, 'b>(ch: &'a mut Ch<'b>, cfg: &Cfg, layout: usize) -> Gen<'a, 'b> {
    Gen {
        ch,
        cfg: *cfg,
        lay: Layout::of(&versions(layout, 7)),
    }
}

pub const LENGTHS: [usize; 24] = [
    0, 1, 2, 3, 7, 8, 9, 62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 65534,
    65535, 65536, 131070,
];

/// Strings of a given number of code units, in each encoding.
pub fn text_of_len(n: usize, style: usize) -> String {
    match style {
        0 => "abcdefghijklmnopqrstuvwxyz0123456789"
            .chars()
            .cycle()
            .take(n)
            .collect(),
        // Not ASCII, at the start.
        1 if n > 0 => {
            let mut s = String::from("ÿ");
            s.extend("abcdefg".chars().cycle().take(n - 1));
            s
        }
        // Not ASCII, only the last character.
        2 if n > 0 => {
            let mut s: String = "abcdefg".chars().cycle().take(n - 1).collect();
            s.push('\u{FFFD}');
            s
        }
        // Surrogate pairs throughout.
        3 => {
            let mut s: String = "𝄞".repeat(n / 2);
            if n % 2 == 1 {
                s.push('x');
            }
            s
        }
        _ => String::new(),
    }
}

/// Places a string can stand in.
pub const STRING_SLOTS: usize = 16;
pub fn string_slot(slot: usize, s: String) -> File {
    let mut f = one(0, Wrap::Plain, "a", P::I32(1));
    let set = |f: &mut File, p: P| f.props[0].1 = p;
    match slot {
        0 => set(&mut f, P::Str(Some(s))),
        1 => f.props[0].0 = s,
        2 => f.hdr.class = s,
        3 => f.hdr.branch = s,
        4 => set(&mut f, P::Name(0, Some(s))),
        5 => set(&mut f, P::Object(s)),
        6 => set(&mut f, P::Enum(Some("E".into()), s)),
        7 => set(&mut f, P::Enum(Some(s), "v".into())),
        8 => set(&mut f, P::Byte(Some(s), ByteVal::Plain(9))),
        9 => set(
            &mut f,
            P::Struct(s, [3; 16], SV::Custom(vec![("x".into(), P::I32(4))])),
        ),
        10 => set(
            &mut f,
            P::Array(Arr {
                ty: "StrProperty".into(),
                info: None,
                el: vec![P::Str(Some(s)), P::Str(Some("q".into()))],
            }),
        ),
        11 => set(
            &mut f,
            P::Text(Text {
                flags: 0,
                hist: Hist::Base(Some("n".into()), Some(s), Some("t".into())),
            }),
        ),
        12 => set(
            &mut f,
            P::Map(
                "StrProperty".into(),
                "IntProperty".into(),
                0,
                vec![(P::Str(Some(s)), P::I32(4))],
            ),
        ),
        13 => set(&mut f, P::Delegate("o".into(), s)),
        14 => set(
            &mut f,
            P::Struct("S".into(), [0; 16], SV::Tags(vec![s, "tail".into()])),
        ),
        _ => set(&mut f, P::Unknown(s, vec![1, 2, 3])),
    }
    if let P::Struct(t, _, SV::Tags(_)) = &mut f.props[0].1 {
        *t = "GameplayTagContainer".into();
    }
    f
}

/// Every small count, and both sides of the larger round ones.
pub fn counts() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=72).collect();
    for n in [
        100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 10_000, 32_768, 65_536,
    ] {
        v.extend([n - 1, n, n + 1]);
    }
    v.extend([100_001, 131_073]);
    v
}

pub fn counted(kind: usize, n: usize, ch: &mut Ch) -> File {
    let cfg = Cfg {
        names: false,
        ..Cfg::BASE
    };
    let mut g = Gen {
        ch,
        cfg,
        lay: Layout::default(),
    };
    let p = match kind {
        0..=22 => g.array_of(ELEMENTS[kind], n, 1),
        23..=45 => g.set_of(ELEMENTS[kind - 23], n, 1),
        46 => g.map_of("Int", "Str", n, 1),
        47 => g.map_of("Str", "Int", n, 1),
        48 => g.map_of("Name", "Bool", n, 1),
        49 => g.map_of("Enum", "Double", n, 1),
        50 => g.map_of("Str", "Str", n, 1),
        51 => g.map_of("UInt64", "UInt64", n, 1),
        52 => P::MInline((0..n).map(|i| (format!("o{i}"), format!("f{i}"))).collect()),
        53 => P::FieldPath((0..n).map(|i| format!("o{i}")).collect(), "w".into()),
        54 => P::Struct(
            "GameplayTagContainer".into(),
            [1; 16],
            SV::Tags((0..n).map(|i| format!("o{i}")).collect()),
        ),
        55 => P::Struct(
            "S".into(),
            [1; 16],
            SV::Custom(
                (0..n)
                    .map(|i| (format!("o{i}"), P::I32(i as i32)))
                    .collect(),
            ),
        ),
        56 => P::Text(Text {
            flags: 1,
            hist: Hist::Ordered(
                Box::new(Text {
                    flags: 0,
                    hist: Hist::Empty,
                }),
                (0..n).map(|i| Arg::Int(i as i32)).collect(),
            ),
        }),
        57 => P::Text(Text {
            flags: 1,
            hist: Hist::Named(
                Box::new(Text {
                    flags: 0,
                    hist: Hist::Empty,
                }),
                (0..n)
                    .map(|i| (format!("k{i}"), Arg::Int(i as i32)))
                    .collect(),
            ),
        }),
        58 => P::Unknown("Blob".into(), (0..n).map(|i| i as u8).collect()),
        // One name repeated in a struct.
        59 | 60 => P::Struct(
            "S".into(),
            [1; 16],
            SV::Custom(
                (0..n)
                    .map(|i| match kind {
                        59 => ("o".into(), P::I32(i as i32 / 2)),
                        _ => ("o".into(), P::Name(i as u32, None)),
                    })
                    .collect(),
            ),
        ),
        61 => {
            // Many custom versions.
            let mut f = one(0, Wrap::Plain, "a", P::I32(1));
            f.hdr.versions = (0..n as u32)
                .map(|i| {
                    let mut g = [0x77; 16];
                    g[..4].copy_from_slice(&i.to_be_bytes());
                    (g, i)
                })
                .collect();
            return f;
        }
        _ => {
            // Many properties in one save.
            let mut f = one(0, Wrap::Plain, "a", P::I32(1));
            f.props
                .extend((0..n).map(|i| (format!("m{i}"), P::U32(i as u32))));
            return f;
        }
    };
    one(0, Wrap::Plain, "a", p)
}

/// Members of a list: of several lengths, cases and orders.
const MEMBERS: &[&str] = &["b", "A", "a", "a_10", "a_2", "the longest name", "é"];

/// A save with the members in this order in one of the places that hold lists.
const LISTS: usize = 34;
fn listed(place: usize, seq: &[usize]) -> File {
    let mut f = one(0, Wrap::Plain, "a", P::I32(1));
    let name = |i: usize| MEMBERS[seq[i]].to_string();
    // Values in no particular order, so that each is seen to stay with its name.
    let val = |i: usize| [5, -3, 9, 0, 9, 1][i];
    let num = |i: usize| [1i64, 0, -1, 2, i32::MAX as i64, 3, i32::MIN as i64][seq[i]];
    let each = |f: &dyn Fn(usize) -> P| (0..seq.len()).map(f).collect::<Vec<P>>();
    let strs = || (0..seq.len()).map(name).collect::<Vec<String>>();
    let fields = || {
        let l = (0..seq.len()).map(|i| (name(i), P::I32(val(i))));
        SV::Custom(l.collect())
    };
    let structs = || {
        let body = |i: usize| P::Body(SV::Custom(vec![(name(i), P::I32(val(i)))]));
        each(&body)
    };
    let array = |ty: &str, el: Vec<P>| {
        P::Array(Arr {
            ty: ty.into(),
            info: (ty == "StructProperty").then(|| ("a".into(), "S".into(), [2; 16])),
            el,
        })
    };
    let map = |k: &str, v: &str, e: &dyn Fn(usize) -> (P, P)| {
        P::Map(k.into(), v.into(), 0, (0..seq.len()).map(e).collect())
    };
    let text = |hist| P::Text(Text { flags: 1, hist });
    let format = || {
        Box::new(Text {
            flags: 0,
            hist: Hist::Empty,
        })
    };
    let args = || (0..seq.len()).map(|i| (name(i), Arg::Int(val(i))));
    let pairs = || (0..seq.len()).map(|i| (name(i), format!("f{}", val(i))));
    let p = match place {
        0 => {
            f.props = (0..seq.len()).map(|i| (name(i), P::I32(val(i)))).collect();
            return f;
        }
        1 => {
            f.hdr.versions = (0..seq.len())
                .map(|i| {
                    let mut g = [0x5A; 16];
                    g[seq[i] * 2] = 7 - seq[i] as u8;
                    (g, val(i) as u32)
                })
                .collect();
            return f;
        }
        2 => P::Struct("S".into(), [0; 16], fields()),
        3 => array("StructProperty", vec![P::Body(fields()), P::Body(fields())]),
        4 => P::Set("StructProperty".into(), 0, vec![P::Body(fields())]),
        5 => map("StrProperty", "IntProperty", &|i| {
            (P::Str(Some(name(i))), P::I32(val(i)))
        }),
        6 => map("StrProperty", "StrProperty", &|i| {
            (P::Str(Some(name(i))), P::Str(Some(format!("{}", val(i)))))
        }),
        7 => map("NameProperty", "BoolProperty", &|i| {
            (P::Name(0, Some(name(i))), P::Bool(val(i) > 0))
        }),
        8 => map("EnumProperty", "IntProperty", &|i| {
            (P::Enum(None, name(i)), P::I32(val(i)))
        }),
        9 => map("EnumProperty", "BoolProperty", &|i| {
            (P::Enum(None, name(i)), P::Bool(val(i) > 0))
        }),
        10 => map("IntProperty", "StrProperty", &|i| {
            (P::I32(num(i) as i32), P::Str(Some(name(i))))
        }),
        11 => map("ObjectProperty", "IntProperty", &|i| {
            (P::Object(name(i)), P::I32(val(i)))
        }),
        12 => map("StrProperty", "StructProperty", &|i| {
            (P::Str(Some(name(i))), P::Body(SV::DateTime(i as u64)))
        }),
        13 => {
            let keys = structs();
            map("StructProperty", "IntProperty", &|i| {
                (keys[i].clone(), P::I32(val(i)))
            })
        }
        14 => array("StrProperty", each(&|i| P::Str(Some(name(i))))),
        15 => array("NameProperty", each(&|i| P::Name(0, Some(name(i))))),
        16 => array("EnumProperty", each(&|i| P::Enum(None, name(i)))),
        17 => array("ObjectProperty", each(&|i| P::Object(name(i)))),
        18 => array("IntProperty", each(&|i| P::I32(num(i) as i32))),
        19 => array(
            "ByteProperty",
            each(&|i| P::Byte(None, ByteVal::Plain(num(i) as u8))),
        ),
        20 => array("BoolProperty", each(&|i| P::Bool(num(i) > 0))),
        21 => array(
            "FloatProperty",
            each(&|i| P::F32((num(i) as f32).to_bits())),
        ),
        22 => array("UInt64Property", each(&|i| P::U64(num(i) as u64))),
        23 => array("StructProperty", structs()),
        24 => P::Set(
            "NameProperty".into(),
            0,
            each(&|i| P::Name(0, Some(name(i)))),
        ),
        25 => P::Set("IntProperty".into(), 0, each(&|i| P::I32(num(i) as i32))),
        26 => P::Set("StructProperty".into(), 0, structs()),
        27 => P::Struct("GameplayTagContainer".into(), [0; 16], SV::Tags(strs())),
        28 => P::MInline(pairs().collect()),
        29 => P::MSparse(pairs().collect()),
        30 => P::FieldPath(strs(), "o".into()),
        31 => text(Hist::Named(format(), args().collect())),
        32 => text(Hist::ArgFmt(format(), args().collect())),
        _ => text(Hist::Ordered(format(), args().map(|a| a.1).collect())),
    };
    f.props[0].1 = p;
    f
}

/// One more level of nesting around a property.
const LEVELS: usize = 7;
fn nest(level: usize, inner: P, n: u32) -> P {
    let body = |p: P| {
        SV::Custom(vec![
            (format!("i{n}"), p),
            // A sibling after the nested value.
            (format!("j{n}"), P::Str(Some(format!("end{n}")))),
        ])
    };
    let small = SV::Custom(vec![("only".into(), P::Bool(true))]);
    match level {
        0 => P::Struct(format!("T{n}"), [n as u8; 16], body(inner)),
        1 => P::Array(Arr {
            ty: "StructProperty".into(),
            info: Some((format!("fld{n}"), format!("T{n}"), [0; 16])),
            el: vec![P::Body(body(inner)), P::Body(small)],
        }),
        2 => P::Set(
            "StructProperty".into(),
            0,
            vec![P::Body(small), P::Body(body(inner))],
        ),
        3 => P::Map(
            "StructProperty".into(),
            "IntProperty".into(),
            0,
            vec![(P::Body(body(inner)), P::I32(n as i32))],
        ),
        4 => P::Map(
            "StrProperty".into(),
            "StructProperty".into(),
            0,
            vec![
                (P::Str(Some("k".into())), P::Body(body(inner))),
                (P::Str(Some("l".into())), P::Body(small)),
            ],
        ),
        5 => P::Map(
            "NameProperty".into(),
            "StructProperty".into(),
            3,
            vec![(P::Name(0, Some("k".into())), P::Body(body(inner)))],
        ),
        // Two structs side by side, the inner one in the second.
        _ => P::Struct(
            format!("U{n}"),
            [0; 16],
            SV::Custom(vec![
                ("first".into(), P::Struct("G".into(), [0; 16], small)),
                (format!("second{n}"), inner),
                ("third".into(), P::F64(1.5f64.to_bits())),
            ]),
        ),
    }
}

/// Picks a layout and a property.
pub type Pick = fn(&mut Ch, &Cfg) -> (usize, P);

pub fn pick_kind(ch: &mut Ch, cfg: &Cfg) -> (usize, P) {
    let layout = ch.free(2);
    let k = ch.free(KINDS.len());
    (layout, gen(ch, cfg, layout).prop_of(KINDS[k], 1))
}

pub fn pick_container(ch: &mut Ch, cfg: &Cfg) -> (usize, P) {
    let layout = ch.free(2);
    let kind = ch.free(3);
    let p = match kind {
        0 => {
            let e = ch.free(ELEMENTS.len());
            let n = ch.free(4);
            gen(ch, cfg, layout).array_of(ELEMENTS[e], n, 1)
        }
        1 => {
            let e = ch.free(ELEMENTS.len());
            let n = ch.free(4);
            gen(ch, cfg, layout).set_of(ELEMENTS[e], n, 1)
        }
        _ => {
            let k = ch.free(MAP_ELEMENTS);
            let v = ch.free(MAP_ELEMENTS);
            let n = ch.free(3);
            gen(ch, cfg, layout).map_of(ELEMENTS[k], ELEMENTS[v], n, 1)
        }
    };
    (layout, p)
}

pub fn pick_struct(ch: &mut Ch, cfg: &Cfg) -> (usize, P) {
    let layout = ch.free(LAYOUTS);
    let which = ch.free(STRUCTS);
    let place = ch.free(5);
    let mut g = gen(ch, cfg, layout);
    let p = match place {
        0 => {
            let v = g.sv_of(which, 2);
            g.struct_prop(v)
        }
        1 => {
            let n = [2usize, 0, 1, 3][g.ch.free(4)];
            g.struct_array(which, n, 1)
        }
        2 => {
            let a = P::Body(g.sv_of(which, 1));
            let b = P::Body(g.sv_of(which, 1));
            P::Set("StructProperty".into(), 0, vec![a, b])
        }
        3 => {
            let a = P::Body(g.sv_of(which, 1));
            let b = P::Body(g.sv_of(which, 1));
            P::Map(
                "StructProperty".into(),
                "StrProperty".into(),
                0,
                vec![(a, P::Str(Some("x".into()))), (b, P::Str(Some("y".into())))],
            )
        }
        _ => {
            let a = P::Body(g.sv_of(which, 1));
            let b = P::Body(g.sv_of(which, 1));
            P::Map(
                "IntProperty".into(),
                "StructProperty".into(),
                0,
                vec![(P::I32(1), a), (P::I32(2), b)],
            )
        }
    };
    (layout, p)
}

pub fn pick_text(ch: &mut Ch, cfg: &Cfg) -> (usize, P) {
    let layout = ch.free(LAYOUTS);
    let h = ch.free(HISTS);
    let place = ch.free(3);
    let mut g = gen(ch, cfg, layout);
    let hist = g.hist_of(h, 2);
    let t = P::Text(Text { flags: 9, hist });
    let p = match place {
        0 => t,
        1 => P::Array(Arr {
            ty: "TextProperty".into(),
            info: None,
            el: vec![t.clone(), t],
        }),
        _ => P::Map(
            "IntProperty".into(),
            "TextProperty".into(),
            0,
            vec![(P::I32(4), t)],
        ),
    };
    (layout, p)
}

pub fn pick_nesting(ch: &mut Ch, chain: usize) -> P {
    let n = ch.free(chain + 1);
    let leaf = ch.free(4);
    let mut p = match leaf {
        0 => P::I32(77),
        1 => P::Name(0, None),
        2 => P::Byte(Some("B".into()), ByteVal::Label("x".into())),
        _ => P::Struct("IntPoint".into(), [0; 16], SV::Point(4, 5)),
    };
    for i in 0..n {
        p = nest(ch.free(LEVELS), p, i as u32);
    }
    p
}

/// Numbers of levels for which whole towers are built.
pub const DEEP: [usize; 9] = [7, 8, 15, 16, 17, 31, 33, 64, 100];

/// A tower of one kind of level, or of two alternating kinds.
pub fn pick_deep(ch: &mut Ch, depth: usize) -> P {
    let texts = 6;
    let a = ch.free(LEVELS + texts);
    let mut p = P::I32(77);
    if a < LEVELS {
        let b = ch.free(LEVELS);
        for i in 0..depth {
            p = nest(if i % 2 == 0 { a } else { b }, p, i as u32);
        }
        return p;
    }
    let mut t = Text {
        flags: 1,
        hist: Hist::Base(None, Some("k".into()), Some("s".into())),
    };
    for i in 0..depth as u32 {
        let leaf = Box::new(Text {
            flags: i,
            hist: Hist::Empty,
        });
        let arg = |t: Text| (format!("k{i}"), Arg::Text(t));
        let hist = match a - LEVELS {
            0 => Hist::Named(leaf, vec![arg(t)]),
            1 => Hist::Ordered(leaf, vec![Arg::Text(t), Arg::Float(7)]),
            2 => Hist::ArgFmt(Box::new(t), vec![]),
            3 => Hist::Number(Box::new(Arg::Text(t)), None, None),
            4 => Hist::Transform(Box::new(t), (i % 2) as u8),
            _ => Hist::Named(Box::new(t), vec![arg(*leaf)]),
        };
        t = Text { flags: i, hist };
    }
    P::Text(t)
}

/// All values of a choice function within `k` deviations, in order.
pub fn collect<T>(k: u32, make: impl Fn(&mut Ch) -> Result<T, Stop>) -> Vec<T> {
    let mut out = Vec::new();
    let mut todo: Vec<Vec<u32>> = vec![Vec::new()];
    while let Some(prefix) = todo.pop() {
        let mut ch = Ch::new(&prefix);
        if let Ok(x) = make(&mut ch) {
            out.push(x);
        }
        let t = ch.trail;
        let cost = t[..prefix.len()]
            .iter()
            .filter(|(v, _, f)| *v != 0 && !*f)
            .count() as u32;
        for i in (prefix.len()..t.len()).rev() {
            let (_, width, free) = t[i];
            if !free && cost >= k {
                continue;
            }
            for v in (1..width).rev() {
                let mut c: Vec<u32> = t[..i].iter().map(|x| x.0).collect();
                c.push(v);
                todo.push(c);
            }
        }
    }
    out
}

/// A header as short as possible for its layout.
pub fn tiny_header(layout: usize) -> Header {
    Header {
        branch: "b".into(),
        class: "c".into(),
        ..plain_header(layout)
    }
}

/// A small save around one property.
pub fn tiny(layout: usize, wrap: Wrap, p: P) -> File {
    File {
        wrap,
        hdr: tiny_header(layout),
        props: vec![("a".into(), p), ("z".into(), P::I8(0x5A))],
    }
}

/// Small saves with every property type, container, struct, text and place.
pub struct Small {
    pub kinds: u32,
    pub containers: Option<u32>,
    pub structs: Option<u32>,
    pub texts: Option<u32>,
    pub nesting: usize,
}

impl Small {
    /// Every property type once, every struct and text, short nesting.
    pub const ONCE: Small = Small {
        kinds: 0,
        containers: None,
        structs: Some(0),
        texts: Some(0),
        nesting: 1,
    };

    pub fn docs(&self) -> Vec<Doc> {
        let cfg = Cfg {
            headers: false,
            names: false,
            ..Cfg::BASE
        };
        let mut out = Vec::new();
        let mut seen = std::collections::HashSet::new();
        let mut add = |v: Vec<Doc>| {
            for x in v {
                if seen.insert(hash_of(&x.bytes)) {
                    out.push(x);
                }
            }
        };
        let of = |k: u32, pick: Pick| {
            collect(k, |ch| {
                let (l, p) = pick(ch, &cfg);
                doc_spans(tiny(l, Wrap::Plain, p))
            })
        };
        add(of(self.kinds, pick_kind));
        for (k, pick) in [
            (self.containers, pick_container as Pick),
            (self.structs, pick_struct),
            (self.texts, pick_text),
        ] {
            if let Some(k) = k {
                add(of(k, pick));
            }
        }
        let n = self.nesting;
        add(collect(0, |ch| {
            let p = pick_nesting(ch, n);
            doc_spans(tiny(1, Wrap::Plain, p))
        }));
        out
    }
}

/// The shared document spaces, each case handed to the oracle.
pub fn doc_phases(cfg: Cfg, d: Depth, oracle: Oracle) -> Vec<Phase> {
    let mut out = Vec::new();
    let spans = d.spans;
    let w0 = cfg.wraps[0];

    let o = oracle.clone();
    out.push(phase("grammar", d.grammar, move |ch, obs| {
        let f = gen_file(ch, &cfg);
        let x = build(f, spans)?;
        run(&o, ch, &x, obs)
    }));

    for (name, k, pick) in [
        ("containers", d.containers, pick_container as Pick),
        ("structs", d.structs, pick_struct),
        ("texts", d.texts, pick_text),
    ] {
        let o = oracle.clone();
        out.push(phase(name, k, move |ch, obs| {
            let (layout, p) = pick(ch, &cfg);
            let x = build(one(layout, w0, "a", p), spans)?;
            run(&o, ch, &x, obs)
        }));
    }

    let chain = d.chain;
    let o = oracle.clone();
    out.push(phase("nesting", 0, move |ch, obs| {
        let p = pick_nesting(ch, chain);
        let x = build(one(1, w0, "a", p), spans)?;
        run(&o, ch, &x, obs)
    }));

    let o = oracle.clone();
    out.push(phase("deep nesting", 0, move |ch, obs| {
        let depth = DEEP[ch.free(DEEP.len())];
        let p = pick_deep(ch, depth);
        let x = build(one(1, w0, "a", p), spans)?;
        run(&o, ch, &x, obs)
    }));

    let o = oracle.clone();
    out.push(phase("alike", d.alike, move |ch, obs| {
        let pick = [pick_kind as Pick, pick_container, pick_struct, pick_text][ch.free(4)];
        ch.bias = 1 + ch.free(18);
        let (layout, p) = pick(ch, &cfg);
        let x = build(one(layout, w0, "a", p), spans)?;
        run(&o, ch, &x, obs)
    }));

    let (pairs, triples) = (d.pairs, d.triples);
    let o = oracle.clone();
    out.push(phase("sequences", pairs, move |ch, obs| {
        let a = ch.free(KINDS.len());
        let b = ch.free(KINDS.len());
        let c = if triples { ch.free(KINDS.len() + 1) } else { 0 };
        let inside = ch.free(2);
        let layout = ch.free(2);
        let cfg = Cfg {
            names: false,
            ..cfg
        };
        let mut g = gen(ch, &cfg, layout);
        let mut l = vec![
            ("a".to_string(), g.prop_of(KINDS[a], 1)),
            ("b".to_string(), g.prop_of(KINDS[b], 1)),
        ];
        if c > 0 {
            l.push(("c".to_string(), g.prop_of(KINDS[c - 1], 1)));
        }
        let props = if inside == 1 {
            vec![
                (
                    "s".to_string(),
                    P::Struct("S".into(), [0; 16], SV::Custom(l)),
                ),
                ("z".to_string(), P::I32(3)),
            ]
        } else {
            l
        };
        let x = build(
            File {
                wrap: w0,
                hdr: plain_header(layout),
                props,
            },
            spans,
        )?;
        run(&o, ch, &x, obs)
    }));

    let o = oracle.clone();
    out.push(phase("scalars", 0, move |ch, obs| {
        // Every 8- and 16-bit value, every single-byte 32/64-bit pattern.
        let kind = ch.free(10);
        let vals: Vec<P> = match kind {
            0 => (0..=255u8).map(|v| P::I8(v as i8)).collect(),
            1 => (0..=255u8)
                .map(|v| P::Byte(Some("None".into()), ByteVal::Plain(v)))
                .collect(),
            2 => vec![P::Bool(true), P::Bool(false)],
            3 | 4 => {
                let hi = ch.free(256) as u16;
                (0..=255u16)
                    .map(|lo| {
                        let v = hi << 8 | lo;
                        if kind == 3 {
                            P::I16(v as i16)
                        } else {
                            P::U16(v)
                        }
                    })
                    .collect()
            }
            _ => {
                let byte = ch.free(if kind <= 7 { 4 } else { 8 });
                (0..=255u64)
                    .map(|v| {
                        let v = v << (8 * byte);
                        match kind {
                            5 => P::I32(v as i32),
                            6 => P::U32(v as u32),
                            7 => P::F32(v as u32),
                            8 => P::I64(v as i64),
                            _ => P::U64(v),
                        }
                    })
                    .collect()
            }
        };
        let finite = |p: &P| match p {
            P::F32(v) => f32::from_bits(*v).is_finite(),
            _ => true,
        };
        let props: Vec<(String, P)> = vals
            .into_iter()
            .filter(|p| !cfg.finite || finite(p))
            .enumerate()
            .map(|(i, p)| (format!("p{i}"), p))
            .collect();
        let x = build(
            File {
                wrap: w0,
                hdr: plain_header(0),
                props,
            },
            spans,
        )?;
        run(&o, ch, &x, obs)
    }));

    let o = oracle.clone();
    out.push(phase("headers", 0, move |ch, obs| {
        let layout = ch.free(LAYOUTS);
        let pkg = ch.free(9) as u32;
        let ue5 = ch.free(11) as u32;
        let n = [0usize, 1, 2, 3, 60][ch.free(5)];
        let mut hdr = plain_header(layout);
        hdr.pkg = 0x205 + pkg;
        hdr.ue5 = if ue5 == 0 { None } else { Some(999 + ue5) };
        for i in 0..n {
            let mut g = [i as u8; 16];
            g[7] = 0xEE;
            hdr.versions.push((g, (i * 1000) as u32));
        }
        let x = build(
            File {
                wrap: w0,
                hdr,
                props: vec![("a".into(), P::I32(1))],
            },
            spans,
        )?;
        run(&o, ch, &x, obs)
    }));

    if d.lengths {
        let o = oracle.clone();
        out.push(phase("string lengths", 0, move |ch, obs| {
            let slot = ch.free(STRING_SLOTS);
            let style = ch.free(4);
            let n = ch.free(301 + LENGTHS.len());
            let len = if n <= 300 { n } else { LENGTHS[n - 301] };
            if n > 300 && len <= 300 {
                return Err(Stop::Prune);
            }
            let mut f = string_slot(slot, text_of_len(len, style));
            f.wrap = w0;
            let x = build(f, spans)?;
            run(&o, ch, &x, obs)
        }));
    }
    if let Some(longest) = d.orders {
        let o = oracle.clone();
        out.push(phase("orders", 0, move |ch, obs| {
            let place = ch.free(LISTS);
            let n = ch.free(longest + 1);
            let seq: Vec<usize> = (0..n).map(|_| ch.free(MEMBERS.len())).collect();
            let mut f = listed(place, &seq);
            f.wrap = w0;
            let x = build(f, spans)?;
            run(&o, ch, &x, obs)
        }));
    }
    if d.counts {
        let o = oracle.clone();
        let counts = counts();
        out.push(phase("counts", 0, move |ch, obs| {
            let kind = ch.free(63);
            let n = counts[ch.free(counts.len())];
            // Salted values stay distinct only without the choice overhead.
            let mut inner = Ch::new(&[]);
            let mut f = counted(kind, n, &mut inner);
            f.wrap = w0;
            let x = build(f, spans)?;
            run(&o, ch, &x, obs)
        }));
    }
    if let Some(every) = d.bytes {
        let o = oracle.clone();
        // All bytes of a few, the bytes of values of many.
        let all = Small {
            structs: None,
            texts: None,
            nesting: 0,
            ..Small::ONCE
        };
        let all = all.docs();
        let many = Small {
            containers: Some(0),
            ..Small::ONCE
        };
        let mut seen: std::collections::HashSet<u64> =
            all.iter().map(|x| hash_of(&x.bytes)).collect();
        let mut list: Vec<(Doc, Vec<usize>)> = Vec::new();
        for (i, x) in all.into_iter().enumerate() {
            // One header is enough.
            let mut e = Enc::new(Layout::default(), false);
            e.header(&x.file.hdr);
            let from = if i == 0 { 0 } else { e.buf.len() };
            let at = (from..x.enc.buf.len()).collect();
            list.push((x, at));
        }
        for x in many.docs() {
            // Each type once as a key and as a value, and the compact forms.
            let often = match &x.file.props[0].1 {
                P::Map(k, v, _, _) => {
                    k == "IntProperty"
                        || v == "IntProperty"
                        || v == "BoolProperty"
                        || k == "StrProperty" && v == "StrProperty"
                }
                _ => true,
            };
            if often && seen.insert(hash_of(&x.bytes)) {
                let values = x.enc.spans.iter().filter(|s| {
                    use Kind::*;
                    matches!(s.kind, Value | Id | Flags | EnumByte | Bool8 | Bool32)
                });
                let at = values.flat_map(|s| s.start..s.end).collect();
                list.push((x, at));
            }
        }
        out.push(phase("bytes changed", 0, move |ch, obs| {
            let i = ch.free(list.len());
            let (x, at) = &list[i];
            if at.is_empty() {
                return Err(Stop::Prune);
            }
            let at = at[ch.free(at.len())];
            let mut bytes = x.enc.buf.clone();
            bytes[at] ^= if every {
                1 + ch.free(255) as u8
            } else {
                1 << ch.free(8)
            };
            // Only what is a save again.
            let mut d = decode::Dec::new(&bytes, &x.hints, Layout::default());
            let file = d.file().map_err(|_| Stop::Prune)?;
            if d.ambiguous {
                return Err(Stop::Prune);
            }
            let y = build(File { wrap: w0, ..file }, spans)?;
            if y.enc.buf != bytes {
                return Err(Stop::Prune);
            }
            run(&o, ch, &y, obs)
        }));
    }
    if d.fixtures {
        let list = Fixtures::new();
        let o = oracle.clone();
        out.push(phase("game saves", 0, move |ch, obs| {
            let x = list.get(ch.free(list.len()));
            run(&o, ch, x, obs)
        }));
    }
    // The small spaces first, they answer soonest.
    out.sort_by_key(|p| p.k);
    out
}

fn run(o: &Oracle, ch: &mut Ch, x: &Doc, obs: &mut Obs) -> Out {
    obs.state(&x.bytes);
    obs.show(|| format!("{} bytes: {}", brief(&x.file.props), hex(&x.bytes)));
    o(ch, x, obs).map_err(|e| match e {
        Stop::Fail(m) => Stop::Fail(format!("{m}; document {}", brief(&x.file))),
        e => e,
    })
}

// --------------------------------------------------- saves made by games ----

pub struct Fixture {
    pub name: String,
    pub bytes: Vec<u8>,
    pub hints: Hints,
    pub pal: bool,
}

pub fn fixtures() -> Vec<Fixture> {
    let mut hints: std::collections::HashMap<String, Hints> = Default::default();
    for l in include_str!("../../hints.tsv").lines() {
        let mut it = l.split('\t');
        let (f, k, v) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        hints
            .entry(f.to_string())
            .or_default()
            .insert(k.to_string(), v.to_string());
    }
    let mut out = Vec::new();
    let dir = std::path::Path::new("/repo/resources/test");
    let mut names: Vec<_> = std::fs::read_dir(dir)
        .expect("/repo/resources/test")
        .flatten()
        .map(|e| e.file_name().to_string_lossy().to_string())
        .filter(|n| n.ends_with(".sav") || n.ends_with(".bin"))
        .collect();
    names.sort();
    for n in names {
        out.push(Fixture {
            bytes: std::fs::read(dir.join(&n)).expect("fixture"),
            hints: hints.remove(&n).unwrap_or_default(),
            pal: n.starts_with("palworld"),
            name: n,
        });
    }
    out
}

/// The game saves as documents, each decoded when it is first needed.
pub struct Fixtures(Vec<(Fixture, OnceLock<Doc>)>);

impl Fixtures {
    pub fn new() -> Fixtures {
        Fixtures(
            fixtures()
                .into_iter()
                .map(|f| (f, OnceLock::new()))
                .collect(),
        )
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> &Doc {
        let (f, x) = &self.0[i];
        x.get_or_init(|| fixture(f))
    }
    pub fn name(&self, i: usize) -> &str {
        &self.0[i].0.name
    }
}

/// Reference reading of a container: mode and plain save.
pub fn unwrap_container(b: &[u8]) -> Option<(Wrap, Vec<u8>)> {
    use std::io::Read;
    let want = u32::from_le_bytes(b.get(0..4)?.try_into().ok()?) as usize;
    if b.get(8..11)? != b"PlZ" {
        return None;
    }
    let z = |b: &[u8]| {
        let mut v = Vec::new();
        flate2::read::ZlibDecoder::new(b).read_to_end(&mut v).ok()?;
        Some(v)
    };
    let (w, mut plain) = match b.get(11)? {
        0x30 => (Wrap::PalNone, b[12..].to_vec()),
        0x31 => (Wrap::PalZlib, z(&b[12..])?),
        0x32 => (Wrap::PalTwice, z(&z(&b[12..])?)?),
        _ => return None,
    };
    if plain.len() < want {
        return None;
    }
    plain.truncate(want);
    Some((w, plain))
}

/// A game's save as a document: decoded by the reference decoder, which must
/// reproduce the file.
fn fixture(f: &Fixture) -> Doc {
    let (wrap, plain) = if f.pal {
        unwrap_container(&f.bytes).expect("fixture container")
    } else {
        (Wrap::Plain, f.bytes.clone())
    };
    let mut d = decode::Dec::new(&plain, &f.hints, Layout::default());
    let mut file = match d.file() {
        Ok(x) => x,
        Err(e) => panic!("reference decoder rejects {}: {e:?} at {}", f.name, d.i),
    };
    assert!(!d.ambiguous, "{} repeats a key", f.name);
    file.wrap = wrap;
    let enc = encode_file(&file);
    assert!(
        enc.buf == plain,
        "reference encoder does not reproduce {}",
        f.name
    );
    Doc {
        file,
        enc,
        bytes: f.bytes.clone(),
        hints: f.hints.clone(),
    }
}
