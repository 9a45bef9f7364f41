//! The grammar: model documents derived from choice sequences.
//!
//! Every value a choice does not fix is made from a fresh number, so that no
//! two values of one document are alike and a value in the wrong place shows.

use crate::explore::Ch;
use crate::model::*;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// How many levels of containers or structs may be nested.
    pub depth: u32,
    /// Most properties at the top level.
    pub props: usize,
    /// Only finite floats.
    pub finite: bool,
    /// Containers around the save that may be chosen.
    pub wraps: &'static [Wrap],
    /// Vary header fields.
    pub headers: bool,
    /// Vary names of properties and types.
    pub names: bool,
}

impl Cfg {
    pub const BASE: Cfg = Cfg {
        depth: 2,
        props: 3,
        finite: false,
        wraps: &[Wrap::Plain],
        headers: true,
        names: true,
    };
}

pub const LAYOUTS: usize = 6;

/// Version lists selecting each layout combination that can exist.
pub fn versions(i: usize, salt: u32) -> Vec<(Guid16, u32)> {
    let other = |n: u8| {
        let mut g = [0x11u8; 16];
        g[0] = n;
        g[15] = salt as u8;
        g
    };
    match i {
        0 => vec![],
        1 => vec![
            (GUID_EDITOR, VER_CULTURE_FLAG),
            (GUID_UE5_RELEASE, VER_WIDE_COORDS),
        ],
        2 => vec![
            (other(1), 40),
            (GUID_UE5_RELEASE, VER_WIDE_COORDS - 1),
            (GUID_EDITOR, VER_CULTURE_FLAG - 1),
        ],
        3 => vec![
            (GUID_UE5_RELEASE, VER_WIDE_ARGS - 1),
            (other(2), 0),
            (GUID_EDITOR, 38),
        ],
        4 => vec![(GUID_UE5_RELEASE, 40), (other(3), u32::MAX)],
        _ => vec![(other(4), 100), (GUID_EDITOR, VER_CULTURE_FLAG)],
    }
}

pub struct Gen<'a, 'b> {
    pub ch: &'a mut Ch<'b>,
    pub cfg: Cfg,
    pub lay: Layout,
}

/// Property kinds with their own header, in choice order.
pub const KINDS: [&str; 25] = [
    "Int",
    "Struct",
    "Array",
    "Map",
    "Set",
    "Str",
    "Name",
    "Text",
    "Byte",
    "Enum",
    "Bool",
    "Float",
    "Double",
    "Int8",
    "Int16",
    "UInt16",
    "UInt32",
    "Int64",
    "UInt64",
    "Object",
    "Delegate",
    "MInline",
    "MSparse",
    "FieldPath",
    "Unknown",
];

/// Element kinds of containers.
pub const ELEMENTS: [&str; 23] = [
    "Int",
    "Struct",
    "Str",
    "Name",
    "Text",
    "Byte",
    "Enum",
    "Bool",
    "Float",
    "Double",
    "Int8",
    "Int16",
    "UInt16",
    "UInt32",
    "Int64",
    "UInt64",
    "Object",
    "Delegate",
    "MInline",
    "MSparse",
    "FieldPath",
    "Unknown",
    "ByteLabel",
];
/// Maps cannot hold the last two: their elements carry no size.
pub const MAP_ELEMENTS: usize = 21;

pub const STRUCTS: usize = 11;
pub const HISTS: usize = 14;

pub fn type_of(kind: &str) -> String {
    match kind {
        "MInline" => "MulticastInlineDelegateProperty".into(),
        "MSparse" => "MulticastSparseDelegateProperty".into(),
        "ByteLabel" => "ByteProperty".into(),
        "Unknown" => "MysteryProperty".into(),
        k => format!("{k}Property"),
    }
}

impl Gen<'_, '_> {
    fn salt(&mut self) -> u32 {
        self.ch.fresh()
    }

    pub fn string(&mut self) -> String {
        let n = self.salt();
        match self.ch.choose(19) {
            0 => format!("v{n}"),
            1 => String::new(),
            2 => format!("é{n}"),
            3 => format!("{n}𝄞"),
            4 => format!("a\0{n}"),
            5 => "None".into(),
            6 => format!("x{n}\0"),
            7 => "\u{7f}".into(),
            8 => "\u{80}".into(),
            9 => "\u{FEFF}\u{FFFE}".into(),
            10 => format!("\"\\\r\n{n}"),
            11 => format!("{n}{}", "y".repeat(255)),
            12 => format!("{n}{}", "ж".repeat(255)),
            13 => "\u{10FFFF}\u{E000}\u{D7FF}".into(),
            14 => format!(" {n} \t"),
            15 => "none".into(),
            16 => "null".into(),
            17 => "0".into(),
            _ => format!("A::b.{n}"),
        }
    }

    pub fn opt_string(&mut self) -> Option<String> {
        if self.ch.choose(2) == 1 {
            return None;
        }
        Some(self.string())
    }

    /// Name of a property, field or type.
    pub fn name(&mut self, stem: &str) -> String {
        let n = self.salt();
        if !self.cfg.names {
            return format!("{stem}{n}");
        }
        match self.ch.choose(15) {
            0 => format!("{stem}{n}"),
            1 => String::new(),
            2 => format!("{stem}.{n}"),
            3 => format!("ñ{n}"),
            4 => format!("none{n}"),
            5 => "StructProperty".into(),
            6 => "none".into(),
            7 => "NONE".into(),
            8 => "None ".into(),
            9 => format!(" {stem} {n} "),
            10 => "Key".into(),
            11 => format!("{n}{}", "m".repeat(300)),
            12 => format!("{stem}\0{n}"),
            13 => "None\0".into(),
            _ => format!("{stem}_{n}_1"),
        }
    }

    /// Name of a struct type the library does not know.
    fn custom_name(&mut self) -> String {
        if !self.cfg.names {
            return self.name("S");
        }
        match self.ch.choose(6) {
            0 => self.name("S"),
            1 => "vector".into(),
            2 => "VectorX".into(),
            3 => "GUID".into(),
            4 => " Guid".into(),
            _ => "/Script/CoreUObject.Vector".into(),
        }
    }

    /// Several values: all different, all alike, or the last like the first.
    fn several<T: Clone>(&mut self, n: usize, mut make: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let same = if n < 2 { 0 } else { self.ch.choose(n.min(3)) };
        let mut v: Vec<T> = Vec::with_capacity(n);
        for i in 0..n {
            if i > 0 && (same == 1 || same == 2 && i == n - 1) {
                v.push(v[0].clone());
            } else {
                v.push(make(self));
            }
        }
        v
    }

    /// Eight bytes that are all different from each other and from those of
    /// the neighbouring values.
    fn pattern(&mut self) -> u64 {
        let n = self.salt() as u64;
        0x1122_3344_5566_7700u64.wrapping_add(n.wrapping_mul(0x0305_0709_0B0D_0F11))
    }

    fn int(&mut self, bits: u32) -> u64 {
        let d = self.pattern();
        let mask = if bits == 64 {
            u64::MAX
        } else {
            (1 << bits) - 1
        };
        let v = match self.ch.choose(6) {
            0 => d,
            1 => 0,
            2 => 1,
            3 => u64::MAX,
            4 => 1 << (bits - 1),
            _ => (1 << (bits - 1)) - 1,
        };
        v & mask
    }

    pub fn f32(&mut self) -> u32 {
        let n = self.salt();
        // Finite, distinct, with non-trivial low bits.
        let d = (1.5f32 + n as f32 * 3.1415927).to_bits();
        let c = self.ch.choose(if self.cfg.finite { 6 } else { 10 });
        match c {
            0 => d,
            1 => 0,
            2 => 0x8000_0000,
            3 => 1,
            4 => f32::MAX.to_bits(),
            5 => (-0.1f32).to_bits(),
            6 => f32::INFINITY.to_bits(),
            7 => f32::NEG_INFINITY.to_bits(),
            8 => 0x7FC0_0000,
            _ => 0xFFA1_2345,
        }
    }

    pub fn f64(&mut self) -> u64 {
        let n = self.salt();
        let d = (2.5f64 + n as f64 * std::f64::consts::E).to_bits();
        let c = self.ch.choose(if self.cfg.finite { 6 } else { 10 });
        match c {
            0 => d,
            1 => 0,
            2 => 1 << 63,
            3 => 1,
            4 => f64::MAX.to_bits(),
            5 => (-0.1f64).to_bits(),
            6 => f64::INFINITY.to_bits(),
            7 => f64::NEG_INFINITY.to_bits(),
            8 => 0x7FF8_0000_0000_0000,
            _ => 0xFFF4_0000_1234_5678,
        }
    }

    pub fn guid(&mut self) -> Guid16 {
        let a = self.pattern().to_le_bytes();
        let b = self.pattern().to_be_bytes();
        let mut g = [0u8; 16];
        g[..8].copy_from_slice(&a);
        g[8..].copy_from_slice(&b);
        match self.ch.choose(4) {
            0 => {}
            1 => g = [0; 16],
            2 => {
                g = [0; 16];
                g[15] = 1;
            }
            _ => g = [0xFF; 16],
        }
        g
    }

    fn flags(&mut self) -> u32 {
        [0, 1, 0xA1B2_C3D4][self.ch.choose(3)]
    }

    fn count(&mut self) -> usize {
        [2, 0, 1, 3][self.ch.choose(4)]
    }

    fn bool(&mut self) -> bool {
        self.ch.choose(2) == 0
    }

    pub fn sv(&mut self, depth: u32) -> SV {
        // Custom structs last once the nesting bound is reached.
        let n = self.ch.choose(STRUCTS);
        self.sv_of((n + if depth == 0 { 1 } else { 0 }) % STRUCTS, depth)
    }

    pub fn sv_of(&mut self, n: usize, depth: u32) -> SV {
        let w = self.lay.wide_coords;
        macro_rules! fs {
            ($n:literal) => {{
                let mut a = [0u32; $n];
                for x in &mut a {
                    *x = self.f32();
                }
                a
            }};
        }
        macro_rules! ds {
            ($n:literal) => {{
                let mut a = [0u64; $n];
                for x in &mut a {
                    *x = self.f64();
                }
                a
            }};
        }
        match n {
            0 => {
                let n = if depth == 0 {
                    0
                } else {
                    [1, 0, 2, 3][self.ch.choose(4)]
                };
                let mut v: Vec<(String, P)> = Vec::new();
                while v.len() < n {
                    let name = self.name("f");
                    let p = self.prop(depth - 1);
                    // Indexed repeats keep the name of their neighbour.
                    let again = self.ch.choose(4);
                    let more = [0, 1, 1, 4][again];
                    v.push((name.clone(), p.clone()));
                    for i in 0..more {
                        let q = match &p {
                            P::Name(_, s) if again == 2 => P::Name(1, s.clone()),
                            P::Name(..) => P::Name(i + 1, self.opt_string()),
                            _ if again == 2 => p.clone(),
                            _ => self.prop(depth - 1),
                        };
                        v.push((name.clone(), q));
                    }
                }
                SV::Custom(v)
            }
            1 => {
                if w {
                    SV::VD(ds!(3))
                } else {
                    SV::VF(fs!(3))
                }
            }
            2 => {
                if w {
                    SV::V2D(ds!(2))
                } else {
                    SV::V2F(fs!(2))
                }
            }
            3 => {
                if w {
                    SV::RD(ds!(3))
                } else {
                    SV::RF(fs!(3))
                }
            }
            4 => {
                if w {
                    SV::QD(ds!(4))
                } else {
                    SV::QF(fs!(4))
                }
            }
            5 => SV::DateTime(self.int(64)),
            6 => SV::Timespan(self.int(64)),
            7 => SV::Guid(self.guid()),
            8 => SV::Color(fs!(4)),
            9 => SV::Point(self.int(32) as i32, self.int(32) as i32),
            _ => {
                let n = self.count();
                SV::Tags(self.several(n, |g| g.string()))
            }
        }
    }

    fn struct_name(&mut self, v: &SV) -> String {
        match v {
            SV::Custom(_) => self.custom_name(),
            _ => v.struct_type().to_string(),
        }
    }

    pub fn text(&mut self, depth: u32) -> Text {
        let n = self.ch.choose(HISTS);
        let hist = self.hist_of(n, depth);
        let flags = [0, 2, 0xFFFF_FFFF][self.ch.choose(3)];
        Text { flags, hist }
    }

    fn sub_text(&mut self, depth: u32) -> Text {
        if depth == 0 {
            Text {
                flags: self.salt(),
                hist: Hist::Base(None, None, Some(format!("t{}", self.ch.fresh()))),
            }
        } else {
            self.text(depth - 1)
        }
    }

    fn arg(&mut self, depth: u32) -> Arg {
        let w = self.lay.wide_args;
        match self.ch.choose(5) {
            0 if w => Arg::Int64(self.int(64) as i64),
            0 => Arg::Int(self.int(32) as i32),
            1 if w => Arg::UInt64(self.int(64)),
            1 => Arg::UInt(self.int(32) as u32),
            2 => Arg::Float(self.f32()),
            3 => Arg::Double(self.f64()),
            _ => Arg::Text(self.sub_text(depth)),
        }
    }

    fn numfmt(&mut self) -> Option<NumFmt> {
        let c = self.ch.choose(8);
        if c == 7 {
            return None;
        }
        let n = self.salt() as i32;
        Some(NumFmt {
            sign: self.bool(),
            group: !self.bool(),
            round: c as u8,
            digits: [n, -n, n + 1000, i32::MAX - n],
        })
    }

    fn style(&mut self) -> u8 {
        [1u8, 0, 2, 3, 4][self.ch.choose(5)]
    }

    fn named(&mut self, depth: u32) -> Vec<(String, Arg)> {
        let n = self.count();
        let keys: Vec<String> = (0..n).map(|_| self.string()).collect();
        keys.into_iter()
            .zip(self.several(n, |g| g.arg(depth)))
            .collect()
    }

    pub fn hist_of(&mut self, n: usize, depth: u32) -> Hist {
        match n {
            0 => Hist::Base(self.opt_string(), self.opt_string(), self.opt_string()),
            1 => Hist::Empty,
            2 => {
                // Only files with the newer empty-text layout can store it.
                if self.lay.culture_flag {
                    Hist::Invariant(self.opt_string())
                } else {
                    Hist::Empty
                }
            }
            3 => Hist::Named(Box::new(self.sub_text(depth)), self.named(depth)),
            4 => {
                let f = Box::new(self.sub_text(depth));
                let n = self.count();
                Hist::Ordered(f, self.several(n, |g| g.arg(depth)))
            }
            5 => Hist::ArgFmt(Box::new(self.sub_text(depth)), self.named(depth)),
            6 => Hist::Number(Box::new(self.arg(depth)), self.numfmt(), self.opt_string()),
            7 => Hist::Percent(Box::new(self.arg(depth)), self.numfmt(), self.opt_string()),
            8 => Hist::Currency(
                self.opt_string(),
                Box::new(self.arg(depth)),
                self.numfmt(),
                self.opt_string(),
            ),
            9 => Hist::Date(self.int(64), self.style(), self.string()),
            10 => Hist::Time(self.int(64), self.style(), self.string(), self.string()),
            11 => Hist::DateTime(
                self.int(64),
                self.style(),
                self.style(),
                self.string(),
                self.string(),
            ),
            12 => Hist::Transform(Box::new(self.sub_text(depth)), self.ch.choose(2) as u8),
            _ => Hist::Table(self.string(), self.string()),
        }
    }

    fn pairs(&mut self) -> Vec<(String, String)> {
        let n = self.count();
        self.several(n, |g| (g.string(), g.string()))
    }

    /// Container element.
    pub fn element(&mut self, kind: &str, depth: u32, share: usize) -> P {
        match kind {
            "Struct" => P::Body(self.sv(depth)),
            "Byte" => P::Byte(None, ByteVal::Plain(self.int(8) as u8)),
            "ByteLabel" => {
                let n = self.salt();
                let s = match self.ch.choose(3) {
                    0 => format!("E::L{n}"),
                    1 => format!("E::Ł{n}"),
                    _ => "E".repeat(200),
                };
                P::Byte(None, ByteVal::Label(s))
            }
            "Enum" => P::Enum(None, self.string()),
            "Name" => P::Name(0, self.opt_string()),
            "Unknown" => {
                let n = self.salt() as u8;
                P::Unknown(
                    type_of("Unknown"),
                    (0..share).map(|i| n.wrapping_add(i as u8)).collect(),
                )
            }
            k => self.leaf(k, depth),
        }
    }

    /// Kinds whose value does not depend on having a header.
    fn leaf(&mut self, kind: &str, depth: u32) -> P {
        match kind {
            "Int8" => P::I8(self.int(8) as i8),
            "Int16" => P::I16(self.int(16) as i16),
            "UInt16" => P::U16(self.int(16) as u16),
            "Int" => P::I32(self.int(32) as i32),
            "UInt32" => P::U32(self.int(32) as u32),
            "Int64" => P::I64(self.int(64) as i64),
            "UInt64" => P::U64(self.int(64)),
            "Float" => P::F32(self.f32()),
            "Double" => P::F64(self.f64()),
            "Bool" => P::Bool(self.bool()),
            "Str" => P::Str(self.opt_string()),
            "Text" => P::Text(self.text(depth.min(1))),
            "Object" => P::Object(self.string()),
            "Delegate" => P::Delegate(self.string(), self.string()),
            "MInline" => P::MInline(self.pairs()),
            "MSparse" => P::MSparse(self.pairs()),
            "FieldPath" => {
                let n = self.count();
                P::FieldPath(self.several(n, |g| g.string()), self.string())
            }
            k => unreachable!("{k}"),
        }
    }

    pub fn prop(&mut self, depth: u32) -> P {
        let k = self.ch.choose(KINDS.len());
        self.prop_of(KINDS[k], depth)
    }

    pub fn prop_of(&mut self, kind: &str, depth: u32) -> P {
        match kind {
            "Byte" => {
                let name = Some(self.name("B"));
                match self.ch.choose(3) {
                    0 => P::Byte(name, ByteVal::Plain(self.int(8) as u8)),
                    1 => {
                        let n = self.salt();
                        P::Byte(name, ByteVal::Label(format!("E::L{n}")))
                    }
                    _ => P::Byte(name, ByteVal::Label(self.string())),
                }
            }
            "Enum" => P::Enum(Some(self.name("E")), self.string()),
            "Name" => {
                let i = [0, 1, 255, 256, 65536, u32::MAX][self.ch.choose(6)];
                P::Name(i, self.opt_string())
            }
            "Struct" => {
                let v = self.sv(depth);
                self.struct_prop(v)
            }
            "Array" => {
                let e = self.ch.choose(ELEMENTS.len());
                let n = self.count();
                self.array_of(ELEMENTS[e], n, depth.saturating_sub(1))
            }
            "Set" => {
                let e = self.ch.choose(ELEMENTS.len());
                let n = self.count();
                self.set_of(ELEMENTS[e], n, depth.saturating_sub(1))
            }
            "Map" => {
                let k = self.ch.choose(MAP_ELEMENTS);
                let v = self.ch.choose(MAP_ELEMENTS);
                let n = self.count();
                self.map_of(ELEMENTS[k], ELEMENTS[v], n, depth.saturating_sub(1))
            }
            "Unknown" => {
                let n = [3usize, 0, 1, 300][self.ch.choose(4)];
                let s = self.salt() as u8;
                let ty = match self.ch.choose(3) {
                    0 => "MysteryProperty".to_string(),
                    1 => String::new(),
                    _ => "IntPropertyé".to_string(),
                };
                P::Unknown(ty, (0..n).map(|i| s.wrapping_add(i as u8)).collect())
            }
            k => self.leaf(k, depth),
        }
    }

    pub fn struct_prop(&mut self, v: SV) -> P {
        let name = self.struct_name(&v);
        P::Struct(name, self.guid(), v)
    }

    fn share(&mut self, kind: &str) -> usize {
        if kind == "Unknown" {
            [5, 1, 300][self.ch.choose(3)]
        } else {
            0
        }
    }

    pub fn array_of(&mut self, kind: &str, n: usize, depth: u32) -> P {
        if kind == "Struct" {
            let which = self.ch.choose(STRUCTS);
            return self.struct_array(which, n, depth);
        }
        let share = self.share(kind);
        let el = self.several(n, |g| g.element(kind, depth, share));
        P::Array(Arr {
            ty: type_of(kind),
            info: None,
            el,
        })
    }

    pub fn struct_array(&mut self, which: usize, n: usize, depth: u32) -> P {
        let el = self.several(n, |g| P::Body(g.sv_of(which, depth)));
        // The declared struct type decides how elements are read, also when
        // there are none.
        let ty = match el.first() {
            Some(P::Body(v)) => match v {
                SV::Custom(_) => self.custom_name(),
                _ => v.struct_type().to_string(),
            },
            _ => match which {
                0 => self.custom_name(),
                w => {
                    let v = self.sv_of(w, 0);
                    v.struct_type().to_string()
                }
            },
        };
        let field = self.name("a");
        P::Array(Arr {
            ty: "StructProperty".into(),
            info: Some((field, ty, self.guid())),
            el,
        })
    }

    pub fn set_of(&mut self, kind: &str, n: usize, depth: u32) -> P {
        let flags = self.flags();
        let share = self.share(kind);
        let el = self.elements(kind, n, depth, share, true);
        P::Set(type_of(kind), flags, el)
    }

    /// Untyped structs at one path all have the same type.
    fn elements(&mut self, kind: &str, n: usize, depth: u32, share: usize, again: bool) -> Vec<P> {
        let which = match kind {
            "Struct" => self.ch.choose(STRUCTS),
            _ => 0,
        };
        let make = |g: &mut Self| match kind {
            "Struct" => P::Body(g.sv_of(which, depth)),
            _ => g.element(kind, depth, share),
        };
        if again {
            self.several(n, make)
        } else {
            (0..n).map(|_| make(self)).collect()
        }
    }

    pub fn map_of(&mut self, k: &str, v: &str, n: usize, depth: u32) -> P {
        let flags = self.flags();
        let mut keys = self.elements(k, n, depth, 0, false);
        if k == "Bool" && n == 2 {
            // The only two keys there are.
            if let (P::Bool(a), P::Bool(b)) = (keys[0].clone(), &mut keys[1]) {
                *b = !a;
            }
        }
        let vals = if k == v && self.ch.choose(2) == 1 {
            keys.clone()
        } else {
            self.elements(v, n, depth, 0, true)
        };
        P::Map(
            type_of(k),
            type_of(v),
            flags,
            keys.into_iter().zip(vals).collect(),
        )
    }
}

pub fn header(ch: &mut Ch, cfg: &Cfg) -> Header {
    let n = ch.fresh();
    let layout = if cfg.headers { ch.choose(LAYOUTS) } else { 0 };
    header_with(ch, cfg, versions(layout, n))
}

pub fn header_with(ch: &mut Ch, cfg: &Cfg, versions: Vec<(Guid16, u32)>) -> Header {
    let mut h = Header {
        pkg: 522,
        ue5: None,
        major: 4,
        minor: 27,
        patch: 2,
        change: 0x1234_5678,
        branch: "++UE4+Release-4.27".into(),
        versions,
        class: "/Script/Game.Save".into(),
    };
    if !cfg.headers {
        return h;
    }
    match ch.choose(4) {
        0 => {}
        1 => {
            h.ue5 = Some(1008);
            h.major = 5;
            h.minor = 2;
        }
        2 => {
            h.ue5 = Some(1000);
            h.pkg = 0x205;
            h.change = u32::MAX;
            h.patch = u16::MAX;
        }
        _ => {
            h.ue5 = Some(1009);
            h.pkg = 0x20D;
            h.major = 0;
            h.minor = u16::MAX;
        }
    }
    match ch.choose(5) {
        0 => {}
        1 => h.branch = String::new(),
        2 => h.branch = "++Üñ𝄞".into(),
        3 => h.class = String::new(),
        _ => h.class = "Класс".into(),
    }
    h
}

pub fn gen_file(ch: &mut Ch, cfg: &Cfg) -> File {
    let wrap = if cfg.wraps.len() > 1 {
        cfg.wraps[ch.choose(cfg.wraps.len())]
    } else {
        cfg.wraps[0]
    };
    let hdr = header(ch, cfg);
    let lay = Layout::of(&hdr.versions);
    let mut g = Gen { ch, cfg: *cfg, lay };
    let n = {
        let order: Vec<usize> = [1usize, 0, 2, 3]
            .into_iter()
            .filter(|n| *n <= cfg.props)
            .collect();
        order[g.ch.choose(order.len())]
    };
    let mut props = Vec::new();
    for _ in 0..n {
        let name = g.name("p");
        let p = g.prop(cfg.depth);
        props.push((name, p));
    }
    File { wrap, hdr, props }
}
