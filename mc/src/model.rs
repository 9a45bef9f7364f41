//! Reference model of the GVAS format: abstract syntax and encoder.
//!
//! Nothing in this file uses the library under test. The encoder records, for
//! every byte range it emits, what the range means, so that the corruption
//! checks know which field they are touching.

pub type Guid16 = [u8; 16];

/// Which layout the custom versions of the header select.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Layout {
    /// 64-bit coordinates.
    pub wide_coords: bool,
    /// 64-bit text format arguments.
    pub wide_args: bool,
    /// Empty texts carry a "has culture invariant string" flag.
    pub culture_flag: bool,
}

pub const GUID_UE5_RELEASE: Guid16 = [
    0x42, 0x5E, 0x9B, 0xD8, 0x46, 0x4D, 0xBD, 0x24, 0xA8, 0xAC, 0x12, 0x84, 0x79, 0x17, 0x64, 0xDF,
];
pub const GUID_EDITOR: Guid16 = [
    0xED, 0x68, 0xB0, 0xE4, 0xE9, 0x42, 0x94, 0xF4, 0x0B, 0xDA, 0x31, 0xA2, 0x41, 0xBB, 0x46, 0x2E,
];
pub const VER_WIDE_ARGS: u32 = 12;
pub const VER_WIDE_COORDS: u32 = 28;
pub const VER_CULTURE_FLAG: u32 = 32;

impl Layout {
    pub fn of(versions: &[(Guid16, u32)]) -> Layout {
        let get = |g: &Guid16| {
            versions
                .iter()
                .rev()
                .find(|(k, _)| k == g)
                .map(|(_, v)| *v)
                .unwrap_or(0)
        };
        let ue5 = get(&GUID_UE5_RELEASE);
        let editor = get(&GUID_EDITOR);
        Layout {
            wide_coords: ue5 >= VER_WIDE_COORDS,
            wide_args: ue5 >= VER_WIDE_ARGS,
            culture_flag: editor >= VER_CULTURE_FLAG,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ByteVal {
    Plain(u8),
    Label(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Text {
    pub flags: u32,
    pub hist: Hist,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct NumFmt {
    pub sign: bool,
    pub group: bool,
    pub round: u8,
    pub digits: [i32; 4],
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Hist {
    Empty,
    Invariant(Option<String>),
    Base(Option<String>, Option<String>, Option<String>),
    Named(Box<Text>, Vec<(String, Arg)>),
    Ordered(Box<Text>, Vec<Arg>),
    ArgFmt(Box<Text>, Vec<(String, Arg)>),
    Number(Box<Arg>, Option<NumFmt>, Option<String>),
    Percent(Box<Arg>, Option<NumFmt>, Option<String>),
    Currency(Option<String>, Box<Arg>, Option<NumFmt>, Option<String>),
    Date(u64, u8, String),
    Time(u64, u8, String, String),
    DateTime(u64, u8, u8, String, String),
    Transform(Box<Text>, u8),
    Table(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    Int(i32),
    UInt(u32),
    Int64(i64),
    UInt64(u64),
    Float(u32),
    Double(u64),
    Text(Text),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SV {
    V2F([u32; 2]),
    V2D([u64; 2]),
    VF([u32; 3]),
    VD([u64; 3]),
    RF([u32; 3]),
    RD([u64; 3]),
    QF([u32; 4]),
    QD([u64; 4]),
    DateTime(u64),
    Timespan(u64),
    Guid(Guid16),
    Color([u32; 4]),
    Point(i32, i32),
    Tags(Vec<String>),
    Custom(Vec<(String, P)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum P {
    I8(i8),
    Byte(Option<String>, ByteVal),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(u32),
    F64(u64),
    Bool(bool),
    Enum(Option<String>, String),
    Str(Option<String>),
    Text(Text),
    Name(u32, Option<String>),
    Object(String),
    Delegate(String, String),
    MInline(Vec<(String, String)>),
    MSparse(Vec<(String, String)>),
    FieldPath(Vec<String>, String),
    Struct(String, Guid16, SV),
    /// Struct body without its own header (container element).
    Body(SV),
    Array(Arr),
    Set(String, u32, Vec<P>),
    Map(String, String, u32, Vec<(P, P)>),
    Unknown(String, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Arr {
    pub ty: String,
    /// Field name, struct type and identifier of an array of structs.
    pub info: Option<(String, String, Guid16)>,
    pub el: Vec<P>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Header {
    pub pkg: u32,
    pub ue5: Option<u32>,
    pub major: u16,
    pub minor: u16,
    pub patch: u16,
    pub change: u32,
    pub branch: String,
    pub versions: Vec<(Guid16, u32)>,
    pub class: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Wrap {
    Plain,
    PalNone,
    PalZlib,
    PalTwice,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct File {
    pub wrap: Wrap,
    pub hdr: Header,
    pub props: Vec<(String, P)>,
}

impl P {
    pub fn type_name(&self) -> &str {
        match self {
            P::I8(_) => "Int8Property",
            P::Byte(..) => "ByteProperty",
            P::I16(_) => "Int16Property",
            P::U16(_) => "UInt16Property",
            P::I32(_) => "IntProperty",
            P::U32(_) => "UInt32Property",
            P::I64(_) => "Int64Property",
            P::U64(_) => "UInt64Property",
            P::F32(_) => "FloatProperty",
            P::F64(_) => "DoubleProperty",
            P::Bool(_) => "BoolProperty",
            P::Enum(..) => "EnumProperty",
            P::Str(_) => "StrProperty",
            P::Text(_) => "TextProperty",
            P::Name(..) => "NameProperty",
            P::Object(_) => "ObjectProperty",
            P::Delegate(..) => "DelegateProperty",
            P::MInline(_) => "MulticastInlineDelegateProperty",
            P::MSparse(_) => "MulticastSparseDelegateProperty",
            P::FieldPath(..) => "FieldPathProperty",
            P::Struct(..) | P::Body(_) => "StructProperty",
            P::Array(_) => "ArrayProperty",
            P::Set(..) => "SetProperty",
            P::Map(..) => "MapProperty",
            P::Unknown(n, _) => n,
        }
    }
}

impl SV {
    /// Name of the built-in struct type, or any other name for custom ones.
    pub fn struct_type(&self) -> &'static str {
        match self {
            SV::V2F(_) | SV::V2D(_) => "Vector2D",
            SV::VF(_) | SV::VD(_) => "Vector",
            SV::RF(_) | SV::RD(_) => "Rotator",
            SV::QF(_) | SV::QD(_) => "Quat",
            SV::DateTime(_) => "DateTime",
            SV::Timespan(_) => "Timespan",
            SV::Guid(_) => "Guid",
            SV::Color(_) => "LinearColor",
            SV::Point(..) => "IntPoint",
            SV::Tags(_) => "GameplayTagContainer",
            SV::Custom(_) => "HintedStruct",
        }
    }
}

/// Meaning of a byte range of an encoded document.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Magic,
    SaveVersion,
    PkgVersion,
    Ue5Version,
    EngineField,
    VersionFormat,
    VersionCount,
    VersionKey,
    VersionValue,
    /// String length field; the flag says whether an absent string is legal here.
    StrLen {
        optional: bool,
    },
    StrBody,
    StrTerm,
    /// Declared size of the value that follows the property header.
    PropSize,
    /// Second half of the size of types whose size is eight bytes wide.
    ArrayIndex {
        strict: bool,
    },
    Separator,
    Count,
    Flags,
    Bool8,
    Bool32,
    EnumByte,
    Id,
    Value,
    /// Size of the element block of an array of structs.
    InnerSize,
    Padding,
}

#[derive(Clone, Debug)]
pub struct Span {
    pub start: usize,
    pub end: usize,
    pub kind: Kind,
    /// Type name of the innermost property.
    pub owner: &'static str,
}

/// Where an untyped struct starts and which hint path selects its type.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Untyped {
    pub path: String,
    pub pos: usize,
    /// The struct type that makes a reader decode it as written.
    pub ty: &'static str,
}

pub struct Enc {
    pub buf: Vec<u8>,
    pub spans: Vec<Span>,
    pub untyped: Vec<Untyped>,
    /// Paths of everything that was encoded, when recording.
    pub paths: Vec<String>,
    /// Recording spans is only needed by the corruption checks.
    pub record: bool,
    /// Changes applied while encoding, so that all sizes agree with them.
    pub edits: Vec<Edit>,
    /// What is at each point an edit can address; `None` is the end of a value.
    pub points: Vec<Option<Kind>>,
    at_point: usize,
    path: Vec<String>,
    owner: &'static str,
    lay: Layout,
}

/// Replaces `drop` fields from point `at` on by `bytes`.
#[derive(Clone, Debug)]
pub struct Edit {
    pub at: usize,
    pub drop: usize,
    pub bytes: Vec<u8>,
}

fn static_name(p: &P) -> &'static str {
    match p {
        P::I8(_) => "Int8",
        P::Byte(..) => "Byte",
        P::I16(_) => "Int16",
        P::U16(_) => "UInt16",
        P::I32(_) => "Int",
        P::U32(_) => "UInt32",
        P::I64(_) => "Int64",
        P::U64(_) => "UInt64",
        P::F32(_) => "Float",
        P::F64(_) => "Double",
        P::Bool(_) => "Bool",
        P::Enum(..) => "Enum",
        P::Str(_) => "Str",
        P::Text(_) => "Text",
        P::Name(..) => "Name",
        P::Object(_) => "Object",
        P::Delegate(..) => "Delegate",
        P::MInline(_) => "MInline",
        P::MSparse(_) => "MSparse",
        P::FieldPath(..) => "FieldPath",
        P::Struct(..) => "Struct",
        P::Body(_) => "StructBody",
        P::Array(_) => "Array",
        P::Set(..) => "Set",
        P::Map(..) => "Map",
        P::Unknown(..) => "Unknown",
    }
}

impl Enc {
    pub fn new(lay: Layout, record: bool) -> Enc {
        Enc {
            buf: Vec::new(),
            spans: Vec::new(),
            untyped: Vec::new(),
            paths: Vec::new(),
            record,
            edits: Vec::new(),
            points: Vec::new(),
            at_point: 0,
            path: Vec::new(),
            owner: "File",
            lay,
        }
    }

    pub fn with_path(mut self, path: &[&str]) -> Enc {
        self.path = path.iter().map(|s| s.to_string()).collect();
        self
    }

    fn note_path(&mut self) {
        if self.record {
            self.paths.push(self.path.join("."));
        }
    }

    /// Passes a point; whether the field there is left out.
    fn point(&mut self, kind: Option<&Kind>) -> bool {
        if self.record {
            self.points.push(kind.cloned());
        }
        let n = self.at_point;
        self.at_point += 1;
        let mut drop = false;
        for e in &self.edits {
            if n == e.at {
                self.buf.extend_from_slice(&e.bytes);
            }
            drop |= n >= e.at && n < e.at + e.drop;
        }
        drop && kind.is_some()
    }

    fn put(&mut self, kind: Kind, bytes: &[u8]) {
        if self.point(Some(&kind)) {
            return;
        }
        let start = self.buf.len();
        self.buf.extend_from_slice(bytes);
        if self.record {
            self.spans.push(Span {
                start,
                end: self.buf.len(),
                kind,
                owner: self.owner,
            });
        }
    }

    fn u32(&mut self, kind: Kind, v: u32) {
        self.put(kind, &v.to_le_bytes());
    }

    fn str_raw(&mut self, s: &str, optional: bool) {
        if s.bytes().all(|b| b < 0x80) {
            self.put(
                Kind::StrLen { optional },
                &((s.len() + 1) as i32).to_le_bytes(),
            );
            if !s.is_empty() {
                self.put(Kind::StrBody, s.as_bytes());
            }
            self.put(Kind::StrTerm, &[0]);
        } else {
            let mut units = Vec::with_capacity(s.len() * 2);
            let mut n = 0usize;
            for ch in s.chars() {
                let c = ch as u32;
                if c < 0x10000 {
                    units.extend_from_slice(&(c as u16).to_le_bytes());
                    n += 1;
                } else {
                    let c = c - 0x10000;
                    units.extend_from_slice(&(0xD800u16 + (c >> 10) as u16).to_le_bytes());
                    units.extend_from_slice(&(0xDC00u16 + (c & 0x3FF) as u16).to_le_bytes());
                    n += 2;
                }
            }
            self.put(
                Kind::StrLen { optional },
                &(-((n + 1) as i64) as i32).to_le_bytes(),
            );
            self.put(Kind::StrBody, &units);
            self.put(Kind::StrTerm, &[0, 0]);
        }
    }

    pub fn string(&mut self, s: &str) {
        self.str_raw(s, false);
    }

    pub fn opt_string(&mut self, s: &Option<String>) {
        match s {
            Some(s) => self.str_raw(s, true),
            None => self.u32(Kind::StrLen { optional: true }, 0),
        }
    }

    pub fn header(&mut self, h: &Header) {
        self.put(Kind::Magic, b"GVAS");
        self.u32(Kind::SaveVersion, if h.ue5.is_some() { 3 } else { 2 });
        self.u32(Kind::PkgVersion, h.pkg);
        if let Some(v) = h.ue5 {
            self.u32(Kind::Ue5Version, v);
        }
        self.put(Kind::EngineField, &h.major.to_le_bytes());
        self.put(Kind::EngineField, &h.minor.to_le_bytes());
        self.put(Kind::EngineField, &h.patch.to_le_bytes());
        self.put(Kind::EngineField, &h.change.to_le_bytes());
        self.string(&h.branch);
        self.u32(Kind::VersionFormat, 3);
        self.u32(Kind::VersionCount, h.versions.len() as u32);
        for (k, v) in &h.versions {
            self.put(Kind::VersionKey, k);
            self.u32(Kind::VersionValue, *v);
        }
        self.string(&h.class);
    }

    /// Size of the property's value, back-patched.
    fn sized(&mut self, at: usize, start: usize) {
        let n = (self.buf.len() - start) as u32;
        self.buf[at..at + 4].copy_from_slice(&n.to_le_bytes());
    }

    /// Type name, property header and value.
    pub fn prop_with_type(&mut self, p: &P) {
        self.string(p.type_name());
        self.prop(p);
    }

    /// Property header and value, without the leading type name.
    pub fn prop(&mut self, p: &P) {
        let saved = self.owner;
        self.owner = static_name(p);
        self.path.push(p.type_name().to_string());
        self.note_path();
        let at = self.buf.len();
        self.u32(Kind::PropSize, 0);
        match p {
            P::Name(i, _) => self.u32(Kind::ArrayIndex { strict: false }, *i),
            _ => self.u32(Kind::ArrayIndex { strict: true }, 0),
        }
        match p {
            P::Bool(b) => {
                self.put(Kind::Bool8, &[*b as u8]);
                self.put(Kind::Separator, &[0]);
                self.path.pop();
                self.owner = saved;
                return;
            }
            P::Byte(name, _) => self.opt_string_required(name),
            P::Enum(ty, _) => self.opt_string_required(ty),
            P::Struct(ty, guid, _) => {
                self.string(ty);
                self.put(Kind::Id, guid);
            }
            P::Array(a) => self.string(&a.ty),
            P::Set(ty, ..) => self.string(ty),
            P::Map(k, v, ..) => {
                self.string(k);
                self.string(v);
            }
            _ => {}
        }
        self.put(Kind::Separator, &[0]);
        let start = self.buf.len();
        self.body(p);
        self.point(None);
        self.sized(at, start);
        self.path.pop();
        self.owner = saved;
    }

    /// A string that the reader requires to be present, but which the in-memory
    /// form keeps optional because container elements do not store it.
    fn opt_string_required(&mut self, s: &Option<String>) {
        match s {
            Some(s) => self.string(s),
            None => self.u32(Kind::StrLen { optional: false }, 0),
        }
    }

    /// Container element.
    pub fn element(&mut self, p: &P) {
        let saved = self.owner;
        self.owner = static_name(p);
        self.path.push(p.type_name().to_string());
        self.note_path();
        if let P::Body(v) = p {
            self.untyped.push(Untyped {
                path: self.path.join("."),
                pos: self.buf.len(),
                ty: v.struct_type(),
            });
        }
        self.body(p);
        self.path.pop();
        self.owner = saved;
    }

    fn pairs(&mut self, l: &[(String, String)]) {
        self.u32(Kind::Count, l.len() as u32);
        for (o, f) in l {
            self.string(o);
            self.string(f);
        }
    }

    /// Value only.
    pub fn body(&mut self, p: &P) {
        match p {
            P::I8(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::Byte(_, ByteVal::Plain(v)) => self.put(Kind::Value, &[*v]),
            P::Byte(_, ByteVal::Label(s)) => self.string(s),
            P::I16(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::U16(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::I32(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::U32(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::I64(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::U64(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::F32(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::F64(v) => self.put(Kind::Value, &v.to_le_bytes()),
            P::Bool(b) => self.put(Kind::Bool8, &[*b as u8]),
            P::Enum(_, v) => self.string(v),
            P::Str(v) => self.opt_string(v),
            P::Text(t) => self.text(t),
            P::Name(_, v) => self.opt_string(v),
            P::Object(v) => self.string(v),
            P::Delegate(o, f) => {
                self.string(o);
                self.string(f);
            }
            P::MInline(l) | P::MSparse(l) => self.pairs(l),
            P::FieldPath(l, o) => {
                self.u32(Kind::Count, l.len() as u32);
                for s in l {
                    self.string(s);
                }
                self.string(o);
            }
            P::Struct(_, _, v) | P::Body(v) => self.sv(v),
            P::Array(a) => {
                self.u32(Kind::Count, a.el.len() as u32);
                match &a.info {
                    Some((field, ty, guid)) => {
                        self.string(field);
                        self.string("StructProperty");
                        let at = self.buf.len();
                        self.put(Kind::InnerSize, &[0; 8]);
                        self.string(ty);
                        self.put(Kind::Id, guid);
                        self.put(Kind::Separator, &[0]);
                        let start = self.buf.len();
                        for e in &a.el {
                            let saved = self.owner;
                            self.owner = static_name(e);
                            self.body(e);
                            self.owner = saved;
                        }
                        self.point(None);
                        let n = (self.buf.len() - start) as u64;
                        self.buf[at..at + 8].copy_from_slice(&n.to_le_bytes());
                    }
                    None => {
                        for e in &a.el {
                            self.element(e);
                        }
                    }
                }
            }
            P::Set(_, flags, el) => {
                self.u32(Kind::Flags, *flags);
                self.u32(Kind::Count, el.len() as u32);
                for e in el {
                    self.element(e);
                }
            }
            P::Map(_, _, flags, ent) => {
                self.u32(Kind::Flags, *flags);
                self.u32(Kind::Count, ent.len() as u32);
                for (k, v) in ent {
                    self.path.push("Key".into());
                    self.element(k);
                    self.path.pop();
                    self.path.push("Value".into());
                    self.element(v);
                    self.path.pop();
                }
            }
            P::Unknown(_, raw) => {
                if !raw.is_empty() {
                    self.put(Kind::Value, raw)
                }
            }
        }
    }

    fn f32s(&mut self, v: &[u32]) {
        for x in v {
            self.put(Kind::Value, &x.to_le_bytes());
        }
    }

    fn f64s(&mut self, v: &[u64]) {
        for x in v {
            self.put(Kind::Value, &x.to_le_bytes());
        }
    }

    pub fn sv(&mut self, v: &SV) {
        match v {
            SV::V2F(a) => self.f32s(a),
            SV::V2D(a) => self.f64s(a),
            SV::VF(a) => self.f32s(a),
            SV::VD(a) => self.f64s(a),
            SV::RF(a) => self.f32s(a),
            SV::RD(a) => self.f64s(a),
            SV::QF(a) => self.f32s(a),
            SV::QD(a) => self.f64s(a),
            SV::DateTime(t) | SV::Timespan(t) => self.put(Kind::Value, &t.to_le_bytes()),
            SV::Guid(g) => self.put(Kind::Id, g),
            SV::Color(a) => self.f32s(a),
            SV::Point(x, y) => {
                self.put(Kind::Value, &x.to_le_bytes());
                self.put(Kind::Value, &y.to_le_bytes());
            }
            SV::Tags(l) => {
                self.u32(Kind::Count, l.len() as u32);
                for s in l {
                    self.string(s);
                }
            }
            SV::Custom(fields) => {
                for (n, p) in fields {
                    self.string(n);
                    self.path.push(n.clone());
                    self.prop_with_type(p);
                    self.path.pop();
                }
                self.string("None");
            }
        }
    }

    pub fn text(&mut self, t: &Text) {
        self.u32(Kind::Flags, t.flags);
        let tag = |h: &Hist| -> i8 {
            match h {
                Hist::Empty | Hist::Invariant(_) => -1,
                Hist::Base(..) => 0,
                Hist::Named(..) => 1,
                Hist::Ordered(..) => 2,
                Hist::ArgFmt(..) => 3,
                Hist::Number(..) => 4,
                Hist::Percent(..) => 5,
                Hist::Currency(..) => 6,
                Hist::Date(..) => 7,
                Hist::Time(..) => 8,
                Hist::DateTime(..) => 9,
                Hist::Transform(..) => 10,
                Hist::Table(..) => 11,
            }
        };
        self.put(Kind::EnumByte, &tag(&t.hist).to_le_bytes());
        match &t.hist {
            Hist::Empty => {
                if self.lay.culture_flag {
                    self.u32(Kind::Bool32, 0);
                }
            }
            Hist::Invariant(s) => {
                if self.lay.culture_flag {
                    self.u32(Kind::Bool32, 1);
                    self.opt_string(s);
                }
            }
            Hist::Base(a, b, c) => {
                self.opt_string(a);
                self.opt_string(b);
                self.opt_string(c);
            }
            Hist::Named(f, args) | Hist::ArgFmt(f, args) => {
                self.text(f);
                self.u32(Kind::Count, args.len() as u32);
                for (k, v) in args {
                    self.string(k);
                    self.arg(v);
                }
            }
            Hist::Ordered(f, args) => {
                self.text(f);
                self.u32(Kind::Count, args.len() as u32);
                for v in args {
                    self.arg(v);
                }
            }
            Hist::Number(v, f, c) | Hist::Percent(v, f, c) => {
                self.arg(v);
                self.numfmt(f);
                self.opt_string(c);
            }
            Hist::Currency(code, v, f, c) => {
                self.opt_string(code);
                self.arg(v);
                self.numfmt(f);
                self.opt_string(c);
            }
            Hist::Date(t, s, c) => {
                self.put(Kind::Value, &t.to_le_bytes());
                self.put(Kind::EnumByte, &[*s]);
                self.string(c);
            }
            Hist::Time(t, s, z, c) => {
                self.put(Kind::Value, &t.to_le_bytes());
                self.put(Kind::EnumByte, &[*s]);
                self.string(z);
                self.string(c);
            }
            Hist::DateTime(t, d, s, z, c) => {
                self.put(Kind::Value, &t.to_le_bytes());
                self.put(Kind::EnumByte, &[*d]);
                self.put(Kind::EnumByte, &[*s]);
                self.string(z);
                self.string(c);
            }
            Hist::Transform(t, k) => {
                self.text(t);
                self.put(Kind::EnumByte, &[*k]);
            }
            Hist::Table(t, k) => {
                self.string(t);
                self.string(k);
            }
        }
    }

    fn numfmt(&mut self, f: &Option<NumFmt>) {
        match f {
            None => self.u32(Kind::Bool32, 0),
            Some(f) => {
                self.u32(Kind::Bool32, 1);
                self.u32(Kind::Bool32, f.sign as u32);
                self.u32(Kind::Bool32, f.group as u32);
                self.put(Kind::EnumByte, &[f.round]);
                for d in f.digits {
                    self.put(Kind::Value, &d.to_le_bytes());
                }
            }
        }
    }

    fn arg(&mut self, a: &Arg) {
        match a {
            Arg::Int(v) => {
                self.put(Kind::EnumByte, &[0]);
                self.put(Kind::Value, &v.to_le_bytes());
            }
            Arg::Int64(v) => {
                self.put(Kind::EnumByte, &[0]);
                self.put(Kind::Value, &v.to_le_bytes());
            }
            Arg::UInt(v) => {
                self.put(Kind::EnumByte, &[1]);
                self.put(Kind::Value, &v.to_le_bytes());
            }
            Arg::UInt64(v) => {
                self.put(Kind::EnumByte, &[1]);
                self.put(Kind::Value, &v.to_le_bytes());
            }
            Arg::Float(v) => {
                self.put(Kind::EnumByte, &[2]);
                self.put(Kind::Value, &v.to_le_bytes());
            }
            Arg::Double(v) => {
                self.put(Kind::EnumByte, &[3]);
                self.put(Kind::Value, &v.to_le_bytes());
            }
            Arg::Text(t) => {
                self.put(Kind::EnumByte, &[4]);
                self.text(t);
            }
        }
    }

    /// The uncompressed save.
    pub fn file_plain(&mut self, f: &File) {
        self.header(&f.hdr);
        for (n, p) in &f.props {
            self.string(n);
            self.path.push(n.clone());
            self.prop_with_type(p);
            self.path.pop();
        }
        self.string("None");
        self.put(Kind::Padding, &[0; 4]);
    }
}

/// Hints that decode every untyped struct as written; none exist when one path
/// is used with two types.
pub fn hints_for(e: &Enc) -> Option<std::collections::HashMap<String, String>> {
    let mut m = std::collections::HashMap::new();
    for u in &e.untyped {
        if let Some(old) = m.insert(u.path.clone(), u.ty.to_string()) {
            if old != u.ty {
                return None;
            }
        }
    }
    Some(m)
}

/// The plain save in its container. The compressor is the one the container
/// format uses (zlib); its settings are not part of the format.
pub fn wrap(w: Wrap, plain: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let z = |b: &[u8]| {
        let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default());
        e.write_all(b).unwrap();
        e.finish().unwrap()
    };
    let (mode, inner, payload) = match w {
        Wrap::Plain => return plain.to_vec(),
        Wrap::PalNone => (0x30, plain.len(), plain.to_vec()),
        Wrap::PalZlib => {
            let c = z(plain);
            (0x31, c.len(), c)
        }
        Wrap::PalTwice => {
            let c = z(plain);
            (0x32, c.len(), z(&c))
        }
    };
    let mut out = Vec::new();
    out.extend_from_slice(&(plain.len() as u32).to_le_bytes());
    out.extend_from_slice(&(inner as u32).to_le_bytes());
    out.extend_from_slice(b"PlZ");
    out.push(mode);
    out.extend_from_slice(&payload);
    out
}

pub fn encode_file(f: &File) -> Enc {
    let mut e = Enc::new(Layout::of(&f.hdr.versions), false);
    e.file_plain(f);
    e
}

/// The save with changes whose consequences for sizes are accounted for.
pub fn encode_file_edited(f: &File, edits: Vec<Edit>) -> Vec<u8> {
    let mut e = Enc::new(Layout::of(&f.hdr.versions), false);
    e.edits = edits;
    e.file_plain(f);
    e.buf
}

pub fn encode_file_spans(f: &File) -> Enc {
    let mut e = Enc::new(Layout::of(&f.hdr.versions), true);
    e.file_plain(f);
    e
}
