//! Reference decoder: which byte strings are saves, and what they mean.
//! Written against the format, independent of the library under test.

use crate::model::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why {
    Eof,
    Header,
    Str,
    Utf,
    Size,
    Index,
    Separator,
    Bool,
    Enum,
    Count,
    NotAllowed,
    MissingHint(String, usize),
}

pub type R<T> = Result<T, Why>;

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub i: usize,
    pub hints: &'a HashMap<String, String>,
    pub path: Vec<String>,
    pub lay: Layout,
    /// Set when the input repeats a key; what a reader keeps is then not part
    /// of the format and is not compared.
    pub ambiguous: bool,
}

pub const STR_LIMIT: i32 = 131072;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8], hints: &'a HashMap<String, String>, lay: Layout) -> Dec<'a> {
        Dec {
            b,
            i: 0,
            hints,
            path: Vec::new(),
            lay,
            ambiguous: false,
        }
    }

    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.i < n {
            return Err(Why::Eof);
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn guid(&mut self) -> R<Guid16> {
        Ok(self.take(16)?.try_into().unwrap())
    }
    fn b32(&mut self) -> R<bool> {
        match self.u32()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Why::Bool),
        }
    }
    fn sep(&mut self) -> R<()> {
        if self.u8()? != 0 {
            return Err(Why::Separator);
        }
        Ok(())
    }
    fn enum8(&mut self, max: u8) -> R<u8> {
        let v = self.u8()?;
        if v > max {
            return Err(Why::Enum);
        }
        Ok(v)
    }

    pub fn opt_string(&mut self) -> R<Option<String>> {
        let len = self.u32()? as i32;
        if len > STR_LIMIT || len < -STR_LIMIT {
            return Err(Why::Str);
        }
        if len == 0 {
            return Ok(None);
        }
        if len > 0 {
            let body = self.take(len as usize - 1)?;
            if self.u8()? != 0 {
                return Err(Why::Str);
            }
            Ok(Some(
                std::str::from_utf8(body).map_err(|_| Why::Utf)?.to_string(),
            ))
        } else {
            let n = (-len) as usize - 1;
            let body = self.take(2 * n)?;
            if self.u16()? != 0 {
                return Err(Why::Str);
            }
            let unit = |k: usize| u16::from_le_bytes([body[2 * k], body[2 * k + 1]]) as u32;
            let mut s = String::new();
            let mut k = 0;
            while k < n {
                let u = unit(k);
                k += 1;
                let c = if (0xD800..0xDC00).contains(&u) {
                    if k >= n {
                        return Err(Why::Utf);
                    }
                    let l = unit(k);
                    if !(0xDC00..0xE000).contains(&l) {
                        return Err(Why::Utf);
                    }
                    k += 1;
                    0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00)
                } else if (0xDC00..0xE000).contains(&u) {
                    return Err(Why::Utf);
                } else {
                    u
                };
                s.push(char::from_u32(c).ok_or(Why::Utf)?);
            }
            Ok(Some(s))
        }
    }

    pub fn string(&mut self) -> R<String> {
        self.opt_string()?.ok_or(Why::Str)
    }

    pub fn header(&mut self) -> R<Header> {
        if self.take(4)? != b"GVAS" {
            return Err(Why::Header);
        }
        let sv = self.u32()?;
        if sv != 2 && sv != 3 {
            return Err(Why::Header);
        }
        let pkg = self.u32()?;
        if !(0x205..=0x20D).contains(&pkg) {
            return Err(Why::Header);
        }
        let ue5 = if sv == 3 {
            let v = self.u32()?;
            if !(1000..=1009).contains(&v) {
                return Err(Why::Header);
            }
            Some(v)
        } else {
            None
        };
        let major = self.u16()?;
        let minor = self.u16()?;
        let patch = self.u16()?;
        let change = self.u32()?;
        let branch = self.string()?;
        if self.u32()? != 3 {
            return Err(Why::Header);
        }
        let n = self.u32()?;
        let mut versions: Vec<(Guid16, u32)> = Vec::new();
        let mut seen = HashSet::new();
        for _ in 0..n {
            let g = self.guid()?;
            let v = self.u32()?;
            if !seen.insert(g) {
                self.ambiguous = true;
            }
            versions.push((g, v));
        }
        let class = self.string()?;
        Ok(Header {
            pkg,
            ue5,
            major,
            minor,
            patch,
            change,
            branch,
            versions,
            class,
        })
    }

    fn numeric(&mut self, n: u64) -> R<()> {
        if self.u64()? != n {
            return Err(Why::Size);
        }
        self.sep()
    }

    fn strict_index(&mut self) -> R<()> {
        if self.u32()? != 0 {
            return Err(Why::Index);
        }
        Ok(())
    }

    pub fn prop(&mut self, ty: &str) -> R<P> {
        self.path.push(ty.to_string());
        let p = self.prop_inner(ty)?;
        self.path.pop();
        Ok(p)
    }

    fn prop_inner(&mut self, ty: &str) -> R<P> {
        match ty {
            "Int8Property" => self.numeric(1)?,
            "Int16Property" | "UInt16Property" => self.numeric(2)?,
            "IntProperty" | "UInt32Property" | "FloatProperty" => self.numeric(4)?,
            "Int64Property" | "UInt64Property" | "DoubleProperty" => self.numeric(8)?,
            "BoolProperty" => {
                if self.u64()? != 0 {
                    return Err(Why::Size);
                }
                let v = self.bool8()?;
                self.sep()?;
                return Ok(P::Bool(v));
            }
            _ => {
                let len = self.u32()?;
                let mut index = 0;
                if ty == "NameProperty" {
                    index = self.u32()?;
                } else {
                    self.strict_index()?;
                }
                let mut h1 = None;
                let mut h2 = None;
                let mut id = [0u8; 16];
                match ty {
                    "ByteProperty" | "EnumProperty" | "ArrayProperty" | "SetProperty" => {
                        h1 = Some(self.string()?)
                    }
                    "MapProperty" => {
                        h1 = Some(self.string()?);
                        h2 = Some(self.string()?);
                    }
                    "StructProperty" => {
                        h1 = Some(self.string()?);
                        id = self.guid()?;
                    }
                    _ => {}
                }
                self.sep()?;
                let start = self.i;
                let p = match ty {
                    "ByteProperty" => P::Byte(h1, self.byte(Some(len))?),
                    "EnumProperty" => P::Enum(h1, self.string()?),
                    "NameProperty" => P::Name(index, self.opt_string()?),
                    "StructProperty" => {
                        let t = h1.unwrap();
                        let v = self.sv(&t)?;
                        P::Struct(t, id, v)
                    }
                    "ArrayProperty" => self.array(h1.unwrap(), len)?,
                    "SetProperty" => self.set(h1.unwrap(), len)?,
                    "MapProperty" => self.map(h1.unwrap(), h2.unwrap())?,
                    "StrProperty"
                    | "TextProperty"
                    | "ObjectProperty"
                    | "DelegateProperty"
                    | "MulticastInlineDelegateProperty"
                    | "MulticastSparseDelegateProperty"
                    | "FieldPathProperty" => self.simple(ty)?.unwrap(),
                    _ => P::Unknown(ty.to_string(), self.take(len as usize)?.to_vec()),
                };
                if (self.i - start) as u64 != len as u64 {
                    return Err(Why::Size);
                }
                return Ok(p);
            }
        }
        Ok(self.simple(ty)?.unwrap())
    }

    fn bool8(&mut self) -> R<bool> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Why::Bool),
        }
    }

    fn byte(&mut self, len: Option<u32>) -> R<ByteVal> {
        match len {
            None | Some(0..=2) => Ok(ByteVal::Plain(self.u8()?)),
            Some(_) => Ok(ByteVal::Label(self.string()?)),
        }
    }

    fn pairs(&mut self) -> R<Vec<(String, String)>> {
        let n = self.u32()?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push((self.string()?, self.string()?));
        }
        Ok(v)
    }

    /// Types whose value layout is the same with and without a header.
    fn simple(&mut self, ty: &str) -> R<Option<P>> {
        Ok(Some(match ty {
            "Int8Property" => P::I8(self.u8()? as i8),
            "Int16Property" => P::I16(self.u16()? as i16),
            "UInt16Property" => P::U16(self.u16()?),
            "IntProperty" => P::I32(self.u32()? as i32),
            "UInt32Property" => P::U32(self.u32()?),
            "Int64Property" => P::I64(self.u64()? as i64),
            "UInt64Property" => P::U64(self.u64()?),
            "FloatProperty" => P::F32(self.u32()?),
            "DoubleProperty" => P::F64(self.u64()?),
            "StrProperty" => P::Str(self.opt_string()?),
            "TextProperty" => P::Text(self.text()?),
            "ObjectProperty" => P::Object(self.string()?),
            "DelegateProperty" => P::Delegate(self.string()?, self.string()?),
            "MulticastInlineDelegateProperty" => P::MInline(self.pairs()?),
            "MulticastSparseDelegateProperty" => P::MSparse(self.pairs()?),
            "FieldPathProperty" => {
                let n = self.u32()?;
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.string()?);
                }
                P::FieldPath(v, self.string()?)
            }
            _ => return Ok(None),
        }))
    }

    /// Container element of a declared type; `share` is the average number of
    /// bytes per element when the container knows it.
    pub fn element(&mut self, ty: &str, share: Option<u32>) -> R<P> {
        self.path.push(ty.to_string());
        let p = match ty {
            "BoolProperty" => P::Bool(self.bool8()?),
            "ByteProperty" => P::Byte(None, self.byte(share)?),
            "EnumProperty" => P::Enum(None, self.string()?),
            "NameProperty" => P::Name(0, self.opt_string()?),
            "StructProperty" => {
                let path = self.path.join(".");
                match self.hints.get(&path) {
                    None => return Err(Why::MissingHint(path, self.i)),
                    Some(t) => P::Body(self.sv(t)?),
                }
            }
            "ArrayProperty" | "SetProperty" | "MapProperty" => return Err(Why::NotAllowed),
            _ => match self.simple(ty)? {
                Some(p) => p,
                None => match share {
                    Some(n) if n > 0 => P::Unknown(ty.to_string(), self.take(n as usize)?.to_vec()),
                    _ => return Err(Why::NotAllowed),
                },
            },
        };
        self.path.pop();
        Ok(p)
    }

    fn array(&mut self, ty: String, len: u32) -> R<P> {
        let n = self.u32()?;
        let mut el = Vec::new();
        let mut info = None;
        if ty == "StructProperty" {
            let field = self.string()?;
            if self.string()? != "StructProperty" {
                return Err(Why::NotAllowed);
            }
            let size = self.u64()?;
            let st = self.string()?;
            let id = self.guid()?;
            self.sep()?;
            let start = self.i;
            for _ in 0..n {
                el.push(P::Body(self.sv(&st)?));
            }
            if (self.i - start) as u64 != size {
                return Err(Why::Size);
            }
            info = Some((field, st, id));
        } else {
            let share = if n > 0 && len >= 4 {
                Some((len - 4) / n)
            } else {
                None
            };
            for _ in 0..n {
                el.push(self.element(&ty, share)?);
            }
        }
        Ok(P::Array(Arr { ty, info, el }))
    }

    fn set(&mut self, ty: String, len: u32) -> R<P> {
        let flags = self.u32()?;
        let n = self.u32()?;
        let mut el = Vec::new();
        if n > 0 {
            if len < 8 {
                return Err(Why::Size);
            }
            for _ in 0..n {
                el.push(self.element(&ty, Some((len - 8) / n))?);
            }
        }
        Ok(P::Set(ty, flags, el))
    }

    fn map(&mut self, kt: String, vt: String) -> R<P> {
        let flags = self.u32()?;
        let n = self.u32()?;
        let mut ent: Vec<(P, P)> = Vec::new();
        let mut keys = HashSet::new();
        for _ in 0..n {
            self.path.push("Key".into());
            let k = self.element(&kt, None)?;
            self.path.pop();
            self.path.push("Value".into());
            let v = self.element(&vt, None)?;
            self.path.pop();
            if !keys.insert(canon(&k)) {
                self.ambiguous = true;
            }
            ent.push((k, v));
        }
        Ok(P::Map(kt, vt, flags, ent))
    }

    fn f32n<const N: usize>(&mut self) -> R<[u32; N]> {
        let mut a = [0; N];
        for x in &mut a {
            *x = self.u32()?;
        }
        Ok(a)
    }
    fn f64n<const N: usize>(&mut self) -> R<[u64; N]> {
        let mut a = [0; N];
        for x in &mut a {
            *x = self.u64()?;
        }
        Ok(a)
    }

    pub fn sv(&mut self, ty: &str) -> R<SV> {
        let w = self.lay.wide_coords;
        Ok(match ty {
            "Vector" if w => SV::VD(self.f64n()?),
            "Vector" => SV::VF(self.f32n()?),
            "Vector2D" if w => SV::V2D(self.f64n()?),
            "Vector2D" => SV::V2F(self.f32n()?),
            "Rotator" if w => SV::RD(self.f64n()?),
            "Rotator" => SV::RF(self.f32n()?),
            "Quat" if w => SV::QD(self.f64n()?),
            "Quat" => SV::QF(self.f32n()?),
            "DateTime" => SV::DateTime(self.u64()?),
            "Timespan" => SV::Timespan(self.u64()?),
            "LinearColor" => SV::Color(self.f32n()?),
            "IntPoint" => SV::Point(self.u32()? as i32, self.u32()? as i32),
            "Guid" => SV::Guid(self.guid()?),
            "GameplayTagContainer" => {
                let n = self.u32()? as i32;
                if n < 0 {
                    return Err(Why::Count);
                }
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.string()?);
                }
                SV::Tags(v)
            }
            _ => {
                let mut v: Vec<(String, P)> = Vec::new();
                let mut seen = HashSet::new();
                loop {
                    let name = self.string()?;
                    if name == "None" {
                        break;
                    }
                    let ty = self.string()?;
                    self.path.push(name.clone());
                    let p = self.prop(&ty)?;
                    self.path.pop();
                    if !seen.insert(name.clone()) && v.last().unwrap().0 != name {
                        // A name that comes back after another one.
                        self.ambiguous = true;
                    }
                    v.push((name, p));
                }
                SV::Custom(v)
            }
        })
    }

    fn count_i32(&mut self) -> R<i32> {
        let n = self.u32()? as i32;
        if n < 0 {
            return Err(Why::Count);
        }
        Ok(n)
    }

    pub fn text(&mut self) -> R<Text> {
        let flags = self.u32()?;
        let tag = self.u8()? as i8;
        let hist = match tag {
            -1 => {
                if self.lay.culture_flag && self.b32()? {
                    Hist::Invariant(self.opt_string()?)
                } else {
                    Hist::Empty
                }
            }
            0 => Hist::Base(self.opt_string()?, self.opt_string()?, self.opt_string()?),
            1 | 3 => {
                let f = Box::new(self.text()?);
                let n = self.count_i32()?;
                let mut v: Vec<(String, Arg)> = Vec::new();
                let mut seen = HashSet::new();
                for _ in 0..n {
                    let k = self.string()?;
                    let a = self.arg()?;
                    if !seen.insert(k.clone()) {
                        self.ambiguous = true;
                    }
                    v.push((k, a));
                }
                if tag == 1 {
                    Hist::Named(f, v)
                } else {
                    Hist::ArgFmt(f, v)
                }
            }
            2 => {
                let f = Box::new(self.text()?);
                let n = self.count_i32()?;
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.arg()?);
                }
                Hist::Ordered(f, v)
            }
            4 => Hist::Number(Box::new(self.arg()?), self.numfmt()?, self.opt_string()?),
            5 => Hist::Percent(Box::new(self.arg()?), self.numfmt()?, self.opt_string()?),
            6 => Hist::Currency(
                self.opt_string()?,
                Box::new(self.arg()?),
                self.numfmt()?,
                self.opt_string()?,
            ),
            7 => Hist::Date(self.u64()?, self.enum8(4)?, self.string()?),
            8 => Hist::Time(self.u64()?, self.enum8(4)?, self.string()?, self.string()?),
            9 => Hist::DateTime(
                self.u64()?,
                self.enum8(4)?,
                self.enum8(4)?,
                self.string()?,
                self.string()?,
            ),
            10 => Hist::Transform(Box::new(self.text()?), self.enum8(1)?),
            11 => Hist::Table(self.string()?, self.string()?),
            _ => return Err(Why::Enum),
        };
        Ok(Text { flags, hist })
    }

    fn numfmt(&mut self) -> R<Option<NumFmt>> {
        if !self.b32()? {
            return Ok(None);
        }
        Ok(Some(NumFmt {
            sign: self.b32()?,
            group: self.b32()?,
            round: self.enum8(6)?,
            digits: [
                self.u32()? as i32,
                self.u32()? as i32,
                self.u32()? as i32,
                self.u32()? as i32,
            ],
        }))
    }

    fn arg(&mut self) -> R<Arg> {
        let w = self.lay.wide_args;
        Ok(match self.enum8(4)? {
            0 if w => Arg::Int64(self.u64()? as i64),
            0 => Arg::Int(self.u32()? as i32),
            1 if w => Arg::UInt64(self.u64()?),
            1 => Arg::UInt(self.u32()?),
            2 => Arg::Float(self.u32()?),
            3 => Arg::Double(self.u64()?),
            _ => Arg::Text(self.text()?),
        })
    }

    /// Uncompressed save; stops after the end marker.
    pub fn file(&mut self) -> R<File> {
        let hdr = self.header()?;
        self.lay = Layout::of(&hdr.versions);
        let mut props: Vec<(String, P)> = Vec::new();
        let mut seen = HashSet::new();
        loop {
            let name = self.string()?;
            if name == "None" {
                break;
            }
            let ty = self.string()?;
            self.path.push(name.clone());
            let p = self.prop(&ty)?;
            self.path.pop();
            if !seen.insert(name.clone()) {
                self.ambiguous = true;
            }
            props.push((name, p));
        }
        Ok(File {
            wrap: Wrap::Plain,
            hdr,
            props,
        })
    }
}

fn canon32(v: u32) -> u32 {
    let f = f32::from_bits(v);
    if f.is_nan() {
        0x7FC0_0000
    } else if f == 0.0 {
        0
    } else {
        v
    }
}
fn canon64(v: u64) -> u64 {
    let f = f64::from_bits(v);
    if f.is_nan() {
        0x7FF8_0000_0000_0000
    } else if f == 0.0 {
        0
    } else {
        v
    }
}

/// Replaces every representation detail that value equality ignores: sign of
/// zero, not-a-number payload, order of named entries.
pub fn canon(p: &P) -> P {
    match p {
        P::F32(v) => P::F32(canon32(*v)),
        P::F64(v) => P::F64(canon64(*v)),
        P::Text(t) => P::Text(canon_text(t)),
        P::Struct(t, g, v) => P::Struct(t.clone(), *g, canon_sv(v)),
        P::Body(v) => P::Body(canon_sv(v)),
        P::Array(a) => P::Array(Arr {
            ty: a.ty.clone(),
            info: a.info.clone(),
            el: a.el.iter().map(canon).collect(),
        }),
        P::Set(t, f, el) => P::Set(t.clone(), *f, el.iter().map(canon).collect()),
        P::Map(k, v, f, ent) => {
            let mut e: Vec<(P, P)> = ent.iter().map(|(a, b)| (canon(a), canon(b))).collect();
            e.sort_by_cached_key(|x| format!("{x:?}"));
            P::Map(k.clone(), v.clone(), *f, e)
        }
        _ => p.clone(),
    }
}

pub fn canon_sv(v: &SV) -> SV {
    match v {
        SV::V2F(a) => SV::V2F(a.map(canon32)),
        SV::V2D(a) => SV::V2D(a.map(canon64)),
        SV::VF(a) => SV::VF(a.map(canon32)),
        SV::VD(a) => SV::VD(a.map(canon64)),
        SV::RF(a) => SV::RF(a.map(canon32)),
        SV::RD(a) => SV::RD(a.map(canon64)),
        SV::QF(a) => SV::QF(a.map(canon32)),
        SV::QD(a) => SV::QD(a.map(canon64)),
        SV::Color(a) => SV::Color(a.map(canon32)),
        SV::Custom(f) => {
            let mut e: Vec<(String, P)> = f.iter().map(|(n, p)| (n.clone(), canon(p))).collect();
            // Stable: repeats of one name keep their order.
            e.sort_by(|a, b| a.0.cmp(&b.0));
            SV::Custom(e)
        }
        _ => v.clone(),
    }
}

fn canon_arg(a: &Arg) -> Arg {
    match a {
        Arg::Float(v) => Arg::Float(canon32(*v)),
        Arg::Double(v) => Arg::Double(canon64(*v)),
        Arg::Text(t) => Arg::Text(canon_text(t)),
        _ => a.clone(),
    }
}

pub fn canon_text(t: &Text) -> Text {
    let args = |l: &[(String, Arg)]| {
        let mut e: Vec<(String, Arg)> = l.iter().map(|(n, p)| (n.clone(), canon_arg(p))).collect();
        e.sort_by(|a, b| a.0.cmp(&b.0));
        e
    };
    let hist = match &t.hist {
        Hist::Named(f, a) => Hist::Named(Box::new(canon_text(f)), args(a)),
        Hist::ArgFmt(f, a) => Hist::ArgFmt(Box::new(canon_text(f)), args(a)),
        Hist::Ordered(f, a) => {
            Hist::Ordered(Box::new(canon_text(f)), a.iter().map(canon_arg).collect())
        }
        Hist::Number(v, f, c) => Hist::Number(Box::new(canon_arg(v)), f.clone(), c.clone()),
        Hist::Percent(v, f, c) => Hist::Percent(Box::new(canon_arg(v)), f.clone(), c.clone()),
        Hist::Currency(k, v, f, c) => {
            Hist::Currency(k.clone(), Box::new(canon_arg(v)), f.clone(), c.clone())
        }
        Hist::Transform(x, k) => Hist::Transform(Box::new(canon_text(x)), *k),
        h => h.clone(),
    };
    Text {
        flags: t.flags,
        hist,
    }
}

/// True when no name or key is repeated within one list (indexed repeats of a
/// name in a struct, kept together, are fine).
pub fn well_formed(p: &P) -> bool {
    match p {
        P::Struct(_, _, v) | P::Body(v) => wf_sv(v),
        P::Array(a) => a.el.iter().all(well_formed),
        P::Set(_, _, el) => el.iter().all(well_formed),
        P::Map(_, _, _, ent) => {
            let mut keys = HashSet::new();
            ent.iter()
                .all(|(k, v)| well_formed(k) && well_formed(v) && keys.insert(canon(k)))
        }
        P::Text(t) => wf_text(t),
        _ => true,
    }
}

fn wf_sv(v: &SV) -> bool {
    match v {
        SV::Custom(f) => {
            let mut seen = HashSet::new();
            f.iter().enumerate().all(|(i, (n, p))| {
                n != "None" && well_formed(p) && (seen.insert(n) || f[i - 1].0 == *n)
            })
        }
        _ => true,
    }
}

fn wf_args(a: &[(String, Arg)]) -> bool {
    let mut seen = HashSet::new();
    a.iter().all(|(n, v)| seen.insert(n) && wf_arg(v))
}

fn wf_arg(a: &Arg) -> bool {
    match a {
        Arg::Text(t) => wf_text(t),
        _ => true,
    }
}

pub fn wf_text(t: &Text) -> bool {
    match &t.hist {
        Hist::Named(f, a) | Hist::ArgFmt(f, a) => wf_text(f) && wf_args(a),
        Hist::Ordered(f, a) => wf_text(f) && a.iter().all(wf_arg),
        Hist::Number(v, ..) | Hist::Percent(v, ..) => wf_arg(v),
        Hist::Currency(_, v, ..) => wf_arg(v),
        Hist::Transform(x, _) => wf_text(x),
        _ => true,
    }
}

pub fn file_well_formed(f: &File) -> bool {
    let mut names = HashSet::new();
    let mut keys = HashSet::new();
    f.props
        .iter()
        .all(|(n, p)| n != "None" && names.insert(n) && well_formed(p))
        && f.hdr.versions.iter().all(|(k, _)| keys.insert(k))
}
