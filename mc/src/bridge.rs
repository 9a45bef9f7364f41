//! Between the model and the library: builds library values from model values
//! and compares library values with model values, bit by bit.

use crate::model::*;
use gvas::engine_version::FEngineVersion;
use gvas::game_version::{DeserializedGameVersion, GameVersion, PalworldCompressionType};
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::delegate_property::*;
use gvas::properties::enum_property::EnumProperty;
use gvas::properties::field_path_property::{FieldPath, FieldPathProperty};
use gvas::properties::int_property::*;
use gvas::properties::map_property::MapProperty;
use gvas::properties::name_property::NameProperty;
use gvas::properties::object_property::ObjectProperty;
use gvas::properties::set_property::SetProperty;
use gvas::properties::str_property::StrProperty;
use gvas::properties::struct_property::{StructProperty, StructPropertyValue};
use gvas::properties::struct_types::*;
use gvas::properties::text_property::*;
use gvas::properties::unknown_property::UnknownProperty;
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::map::HashableIndexMap;
use gvas::types::Guid;
use gvas::{GvasFile, GvasHeader};
use indexmap::IndexMap;
use ordered_float::OrderedFloat;
use std::collections::HashMap;

pub type Hints = HashMap<String, String>;

fn f(v: u32) -> OrderedFloat<f32> {
    OrderedFloat(f32::from_bits(v))
}
fn d(v: u64) -> OrderedFloat<f64> {
    OrderedFloat(f64::from_bits(v))
}

/// Which in-memory form containers are built in.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    /// The form the reader produces.
    Compact,
    /// The generic form with one property per element.
    Generic,
    /// Made with the constructors and conversions of the public types.
    Made,
}

pub fn numfmt(n: &NumFmt) -> NumberFormattingOptions {
    NumberFormattingOptions {
        always_include_sign: n.sign,
        use_grouping: n.group,
        rounding_mode: match n.round {
            0 => RoundingMode::HalfToEven,
            1 => RoundingMode::HalfFromZero,
            2 => RoundingMode::HalfToZero,
            3 => RoundingMode::FromZero,
            4 => RoundingMode::ToZero,
            5 => RoundingMode::ToNegativeInfinity,
            _ => RoundingMode::ToPositiveInfinity,
        },
        minimum_integral_digits: n.digits[0],
        maximum_integral_digits: n.digits[1],
        minimum_fractional_digits: n.digits[2],
        maximum_fractional_digits: n.digits[3],
    }
}

fn style(v: u8) -> DateTimeStyle {
    match v {
        0 => DateTimeStyle::Default,
        1 => DateTimeStyle::Short,
        2 => DateTimeStyle::Medium,
        3 => DateTimeStyle::Long,
        _ => DateTimeStyle::Full,
    }
}

pub fn arg(a: &Arg) -> FormatArgumentValue {
    match a {
        Arg::Int(v) => FormatArgumentValue::Int(*v),
        Arg::UInt(v) => FormatArgumentValue::UInt(*v),
        Arg::Int64(v) => FormatArgumentValue::Int64(*v),
        Arg::UInt64(v) => FormatArgumentValue::UInt64(*v),
        Arg::Float(v) => FormatArgumentValue::Float(f(*v)),
        Arg::Double(v) => FormatArgumentValue::Double(d(*v)),
        Arg::Text(t) => FormatArgumentValue::Text(text(t)),
    }
}

fn named_args(a: &[(String, Arg)]) -> HashableIndexMap<String, FormatArgumentValue> {
    HashableIndexMap(a.iter().map(|(k, v)| (k.clone(), arg(v))).collect())
}

pub fn text(t: &Text) -> FText {
    let history = match &t.hist {
        Hist::Empty => FTextHistory::Empty {},
        Hist::Invariant(s) => FTextHistory::None {
            culture_invariant_string: s.clone(),
        },
        Hist::Base(a, b, c) => FTextHistory::Base {
            namespace: a.clone(),
            key: b.clone(),
            source_string: c.clone(),
        },
        Hist::Named(s, a) => FTextHistory::NamedFormat {
            source_format: Box::new(text(s)),
            arguments: named_args(a),
        },
        Hist::Ordered(s, a) => FTextHistory::OrderedFormat {
            source_format: Box::new(text(s)),
            arguments: a.iter().map(arg).collect(),
        },
        Hist::ArgFmt(s, a) => FTextHistory::ArgumentFormat {
            source_format: Box::new(text(s)),
            arguments: named_args(a),
        },
        Hist::Number(v, n, c) => FTextHistory::AsNumber {
            source_value: Box::new(arg(v)),
            format_options: n.as_ref().map(numfmt),
            target_culture: c.clone(),
        },
        Hist::Percent(v, n, c) => FTextHistory::AsPercent {
            source_value: Box::new(arg(v)),
            format_options: n.as_ref().map(numfmt),
            target_culture: c.clone(),
        },
        Hist::Currency(k, v, n, c) => FTextHistory::AsCurrency {
            currency_code: k.clone(),
            source_value: Box::new(arg(v)),
            format_options: n.as_ref().map(numfmt),
            target_culture: c.clone(),
        },
        Hist::Date(t, s, c) => FTextHistory::AsDate {
            date_time: DateTime { ticks: *t },
            date_style: style(*s),
            target_culture: c.clone(),
        },
        Hist::Time(t, s, z, c) => FTextHistory::AsTime {
            source_date_time: DateTime { ticks: *t },
            time_style: style(*s),
            time_zone: z.clone(),
            target_culture: c.clone(),
        },
        Hist::DateTime(t, ds, ts, z, c) => FTextHistory::AsDateTime {
            source_date_time: DateTime { ticks: *t },
            date_style: style(*ds),
            time_style: style(*ts),
            time_zone: z.clone(),
            target_culture: c.clone(),
        },
        Hist::Transform(s, k) => FTextHistory::Transform {
            source_text: Box::new(text(s)),
            transform_type: if *k == 0 {
                TransformType::ToLower
            } else {
                TransformType::ToUpper
            },
        },
        Hist::Table(t, k) => FTextHistory::StringTableEntry {
            table_id: t.clone(),
            key: k.clone(),
        },
    };
    FText {
        flags: t.flags,
        history,
    }
}

pub fn sv(v: &SV, form: Form) -> StructPropertyValue {
    use StructPropertyValue as S;
    match v {
        SV::V2F(a) => S::Vector2F(Vector2F {
            x: f(a[0]),
            y: f(a[1]),
        }),
        SV::V2D(a) => S::Vector2D(Vector2D {
            x: d(a[0]),
            y: d(a[1]),
        }),
        SV::VF(a) => S::VectorF(VectorF {
            x: f(a[0]),
            y: f(a[1]),
            z: f(a[2]),
        }),
        SV::VD(a) => S::VectorD(VectorD {
            x: d(a[0]),
            y: d(a[1]),
            z: d(a[2]),
        }),
        SV::RF(a) => S::RotatorF(RotatorF {
            pitch: f(a[0]),
            yaw: f(a[1]),
            roll: f(a[2]),
        }),
        SV::RD(a) => S::RotatorD(RotatorD {
            pitch: d(a[0]),
            yaw: d(a[1]),
            roll: d(a[2]),
        }),
        SV::QF(a) => S::QuatF(QuatF {
            x: f(a[0]),
            y: f(a[1]),
            z: f(a[2]),
            w: f(a[3]),
        }),
        SV::QD(a) => S::QuatD(QuatD {
            x: d(a[0]),
            y: d(a[1]),
            z: d(a[2]),
            w: d(a[3]),
        }),
        SV::DateTime(t) => S::DateTime(DateTime { ticks: *t }),
        SV::Timespan(t) => S::Timespan(Timespan { ticks: *t }),
        SV::Guid(g) => S::Guid(Guid(*g)),
        SV::Color(a) => S::LinearColor(LinearColor {
            r: f(a[0]),
            g: f(a[1]),
            b: f(a[2]),
            a: f(a[3]),
        }),
        SV::Point(x, y) => S::IntPoint(IntPoint { x: *x, y: *y }),
        SV::Tags(l) => S::GameplayTagContainer(l.clone()),
        SV::Custom(fields) => {
            let mut m: IndexMap<String, Vec<Property>> = IndexMap::new();
            for (n, p) in fields {
                m.entry(n.clone()).or_default().push(prop(p, form));
            }
            S::CustomStruct(HashableIndexMap(m))
        }
    }
}

fn deleg(l: &[(String, String)]) -> MulticastScriptDelegate {
    MulticastScriptDelegate {
        delegates: l
            .iter()
            .map(|(o, n)| Delegate {
                object: o.clone(),
                function_name: n.clone(),
            })
            .collect(),
    }
}

fn made_text(t: &Text) -> FText {
    match &t.hist {
        Hist::Empty => FText::new_none(t.flags, None),
        Hist::Invariant(s) => FText::new_none(t.flags, Some(s.clone())),
        Hist::Base(a, b, c) => FText::new_base(t.flags, a.clone(), b.clone(), c.clone()),
        _ => text(t),
    }
}

fn made_sv(v: &SV) -> StructPropertyValue {
    let f = |v: u32| f32::from_bits(v);
    let d = |v: u64| f64::from_bits(v);
    match v {
        SV::V2F([x, y]) => Vector2F::new(f(*x), f(*y)).into(),
        SV::V2D([x, y]) => Vector2D::new(d(*x), d(*y)).into(),
        SV::VF([x, y, z]) => VectorF::new(f(*x), f(*y), f(*z)).into(),
        SV::VD([x, y, z]) => VectorD::new(d(*x), d(*y), d(*z)).into(),
        SV::RF([x, y, z]) => RotatorF::new(f(*x), f(*y), f(*z)).into(),
        SV::RD([x, y, z]) => RotatorD::new(d(*x), d(*y), d(*z)).into(),
        SV::QF([x, y, z, w]) => QuatF::new(f(*x), f(*y), f(*z), f(*w)).into(),
        SV::QD([x, y, z, w]) => QuatD::new(d(*x), d(*y), d(*z), d(*w)).into(),
        SV::DateTime(t) => DateTime::new(*t).into(),
        SV::Timespan(t) => Timespan::new(*t).into(),
        SV::Guid(g) => Guid::from_u8(*g).into(),
        SV::Color([r, g, b, a]) => LinearColor::new(f(*r), f(*g), f(*b), f(*a)).into(),
        SV::Point(x, y) => IntPoint::new(*x, *y).into(),
        SV::Tags(l) => StructPropertyValue::GameplayTagContainer(l.clone()),
        SV::Custom(fields) => {
            let mut m: HashableIndexMap<String, Vec<Property>> = HashableIndexMap::new();
            for (n, p) in fields {
                m.entry(n.clone()).or_default().push(made(p));
            }
            StructPropertyValue::CustomStruct(m)
        }
    }
}

fn made_deleg(l: &[(String, String)]) -> MulticastScriptDelegate {
    MulticastScriptDelegate::new(
        l.iter()
            .map(|(o, n)| Delegate::new(o.clone(), n.clone()))
            .collect(),
    )
}

fn made(p: &P) -> Property {
    match p {
        P::I8(v) => Int8Property::new(*v).into(),
        P::Byte(n, ByteVal::Plain(b)) => ByteProperty::new_byte(n.clone(), *b).into(),
        P::Byte(n, ByteVal::Label(s)) => ByteProperty::new_namespaced(n.clone(), s.clone()).into(),
        P::I16(v) => Int16Property::new(*v).into(),
        P::U16(v) => UInt16Property::new(*v).into(),
        P::I32(v) => IntProperty::new(*v).into(),
        P::U32(v) => UInt32Property::new(*v).into(),
        P::I64(v) => Int64Property::new(*v).into(),
        P::U64(v) => UInt64Property::new(*v).into(),
        P::F32(v) => FloatProperty::new(f32::from_bits(*v)).into(),
        P::F64(v) => DoubleProperty::new(f64::from_bits(*v)).into(),
        P::Bool(v) => BoolProperty::new(*v).into(),
        P::Enum(t, v) => EnumProperty::new(t.clone(), v.clone()).into(),
        P::Str(Some(v)) if v.len() % 2 == 0 => StrProperty::from(v.as_str()).into(),
        P::Str(Some(v)) => StrProperty::from(v.clone()).into(),
        P::Str(v) => StrProperty::new(v.clone()).into(),
        P::Text(t) => TextProperty::new(made_text(t)).into(),
        P::Name(0, Some(v)) if v.len() % 2 == 0 => NameProperty::from(v.as_str()).into(),
        P::Name(0, Some(v)) => NameProperty::from(v.clone()).into(),
        P::Name(i, v) => {
            let mut n = NameProperty::from(v.clone());
            n.array_index = *i;
            n.into()
        }
        P::Object(v) if v.len() % 2 == 0 => ObjectProperty::from(v.as_str()).into(),
        P::Object(v) => ObjectProperty::new(v.clone()).into(),
        P::Delegate(o, n) => DelegateProperty::new(Delegate::new(o.clone(), n.clone())).into(),
        P::MInline(l) => MulticastInlineDelegateProperty::new(made_deleg(l)).into(),
        P::MSparse(l) => MulticastSparseDelegateProperty::new(made_deleg(l)).into(),
        P::FieldPath(l, o) => FieldPathProperty::new(FieldPath::new(l.clone(), o.clone())).into(),
        P::Struct(t, g, v) => StructProperty::new(Guid::from_u8(*g), t.clone(), made_sv(v)).into(),
        P::Body(v) => made_sv(v).into(),
        P::Array(a) => {
            let info = a
                .info
                .as_ref()
                .map(|(f, t, g)| (f.clone(), t.clone(), Guid::from_u8(*g)));
            ArrayProperty::new(a.ty.clone(), info, a.el.iter().map(made).collect())
                .expect("valid array")
                .into()
        }
        P::Set(t, fl, el) => SetProperty::new(t.clone(), *fl, el.iter().map(made).collect()).into(),
        P::Map(k, v, fl, ent) => {
            let mut m = HashableIndexMap::with_capacity(ent.len());
            for (k, v) in ent {
                m.insert(made(k), made(v));
            }
            MapProperty::new(k.clone(), v.clone(), *fl, m).into()
        }
        P::Unknown(n, raw) => UnknownProperty::new(n.clone(), raw.clone()).into(),
    }
}

pub fn prop(p: &P, form: Form) -> Property {
    if form == Form::Made {
        return made(p);
    }
    match p {
        P::I8(v) => Property::Int8Property(Int8Property { value: *v }),
        P::Byte(n, v) => Property::ByteProperty(ByteProperty {
            name: n.clone(),
            value: match v {
                ByteVal::Plain(b) => BytePropertyValue::Byte(*b),
                ByteVal::Label(s) => BytePropertyValue::Namespaced(s.clone()),
            },
        }),
        P::I16(v) => Property::Int16Property(Int16Property { value: *v }),
        P::U16(v) => Property::UInt16Property(UInt16Property { value: *v }),
        P::I32(v) => Property::IntProperty(IntProperty { value: *v }),
        P::U32(v) => Property::UInt32Property(UInt32Property { value: *v }),
        P::I64(v) => Property::Int64Property(Int64Property { value: *v }),
        P::U64(v) => Property::UInt64Property(UInt64Property { value: *v }),
        P::F32(v) => Property::FloatProperty(FloatProperty { value: f(*v) }),
        P::F64(v) => Property::DoubleProperty(DoubleProperty { value: d(*v) }),
        P::Bool(v) => Property::BoolProperty(BoolProperty { value: *v }),
        P::Enum(t, v) => Property::EnumProperty(EnumProperty {
            enum_type: t.clone(),
            value: v.clone(),
        }),
        P::Str(v) => Property::StrProperty(StrProperty { value: v.clone() }),
        P::Text(t) => Property::TextProperty(TextProperty { value: text(t) }),
        P::Name(i, v) => Property::NameProperty(NameProperty {
            array_index: *i,
            value: v.clone(),
        }),
        P::Object(v) => Property::ObjectProperty(ObjectProperty { value: v.clone() }),
        P::Delegate(o, n) => Property::DelegateProperty(DelegateProperty {
            value: Delegate {
                object: o.clone(),
                function_name: n.clone(),
            },
        }),
        P::MInline(l) => {
            Property::MulticastInlineDelegateProperty(MulticastInlineDelegateProperty {
                value: deleg(l),
            })
        }
        P::MSparse(l) => {
            Property::MulticastSparseDelegateProperty(MulticastSparseDelegateProperty {
                value: deleg(l),
            })
        }
        P::FieldPath(l, o) => Property::FieldPathProperty(FieldPathProperty {
            value: FieldPath {
                path: l.clone(),
                resolved_owner: o.clone(),
            },
        }),
        P::Struct(t, g, v) => Property::StructProperty(StructProperty {
            guid: Guid(*g),
            type_name: t.clone(),
            value: sv(v, form),
        }),
        P::Body(v) => Property::StructPropertyValue(sv(v, form)),
        P::Array(a) => Property::ArrayProperty(array(a, form)),
        P::Set(t, fl, el) => Property::SetProperty(SetProperty {
            property_type: t.clone(),
            allocation_flags: *fl,
            properties: el.iter().map(|e| prop(e, form)).collect(),
        }),
        P::Map(k, v, fl, ent) => Property::MapProperty(map(k, v, *fl, ent, form)),
        P::Unknown(n, raw) => {
            Property::UnknownProperty(UnknownProperty::new(n.clone(), raw.clone()))
        }
    }
}

/// The struct array form exists only with its struct information; every other
/// array has a generic form.
pub fn array(a: &Arr, form: Form) -> ArrayProperty {
    if let Some((field, ty, g)) = &a.info {
        return ArrayProperty::Structs {
            field_name: field.clone(),
            type_name: ty.clone(),
            guid: Guid(*g),
            structs: a
                .el
                .iter()
                .map(|e| match e {
                    P::Body(v) => sv(v, form),
                    _ => unreachable!("struct array of non-structs"),
                })
                .collect(),
        };
    }
    let generic = || ArrayProperty::Properties {
        property_type: a.ty.clone(),
        properties: a.el.iter().map(|e| prop(e, form)).collect(),
    };
    if form == Form::Generic {
        return generic();
    }
    macro_rules! all {
        ($variant:ident, $field:ident, $pat:pat => $val:expr) => {{
            let mut out = Vec::new();
            for e in &a.el {
                match e {
                    $pat => out.push($val),
                    _ => return generic(),
                }
            }
            ArrayProperty::$variant { $field: out }
        }};
    }
    match a.ty.as_str() {
        "BoolProperty" => all!(Bools, bools, P::Bool(v) => *v),
        "ByteProperty" => all!(Bytes, bytes, P::Byte(None, ByteVal::Plain(v)) => *v),
        "EnumProperty" => all!(Enums, enums, P::Enum(None, v) => v.clone()),
        "FloatProperty" => all!(Floats, floats, P::F32(v) => f(*v)),
        "IntProperty" => all!(Ints, ints, P::I32(v) => *v),
        "NameProperty" => all!(Names, names, P::Name(0, v) => v.clone()),
        "StrProperty" => all!(Strings, strings, P::Str(v) => v.clone()),
        _ => generic(),
    }
}

pub fn map(kt: &str, vt: &str, flags: u32, ent: &[(P, P)], form: Form) -> MapProperty {
    let generic = || MapProperty::Properties {
        key_type: kt.to_string(),
        value_type: vt.to_string(),
        allocation_flags: flags,
        value: HashableIndexMap(
            ent.iter()
                .map(|(k, v)| (prop(k, form), prop(v, form)))
                .collect(),
        ),
    };
    if form == Form::Generic || flags != 0 {
        return generic();
    }
    let mut keys = Vec::new();
    for (k, _) in ent {
        match (kt, k) {
            ("EnumProperty", P::Enum(None, s)) => keys.push(s.clone()),
            ("NameProperty", P::Name(0, Some(s))) => keys.push(s.clone()),
            ("StrProperty", P::Str(Some(s))) => keys.push(s.clone()),
            _ => return generic(),
        }
    }
    macro_rules! zip {
        ($pat:pat => $val:expr) => {{
            let mut m = IndexMap::new();
            for (k, (_, v)) in keys.into_iter().zip(ent) {
                match v {
                    $pat => {
                        m.insert(k, $val);
                    }
                    #[allow(unreachable_patterns)]
                    _ => return generic(),
                }
            }
            HashableIndexMap(m)
        }};
    }
    match (kt, vt) {
        ("EnumProperty", "BoolProperty") => MapProperty::EnumBool {
            enum_bools: zip!(P::Bool(b) => *b),
        },
        ("EnumProperty", "IntProperty") => MapProperty::EnumInt {
            enum_ints: zip!(P::I32(i) => *i),
        },
        ("EnumProperty", _) => MapProperty::EnumProperty {
            value_type: vt.to_string(),
            enum_props: zip!(p => prop(p, form)),
        },
        ("NameProperty", "BoolProperty") => MapProperty::NameBool {
            name_bools: zip!(P::Bool(b) => *b),
        },
        ("NameProperty", "IntProperty") => MapProperty::NameInt {
            name_ints: zip!(P::I32(i) => *i),
        },
        ("NameProperty", _) => MapProperty::NameProperty {
            value_type: vt.to_string(),
            name_props: zip!(p => prop(p, form)),
        },
        ("StrProperty", "BoolProperty") => MapProperty::StrBool {
            str_bools: zip!(P::Bool(b) => *b),
        },
        ("StrProperty", "IntProperty") => MapProperty::StrInt {
            str_ints: zip!(P::I32(i) => *i),
        },
        ("StrProperty", "StrProperty") => MapProperty::StrStr {
            str_strs: zip!(P::Str(s) => s.clone()),
        },
        ("StrProperty", _) => MapProperty::StrProperty {
            value_type: vt.to_string(),
            str_props: zip!(p => prop(p, form)),
        },
        _ => generic(),
    }
}

pub fn versions(v: &[(Guid16, u32)]) -> HashableIndexMap<Guid, u32> {
    HashableIndexMap(v.iter().map(|(g, n)| (Guid(*g), *n)).collect())
}

pub fn header(h: &Header) -> GvasHeader {
    let engine_version = FEngineVersion::new(h.major, h.minor, h.patch, h.change, h.branch.clone());
    match h.ue5 {
        None => GvasHeader::Version2 {
            package_file_version: h.pkg,
            engine_version,
            custom_version_format: 3,
            custom_versions: versions(&h.versions),
            save_game_class_name: h.class.clone(),
        },
        Some(u) => GvasHeader::Version3 {
            package_file_version: h.pkg,
            package_file_version_ue5: u,
            engine_version,
            custom_version_format: 3,
            custom_versions: versions(&h.versions),
            save_game_class_name: h.class.clone(),
        },
    }
}

pub fn mode(w: Wrap) -> DeserializedGameVersion {
    match w {
        Wrap::Plain => DeserializedGameVersion::Default,
        Wrap::PalNone => DeserializedGameVersion::Palworld(PalworldCompressionType::None),
        Wrap::PalZlib => DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib),
        Wrap::PalTwice => DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice),
    }
}

pub fn game(w: Wrap) -> GameVersion {
    match w {
        Wrap::Plain => GameVersion::Default,
        _ => GameVersion::Palworld,
    }
}

pub fn file(x: &File, form: Form) -> GvasFile {
    GvasFile {
        deserialized_game_version: mode(x.wrap),
        header: header(&x.hdr),
        properties: HashableIndexMap(
            x.props
                .iter()
                .map(|(n, p)| (n.clone(), prop(p, form)))
                .collect(),
        ),
    }
}

pub fn with_opts<T>(
    hints: &Hints,
    versions: &HashableIndexMap<Guid, u32>,
    stack: &mut Vec<String>,
    body: impl FnOnce(&mut PropertyOptions) -> T,
) -> T {
    let mut o = PropertyOptions {
        hints,
        properties_stack: stack,
        custom_versions: versions,
    };
    body(&mut o)
}

/// Serialised form of one property, through the library.
pub fn write_prop(
    p: &Property,
    with_header: bool,
    vers: &HashableIndexMap<Guid, u32>,
) -> Result<(Vec<u8>, usize), String> {
    let mut out = Vec::new();
    let hints = Hints::new();
    let n = with_opts(&hints, vers, &mut Vec::new(), |o| {
        p.write(&mut out, with_header, o)
    })
    .map_err(|e| e.to_string())?;
    Ok((out, n))
}

// ------------------------------------------------------------ comparison ----

pub type Same = Result<(), String>;

macro_rules! need {
    ($at:expr, $what:expr, $want:expr, $got:expr) => {
        if $want != $got {
            return Err(format!(
                "{}: {} is {:?}, stored was {:?}",
                $at, $what, $got, $want
            ));
        }
    };
}

fn fs(at: &str, want: &[u32], got: &[OrderedFloat<f32>]) -> Same {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if *w != g.0.to_bits() {
            return Err(format!(
                "{at}: component {i} is {:#x}, stored was {w:#x}",
                g.0.to_bits()
            ));
        }
    }
    Ok(())
}
fn ds(at: &str, want: &[u64], got: &[OrderedFloat<f64>]) -> Same {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if *w != g.0.to_bits() {
            return Err(format!(
                "{at}: component {i} is {:#x}, stored was {w:#x}",
                g.0.to_bits()
            ));
        }
    }
    Ok(())
}

pub fn same_sv(at: &str, want: &SV, got: &StructPropertyValue) -> Same {
    use StructPropertyValue as S;
    match (want, got) {
        (SV::V2F(a), S::Vector2F(v)) => fs(at, a, &[v.x, v.y]),
        (SV::V2D(a), S::Vector2D(v)) => ds(at, a, &[v.x, v.y]),
        (SV::VF(a), S::VectorF(v)) => fs(at, a, &[v.x, v.y, v.z]),
        (SV::VD(a), S::VectorD(v)) => ds(at, a, &[v.x, v.y, v.z]),
        (SV::RF(a), S::RotatorF(v)) => fs(at, a, &[v.pitch, v.yaw, v.roll]),
        (SV::RD(a), S::RotatorD(v)) => ds(at, a, &[v.pitch, v.yaw, v.roll]),
        (SV::QF(a), S::QuatF(v)) => fs(at, a, &[v.x, v.y, v.z, v.w]),
        (SV::QD(a), S::QuatD(v)) => ds(at, a, &[v.x, v.y, v.z, v.w]),
        (SV::DateTime(t), S::DateTime(v)) => {
            need!(at, "ticks", *t, v.ticks);
            Ok(())
        }
        (SV::Timespan(t), S::Timespan(v)) => {
            need!(at, "ticks", *t, v.ticks);
            Ok(())
        }
        (SV::Guid(g), S::Guid(v)) => {
            need!(at, "guid", *g, v.0);
            Ok(())
        }
        (SV::Color(a), S::LinearColor(v)) => fs(at, a, &[v.r, v.g, v.b, v.a]),
        (SV::Point(x, y), S::IntPoint(v)) => {
            need!(at, "x", *x, v.x);
            need!(at, "y", *y, v.y);
            Ok(())
        }
        (SV::Tags(l), S::GameplayTagContainer(v)) => {
            need!(at, "tags", *l, *v);
            Ok(())
        }
        (SV::Custom(fields), S::CustomStruct(m)) => {
            let mut it = fields.iter().peekable();
            for (name, list) in m.0.iter() {
                if list.is_empty() {
                    return Err(format!("{at}: field {name:?} without a value"));
                }
                for (i, g) in list.iter().enumerate() {
                    match it.next() {
                        None => return Err(format!("{at}: extra field {name:?}")),
                        Some((n, p)) => {
                            need!(at, "field name", n, name);
                            same(&format!("{at}.{n}[{i}]"), p, g)?;
                        }
                    }
                }
            }
            if let Some((n, _)) = it.next() {
                return Err(format!("{at}: field {n:?} is missing"));
            }
            Ok(())
        }
        _ => Err(format!("{at}: stored {want:?}, got {got:?}")),
    }
}

fn same_args(
    at: &str,
    want: &[(String, Arg)],
    got: &IndexMap<String, FormatArgumentValue>,
) -> Same {
    need!(at, "argument count", want.len(), got.len());
    for ((k, v), (gk, gv)) in want.iter().zip(got) {
        need!(at, "argument name", k, gk);
        same_arg(&format!("{at}.{k}"), v, gv)?;
    }
    Ok(())
}

fn same_arg(at: &str, want: &Arg, got: &FormatArgumentValue) -> Same {
    use FormatArgumentValue as A;
    match (want, got) {
        (Arg::Int(a), A::Int(b)) if a == b => Ok(()),
        (Arg::UInt(a), A::UInt(b)) if a == b => Ok(()),
        (Arg::Int64(a), A::Int64(b)) if a == b => Ok(()),
        (Arg::UInt64(a), A::UInt64(b)) if a == b => Ok(()),
        (Arg::Float(a), A::Float(b)) if *a == b.0.to_bits() => Ok(()),
        (Arg::Double(a), A::Double(b)) if *a == b.0.to_bits() => Ok(()),
        (Arg::Text(a), A::Text(b)) => same_text(at, a, b),
        _ => Err(format!("{at}: argument is {got:?}, stored was {want:?}")),
    }
}

pub fn same_text(at: &str, want: &Text, got: &FText) -> Same {
    need!(at, "text flags", want.flags, got.flags);
    match (&want.hist, &got.history) {
        (
            Hist::Named(s, a),
            FTextHistory::NamedFormat {
                source_format,
                arguments,
            },
        )
        | (
            Hist::ArgFmt(s, a),
            FTextHistory::ArgumentFormat {
                source_format,
                arguments,
            },
        ) => {
            same_text(&format!("{at}.format"), s, source_format)?;
            same_args(at, a, &arguments.0)
        }
        (
            Hist::Ordered(s, a),
            FTextHistory::OrderedFormat {
                source_format,
                arguments,
            },
        ) => {
            same_text(&format!("{at}.format"), s, source_format)?;
            need!(at, "argument count", a.len(), arguments.len());
            for (i, (w, g)) in a.iter().zip(arguments).enumerate() {
                same_arg(&format!("{at}.arg{i}"), w, g)?;
            }
            Ok(())
        }
        (
            Hist::Number(v, n, c),
            FTextHistory::AsNumber {
                source_value,
                format_options,
                target_culture,
            },
        )
        | (
            Hist::Percent(v, n, c),
            FTextHistory::AsPercent {
                source_value,
                format_options,
                target_culture,
            },
        ) => {
            same_arg(at, v, source_value)?;
            need!(at, "number format", n.as_ref().map(numfmt), *format_options);
            need!(at, "culture", c, target_culture);
            Ok(())
        }
        (
            Hist::Currency(k, v, n, c),
            FTextHistory::AsCurrency {
                currency_code,
                source_value,
                format_options,
                target_culture,
            },
        ) => {
            need!(at, "currency", k, currency_code);
            same_arg(at, v, source_value)?;
            need!(at, "number format", n.as_ref().map(numfmt), *format_options);
            need!(at, "culture", c, target_culture);
            Ok(())
        }
        (
            Hist::Transform(s, k),
            FTextHistory::Transform {
                source_text,
                transform_type,
            },
        ) => {
            same_text(&format!("{at}.source"), s, source_text)?;
            need!(
                at,
                "transform",
                *k,
                match transform_type {
                    TransformType::ToLower => 0,
                    TransformType::ToUpper => 1,
                }
            );
            Ok(())
        }
        // Histories without floats: the literal is unambiguous.
        _ => {
            let w = text(want);
            need!(at, "text", w.history, got.history);
            Ok(())
        }
    }
}

fn same_deleg(at: &str, want: &[(String, String)], got: &MulticastScriptDelegate) -> Same {
    need!(at, "delegate count", want.len(), got.delegates.len());
    for (w, g) in want.iter().zip(&got.delegates) {
        need!(at, "object", w.0, g.object);
        need!(at, "function", w.1, g.function_name);
    }
    Ok(())
}

/// Element list of an array, whatever its in-memory form.
pub fn array_elements(
    a: &ArrayProperty,
) -> (String, Option<(String, String, Guid16)>, Vec<Property>) {
    fn n(s: &str) -> String {
        s.to_string()
    }
    match a {
        ArrayProperty::Bools { bools } => (
            n("BoolProperty"),
            None,
            bools
                .iter()
                .map(|v| Property::BoolProperty(BoolProperty { value: *v }))
                .collect(),
        ),
        ArrayProperty::Bytes { bytes } => (
            n("ByteProperty"),
            None,
            bytes
                .iter()
                .map(|v| {
                    Property::ByteProperty(ByteProperty {
                        name: None,
                        value: BytePropertyValue::Byte(*v),
                    })
                })
                .collect(),
        ),
        ArrayProperty::Enums { enums } => (
            n("EnumProperty"),
            None,
            enums
                .iter()
                .map(|v| {
                    Property::EnumProperty(EnumProperty {
                        enum_type: None,
                        value: v.clone(),
                    })
                })
                .collect(),
        ),
        ArrayProperty::Floats { floats } => (
            n("FloatProperty"),
            None,
            floats
                .iter()
                .map(|v| Property::FloatProperty(FloatProperty { value: *v }))
                .collect(),
        ),
        ArrayProperty::Ints { ints } => (
            n("IntProperty"),
            None,
            ints.iter()
                .map(|v| Property::IntProperty(IntProperty { value: *v }))
                .collect(),
        ),
        ArrayProperty::Names { names } => (
            n("NameProperty"),
            None,
            names
                .iter()
                .map(|v| {
                    Property::NameProperty(NameProperty {
                        array_index: 0,
                        value: v.clone(),
                    })
                })
                .collect(),
        ),
        ArrayProperty::Strings { strings } => (
            n("StrProperty"),
            None,
            strings
                .iter()
                .map(|v| Property::StrProperty(StrProperty { value: v.clone() }))
                .collect(),
        ),
        ArrayProperty::Structs {
            field_name,
            type_name,
            guid,
            structs,
        } => (
            n("StructProperty"),
            Some((field_name.clone(), type_name.clone(), guid.0)),
            structs
                .iter()
                .map(|v| Property::StructPropertyValue(v.clone()))
                .collect(),
        ),
        ArrayProperty::Properties {
            property_type,
            properties,
        } => (property_type.clone(), None, properties.clone()),
    }
}

/// Entry list of a map, whatever its in-memory form.
pub fn map_entries(m: &MapProperty) -> (String, String, u32, Vec<(Property, Property)>) {
    fn e(k: &str) -> Property {
        Property::EnumProperty(EnumProperty {
            enum_type: None,
            value: k.to_string(),
        })
    }
    fn n(k: &str) -> Property {
        Property::NameProperty(NameProperty {
            array_index: 0,
            value: Some(k.to_string()),
        })
    }
    fn s(k: &str) -> Property {
        Property::StrProperty(StrProperty {
            value: Some(k.to_string()),
        })
    }
    fn b(v: &bool) -> Property {
        Property::BoolProperty(BoolProperty { value: *v })
    }
    fn i(v: &i32) -> Property {
        Property::IntProperty(IntProperty { value: *v })
    }
    fn p(v: &Property) -> Property {
        v.clone()
    }
    fn o(v: &Option<String>) -> Property {
        Property::StrProperty(StrProperty { value: v.clone() })
    }
    fn go<V: std::hash::Hash>(
        m: &HashableIndexMap<String, V>,
        k: fn(&str) -> Property,
        v: fn(&V) -> Property,
    ) -> Vec<(Property, Property)> {
        m.0.iter().map(|(a, c)| (k(a), v(c))).collect()
    }
    let t = |k: &str, v: &str, l| (format!("{k}Property"), v.to_string(), 0, l);
    match m {
        MapProperty::EnumBool { enum_bools } => t("Enum", "BoolProperty", go(enum_bools, e, b)),
        MapProperty::EnumInt { enum_ints } => t("Enum", "IntProperty", go(enum_ints, e, i)),
        MapProperty::EnumProperty {
            value_type,
            enum_props,
        } => t("Enum", value_type, go(enum_props, e, p)),
        MapProperty::NameBool { name_bools } => t("Name", "BoolProperty", go(name_bools, n, b)),
        MapProperty::NameInt { name_ints } => t("Name", "IntProperty", go(name_ints, n, i)),
        MapProperty::NameProperty {
            value_type,
            name_props,
        } => t("Name", value_type, go(name_props, n, p)),
        MapProperty::StrBool { str_bools } => t("Str", "BoolProperty", go(str_bools, s, b)),
        MapProperty::StrInt { str_ints } => t("Str", "IntProperty", go(str_ints, s, i)),
        MapProperty::StrProperty {
            value_type,
            str_props,
        } => t("Str", value_type, go(str_props, s, p)),
        MapProperty::StrStr { str_strs } => t("Str", "StrProperty", go(str_strs, s, o)),
        MapProperty::Properties {
            key_type,
            value_type,
            allocation_flags,
            value,
        } => (
            key_type.clone(),
            value_type.clone(),
            *allocation_flags,
            value
                .0
                .iter()
                .map(|(k, v)| (k.clone(), v.clone()))
                .collect(),
        ),
    }
}

pub fn same(at: &str, want: &P, got: &Property) -> Same {
    match (want, got) {
        (P::F32(a), Property::FloatProperty(b)) => fs(at, &[*a], &[b.value]),
        (P::F64(a), Property::DoubleProperty(b)) => ds(at, &[*a], &[b.value]),
        (P::Text(a), Property::TextProperty(b)) => same_text(at, a, &b.value),
        (P::Struct(t, g, v), Property::StructProperty(b)) => {
            need!(at, "struct type", *t, b.type_name);
            need!(at, "struct id", *g, b.guid.0);
            same_sv(at, v, &b.value)
        }
        (P::Body(v), Property::StructPropertyValue(b)) => same_sv(at, v, b),
        (P::MInline(l), Property::MulticastInlineDelegateProperty(b)) => {
            same_deleg(at, l, &b.value)
        }
        (P::MSparse(l), Property::MulticastSparseDelegateProperty(b)) => {
            same_deleg(at, l, &b.value)
        }
        (P::Array(a), Property::ArrayProperty(b)) => {
            let (ty, info, el) = array_elements(b);
            need!(at, "element type", a.ty, ty);
            need!(at, "struct information", a.info, info);
            need!(at, "element count", a.el.len(), el.len());
            for (i, (w, g)) in a.el.iter().zip(&el).enumerate() {
                same(&format!("{at}[{i}]"), w, g)?;
            }
            Ok(())
        }
        (P::Set(t, fl, el), Property::SetProperty(b)) => {
            need!(at, "element type", *t, b.property_type);
            need!(at, "flags", *fl, b.allocation_flags);
            need!(at, "element count", el.len(), b.properties.len());
            for (i, (w, g)) in el.iter().zip(&b.properties).enumerate() {
                same(&format!("{at}[{i}]"), w, g)?;
            }
            Ok(())
        }
        (P::Map(k, v, fl, ent), Property::MapProperty(b)) => {
            let (gk, gv, gf, ge) = map_entries(b);
            need!(at, "key type", *k, gk);
            need!(at, "value type", *v, gv);
            need!(at, "flags", *fl, gf);
            need!(at, "entry count", ent.len(), ge.len());
            for (i, (w, g)) in ent.iter().zip(&ge).enumerate() {
                same(&format!("{at}[{i}].key"), &w.0, &g.0)?;
                same(&format!("{at}[{i}].value"), &w.1, &g.1)?;
            }
            Ok(())
        }
        (
            P::Text(_)
            | P::F32(_)
            | P::F64(_)
            | P::Struct(..)
            | P::Body(_)
            | P::Array(_)
            | P::Set(..)
            | P::Map(..),
            _,
        ) => Err(format!("{at}: stored {want:?}, got {got:?}")),
        // The remaining kinds hold only integers, booleans, strings and raw
        // bytes: comparing with the literal is exact.
        _ => {
            if &prop(want, Form::Compact) != got {
                return Err(format!("{at}: stored {want:?}, got {got:?}"));
            }
            Ok(())
        }
    }
}

pub fn same_header(want: &Header, got: &GvasHeader) -> Same {
    let at = "header";
    let (pkg, ue5, eng, fmt, vers, class) = match got {
        GvasHeader::Version2 {
            package_file_version,
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        } => (
            *package_file_version,
            None,
            engine_version,
            *custom_version_format,
            custom_versions,
            save_game_class_name,
        ),
        GvasHeader::Version3 {
            package_file_version,
            package_file_version_ue5,
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        } => (
            *package_file_version,
            Some(*package_file_version_ue5),
            engine_version,
            *custom_version_format,
            custom_versions,
            save_game_class_name,
        ),
    };
    need!(at, "package version", want.pkg, pkg);
    need!(at, "ue5 version", want.ue5, ue5);
    need!(at, "major", want.major, eng.major);
    need!(at, "minor", want.minor, eng.minor);
    need!(at, "patch", want.patch, eng.patch);
    need!(at, "change list", want.change, eng.change_list);
    need!(at, "branch", want.branch, eng.branch);
    need!(at, "custom version format", 3, fmt);
    let got: Vec<(Guid16, u32)> = vers.0.iter().map(|(g, v)| (g.0, *v)).collect();
    need!(at, "custom versions", want.versions, got);
    need!(at, "class name", want.class, *class);
    Ok(())
}

pub fn same_file(want: &File, got: &GvasFile) -> Same {
    need!(
        "file",
        "container",
        mode(want.wrap),
        got.deserialized_game_version
    );
    same_header(&want.hdr, &got.header)?;
    need!(
        "file",
        "property names",
        want.props.iter().map(|(n, _)| n).collect::<Vec<_>>(),
        got.properties.0.keys().collect::<Vec<_>>()
    );
    for ((n, p), g) in want.props.iter().zip(got.properties.0.values()) {
        same(n, p, g)?;
    }
    Ok(())
}
