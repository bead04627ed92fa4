#![allow(dead_code)]
//! Generic value model, schema, and the glue traits implemented by gen.rs.
use bytes::{Buf, BytesMut};
use open_dis_rust::common::{
    data_types::{
        antenna_pattern::AntennaPattern,
        grid_axis_descriptor::GridAxisType,
        grid_data_record::DataRepresentationType,
        modulation_parameters::ModulationParameters,
    },
    dis_error::DISError,
    pdu_header::PduHeader,
};
use serde::{Deserialize, Serialize};
use std::{any::Any, collections::HashMap, sync::OnceLock};

/// A value of any wire type.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum V {
    /// integer, enum code, bit flags, or the bits of a float; fill byte of a padding
    N(u64),
    /// byte string, or the UTF-8 text of a marking
    B(Vec<u8>),
    /// list
    L(Vec<V>),
    /// record
    R(Vec<V>),
    /// optional
    O(Option<Box<V>>),
    /// tagged alternative
    X(u8, Vec<V>),
}

impl V {
    pub fn n(&self) -> u64 {
        match self {
            V::N(n) => *n,
            _ => panic!("harness: V::n on {self:?}"),
        }
    }
    pub fn fields(&self) -> &[V] {
        match self {
            V::R(f) | V::L(f) | V::X(_, f) => f,
            _ => panic!("harness: V::fields on {self:?}"),
        }
    }
    pub fn fields_mut(&mut self) -> &mut Vec<V> {
        match self {
            V::R(f) | V::L(f) | V::X(_, f) => f,
            _ => panic!("harness: V::fields_mut on {self:?}"),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            V::B(b) => b,
            _ => panic!("harness: V::bytes on {self:?}"),
        }
    }
    /// Number of elements of a list-like value
    pub fn count(&self) -> usize {
        match self {
            V::B(b) => b.len(),
            V::L(l) => l.len(),
            V::O(None) => 0,
            V::O(Some(b)) => b.count(),
            _ => panic!("harness: V::count on {self:?}"),
        }
    }
}

// ---------------------------------------------------------------- schema

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    U(u8),
    I(u8),
    F(u8),
    Enum(String, u8),
    Flags(u8),
    Pad(u8),
    Barr(usize),
    Bytes,
    Vec(Box<Ty>),
    OptVec(Box<Ty>),
    Rec(String),
    OptBytes(u8),
    Marking(usize),
    Variant(String),
    Align(usize),
}

#[derive(Clone, Debug)]
pub enum Derive {
    Count(usize),
    Bits(usize),
    Bytes8(usize),
    OptLen(usize),
    Prod(usize, usize),
    Tag(usize),
    Sub(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub derive: Option<Derive>,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub name: String,
    pub fields: Vec<Field>,
    /// PDU type and protocol family, for PDUs
    pub pdu: Option<(u8, u8)>,
}

#[derive(Clone, Debug)]
pub struct EnumSchema {
    pub width: u8,
    pub default: u64,
    pub codes: Vec<u64>,
    pub set: std::collections::HashSet<u64>,
    pub names: HashMap<u64, String>,
}

pub struct Schema {
    pub recs: HashMap<String, Rec>,
    pub rec_order: Vec<String>,
    pub pdu_order: Vec<String>,
    pub enums: HashMap<String, EnumSchema>,
}

#[derive(Deserialize)]
struct JField {
    name: String,
    ty: String,
    derive: Option<String>,
}
#[derive(Deserialize)]
struct JRec {
    name: String,
    #[serde(default)]
    r#type: Option<u8>,
    #[serde(default)]
    family: Option<u8>,
    fields: Vec<JField>,
}
#[derive(Deserialize)]
struct JEnum {
    width: u8,
    default: Option<String>,
    variants: Vec<(String, u64)>,
}
#[derive(Deserialize)]
struct JSchema {
    enums: HashMap<String, JEnum>,
    records: Vec<JRec>,
    pdus: Vec<JRec>,
}

fn parse_ty(s: &str) -> Ty {
    let (h, t) = s.split_once(':').unwrap_or((s, ""));
    match h {
        "u8" => Ty::U(1),
        "u16" => Ty::U(2),
        "u32" => Ty::U(4),
        "u64" => Ty::U(8),
        "i8" => Ty::I(1),
        "i16" => Ty::I(2),
        "i32" => Ty::I(4),
        "i64" => Ty::I(8),
        "f32" => Ty::F(4),
        "f64" => Ty::F(8),
        "enum" => {
            let (n, w) = t.split_once(':').unwrap();
            Ty::Enum(n.into(), w.parse().unwrap())
        }
        "flags" => Ty::Flags(t.split_once(':').unwrap().1.parse().unwrap()),
        "pad" => Ty::Pad(t[1..].parse::<u8>().unwrap() / 8),
        "barr" => Ty::Barr(t.split_once(':').unwrap().1.parse().unwrap()),
        "bytes" => Ty::Bytes,
        "vec" => Ty::Vec(Box::new(parse_ty(t))),
        "optvec" => Ty::OptVec(Box::new(parse_ty(t))),
        "rec" => Ty::Rec(t.into()),
        "optbytes" => Ty::OptBytes(if t == "AntennaPattern" { 2 } else { 1 }),
        "marking" => Ty::Marking(t.parse().unwrap()),
        "variant" => Ty::Variant(t.into()),
        "align" => Ty::Align(t.parse().unwrap()),
        _ => panic!("schema type {s}"),
    }
}

pub fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let j: JSchema = serde_json::from_str(include_str!("../../schema/schema.json")).unwrap();
        let mut recs = HashMap::new();
        let mut rec_order = vec![];
        let mut pdu_order = vec![];
        for (is_pdu, r) in j.records.iter().map(|r| (false, r)).chain(j.pdus.iter().map(|r| (true, r))) {
            let idx = |n: &str| {
                r.fields
                    .iter()
                    .position(|f| f.name == n)
                    .unwrap_or_else(|| panic!("{}: no field {n}", r.name))
            };
            let fields: Vec<Field> = r
                .fields
                .iter()
                .map(|f| Field {
                    name: f.name.clone(),
                    ty: parse_ty(&f.ty),
                    derive: f.derive.as_deref().map(|d| {
                        let (k, a) = d.split_once(':').unwrap();
                        match k {
                            "count" => Derive::Count(idx(a)),
                            "bits" => Derive::Bits(idx(a)),
                            "bytes8" => Derive::Bytes8(idx(a)),
                            "optlen" => Derive::OptLen(idx(a)),
                            "tag" => Derive::Tag(idx(a)),
                            "prod" => {
                                let (c, l) = a.split_once(',').unwrap();
                                Derive::Prod(idx(c), idx(l))
                            }
                            "sub" => {
                                let (sf, l) = a.split_once(',').unwrap();
                                let Ty::Rec(sub) = parse_ty(&f.ty) else { panic!() };
                                let sr = j.records.iter().find(|x| x.name == sub).unwrap();
                                Derive::Sub(sr.fields.iter().position(|x| x.name == sf).unwrap(), idx(l))
                            }
                            _ => panic!("derive {d}"),
                        }
                    }),
                })
                .collect();
            if is_pdu {
                pdu_order.push(r.name.clone());
            } else {
                rec_order.push(r.name.clone());
            }
            recs.insert(
                r.name.clone(),
                Rec {
                    name: r.name.clone(),
                    fields,
                    pdu: is_pdu.then(|| (r.r#type.unwrap(), r.family.unwrap())),
                },
            );
        }
        let enums = j
            .enums
            .iter()
            .filter(|(_, e)| !e.variants.is_empty())
            .map(|(n, e)| {
                let default = e
                    .default
                    .as_ref()
                    .map_or(u64::MAX, |d| e.variants.iter().find(|(v, _)| v == d).unwrap().1);
                (
                    n.clone(),
                    EnumSchema {
                        width: e.width,
                        default,
                        codes: e.variants.iter().map(|(_, c)| *c).collect(),
                        set: e.variants.iter().map(|(_, c)| *c).collect(),
                        names: e.variants.iter().map(|(n, c)| (*c, n.clone())).collect(),
                    },
                )
            })
            .collect();
        Schema { recs, rec_order, pdu_order, enums }
    })
}

pub fn rec(name: &str) -> &'static Rec {
    schema().recs.get(name).unwrap_or_else(|| panic!("no record {name}"))
}

pub fn variant_fields(name: &str, tag: u8) -> &'static [Field] {
    static T: OnceLock<HashMap<(&'static str, u8), Vec<Field>>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let f = |n: &str, t: &str, d: Option<Derive>| Field { name: n.into(), ty: parse_ty(t), derive: d };
        let mut m = HashMap::new();
        m.insert(
            ("GridAxisType", 0),
            vec![f("number_of_points_on_x_axis", "u16", None), f("initial_index", "u16", None)],
        );
        m.insert(
            ("GridAxisType", 1),
            vec![
                f("number_of_points_on_x_axis", "u16", Some(Derive::Count(4))),
                f("initial_index", "u16", None),
                f("coordinate_scale_x", "f64", None),
                f("coordinate_offset_x", "f64", None),
                f("x_values", "vec:u16", None),
                f("padding", "bytes", None),
            ],
        );
        m.insert(
            ("DataRepresentationType", 0),
            vec![
                f("number_of_octets", "u16", Some(Derive::Count(1))),
                f("data_values", "bytes", None),
                f("padding", "bytes", None),
            ],
        );
        m.insert(
            ("DataRepresentationType", 1),
            vec![
                f("field_scale", "f32", None),
                f("field_offset", "f32", None),
                f("number_of_values", "u16", Some(Derive::Count(3))),
                f("data_values", "vec:u16", None),
                f("padding", "bytes", None),
            ],
        );
        m.insert(
            ("DataRepresentationType", 2),
            vec![
                f("number_of_values", "u16", Some(Derive::Count(2))),
                f("padding", "u16", None),
                f("data_values", "vec:f32", None),
            ],
        );
        m
    });
    for ((n, g), f) in t {
        if *n == name && *g == tag {
            return f;
        }
    }
    panic!("variant {name} {tag}")
}

pub const VARIANTS: [&str; 2] = ["GridAxisType", "DataRepresentationType"];
pub fn variant_count(name: &str) -> u8 {
    if name == "GridAxisType" { 2 } else { 3 }
}

pub fn int_width(ty: &Ty) -> Option<u8> {
    match ty {
        Ty::U(w) | Ty::I(w) | Ty::F(w) | Ty::Enum(_, w) | Ty::Flags(w) | Ty::Pad(w) => Some(*w),
        _ => None,
    }
}

pub fn mask(w: u8) -> u64 {
    if w == 8 { u64::MAX } else { (1u64 << (8 * w as u32)) - 1 }
}

// ------------------------------------------- reference encoder / decoder

/// The independent reference: encodes `v` according to the schema alone.
pub fn enc(ty: &Ty, v: &V, out: &mut Vec<u8>) {
    match ty {
        Ty::U(w) | Ty::I(w) | Ty::F(w) | Ty::Enum(_, w) | Ty::Flags(w) | Ty::Pad(w) => {
            let n = v.n();
            for i in (0..*w).rev() {
                out.push((n >> (8 * i)) as u8);
            }
        }
        Ty::Barr(n) => {
            assert_eq!(v.bytes().len(), *n);
            out.extend_from_slice(v.bytes());
        }
        Ty::Bytes => out.extend_from_slice(v.bytes()),
        Ty::Vec(t) => match v {
            V::B(b) => out.extend_from_slice(b),
            _ => v.fields().iter().for_each(|x| enc(t, x, out)),
        },
        Ty::OptVec(t) => {
            for x in v.fields() {
                if let V::O(Some(x)) = x {
                    enc(t, x, out);
                }
            }
        }
        Ty::Rec(n) => enc_fields(&rec(n).fields, v.fields(), out),
        Ty::OptBytes(_) => {
            if let V::O(Some(b)) = v {
                out.extend_from_slice(b.bytes());
            }
        }
        Ty::Marking(n) => {
            let b = marking_cut(v.bytes(), *n);
            out.extend_from_slice(b);
            out.resize(out.len() + n - b.len(), 0);
        }
        Ty::Variant(n) => {
            let V::X(tag, f) = v else { panic!("variant") };
            enc_fields(variant_fields(n, *tag), f, out);
        }
        Ty::Align(_) => unreachable!(),
    }
}

pub fn enc_fields(fields: &[Field], vals: &[V], out: &mut Vec<u8>) {
    let start = out.len();
    for (f, v) in fields.iter().zip(vals) {
        if let Ty::Align(a) = f.ty {
            while (out.len() - start) % a != 0 {
                out.push(v.n() as u8);
            }
        } else {
            enc(&f.ty, v, out);
        }
    }
}

/// The longest prefix of at most `n` bytes that ends at a character boundary.
pub fn marking_cut(b: &[u8], n: usize) -> &[u8] {
    let s = std::str::from_utf8(b).expect("marking is UTF-8");
    let mut end = 0;
    for (i, c) in s.char_indices() {
        if i + c.len_utf8() <= n {
            end = i + c.len_utf8();
        } else {
            break;
        }
    }
    &b[..end]
}

#[derive(Clone, Debug, Default)]
pub struct Hdr {
    pub version: u8,
    pub exercise: u8,
    pub timestamp: u32,
    pub status: u8,
}

pub fn enc_pdu(r: &Rec, h: &Hdr, vals: &[V]) -> Vec<u8> {
    let (t, fam) = r.pdu.unwrap();
    let mut out = vec![h.version, h.exercise, t, fam];
    out.extend_from_slice(&h.timestamp.to_be_bytes());
    out.extend_from_slice(&[0, 0, h.status, 0]);
    enc_fields(&r.fields, vals, &mut out);
    let l = (out.len() & 0xffff) as u16;
    out[8..10].copy_from_slice(&l.to_be_bytes());
    out
}

pub enum DecErr {
    Underflow,
    /// the meaning of these bytes is not fixed by the specification used here
    Unspecified(&'static str),
}

thread_local! {
    /// Predict the recorded findings (known_findings.txt) instead of refusing to decode them.
    pub static LEGACY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The independent reference decoder.  A padding is decoded to its fill value.
pub fn dec(ty: &Ty, b: &mut &[u8]) -> Result<V, DecErr> {
    dec_ctx(ty, b, usize::MAX)
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], DecErr> {
    if b.len() < n {
        return Err(DecErr::Underflow);
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Ok(x)
}

fn dec_ctx(ty: &Ty, b: &mut &[u8], count: usize) -> Result<V, DecErr> {
    Ok(match ty {
        Ty::U(w) | Ty::I(w) | Ty::F(w) | Ty::Flags(w) | Ty::Pad(w) | Ty::Enum(_, w) => {
            let mut n = 0u64;
            for x in take(b, *w as usize)? {
                n = n << 8 | u64::from(*x);
            }
            if let Ty::Enum(e, _) = ty {
                let e = &schema().enums[e];
                if !e.set.contains(&n) {
                    n = e.default;
                }
            }
            V::N(n)
        }
        Ty::Barr(n) => V::B(take(b, *n)?.to_vec()),
        Ty::Bytes => V::B(take(b, count)?.to_vec()),
        Ty::OptBytes(_) => {
            let x = take(b, count)?.to_vec();
            V::O((!x.is_empty()).then(|| Box::new(V::B(x))))
        }
        Ty::Vec(t) => {
            let mut l = vec![];
            for _ in 0..count {
                l.push(dec(t, b)?);
            }
            V::L(l)
        }
        Ty::OptVec(_) if LEGACY.get() => V::L(vec![]),
        Ty::OptVec(_) => return Err(DecErr::Unspecified("optional list")),
        Ty::Rec(n) => V::R(dec_fields(&rec(n).fields, b)?),
        Ty::Marking(n) => {
            let x = take(b, *n)?;
            let Ok(s) = std::str::from_utf8(x) else {
                return Err(DecErr::Unspecified("marking that is not UTF-8"));
            };
            V::B(s.trim_end_matches('\0').as_bytes().to_vec())
        }
        Ty::Variant(_) | Ty::Align(_) => unreachable!(),
    })
}

pub fn dec_fields(fields: &[Field], b: &mut &[u8]) -> Result<Vec<V>, DecErr> {
    let start = b.len();
    let mut counts = vec![usize::MAX; fields.len()];
    let mut tag = 0u8;
    let mut out: Vec<V> = vec![];
    for (i, f) in fields.iter().enumerate() {
        let v = match &f.ty {
            Ty::Align(a) => {
                let used = start - b.len();
                let p = take(b, used.next_multiple_of(*a) - used)?;
                V::N(p.first().copied().unwrap_or(0).into())
            }
            Ty::Variant(n) => {
                let fs = variant_fields(n, tag);
                if fs.last().unwrap().ty == Ty::Bytes {
                    if LEGACY.get() {
                        let mut x = dec_fields(&fs[..fs.len() - 1], b)?;
                        x.push(V::B(take(b, b.len())?.to_vec()));
                        out.push(V::X(tag, x));
                        continue;
                    }
                    return Err(DecErr::Unspecified("padding of unknown length"));
                }
                V::X(tag, dec_fields(fs, b)?)
            }
            Ty::Vec(_) | Ty::OptVec(_) | Ty::Bytes | Ty::OptBytes(_) => {
                dec_ctx(&f.ty, b, counts[i])?
            }
            t => dec(t, b)?,
        };
        match f.derive {
            Some(Derive::Count(l) | Derive::OptLen(l)) => counts[l] = v.n() as usize,
            Some(Derive::Bits(l)) => counts[l] = v.n().div_ceil(8) as usize,
            Some(Derive::Bytes8(l)) => {
                if v.n() % 8 != 0 {
                    return Err(DecErr::Unspecified("list length that is no multiple of the record size"));
                }
                counts[l] = (v.n() / 8) as usize;
            }
            Some(Derive::Tag(_)) => tag = v.n() as u8,
            Some(Derive::Sub(sf, l)) => counts[l] = v.fields()[sf].n() as usize,
            Some(Derive::Prod(..)) | None => {}
        }
        out.push(v);
        for f in fields {
            if let Some(Derive::Prod(c, l)) = f.derive {
                if c == i {
                    let li = fields.iter().position(|x| std::ptr::eq(x, f)).unwrap();
                    counts[l] = (out[c].n() * out[li].n()) as usize;
                }
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------ comparison

/// First difference between two values, ignoring paddings.
pub fn diff(ty: &Ty, a: &V, b: &V) -> Option<String> {
    match ty {
        Ty::Pad(_) | Ty::Align(_) => None,
        Ty::Rec(n) => diff_fields(&rec(n).fields, a.fields(), b.fields()),
        Ty::Vec(t) => {
            if let (V::L(x), V::L(y)) = (a, b) {
                if x.len() != y.len() {
                    return Some(format!(": {} elements != {} elements", x.len(), y.len()));
                }
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    if let Some(d) = diff(t, p, q) {
                        return Some(format!("[{i}]{d}"));
                    }
                }
                None
            } else {
                (a != b).then(|| format!(": {a:?} != {b:?}"))
            }
        }
        Ty::OptBytes(_) => {
            let e = |v: &V| match v {
                V::O(Some(b)) => b.bytes().to_vec(),
                _ => vec![],
            };
            (e(a) != e(b)).then(|| format!(": {:?} != {:?}", e(a), e(b)))
        }
        Ty::Variant(n) => {
            let (V::X(s, x), V::X(t, y)) = (a, b) else { panic!() };
            if s != t {
                return Some(format!(": alternative {s} != {t}"));
            }
            diff_fields(variant_fields(n, *s), x, y)
        }
        _ => {
            if a == b {
                None
            } else {
                let s = |v: &V| {
                    let s = match v {
                        V::N(n) => format!("{n:#x}"),
                        V::B(b) => format!("{} bytes {b:02x?}", b.len()),
                        v => format!("{v:?}"),
                    };
                    s.chars().take(160).collect::<String>()
                };
                Some(format!(": {} != {}", s(a), s(b)))
            }
        }
    }
}

pub fn diff_fields(fields: &[Field], a: &[V], b: &[V]) -> Option<String> {
    fields
        .iter()
        .zip(a.iter().zip(b))
        .find_map(|(f, (x, y))| diff(&f.ty, x, y).map(|d| format!(".{}{d}", f.name)))
}

/// What a decode of the encoding of `v` is expected to give.
pub fn canon(ty: &Ty, v: &mut V) {
    match ty {
        Ty::Marking(n) => {
            let s = marking_cut(v.bytes(), *n);
            let s = std::str::from_utf8(s).unwrap().trim_end_matches('\0');
            *v = V::B(s.as_bytes().to_vec());
        }
        Ty::Rec(n) => canon_fields(&rec(n).fields, v.fields_mut()),
        Ty::Vec(t) => {
            if matches!(**t, Ty::Rec(_)) {
                v.fields_mut().iter_mut().for_each(|x| canon(t, x));
            }
        }
        _ => {}
    }
}
pub fn canon_fields(f: &[Field], v: &mut [V]) {
    for (f, v) in f.iter().zip(v) {
        canon(&f.ty, v);
    }
}

// ----------------------------------------------------------- conversion

pub trait Conv: Sized {
    fn from_v(v: &V) -> Self;
    fn to_v(&self) -> V;
    fn vec_from(v: &V) -> Vec<Self> {
        v.fields().iter().map(Self::from_v).collect()
    }
    fn vec_to(v: &[Self]) -> V {
        V::L(v.iter().map(Self::to_v).collect())
    }
}

macro_rules! conv_int {
    ($($t:ty, $u:ty);*) => {$(
        impl Conv for $t {
            fn from_v(v: &V) -> Self { v.n() as $t }
            fn to_v(&self) -> V { V::N(*self as $u as u64) }
        }
    )*};
}
conv_int!(u16, u16; u32, u32; u64, u64; i16, u16; i32, u32; i64, u64);
macro_rules! conv_byte {
    ($($t:ty),*) => {$(
        impl Conv for $t {
            fn from_v(v: &V) -> Self { v.n() as $t }
            fn to_v(&self) -> V { V::N(*self as u8 as u64) }
            fn vec_from(v: &V) -> Vec<Self> {
                match v { V::B(b) => b.iter().map(|x| *x as $t).collect(), _ => v.fields().iter().map(Self::from_v).collect() }
            }
            fn vec_to(v: &[Self]) -> V { V::B(v.iter().map(|x| *x as u8).collect()) }
        }
    )*};
}
conv_byte!(u8, i8);
impl Conv for f32 {
    fn from_v(v: &V) -> Self {
        Self::from_bits(v.n() as u32)
    }
    fn to_v(&self) -> V {
        V::N(self.to_bits().into())
    }
}
impl Conv for f64 {
    fn from_v(v: &V) -> Self {
        Self::from_bits(v.n())
    }
    fn to_v(&self) -> V {
        V::N(self.to_bits())
    }
}
impl Conv for String {
    fn from_v(v: &V) -> Self {
        Self::from_utf8(v.bytes().to_vec()).unwrap()
    }
    fn to_v(&self) -> V {
        V::B(self.as_bytes().to_vec())
    }
}
impl<T: Conv> Conv for Vec<T> {
    fn from_v(v: &V) -> Self {
        T::vec_from(v)
    }
    fn to_v(&self) -> V {
        T::vec_to(self)
    }
}
impl<T: Conv + Default + Copy, const N: usize> Conv for [T; N] {
    fn from_v(v: &V) -> Self {
        let x = T::vec_from(v);
        let mut a = [T::default(); N];
        a.copy_from_slice(&x);
        a
    }
    fn to_v(&self) -> V {
        T::vec_to(self)
    }
}
impl<T: Conv> Conv for Option<T> {
    fn from_v(v: &V) -> Self {
        match v {
            V::O(x) => x.as_ref().map(|x| T::from_v(x)),
            _ => panic!("harness: option from {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::O(self.as_ref().map(|x| Box::new(x.to_v())))
    }
}
macro_rules! conv_optbytes {
    ($($t:ty, $l:ty);*) => {$(
        impl Conv for $t {
            fn from_v(v: &V) -> Self {
                let b = v.bytes();
                <$t>::deserialize(&mut &b[..], b.len() as $l).unwrap_or_default()
            }
            fn to_v(&self) -> V {
                let mut b = BytesMut::new();
                self.serialize(&mut b);
                V::B(b.to_vec())
            }
        }
    )*};
}
conv_optbytes!(AntennaPattern, u16; ModulationParameters, u8);

impl Conv for GridAxisType {
    fn from_v(v: &V) -> Self {
        let V::X(t, f) = v else { panic!() };
        if *t == 0 {
            Self::FixedSpacing {
                number_of_points_on_x_axis: Conv::from_v(&f[0]),
                initial_index: Conv::from_v(&f[1]),
            }
        } else {
            Self::VariableSpacing {
                number_of_points_on_x_axis: Conv::from_v(&f[0]),
                initial_index: Conv::from_v(&f[1]),
                coordinate_scale_x: Conv::from_v(&f[2]),
                coordinate_offset_x: Conv::from_v(&f[3]),
                x_values: Conv::from_v(&f[4]),
                padding: Conv::from_v(&f[5]),
            }
        }
    }
    fn to_v(&self) -> V {
        match self {
            Self::FixedSpacing { number_of_points_on_x_axis: a, initial_index: b } => {
                V::X(0, vec![a.to_v(), b.to_v()])
            }
            Self::VariableSpacing {
                number_of_points_on_x_axis: a,
                initial_index: b,
                coordinate_scale_x: c,
                coordinate_offset_x: d,
                x_values: e,
                padding: g,
            } => V::X(1, vec![a.to_v(), b.to_v(), c.to_v(), d.to_v(), e.to_v(), g.to_v()]),
        }
    }
}
impl Conv for DataRepresentationType {
    fn from_v(v: &V) -> Self {
        let V::X(t, f) = v else { panic!() };
        match t {
            0 => Self::Type0 {
                number_of_octets: Conv::from_v(&f[0]),
                data_values: Conv::from_v(&f[1]),
                padding: Conv::from_v(&f[2]),
            },
            1 => Self::Type1 {
                field_scale: Conv::from_v(&f[0]),
                field_offset: Conv::from_v(&f[1]),
                number_of_values: Conv::from_v(&f[2]),
                data_values: Conv::from_v(&f[3]),
                padding: Conv::from_v(&f[4]),
            },
            _ => Self::Type2 {
                number_of_values: Conv::from_v(&f[0]),
                padding: Conv::from_v(&f[1]),
                data_values: Conv::from_v(&f[2]),
            },
        }
    }
    fn to_v(&self) -> V {
        match self {
            Self::Type0 { number_of_octets: a, data_values: b, padding: c } => {
                V::X(0, vec![a.to_v(), b.to_v(), c.to_v()])
            }
            Self::Type1 {
                field_scale: a,
                field_offset: b,
                number_of_values: c,
                data_values: d,
                padding: e,
            } => V::X(1, vec![a.to_v(), b.to_v(), c.to_v(), d.to_v(), e.to_v()]),
            Self::Type2 { number_of_values: a, padding: b, data_values: c } => {
                V::X(2, vec![a.to_v(), b.to_v(), c.to_v()])
            }
        }
    }
}

macro_rules! conv_enum {
    ($n:ident, $u:ident; $(($c:literal, $v:ident))*) => {
        impl crate::model::Conv for odr::common::enums::$n {
            fn from_v(v: &V) -> Self {
                match v.n() {
                    $($c => Self::$v,)*
                    x => panic!("harness: code {x} of {}", stringify!($n)),
                }
            }
            // By name, not by discriminant
            fn to_v(&self) -> V {
                V::N(match self {
                    $(Self::$v => $c,)*
                    _ => u64::MAX,
                })
            }
        }
    };
}
macro_rules! conv_flags {
    ($n:ident, $u:ident) => {
        impl crate::model::Conv for odr::common::enums::$n {
            fn from_v(v: &V) -> Self {
                Self::from_bits_retain(v.n() as $u)
            }
            fn to_v(&self) -> V {
                V::N(self.bits().into())
            }
        }
    };
}
macro_rules! conv_rec {
    ($p:path, $n:literal; $($f:ident : $i:literal),*) => {
        impl Conv for $p {
            #[allow(clippy::field_reassign_with_default)]
            fn from_v(v: &V) -> Self {
                let l = v.fields();
                let mut x = <$p>::default();
                $(x.$f = Conv::from_v(&l[$i]);)*
                x
            }
            fn to_v(&self) -> V {
                let mut l = vec![V::N(0); $n];
                $(l[$i] = self.$f.to_v();)*
                V::R(l)
            }
        }
    };
}
macro_rules! conv_lit {
    ($p:path, $n:literal; $($f:ident : $i:literal),*) => {
        impl Conv for $p {
            fn from_v(v: &V) -> Self {
                let l = v.fields();
                $p { $($f: Conv::from_v(&l[$i]),)* }
            }
            fn to_v(&self) -> V {
                let mut l = vec![V::N(0); $n];
                $(l[$i] = self.$f.to_v();)*
                V::R(l)
            }
        }
    };
}
macro_rules! conv_pdu {
    ($p:path, $n:literal; $($f:ident : $i:literal),*) => {
        impl crate::model::DynPdu for $p {
            fn set(&mut self, i: usize, v: &V) {
                match i {
                    $($i => self.$f = Conv::from_v(v),)*
                    _ => {}
                }
            }
            fn get(&self, i: usize) -> V {
                match i {
                    $($i => self.$f.to_v(),)*
                    _ => V::N(0),
                }
            }
            fn ser(&mut self, b: &mut bytes::BytesMut) -> Result<(), odr::common::DISError> {
                odr::common::Pdu::serialize(self, b)
            }
            fn len(&self) -> Result<u16, odr::common::DISError> {
                odr::common::Pdu::calculate_length(self)
            }
            fn fin(&mut self) {
                odr::common::Pdu::finalize(self)
            }
            fn hdr(&self) -> &odr::common::PduHeader {
                odr::common::Pdu::header(self)
            }
            fn hdr_mut(&mut self) -> &mut odr::common::PduHeader {
                odr::common::Pdu::header_mut(self)
            }
            fn any(&self) -> &dyn std::any::Any {
                odr::common::Pdu::as_any(self)
            }
            fn dbg(&self) -> String {
                format!("{self:?}")
            }
        }
    };
}
macro_rules! enum_ops {
    ($n:ident, $u:ident, $w:literal, $io:ident) => {
        EnumOps {
            name: stringify!($n),
            width: $w,
            dec: |b| {
                let mut b = b;
                odr::common::enums::$n::deserialize(&mut b).to_v().n()
            },
            cast: |c| <odr::common::enums::$n as Conv>::from_v(&V::N(c)) as $u as u64,
            pair: |a, b| {
                let (x, y) = (<odr::common::enums::$n as Conv>::from_v(&V::N(a)), <odr::common::enums::$n as Conv>::from_v(&V::N(b)));
                (x == y, x.clone().to_v().n())
            },
            dbg: |c| format!("{:?}", <odr::common::enums::$n as Conv>::from_v(&V::N(c))),
            field: enum_ops!(@ $io $n),
        }
    };
    (@ noio $n:ident) => { None };
    (@ io $n:ident) => {
        Some(crate::model::FieldOps {
            ser: |v, b| odr::pdu_macro::FieldSerialize::serialize_field(&<odr::common::enums::$n as Conv>::from_v(v), b),
            dec: |b| {
                let mut b = b;
                <odr::common::enums::$n as odr::pdu_macro::FieldDeserialize>::deserialize_field(&mut b).to_v()
            },
            len: |v| odr::pdu_macro::FieldLen::field_len(&<odr::common::enums::$n as Conv>::from_v(v)),
        })
    };
}
macro_rules! rec_ops {
    ($p:path, $n:literal, $io:ident, $ln:ident) => {
        RecOps {
            name: $n,
            ser: |v, b| <$p as Conv>::from_v(v).serialize(b),
            dec: |b| {
                let mut b = b;
                <$p>::deserialize(&mut b).to_v()
            },
            field: rec_ops!(@ $io $p),
            length: rec_ops!(@ $ln $p),
            pair: crate::pair_op!($p),
        }
    };
    (@ noio $p:path) => { None };
    (@ io $p:path) => {
        Some(crate::model::FieldOps {
            ser: |v, b| odr::pdu_macro::FieldSerialize::serialize_field(&<$p as Conv>::from_v(v), b),
            dec: |b| {
                let mut b = b;
                <$p as odr::pdu_macro::FieldDeserialize>::deserialize_field(&mut b).to_v()
            },
            len: |v| odr::pdu_macro::FieldLen::field_len(&<$p as Conv>::from_v(v)),
        })
    };
    (@ nolen $p:path) => { None };
    (@ len $p:path) => { Some(<$p as odr::common::SerializedLength>::LENGTH) };
}
macro_rules! ctor_ops {
    ($p:path, $n:literal, $args:expr; $a:ident, $e:expr) => {
        CtorOps {
            name: $n,
            args: $args,
            make: |$a| {
                let x: $p = $e;
                let mut b = bytes::BytesMut::new();
                x.serialize(&mut b);
                (x.to_v(), b.to_vec())
            },
        }
    };
}
macro_rules! pdu_info {
    ($p:path, $n:literal) => {
        PduInfo {
            name: $n,
            new: || Box::new(<$p>::new()),
            default: || Box::new(<$p as Default>::default()),
            dec: |b| {
                let mut b = b;
                <$p as odr::common::Pdu>::deserialize(&mut b).map(|p| Box::new(p) as Box<dyn crate::model::DynPdu>)
            },
            dec_slice: |b| {
                <$p as odr::common::Pdu>::deserialize(b).map(|p| Box::new(p) as Box<dyn crate::model::DynPdu>)
            },
            dec_bytes: |b| {
                <$p as odr::common::Pdu>::deserialize(b).map(|p| Box::new(p) as Box<dyn crate::model::DynPdu>)
            },
            dec_body: |b, h| {
                let mut b = b;
                <$p as odr::common::Pdu>::deserialize_without_header(&mut b, h)
                    .map(|p| Box::new(p) as Box<dyn crate::model::DynPdu>)
            },
            is: |a| a.is::<$p>(),
        }
    };
}
pub(crate) use {conv_enum, conv_flags, conv_lit, conv_pdu, conv_rec, ctor_ops, enum_ops, pdu_info, rec_ops};

pub trait DynPdu {
    fn set(&mut self, i: usize, v: &V);
    fn get(&self, i: usize) -> V;
    fn ser(&mut self, b: &mut BytesMut) -> Result<(), DISError>;
    fn len(&self) -> Result<u16, DISError>;
    fn fin(&mut self);
    fn hdr(&self) -> &PduHeader;
    fn hdr_mut(&mut self) -> &mut PduHeader;
    fn any(&self) -> &dyn Any;
    fn dbg(&self) -> String;
}

pub struct FieldOps {
    pub ser: fn(&V, &mut BytesMut),
    pub dec: fn(&mut dyn Buf) -> V,
    pub len: fn(&V) -> usize,
}
pub struct EnumOps {
    pub name: &'static str,
    pub width: u8,
    pub dec: fn(&mut dyn Buf) -> u64,
    pub cast: fn(u64) -> u64,
    pub pair: fn(u64, u64) -> (bool, u64),
    pub dbg: fn(u64) -> String,
    pub field: Option<FieldOps>,
}
pub struct RecOps {
    pub name: &'static str,
    pub ser: fn(&V, &mut BytesMut),
    pub dec: fn(&mut dyn Buf) -> V,
    pub field: Option<FieldOps>,
    pub length: Option<usize>,
    pub pair: fn(&V, &V) -> crate::value::Pair,
}
/// A record constructor: which field (as a path of indices) each argument goes to.
pub struct CtorOps {
    pub name: &'static str,
    /// none for the default
    pub args: Option<&'static [&'static [usize]]>,
    pub make: fn(&[V]) -> (V, Vec<u8>),
}
pub type DecResult = Result<Box<dyn DynPdu>, DISError>;
pub struct PduInfo {
    pub name: &'static str,
    pub new: fn() -> Box<dyn DynPdu>,
    pub default: fn() -> Box<dyn DynPdu>,
    pub dec: fn(&mut dyn Buf) -> DecResult,
    pub dec_slice: fn(&mut &[u8]) -> DecResult,
    pub dec_bytes: fn(&mut BytesMut) -> DecResult,
    pub dec_body: fn(&mut dyn Buf, PduHeader) -> DecResult,
    pub is: fn(&dyn Any) -> bool,
}

pub fn model(r: &Rec, p: &dyn DynPdu) -> Vec<V> {
    (0..r.fields.len()).map(|i| p.get(i)).collect()
}
