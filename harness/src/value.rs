//! C17: copies and comparisons; C18: errors and limits.
use crate::{
    gen_::{ENUMS, PDUS, RECS},
    model::*,
    run::*,
    strat::*,
};
use open_dis_rust::common::{
    GenericHeader, constants as k,
    dis_error::{DISError, PduState},
    live_entity_pdu_header::LiveEntityPduHeader,
    pdu_header::{PduHeader, PduStatusRecord},
};
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ------------------------------------------------- C17, copies, comparisons

/// `==` and `clone` where the type has them (method resolution prefers the first impl).
pub struct Probe<'a, T>(pub &'a T, pub &'a T);
pub trait ViaEq {
    fn eq_ne(&self) -> Option<(bool, bool)>;
}
impl<T: PartialEq> ViaEq for Probe<'_, T> {
    fn eq_ne(&self) -> Option<(bool, bool)> {
        Some((self.0 == self.1, self.0 != self.1))
    }
}
pub trait NoEq {
    fn eq_ne(&self) -> Option<(bool, bool)>;
}
impl<T> NoEq for &Probe<'_, T> {
    fn eq_ne(&self) -> Option<(bool, bool)> {
        None
    }
}

pub struct Pair {
    /// copy of the first, copy of the first assigned over the second
    pub clone: V,
    pub assigned: V,
    /// the first after its copy was replaced by the second
    pub after: V,
    pub eq: Option<(bool, bool)>,
    pub eq_clone: Option<(bool, bool)>,
}

#[macro_export]
macro_rules! pair_op {
    ($p:path) => {
        |a, b| {
            #[allow(unused_imports)]
            use $crate::value::{NoEq, Probe, ViaEq};
            let (x, y) = (<$p as Conv>::from_v(a), <$p as Conv>::from_v(b));
            #[allow(clippy::clone_on_copy)]
            let mut c = x.clone();
            let clone = c.to_v();
            let eq_clone = (&Probe::<$p>(&x, &c)).eq_ne();
            let mut d = <$p as Conv>::from_v(b);
            d.clone_from(&x);
            let assigned = d.to_v();
            c.clone_from(&y);
            let _ = c.to_v();
            $crate::value::Pair { clone, assigned, after: x.to_v(), eq: (&Probe::<$p>(&x, &y)).eq_ne(), eq_clone }
        }
    };
}

/// Whether values are equal field by field; floats as numbers. None: not to be judged.
fn equal(ty: &Ty, a: &V, b: &V) -> Option<bool> {
    let all = |fs: &[Field], x: &[V], y: &[V]| {
        fs.iter().zip(x.iter().zip(y)).try_fold(true, |t, (f, (x, y))| Some(t & equal(&f.ty, x, y)?))
    };
    Some(match ty {
        Ty::Pad(_) | Ty::Align(_) => true,
        Ty::F(4) => f32::from_bits(a.n() as u32) == f32::from_bits(b.n() as u32),
        Ty::F(_) => f64::from_bits(a.n()) == f64::from_bits(b.n()),
        Ty::Rec(n) => return all(&rec(n).fields, a.fields(), b.fields()),
        Ty::OptBytes(_) | Ty::OptVec(_) => return None,
        Ty::Vec(t) => match (a, b) {
            (V::L(x), V::L(y)) => {
                if x.len() != y.len() {
                    return Some(false);
                }
                return x.iter().zip(y).try_fold(true, |e, (x, y)| Some(e & equal(t, x, y)?));
            }
            // packed floats and integers
            (V::B(x), V::B(y)) if matches!(**t, Ty::F(_)) => return (x == y).then_some(true),
            _ => a == b,
        },
        Ty::Variant(n) => {
            let (V::X(s, x), V::X(t, y)) = (a, b) else { return None };
            if s != t {
                return Some(false);
            }
            return all(variant_fields(n, *s), x, y);
        }
        _ => a == b,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Copies {
    pub a: V,
    pub b: V,
}

/// Change one place of a record.
fn alter(r: &Rec, v: &mut V, at: usize, x: u64) {
    let mut places = 0;
    let ok = |t: &Ty, v: &V| match t {
        Ty::U(_) | Ty::I(_) | Ty::F(_) | Ty::Flags(_) | Ty::Enum(..) => matches!(v, V::N(_)),
        Ty::Barr(_) | Ty::Bytes => matches!(v, V::B(b) if !b.is_empty()),
        Ty::Vec(_) => matches!(v, V::L(l) if !l.is_empty()),
        _ => false,
    };
    walk(&Ty::Rec(r.name.clone()), v, &mut |t, v| places += usize::from(ok(t, v)));
    if places == 0 {
        return;
    }
    let (at, mut i) = (at % places, 0);
    let mut done = false;
    walk(&Ty::Rec(r.name.clone()), v, &mut |t, v| {
        if done || !ok(t, v) {
            return;
        }
        if i < at {
            i += 1;
            return;
        }
        done = true;
        match (t, v) {
            (Ty::Enum(e, _), v) => {
                let c = &schema().enums[e].codes;
                *v = V::N(c[x as usize % c.len()]);
            }
            (t, V::N(n)) => *n ^= 1 << (x % (8 * u64::from(int_width(t).unwrap_or(1)))),
            (_, V::B(b)) => {
                let k = (x >> 3) as usize % b.len();
                b[k] ^= 1 << (x & 7);
            }
            (_, V::L(l)) => {
                l.pop();
            }
            _ => {}
        }
    });
}

pub fn k_copy(s: &str, c: &Copies) -> Res {
    use open_dis_rust::common::data_types::{grid_axis_descriptor::GridAxisType, grid_data_record::DataRepresentationType};
    let op = RECS.iter().find(|o| o.name == s).unwrap();
    let seen = judge(&Ty::Rec(s.into()), s, &c.a, &c.b, op.pair)?;
    for (i, f) in rec(s).fields.iter().enumerate() {
        if let Ty::Variant(n) = &f.ty {
            let op: fn(&V, &V) -> Pair = match n.as_str() {
                "GridAxisType" => crate::pair_op!(GridAxisType),
                "DataRepresentationType" => crate::pair_op!(DataRepresentationType),
                _ => return Err(format!("harness: {n}")),
            };
            judge(&f.ty, n, &c.a.fields()[i], &c.b.fields()[i], op)?;
        }
    }
    Ok(seen)
}

fn judge(ty: &Ty, s: &str, a: &V, b: &V, op: fn(&V, &V) -> Pair) -> Res {
    let p = op(a, b);
    for (what, v) in [("a copy", &p.clone), ("a value assigned a copy", &p.assigned), ("the original after its copy was changed", &p.after)] {
        if let Some(d) = diff(ty, a, v) {
            return Err(format!("{what} of {s}: {s}{d}"));
        }
    }
    let want = equal(ty, a, b);
    for (what, got, want) in [("", p.eq, want), (" to its copy", p.eq_clone, equal(ty, a, a))] {
        if let (Some((eq, ne)), Some(want)) = (got, want) {
            ensure!(eq == want, "{s} compares as {}equal{what}", if eq { "" } else { "not " });
            ensure!(ne != want, "{s} compares with != as {}{what}", ne);
        }
    }
    Ok(Seen::when(want != Some(true)).label_if(p.eq.is_some(), "has =="))
}

/// Enumeration members, by code.
pub fn k_enum_eq(s: &str, c: &(u64, u64)) -> Res {
    let e = ENUMS.iter().find(|e| e.name == s).unwrap();
    let (x, y) = (e.pair)(c.0, c.1);
    ensure!(x == (c.0 == c.1), "{s}: members {} and {} compare as {}equal", c.0, c.1, if x { "" } else { "not " });
    ensure!(y == c.0, "{s}: copy of {} is {y}", c.0);
    Ok(Seen::when(c.0 != c.1))
}

/// Header octets, and another one that differs in at most one octet.
pub fn k_header_eq(s: &str, c: &(Vec<u8>, usize, u8)) -> Res {
    let (a, mut b) = (c.0.clone(), c.0.clone());
    b[c.1 % 11] = c.2;
    // octet 11 is padding
    fn go<H: GenericHeader + PartialEq + Clone>(a: &[u8], b: &[u8]) -> Result<(bool, bool, bool, bool), String> {
        let (x, y) = (H::deserialize(&mut &a[..]), H::deserialize(&mut &b[..]));
        let mut z = x.clone();
        let copied = z == x;
        z.set_length(!z.length());
        Ok((x == y, x != y, copied, x.length() == u16::from_be_bytes([a[8], a[9]])))
    }
    let known = |name: &str, x: u8| {
        let e = &schema().enums[name];
        if e.set.contains(&u64::from(x)) { x } else { e.default as u8 }
    };
    let norm = |o: &[u8]| {
        let mut o = o.to_vec();
        o[0] = known("ProtocolVersion", o[0]);
        o[2] = known("PduType", o[2]);
        o[3] = known("ProtocolFamily", o[3]);
        if s == "LiveEntityPduHeader" {
            o[10] = known("DISLiveEntitySubprotocolNumber", o[10]);
        }
        o
    };
    let want = norm(&a) == norm(&b);
    let (eq, ne, copied, kept) = match s {
        "PduHeader" => go::<PduHeader>(&a, &b)?,
        "LiveEntityPduHeader" => go::<LiveEntityPduHeader>(&a, &b)?,
        _ => {
            let (x, y) = (PduStatusRecord::from_u8(a[c.1 % 11]), PduStatusRecord::from_u8(c.2));
            #[allow(clippy::clone_on_copy)]
            let z = x.clone();
            let want = a[c.1 % 11] == c.2;
            ensure!((x == y) == want && (x != y) != want, "status {:#x} and {:#x} compare as {}equal", a[c.1 % 11], c.2, if x == y { "" } else { "not " });
            ensure!(x == z, "copy of status {:#x} differs", a[c.1 % 11]);
            return Ok(Seen::when(!want));
        }
    };
    ensure!(eq == want && ne != want, "{s}s {a:02x?} and {b:02x?} compare as {}equal", if eq { "" } else { "not " });
    ensure!(copied, "copy of {s} {a:02x?} differs");
    ensure!(kept, "changing a copy of {s} {a:02x?} changed it");
    Ok(Seen::when(!want))
}

type Out = (&'static str, Vec<&'static str>);

pub fn copies(ctx: &Ctx, n: u32) -> Out {
    const O: Opts = Opts { wire: false, safe: Safe::No, big: false };
    RECS.par_iter().with_max_len(1).for_each(|op| {
        let r = rec(op.name);
        let st = (rec_case(r, O), rec_case(r, O), 0u8..8, 0usize..4096, any::<u64>(), any::<u64>())
            .prop_map(move |(mut a, b, how, at, x, mut y)| {
                // counts need not agree with the lists
                if y % 2 == 0 {
                    loosen(&r.fields, a.fields_mut(), &mut y);
                }
                match how {
                0 => Copies { a, b },
                1 => Copies { b: a.clone(), a },
                _ => {
                    let mut b = a.clone();
                    alter(r, &mut b, at, x);
                    Copies { a, b }
                }
            }})
            .boxed();
        search(ctx, "copy", op.name, &st, n, |c| k_copy(op.name, c));
    });
    ENUMS.par_iter().for_each(|e| {
        let codes = &schema().enums[e.name].codes;
        let mut l = Local::new(ctx, "enum-eq", e.name);
        for a in codes {
            for b in codes {
                if l.judge(a << 32 | b, || (*a, *b), || k_enum_eq(e.name, &(*a, *b))) {
                    return;
                }
            }
        }
    });
    ["PduHeader", "LiveEntityPduHeader", "PduStatusRecord"].par_iter().for_each(|s| {
        let mut l = Local::new(ctx, "header-eq", s);
        let mut i = ctx.seed;
        for pos in 0..11usize {
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    i = i.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
                    let mut b = i.to_be_bytes().to_vec();
                    b.extend((i >> 17).to_le_bytes());
                    b.truncate(12);
                    (b[0], b[2], b[3]) = (b[0] % 9, b[2] % 75, b[3] % 16);
                    b[pos] = x;
                    let c = (b, pos, y);
                    if l.judge(hash(&c), || c.clone(), || k_header_eq(s, &c)) {
                        return;
                    }
                }
            }
        }
    });
    ("pairs of records (independent, equal, and differing in one place), copied, assigned and compared; all pairs of members of every enumeration; header pairs in which one octet takes all pairs of values. Non-trivial: the two differ.",
     vec!["comparison is judged only for types that have it; fields that can be absent are not judged in comparisons"])
}

// ------------------------------------------------- C18, errors and limits

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Errs {
    pub which: u8,
    pub texts: [String; 3],
    pub source: Option<String>,
    /// the kinds of error that stand between the error made and its innermost cause
    #[serde(default)]
    pub chain: Vec<u8>,
    pub nums: [u64; 2],
}

pub fn k_error(_: &str, c: &Errs) -> Res {
    let [a, b, d] = c.texts.clone();
    let (x, y) = (c.nums[0] as usize, c.nums[1] as usize);
    type Cause = Box<dyn Error + Send + Sync>;
    let src = || {
        c.chain.iter().rev().enumerate().fold(c.source.clone().map(Cause::from), |inner, (i, kind)| {
            let m = format!("cause {i}");
            Some(match (kind % 6, inner) {
                (0, s) => DISError::invalid_header(m, s).into(),
                (1, s) => DISError::deserialization_error(m, s).into(),
                (2, s) => DISError::serialization_error(m, s).into(),
                (3, Some(s)) => DISError::from(std::io::Error::other(s)).into(),
                (4, Some(s)) => std::io::Error::other(s).into(),
                (5, None) => DISError::buffer_underflow(2, 1).into(),
                (_, s) => DISError::deserialization_error(String::new(), s).into(),
            })
        })
    };
    let state = |n: u64| [PduState::Uninitialized, PduState::HeaderValid, PduState::BodyValid, PduState::Complete][n as usize % 4];
    // the message of each cause, outermost first
    let causes = |e: Option<&(dyn Error + 'static)>| {
        let (mut e, mut out) = (e, vec![]);
        while let Some(x) = e {
            out.push((x.is::<DISError>(), x.is::<std::io::Error>(), format!("{x} {x:?}")));
            e = x.source();
        }
        out
    };
    let mut source = causes(src().as_deref().map(|e| e as &(dyn Error + 'static)));
    let kinds = [std::io::ErrorKind::NotFound, std::io::ErrorKind::TimedOut, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::Other];
    let (e, said) = match c.which % 9 {
        0 => {
            let e = DISError::invalid_header(a.clone(), src());
            ensure!(matches!(&e, DISError::InvalidHeader { reason, .. } if *reason == a), "invalid_header({a:?}) is {e:?}");
            (e, vec![a])
        }
        1 => {
            let e = DISError::deserialization_error(a.as_str(), src());
            ensure!(matches!(&e, DISError::DeserializationError { msg, .. } if *msg == a), "deserialization_error({a:?}) is {e:?}");
            (e, vec![a])
        }
        2 => {
            let e = DISError::serialization_error(a.as_str(), src());
            ensure!(matches!(&e, DISError::SerializationError { msg, .. } if *msg == a), "serialization_error({a:?}) is {e:?}");
            (e, vec![a])
        }
        3 => {
            let e = DISError::invalid_field(a.as_str(), b.as_str(), d.as_str());
            ensure!(matches!(&e, DISError::InvalidFieldValue { field, value, reason } if *field == a && *value == b && *reason == d), "invalid_field({a:?}, {b:?}, {d:?}) is {e:?}");
            source = vec![];
            (e, vec![a, b, d])
        }
        4 => {
            let e = DISError::buffer_underflow(x, y);
            ensure!(matches!(&e, DISError::BufferUnderflow { attempted, available } if *attempted == x && *available == y), "buffer_underflow({x}, {y}) is {e:?}");
            source = vec![];
            (e, vec![x.to_string(), y.to_string()])
        }
        5 => {
            let e = DISError::pdu_size_exceeded(x, y);
            ensure!(matches!(&e, DISError::PduSizeExceeded { size, max_size } if *size == x && *max_size == y), "pdu_size_exceeded({x}, {y}) is {e:?}");
            source = vec![];
            (e, vec![x.to_string(), y.to_string()])
        }
        6 => {
            let kind = kinds[x % 5];
            let e = DISError::from(std::io::Error::new(kind, a.clone()));
            ensure!(matches!(&e, DISError::NetworkError(i) if i.kind() == kind && i.to_string() == a), "error from {kind:?} {a:?} is {e:?}");
            // whatever the source of an I/O error is, it is a source
            let io = e.source().and_then(|s| s.downcast_ref::<std::io::Error>());
            ensure!(io.is_some_and(|i| i.kind() == kind && i.to_string() == a), "the source of a network error is {:?}", e.source());
            ensure!(e.to_string().contains(&a), "{:?} does not say {a:?}", e.to_string());
            return Ok(Seen::yes().label("network"));
        }
        7 => {
            let (p, q) = (state(c.nums[0]), state(c.nums[1]));
            source = vec![];
            (DISError::InvalidStateTransition { current_state: p, target_state: q }, vec![format!("{p:?}"), format!("{q:?}")])
        }
        _ => {
            let codes = &schema().enums["ProtocolVersion"].codes;
            let v = |n: u64| <open_dis_rust::common::enums::ProtocolVersion as Conv>::from_v(&V::N(codes[n as usize % codes.len()]));
            let (p, q) = (v(c.nums[0]), v(c.nums[1]));
            source = vec![];
            (DISError::ProtocolVersionMismatch { expected: p, got: q }, vec![format!("{p:?}"), format!("{q:?}")])
        }
    };
    let text = e.to_string();
    let mut rest = text.as_str();
    for s in &said {
        // in the order given
        match rest.find(s.as_str()) {
            Some(i) => rest = &rest[i + s.len()..],
            None => return Err(format!("{text:?} does not say {said:?}")),
        }
    }
    ensure!(causes(e.source()) == source, "causes of {text:?} are {:?}, not {source:?}", causes(e.source()));
    ensure!(format!("{e:?}").len() > 3, "debug form of {text:?}");
    Ok(Seen::yes())
}

/// A PDU of which only the first octets are there.
pub fn k_short(s: &str, c: &(PduCase, usize)) -> Res {
    let i = PDUS.iter().find(|p| p.name == s).unwrap();
    let r = rec(s);
    let b = enc_pdu(r, &c.0.hdr(), &c.0.vals);
    let cut = c.1 % b.len();
    let check = |what: &str, e: &DISError, there: usize| {
        let DISError::BufferUnderflow { attempted, available } = e else {
            return Err(format!("{what}: {cut} of {} octets refused with {e}", b.len()));
        };
        ensure!(*available <= there && *attempted > there, "{what}: {there} octets there, error says {e}");
        let t = e.to_string();
        ensure!(t.contains(&attempted.to_string()) && t.contains(&available.to_string()), "{what}: {t}");
        Ok(())
    };
    match (i.dec)(&mut &b[..cut]) {
        Ok(_) => return Err(format!("{cut} of {} octets accepted", b.len())),
        Err(e) => check("in one step", &e, cut)?,
    }
    if cut >= 12 {
        let mut rd = &b[..cut];
        let h = PduHeader::deserialize(&mut rd);
        match (i.dec_body)(&mut rd, h) {
            Ok(_) => return Err(format!("{cut} of {} octets accepted after the header", b.len())),
            Err(e) => check("after the header", &e, cut - 12)?,
        }
    }
    // how the octets are divided changes nothing
    let k = crate::run::hash(&b);
    let cuts = [(k >> 8) as usize, (k >> 24) as usize, (k >> 40) as usize];
    let mut chunks = crate::alloc::Chunks::new(&b[..cut], &cuts[..1 + k as usize % 3]);
    match (i.dec)(&mut chunks) {
        Ok(_) => return Err(format!("{cut} of {} octets in several chunks accepted", b.len())),
        Err(e) => check("in several chunks", &e, cut)?,
    }
    if cut >= 12 {
        let mut chunks = crate::alloc::Chunks::new(&b[..cut], &cuts[..1 + k as usize % 3]);
        let h = PduHeader::deserialize(&mut chunks);
        match (i.dec_body)(&mut chunks, h) {
            Ok(_) => return Err(format!("{cut} of {} octets in several chunks accepted after the header", b.len())),
            Err(e) => check("in several chunks after the header", &e, cut - 12)?,
        }
    }
    Ok(Seen::when(cut > 0))
}

pub fn k_limit(_: &str, n: &u64) -> Res {
    let n = *n as usize;
    ensure!(k::validate_pdu_size(n) == (n <= 8192), "a PDU of {n} octets is valid: {}", k::validate_pdu_size(n));
    ensure!(k::validate_marking_length(n) == (n <= 32), "a marking of {n} octets is valid: {}", k::validate_marking_length(n));
    if let Some(t) = n.checked_add(12) {
        ensure!(k::total_pdu_size(n) == t, "total size of {n} is {}", k::total_pdu_size(n));
        ensure!(k::validate_pdu_size(k::total_pdu_size(n)) == (n <= 8180), "payload of {n} octets");
    }
    ensure!(k::MAX_PDU_SIZE_OCTETS == 8192 && k::MAX_PDU_SIZE_BITS == 65_536 && k::BITS_PER_BYTE == 8 && k::PDU_HEADER_SIZE == 12, "size constants");
    ensure!([k::ALL_ENTITIES, k::ALL_APPLIC, k::ALL_SITES, k::ALL_AGGS, k::ALL_OBJECTS, k::EP_NO_SEQUENCE] == [0xffff; 6], "wildcard constants");
    ensure!([k::ALL_EMITTERS, k::ALL_BEAMS] == [0xff; 2] && k::RQST_ASSIGN_ID == 0xfffe, "wildcard constants");
    ensure!([k::NO_ENTITY, k::NO_APPLIC, k::NO_SITE, k::NO_AGG, k::NO_BEAM, k::NO_CATEGORY, k::NO_EMITTER, k::NO_FIRE_MISSION, k::NO_KIND, k::NO_OBJECT,
             k::NO_REF_NUMBER, k::NO_SPECIFIC, k::NO_SUBCAT, k::NO_VALUE] == [0; 14], "constants for none");
    Ok(Seen::yes())
}

pub fn errors(ctx: &Ctx, n: u32) -> Out {
    let piece = || {
        prop_oneof![
            any::<String>(),
            "[a-z_]{0,12}",
            "[\\x00-\\x7f]{0,6}",
            proptest::sample::select(vec![
                "", "{}", "{0}", "{{", "%s", "a\nb", "0", "ü", " = ", " ", "  ", "\t", "\n", "\r\n", "\0", "\u{feff}", "\u{a0}", "\u{2028}",
                "\"", "'", "\\", "...", "…", ":", ": ", ",", ";", "-", "/", "None", "Some", "true", "null", "NaN", "-1", "0x10", "ß", "İ", "e\u{301}",
                "\u{1f600}", "\u{10ffff}", "\u{7f}", "\u{85}", "Error", "error: ", "caused by", "A", "a",
            ])
            .prop_map(String::from),
        ]
    };
    let text = || {
        (proptest::collection::vec(piece(), 0..5), prop_oneof![9 => Just(1usize), 2 => 2usize..60, 1 => 60usize..4000])
            .prop_map(|(v, n)| {
                let s = v.concat();
                let n = n.min(1 + 40_000 / s.len().max(1));
                s.repeat(n)
            })
    };
    let num = || prop_oneof![any::<u64>(), 0u64..10_000, Just(u64::MAX), Just(8192u64)];
    let chain = || prop_oneof![Just(vec![]), proptest::collection::vec(0u8..6, 1..4)];
    let st = (any::<u8>(), [text(), text(), text()], proptest::option::of(text()), chain(), [num(), num()])
        .prop_map(|(which, texts, source, chain, nums)| Errs { which, texts, source, chain, nums })
        .boxed();
    search(ctx, "error", "DISError", &st, 8 * n, |c| k_error("", c));
    let mut l = Local::new(ctx, "limit", "constants");
    for i in 0..200_000u64 {
        let n = match i {
            0..70_000 => i,
            70_000..140_000 => u64::MAX - (i - 70_000),
            _ => crate::run::hash(&(i, ctx.seed)) >> (i % 60),
        };
        if l.judge(n, || n, || k_limit("constants", &n)) {
            return ("", vec![]);
        }
    }
    drop(l);
    const O: Opts = Opts { wire: false, safe: Safe::Strict, big: false };
    PDUS.par_iter().with_max_len(1).for_each(|p| {
        let st = (pdu_case(rec(p.name), O), any::<u64>()).prop_map(|(c, x)| (c, x as usize)).boxed();
        search(ctx, "short", p.name, &st, n, |c| k_short(p.name, c));
    });
    ("every kind of error made from generated texts, numbers and chains of causes; generated PDUs of every type cut at a generated place, read in one step and in two; the size helpers at every size around the limits, small, huge and random. Non-trivial: every error and size; cuts that leave at least one octet.",
     vec!["wording of messages is not prescribed, only that they contain the particulars in order"])
}
