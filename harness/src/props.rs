//! The properties.  Each `k_*` function is one executable check on one generated case;
//! `check` drives them, `replay` re-runs one of them on a saved case.
use crate::{
    alloc::{Chunks, CountingBuf, held, measure},
    gen_::{ENUMS, PDUS, RECS},
    model::*,
    run::*,
    strat::*,
};
use bytes::{Buf, BytesMut};
use open_dis_rust::common::{
    GenericHeader, SerializedLength, dis_error::DISError,
    live_entity_pdu_header::LiveEntityPduHeader, pdu_header::PduHeader,
};
use proptest::{collection::vec, prelude::*, sample::select, strategy::Union};
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::{collections::HashMap, sync::OnceLock};

pub const MAX: usize = 8192;
pub const HEADER: usize = 12;

pub fn info(name: &str) -> &'static PduInfo {
    PDUS.iter().find(|p| p.name == name).unwrap_or_else(|| panic!("harness: no PDU {name}"))
}
fn recops(name: &str) -> &'static RecOps {
    RECS.iter().find(|p| p.name == name).unwrap_or_else(|| panic!("harness: no record {name}"))
}

pub const FULL: Opts = Opts { wire: false, safe: Safe::No, big: true };
pub const LAST: Opts = Opts { wire: false, safe: Safe::Last, big: true };
pub const STRICT: Opts = Opts { wire: false, safe: Safe::Strict, big: true };
pub const STRICT_SMALL: Opts = Opts { wire: false, safe: Safe::Strict, big: false };
pub const WIRE: Opts = Opts { wire: true, safe: Safe::Last, big: true };
pub const WIRE_STRICT: Opts = Opts { wire: true, safe: Safe::Strict, big: false };
pub const WIRE_FULL: Opts = Opts { wire: true, safe: Safe::No, big: false };

/// The PDUs and records that the recorded findings concern
const FINDING_PDUS: [&str; 2] = ["MinefieldDataPdu", "GriddedDataPdu"];

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn err(e: DISError) -> String {
    format!("{e:?}")
}

fn nonzero(c: &PduCase, bytes: &[u8]) -> bool {
    // a body with something in it
    bytes.get(HEADER..).is_some_and(|b| b.iter().any(|x| *x != 0)) || c.vals.is_empty()
}

pub fn ser(p: &mut dyn DynPdu) -> Result<Vec<u8>, DISError> {
    let mut b = room(p.hdr().timestamp.into());
    p.ser(&mut b)?;
    Ok(b.to_vec())
}

/// An empty buffer with more or less room.
pub fn room(k: u64) -> BytesMut {
    BytesMut::with_capacity([0, 0, 0, 13, 100, 1500, 9000, 70_000][hash(&k) as usize % 8])
}

/// The octets in memory at an address that is `at` modulo 16.
pub fn placed<R>(b: &[u8], at: u64, f: impl FnOnce(&[u8]) -> R) -> R {
    let mut v = vec![0xa5; b.len() + 32];
    let from = (at as usize).wrapping_sub(v.as_ptr() as usize) % 16;
    v[from..from + b.len()].copy_from_slice(b);
    f(&v[from..from + b.len()])
}

/// Type, family and the other header fields of a decoded or serialized PDU.
fn check_hdr(h: &PduHeader, c: &PduCase, r: &Rec, len: usize) -> Result<(), String> {
    let (t, f) = r.pdu.unwrap();
    ensure!(h.protocol_version.to_v().n() == u64::from(c.version), "header version {:?} != {}", h.protocol_version, c.version);
    ensure!(h.exercise_id == c.exercise, "header exercise id {} != {}", h.exercise_id, c.exercise);
    ensure!(h.pdu_type.to_v().n() == u64::from(t), "header type {:?} != {t}", h.pdu_type);
    ensure!(h.protocol_family.to_v().n() == u64::from(f), "header family {:?} != {f}", h.protocol_family);
    ensure!(h.timestamp == c.timestamp, "header timestamp {} != {}", h.timestamp, c.timestamp);
    ensure!(usize::from(h.length) == len, "header length {} != {len}", h.length);
    ensure!(h.status_record.to_u8() == c.status, "header status {:#x} != {:#x}", h.status_record.to_u8(), c.status);
    Ok(())
}

fn list_labels(s: Seen, r: &Rec, v: &[V], n: usize) -> Seen {
    let mut most = 0;
    let mut nested = false;
    for (f, x) in r.fields.iter().zip(v) {
        if matches!(f.ty, Ty::Vec(_) | Ty::OptVec(_) | Ty::Bytes | Ty::OptBytes(_)) {
            most = most.max(x.count());
        }
        if let (Ty::Vec(_), V::L(l)) = (&f.ty, x) {
            nested |= l.iter().any(|e| matches!(e, V::R(g) if g.iter().any(|y| matches!(y, V::L(m) if !m.is_empty()))));
        }
    }
    s.label_if(most > 0, "list not empty")
        .label_if(most > 16, "list of more than 16")
        .label_if(most >= 255, "list of 255 or more")
        .label_if(nested, "nested list not empty")
        .label_if(n > 1024, "more than 1024 octets")
        .label_if(n > 4096, "more than 4096 octets")
}

// ======================================================= C01 round trip

pub fn k_rt(s: &str, c: &PduCase) -> Res {
    let (i, r) = (info(s), rec(s));
    let size = enc_pdu(r, &c.hdr(), &c.vals).len();
    let mut p = build(i, r, c);
    if size > MAX {
        return Ok(Seen::default().label("too big, skipped"));
    }
    let b = ser(&mut *p).map_err(|e| format!("serialize: {}", err(e)))?;
    let q = placed(&b, hash(&&b[..]), |b| (i.dec)(&mut &b[..])).map_err(|e| format!("deserialize of own encoding: {}", err(e)))?;
    let mut want = c.vals.clone();
    canon_fields(&r.fields, &mut want);
    if let Some(d) = diff_fields(&r.fields, &want, &model(r, &*q)) {
        return Err(format!("written and read back differ: {s}{d}"));
    }
    check_hdr(q.hdr(), c, r, b.len())?;
    // nearly the same once more, from the same object
    let k = hash(&&b[..]);
    if k % 4 == 0 && b.len() < 2000 {
        let mut vals = model(r, &*q);
        nudge(&r.fields, &mut vals, k >> 2);
        settle(r, &mut vals, STRICT);
        let mut q = q;
        for (f, v) in vals.iter().enumerate() {
            q.set(f, v);
        }
        let mut want = vals;
        canon_fields(&r.fields, &mut want);
        let b = ser(&mut *q).map_err(|e| format!("serialize a variant: {}", err(e)))?;
        let q = (i.dec)(&mut &b[..]).map_err(|e| format!("deserialize of the encoding of a variant: {}", err(e)))?;
        if let Some(d) = diff_fields(&r.fields, &want, &model(r, &*q)) {
            return Err(format!("a variant written and read back differs: {s}{d}"));
        }
    }
    Ok(list_labels(Seen::when(nonzero(c, &b)), r, &c.vals, b.len()))
}

/// Where a recorded finding may show: the outcome must be the intended one, or exactly the
/// one the finding predicts.
pub fn k_finding(s: &str, c: &(PduCase, Vec<u8>)) -> Res {
    let (i, r) = (info(s), rec(s));
    let (c, tail) = c;
    let mut b = enc_pdu(r, &c.hdr(), &c.vals);
    if b.len() > MAX {
        return Ok(Seen::default().label("too big, skipped"));
    }
    b.extend_from_slice(tail);
    let mut rd: &[u8] = &b;
    let actual = (i.dec)(&mut rd).map(|q| (model(r, &*q), rd.len()));
    let mut want = c.vals.clone();
    canon_fields(&r.fields, &mut want);
    if let Ok((m, rest)) = &actual {
        if diff_fields(&r.fields, &want, m).is_none() && *rest == tail.len() {
            return Ok(Seen::yes().label("decoded as intended"));
        }
    }
    let mut lr = &b[HEADER..];
    LEGACY.set(true);
    let legacy = dec_fields(&r.fields, &mut lr);
    LEGACY.set(false);
    let name = if s == "MinefieldDataPdu" { "minefield-optional-lists" } else { "grid-padding-to-end" };
    match (&actual, &legacy) {
        (Ok((m, rest)), Ok(l)) => {
            if let Some(d) = diff_fields(&r.fields, l, m) {
                return Err(format!("neither as intended nor as in finding {name}: {s}{d}"));
            }
            ensure!(*rest == lr.len(), "neither as intended nor as in finding {name}: {rest} bytes left, not {}", lr.len());
        }
        (Err(DISError::BufferUnderflow { .. }), Err(DecErr::Underflow)) => {}
        (a, _) => {
            return Err(format!(
                "neither as intended nor as in finding {name}: {:?}",
                a.as_ref().map(|_| "decoded").map_err(|e| format!("{e:?}"))
            ));
        }
    }
    Ok(Seen { known: Some(name.into()), ..Seen::yes() })
}

// ------------------------------------------------------------- sweeping

/// Leaf values of the i-th case of a sweep: over 65,536 cases every scalar of up to 16 bits
/// takes every value, every enumeration every member.
pub fn latin(r: &Rec, base: &[V], i: u64, o: Opts) -> Vec<V> {
    let mut v = base.to_vec();
    let mut k = 0u64;
    for (f, x) in r.fields.iter().zip(v.iter_mut()) {
        walk(&f.ty, x, &mut |t, x| {
            k += 1;
            let z = i.wrapping_mul(2 * k + 1).wrapping_add(k.wrapping_mul(0x9e37)) & 0xffff;
            let wide = z | (z.wrapping_mul(0x1_0001_0001) ^ (i.wrapping_mul(0x9e37_79b9_7f4a_7c15) << 16));
            match t {
                Ty::U(1) | Ty::I(1) => *x = V::N((z ^ (z >> 8)) & 0xff),
                Ty::U(w) | Ty::I(w) | Ty::Flags(w) => *x = V::N(wide & mask(*w)),
                Ty::F(w) => *x = V::N(wide.rotate_left(8 * u32::from(*w) - 16) & mask(*w)),
                Ty::Enum(e, _) => {
                    let c = &schema().enums[e].codes;
                    *x = V::N(c[(z as usize + (z as usize >> 8)) % c.len()]);
                }
                Ty::Barr(n) => *x = V::B((0..*n as u64).map(|j| (z + j * 37) as u8).collect()),
                _ => {}
            }
        });
    }
    settle(r, &mut v, o);
    v
}

/// A base value in which every list has `n` elements.
pub fn one_each(ty: &Ty, n: usize) -> V {
    match ty {
        Ty::Rec(r) => V::R(rec(r).fields.iter().map(|f| one_each(&f.ty, n)).collect()),
        Ty::Vec(t) => V::L((0..n).map(|_| one_each(t, n)).collect()),
        Ty::OptVec(t) => V::L((0..n).map(|_| V::O(Some(Box::new(one_each(t, n))))).collect()),
        Ty::Bytes => V::B(vec![0x5a; n]),
        Ty::OptBytes(_) => V::O((n > 0).then(|| Box::new(V::B(vec![0x5a; n])))),
        Ty::Marking(_) => V::B(b"AB".to_vec()),
        t => zero(t),
    }
}

pub fn sweep_case(r: &Rec, i: u64, o: Opts) -> PduCase {
    static BASE: OnceLock<HashMap<String, [Vec<V>; 2]>> = OnceLock::new();
    let base = BASE.get_or_init(|| {
        schema()
            .recs
            .values()
            .map(|r| {
                let f = |n| r.fields.iter().map(|f| one_each(&f.ty, n)).collect::<Vec<_>>();
                (r.name.clone(), [f(1), f(0)])
            })
            .collect()
    });
    let ver = &schema().enums["ProtocolVersion"].codes;
    PduCase {
        version: ver[i as usize % ver.len()] as u8,
        exercise: (i.wrapping_mul(7) >> 3) as u8,
        timestamp: (i as u32).wrapping_mul(0x9e37_79b1),
        status: i as u8,
        garbage: i.wrapping_mul(0x2545_f491_4f6c_dd1d),
        vals: latin(r, &base[&r.name][usize::from(i % 5 == 4)], i, o),
    }
}

fn sweep(ctx: &Ctx, kind: &'static str, s: &str, n: u64, o: Opts, test: fn(&str, &PduCase) -> Res) {
    let r = rec(s);
    let mut l = Local::new(ctx, kind, s);
    for i in 0..n {
        let c = sweep_case(r, i, o);
        if l.judge(i, || c.clone(), || test(s, &c)) {
            break;
        }
    }
}

/// Every list and octet string of a PDU or record, however deep, at sizes up to what fits a PDU;
/// the lists around it have one or two elements, the scalars arbitrary values.
pub fn list_sizes(s: &str, o: Opts, top: usize, test: &mut dyn FnMut(u64, Vec<V>) -> bool) {
    fn alternative(ty: &Ty, v: &mut V, k: u8, n: usize) {
        walk(ty, v, &mut |t, x| {
            if let Ty::Variant(name) = t {
                let k = k % variant_count(name);
                *x = V::X(k, variant_fields(name, k).iter().map(|f| one_each(&f.ty, n)).collect());
            }
        });
    }
    fn resize(v: &mut V, t: &Ty, n: usize, x: u64) {
        let fill = |n: usize| V::B((0..n as u64).map(|i| (i * 37 ^ x) as u8).collect());
        match (t, &mut *v) {
            (Ty::Bytes, _) => *v = fill(n),
            (Ty::OptBytes(_), _) => *v = V::O((n > 0).then(|| Box::new(fill(n)))),
            (Ty::Vec(e), V::L(l)) => {
                let z = l.first().filter(|_| x % 3 == 0).cloned().unwrap_or_else(|| one_each(e, 0));
                *l = vec![z; n];
            }
            (Ty::OptVec(e), V::L(l)) => *l = vec![V::O(Some(Box::new(one_each(e, 0)))); n],
            _ => {}
        }
    }
    let r = rec(s);
    let is_list = |t: &Ty| matches!(t, Ty::Vec(_) | Ty::OptVec(_) | Ty::Bytes | Ty::OptBytes(_));
    let mut sizes: std::collections::BTreeSet<usize> = (0..=40)
        .chain([47, 48, 49, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 192, 199, 200, 201, 240, 250, 254, 255, 256, 257, 300, 384, 400, 500, 511, 512, 513])
        .chain([600, 700, 800, 900, 1000, 1001, 1023, 1024, 1025, 1100, 1200, 1280, 1300, 1400, 1500, 1600, 1800, 2000, 2047, 2048, 2049, 2500, 3000, 3500])
        .chain([4000, 4095, 4096, 4097, 5000, 6000, 7000, 8000, 8100])
        .collect();
    sizes.extend(edited_ints().into_iter().filter(|n| *n <= 8192).map(|n| n as usize));
    let mut key = 0u64;
    for k in 0..3u8 {
        let has = |ty: &Ty| {
            let mut found = false;
            walk(ty, &mut one_each(ty, 1), &mut |t, _| found |= matches!(t, Ty::Variant(_)));
            found
        };
        if k > 0 && !r.fields.iter().any(|f| has(&f.ty)) {
            break;
        }
        for around in [1, 2] {
            let mut base: Vec<V> = r.fields.iter().map(|f| one_each(&f.ty, around)).collect();
            r.fields.iter().zip(base.iter_mut()).for_each(|(f, v)| alternative(&f.ty, v, k, around));
            let mut places = 0;
            r.fields.iter().zip(base.iter_mut()).for_each(|(f, v)| walk(&f.ty, v, &mut |t, _| places += usize::from(is_list(t))));
            for at in 0..places.min(40) {
                for n in &sizes {
                    key += 1;
                    let mut v = base.clone();
                    let (mut i, mut fits) = (0, true);
                    for (f, x) in r.fields.iter().zip(v.iter_mut()) {
                        walk(&f.ty, x, &mut |t, x| {
                            // what was put into the chosen list is walked, too
                            if is_list(t) {
                                if i == at {
                                    let min = match t {
                                        Ty::Vec(e) | Ty::OptVec(e) => min_size(e).max(1),
                                        _ => 1,
                                    };
                                    fits = n * min <= top;
                                    if fits {
                                        resize(x, t, *n, key);
                                    }
                                }
                                i += 1;
                            }
                        });
                    }
                    if !fits {
                        break;
                    }
                    let v = latin(r, &v, key.wrapping_mul(0x9e37_79b9), o);
                    if test(key, v) {
                        return;
                    }
                }
            }
        }
    }
}
/// The same, as whole PDUs that can be written.
fn list_sizes_of(ctx: &Ctx, kind: &'static str, s: &str, o: Opts, test: fn(&str, &PduCase) -> Res) {
    let mut l = Local::new(ctx, kind, s);
    list_sizes(s, o, MAX, &mut |i, vals| {
        let c = PduCase { vals, ..sweep_case(rec(s), i, o) };
        l.judge(i << 20, || c.clone(), || test(s, &c))
    });
}

// ========================================================= C02 the wire

pub fn k_enc(s: &str, c: &PduCase) -> Res {
    let (i, r) = (info(s), rec(s));
    let want = enc_pdu(r, &c.hdr(), &c.vals);
    if want.len() > MAX {
        return Ok(Seen::default().label("too big, skipped"));
    }
    let got = ser(&mut *build(i, r, c)).map_err(|e| format!("serialize: {}", err(e)))?;
    if let Some(d) = byte_diff(&want, &got) {
        return Err(format!("encoding of {s} {d}"));
    }
    Ok(list_labels(Seen::when(nonzero(c, &got)), r, &c.vals, got.len()))
}

fn byte_diff(want: &[u8], got: &[u8]) -> Option<String> {
    if want == got {
        return None;
    }
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let w = |b: &[u8]| format!("{:02x?}", &b[at..b.len().min(at + 8)]);
    Some(format!("differs from the specified one at octet {at}: {} != {} ({} and {} octets)", w(want), w(got), want.len(), got.len()))
}

/// Read what the reference encoder wrote: unknown codes become the default, paddings are skipped.
pub fn k_dec(s: &str, c: &PduCase) -> Res {
    let (i, r) = (info(s), rec(s));
    let b = enc_pdu(r, &c.hdr(), &c.vals);
    if b.len() > 60_000 {
        return Ok(Seen::default().label("too big, skipped"));
    }
    let q = placed(&b, hash(&b), |b| (i.dec)(&mut &b[..])).map_err(|e| format!("deserialize: {}", err(e)))?;
    let mut want = c.vals.clone();
    canon_fields(&r.fields, &mut want);
    let mut unknown = false;
    for (f, v) in r.fields.iter().zip(want.iter_mut()) {
        walk(&f.ty, v, &mut |t, x| {
            if let Ty::Enum(e, _) = t {
                let e = &schema().enums[e];
                if !e.set.contains(&x.n()) {
                    unknown = true;
                    *x = V::N(e.default);
                }
            }
        });
    }
    if let Some(d) = diff_fields(&r.fields, &want, &model(r, &*q)) {
        return Err(format!("specified encoding read differently: {s}{d}"));
    }
    Ok(Seen::yes().label_if(unknown, "unknown enumeration code"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    Set(usize, u8),
    Flip(usize, u8),
    Int(usize, u8, u64),
    Insert(usize, Vec<u8>),
    Remove(usize, usize),
    Truncate(usize),
    Append(Vec<u8>),
}

pub fn mutate(b: &mut Vec<u8>, m: &Mutation) {
    let n = b.len();
    match m {
        Mutation::Set(p, x) if n > 0 => b[p % n] = *x,
        Mutation::Flip(p, k) if n > 0 => b[p % n] ^= 1 << (k % 8),
        Mutation::Int(p, w, x) if n > 0 => {
            let p = p % n;
            for j in 0..usize::from(*w).min(n - p) {
                b[p + j] = (x >> (8 * (usize::from(*w) - 1 - j))) as u8;
            }
        }
        Mutation::Insert(p, x) => {
            let p = p % (n + 1);
            b.splice(p..p, x.iter().copied());
        }
        Mutation::Remove(p, k) if n > 0 => {
            let p = p % n;
            b.drain(p..(p + k).min(n));
        }
        Mutation::Truncate(p) => b.truncate(p % (n + 1)),
        Mutation::Append(x) => b.extend_from_slice(x),
        _ => {}
    }
}

fn mutation() -> BoxedStrategy<Mutation> {
    let at = || Union::new_weighted(vec![(2, (0usize..8192).boxed()), (2, (12usize..100).boxed()), (1, (0usize..12).boxed())]);
    let w = select(vec![1u8, 2, 4, 8]).prop_flat_map(|w| (Just(w), int(w).prop_map(|v| v.n())));
    Union::new_weighted(vec![
        (3, (at(), any::<u8>()).prop_map(|(a, b)| Mutation::Set(a, b)).boxed()),
        (3, (at(), 0u8..8).prop_map(|(a, b)| Mutation::Flip(a, b)).boxed()),
        (4, (at(), w).prop_map(|(a, (w, x))| Mutation::Int(a, w, x)).boxed()),
        (1, (at(), vec(any::<u8>(), 1..20)).prop_map(|(a, b)| Mutation::Insert(a, b)).boxed()),
        (1, (at(), 1usize..40).prop_map(|(a, b)| Mutation::Remove(a, b)).boxed()),
        (2, at().prop_map(Mutation::Truncate).boxed()),
        (2, vec(any::<u8>(), 1..64).prop_map(Mutation::Append).boxed()),
    ])
    .boxed()
}

/// Byte strings near valid encodings of one PDU type.
pub fn arbitrary_bytes(s: &str, o: Opts) -> BoxedStrategy<Vec<u8>> {
    let r = rec(s);
    let (t, _) = r.pdu.unwrap();
    let near = (pdu_case(r, o), vec(mutation(), 0..5), 0u8..8).prop_map(move |(c, ms, k)| {
        let mut b = enc_pdu(r, &c.hdr(), &c.vals);
        for m in &ms {
            mutate(&mut b, m);
        }
        if k > 0 && b.len() > 2 {
            b[2] = t;
        }
        b
    });
    let junk = (vec(any::<u8>(), 0..400), 0u8..4).prop_map(move |(mut b, k)| {
        if k > 0 && b.len() > 2 {
            b[2] = t;
        }
        b
    });
    let flat = (any::<u8>(), 0usize..600).prop_map(move |(x, n)| {
        let mut b = vec![x; n];
        if n > 2 {
            b[2] = t;
        }
        b
    });
    Union::new_weighted(vec![(7, near.boxed()), (2, junk.boxed()), (1, flat.boxed())]).boxed()
}

/// Agreement with the reference decoder on arbitrary bytes.
pub fn k_arb(s: &str, b: &Vec<u8>) -> Res {
    let (i, r) = (info(s), rec(s));
    let (t, _) = r.pdu.unwrap();
    let mut rd: &[u8] = b;
    let real = (i.dec)(&mut rd);
    if b.len() < HEADER {
        ensure!(real.is_err(), "decoded from {} bytes, less than a header", b.len());
        return Ok(Seen::default().label("short header"));
    }
    if b[2] != t {
        ensure!(real.is_err(), "decoded a PDU of type {}", b[2]);
        return Ok(Seen::default().label("other type"));
    }
    let mut rb = &b[HEADER..];
    match (dec_fields(&r.fields, &mut rb), real) {
        (Err(DecErr::Unspecified(_)), _) => Ok(Seen::default().label("unspecified input")),
        (Err(DecErr::Underflow), Ok(_)) => Err(format!("{s}: {} bytes are too few, but were decoded", b.len())),
        (Err(DecErr::Underflow), Err(_)) => Ok(Seen::yes().label("too short, refused")),
        (Ok(_), Err(e)) => Err(format!("{s}: a complete PDU was refused: {}", err(e))),
        (Ok(v), Ok(q)) => {
            if let Some(d) = diff_fields(&r.fields, &v, &model(r, &*q)) {
                return Err(format!("bytes read differently: {s}{d}"));
            }
            ensure!(rd.len() == rb.len(), "{s}: {} bytes left over, not {}", rd.len(), rb.len());
            Ok(Seen::yes().label("decoded"))
        }
    }
}

// ============================================================ C03 length

pub fn k_len(s: &str, c: &PduCase) -> Res {
    let (i, r) = (info(s), rec(s));
    let want = enc_pdu(r, &c.hdr(), &c.vals).len();
    let mut p = build(i, r, c);
    let pre = b"earlier";
    let mut b = BytesMut::from(&pre[..]);
    let before = p.len();
    let res = p.ser(&mut b);
    if want <= MAX {
        res.map_err(|e| format!("{want} octets, but serialize failed: {}", err(e)))?;
        let n = b.len() - pre.len();
        ensure!(n == want, "{n} octets written, {want} specified");
        let h = usize::from(p.hdr().length);
        ensure!(h == n, "{n} octets written, header says {h}");
        let wire = usize::from(u16::from_be_bytes([b[pre.len() + 8], b[pre.len() + 9]]));
        ensure!(wire == n, "{n} octets written, length field says {wire}");
        let before = before.map_err(|e| format!("{n} octets, but calculate_length failed: {}", err(e)))?;
        ensure!(usize::from(before) == n, "{n} octets written, calculated {before} before");
        let after = p.len().map_err(|e| format!("{n} octets, but calculate_length failed: {}", err(e)))?;
        ensure!(usize::from(after) == n, "{n} octets written, calculated {after} after");
        p.hdr_mut().length = !(n as u16);
        p.fin();
        ensure!(usize::from(p.hdr().length) == n, "finalize set {} instead of {n}", p.hdr().length);
        let mut q = build(i, r, c);
        q.fin();
        ensure!(usize::from(q.hdr().length) == n, "finalize of a fresh PDU set {} instead of {n}", q.hdr().length);
        if r.fields.iter().all(|f| !matches!(f.ty, Ty::OptVec(_))) {
            // the length survives the trip
            if let Ok(q) = (i.dec)(&mut &b[pre.len()..]) {
                let l = q.len().map_err(|e| format!("calculate_length of a decoded PDU: {}", err(e)))?;
                ensure!(usize::from(l) == n, "decoded from {n} octets, calculated {l}");
            }
        }
        Ok(list_labels(Seen::when(n > HEADER), r, &c.vals, n)
            .label_if(n == MAX, "exactly 8192 octets")
            .label_if((MAX - 32..MAX).contains(&n), "just below 8192 octets")
            .label_if(n < 256, "less than 256 octets"))
    } else {
        match res {
            Ok(()) => return Err(format!("{want} octets were serialized")),
            Err(DISError::PduSizeExceeded { size, max_size }) => {
                ensure!(max_size == MAX, "maximum size reported as {max_size}");
                ensure!(size == want, "size reported as {size}, not {want}");
            }
            Err(e) => return Err(format!("{want} octets refused with {}", err(e))),
        }
        ensure!(&b[..] == pre, "refused, but {} octets were written", b.len() - pre.len());
        match before {
            Ok(n) => return Err(format!("calculate_length gave {n} for {want} octets")),
            Err(DISError::PduSizeExceeded { .. }) => {}
            Err(e) => return Err(format!("calculate_length of {want} octets: {}", err(e))),
        }
        Ok(Seen::yes()
            .label("over 8192 octets")
            .label_if(want < MAX + 32, "just over 8192 octets")
            .label_if(want > 65535, "over 65535 octets"))
    }
}

/// Counts and lengths that disagree with the lists: what is written is the caller's affair, but the lengths agree.
pub fn k_loose(s: &str, c: &PduCase) -> Res {
    let (i, r) = (info(s), rec(s));
    let mut p = build(i, r, c);
    let pre = b"earlier";
    let mut b = BytesMut::from(&pre[..]);
    let before = p.len();
    match p.ser(&mut b) {
        Ok(()) => {
            let n = b.len() - pre.len();
            ensure!(n <= MAX, "{n} octets were written");
            let h = usize::from(p.hdr().length);
            ensure!(h == n, "{n} octets written, header says {h}");
            let wire = usize::from(u16::from_be_bytes([b[pre.len() + 8], b[pre.len() + 9]]));
            ensure!(wire == n, "{n} octets written, length field says {wire}");
            let before = before.map_err(|e| format!("{n} octets, but calculate_length failed: {}", err(e)))?;
            ensure!(usize::from(before) == n, "{n} octets written, calculated {before} before");
            let after = p.len().map_err(|e| format!("{n} octets, but calculate_length failed: {}", err(e)))?;
            ensure!(usize::from(after) == n, "{n} octets written, calculated {after} after");
            p.hdr_mut().length = !(n as u16);
            p.fin();
            ensure!(usize::from(p.hdr().length) == n, "finalize set {} instead of {n}", p.hdr().length);
            Ok(Seen::when(n > HEADER).label("counts or lengths that disagree with the lists"))
        }
        Err(DISError::PduSizeExceeded { size, .. }) => {
            ensure!(size > MAX, "{size} octets refused as too many");
            ensure!(&b[..] == pre, "refused, but {} octets were written", b.len() - pre.len());
            ensure!(before.is_err(), "{size} octets refused, but calculated before as {before:?}");
            Ok(Seen::yes().label("counts or lengths that disagree, over 8192 octets"))
        }
        Err(e) => Err(format!("refused with {}", err(e))),
    }
}

/// Cases of (nearly) a given total size, for PDUs that can have it.
fn sized_case(s: &'static str, o: Opts) -> Option<BoxedStrategy<PduCase>> {
    let r = rec(s);
    let lists: Vec<usize> = r
        .fields
        .iter()
        .enumerate()
        .filter(|(_, f)| matches!(f.ty, Ty::Vec(_) | Ty::Bytes | Ty::OptBytes(2)) || (o.safe == Safe::No && matches!(f.ty, Ty::OptVec(_))))
        .map(|(i, _)| i)
        .collect();
    if lists.is_empty() {
        return None;
    }
    let small = Opts { big: false, ..o };
    let target = Union::new_weighted(vec![
        (4, (8150usize..8240).boxed()),
        (2, select(vec![8191usize, 8192, 8193, 255, 256, 257, 1500, 4095, 4096, 4097, 8190, 8194]).boxed()),
        (1, (60usize..9000).boxed()),
        (1, (65500usize..65700).boxed()),
        (1, select(vec![16384usize, 32768, 65535, 65536, 65537, 65536 + 400, 65536 + 8192, 131_072 + 300]).boxed()),
    ]);
    Some(
        (pdu_case(r, small), select(lists), target, any::<u64>(), 0u8..3)
            .prop_map(move |(mut c, li, target, x, how)| {
                grow(r, &mut c, li, target, x, how, small);
                c
            })
            .boxed(),
    )
}

/// Lengthen list `li` (or a byte string inside its first element) until the PDU has `target` octets, if it can.
pub fn grow(r: &Rec, c: &mut PduCase, li: usize, target: usize, x: u64, how: u8, o: Opts) {
    let base = enc_pdu(r, &c.hdr(), &c.vals).len();
    if base >= target {
        return;
    }
    let need = target - base;
    let f = &r.fields[li];
    match (&f.ty, &mut c.vals[li]) {
        (Ty::Bytes, V::B(b)) => b.extend((0..need).map(|i| (i as u64 ^ x) as u8)),
        (Ty::OptBytes(_), v) => {
            let had = v.count();
            *v = V::O(Some(Box::new(V::B((0..had + need).map(|i| (i as u64 ^ x) as u8).collect()))));
        }
        (Ty::Vec(t) | Ty::OptVec(t), V::L(l)) => {
            let wrap = |v: V| if matches!(f.ty, Ty::OptVec(_)) { V::O(Some(Box::new(v))) } else { v };
            let z = one_each(t, 0);
            let sz = {
                let mut b = vec![];
                enc(t, &z, &mut b);
                b.len().max(1)
            };
            // byte strings inside an element allow every size
            let inner = match &**t {
                Ty::Rec(n) => rec(n).fields.iter().position(|g| g.ty == Ty::Bytes),
                _ => None,
            };
            if let (Some(k), true) = (inner, how > 0) {
                let mut left = need;
                while left > 0 {
                    let mut e = z.clone();
                    let m = left.saturating_sub(sz).min(65000);
                    e.fields_mut()[k] = V::B((0..m).map(|i| (i as u64 ^ x) as u8).collect());
                    l.push(wrap(e));
                    left = left.saturating_sub(m + sz);
                }
            } else {
                for _ in 0..need.div_ceil(sz).min(70_000) {
                    l.push(wrap(z.clone()));
                }
                if how == 2 {
                    l.pop();
                }
            }
        }
        _ => {}
    }
    settle(r, &mut c.vals, o);
}

// ======================================================== C04 robustness

pub const WORK_PER_BYTE: usize = 64;
/// leaves room for running once through a 16-bit count
pub const WORK_BASE: usize = 2_000_000;
pub const MEM_PER_BYTE: usize = 1024;
/// leaves room for preallocations of a 16-bit count
pub const MEM_BASE: usize = 32 << 20;

fn static_name(s: &str) -> &'static str {
    info(s).name
}

/// Decode arbitrary bytes in every way the API offers.
pub fn k_robust(s: &str, b: &Vec<u8>) -> Res {
    let i = info(s);
    let max = WORK_BASE + WORK_PER_BYTE * b.len();
    let limit = MEM_BASE + MEM_PER_BYTE * b.len();
    let begun = cpu_seconds();
    let mut cb = CountingBuf::new(b, max);
    let (r1, mem) = measure("robust", static_name(s), b, 16 * limit, || guarded(|| Ok((i.dec)(&mut cb))));
    let r1 = r1?;
    ensure!(mem <= limit, "decoding {} bytes allocated {mem} bytes", b.len());
    let ops = cb.ops.get();
    // determinism, and another kind of buffer
    let r2 = (i.dec_slice)(&mut &b[..]);
    same_result(&r1, &r2)?;
    let (own, family) = rec(s).pdu.unwrap();
    let h = PduHeader::new(Conv::from_v(&V::N(own.into())), Conv::from_v(&V::N(family.into())), 0, 0);
    let body = &b[b.len().min(HEADER)..];
    let mut cb = CountingBuf::new(body, max);
    let (r3, mem) = measure("robust", static_name(s), b, 16 * limit, || guarded(|| Ok((i.dec_body)(&mut cb, h))));
    let r3 = r3?;
    ensure!(mem <= limit, "decoding {} bytes allocated {mem} bytes", b.len());
    if b.len() >= HEADER && r1.is_ok() {
        ensure!(r3.is_ok(), "body refused on its own");
    }
    if b.len() < HEADER {
        ensure!(r1.is_err(), "decoded from {} bytes, less than a header", b.len());
    }
    let t = PduHeader::get_pdu_type(b);
    ensure!(t.is_some() == (b.len() >= HEADER), "PDU type of {} bytes: {t:?}", b.len());
    let whole = b.len() >= HEADER && b[2] == own as u8 && r1.is_ok();
    let few = whole && matches!(dec_fields(&rec(s).fields, &mut &b[HEADER..]), Err(DecErr::Underflow));
    ensure!(!few, "{} octets end before the PDU does, but were decoded", b.len());
    if let Ok(mut p) = r1 {
        // what was accepted can be worked with
        let _ = p.len();
        let _ = p.dbg();
        let mut out = BytesMut::new();
        let _ = p.ser(&mut out);
    }
    let most = most_cpu(b.len());
    let mut took = cpu_seconds() - begun;
    for _ in 0..2 {
        if took > most {
            // others use the machine too
            let begun = cpu_seconds();
            let _ = (i.dec_slice)(&mut &b[..]);
            took = took.min(cpu_seconds() - begun);
        }
    }
    ensure!(took <= most, "decoding {} octets took {took:.1} s of processor time, more than {most:.1} s", b.len());
    Ok(Seen::when(b.len() > HEADER)
        .label_if(r2.is_ok(), "accepted")
        .label_if(matches!(r2, Err(DISError::BufferUnderflow { .. })), "underflow")
        .label_if(ops > 1000, "more than 1000 buffer operations"))
}

/// Reading and writing the same over and over keeps nothing.
pub fn k_kept(s: &str, b: &Vec<u8>) -> Res {
    let i = info(s);
    let mut accepted = false;
    let mut once = || {
        if let Ok(mut p) = (i.dec_slice)(&mut &b[..]) {
            accepted = true;
            let _ = p.len();
            let mut out = BytesMut::new();
            let _ = p.ser(&mut out);
        }
        let _ = (i.dec)(&mut CountingBuf::new(b, usize::MAX));
        if b.len() >= HEADER {
            let mut two: &[u8] = b;
            let h = <PduHeader as GenericHeader>::deserialize(&mut two);
            let _ = (i.dec_body)(&mut two, h);
        }
        let _ = PduHeader::get_pdu_type(b);
    };
    for _ in 0..10 {
        once();
    }
    let before = held();
    for _ in 0..40 {
        once();
    }
    let kept = held() - before;
    ensure!(kept <= 0, "reading and writing the same {} octets 40 times more keeps {kept} bytes more", b.len());
    Ok(Seen::when(b.len() > HEADER).label_if(accepted, "accepted").label_if(!accepted, "refused"))
}

/// Effort that counting operations on the buffer does not see.
const CPU_BASE: f64 = 0.5;
const CPU_PER_BYTE: f64 = 0.5e-6;

fn most_cpu(octets: usize) -> f64 {
    CPU_BASE + CPU_PER_BYTE * octets as f64
}

fn cpu_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// A PDU of very many octets (as long as counts allow), complete or cut: list, octets, kind of elements, seed, cut.
pub type Big = (usize, usize, u8, u64, u8);

fn big_octets(s: &str, c: &Big) -> Vec<u8> {
    let (li, octets, how, seed, cut) = c;
    let r = rec(s);
    let mut vals = sweep_case(r, *seed, STRICT).vals;
    match (&r.fields[*li].ty, &mut vals[*li]) {
        (Ty::Bytes, V::B(b)) => b.extend((0..*octets as u64).map(|i| (hash(&(i >> 3, seed)) >> (8 * (i & 7))) as u8)),
        (Ty::OptBytes(_), v) => *v = V::O(Some(Box::new(V::B((0..*octets).map(|i| (i as u64 ^ seed) as u8).collect())))),
        (Ty::Vec(t), V::L(l)) => {
            let n = if *how == 1 { 3 } else { 0 };
            let z = one_each(t, n);
            let mut b = vec![];
            enc(t, &z, &mut b);
            let count = octets / b.len().max(1);
            if *how == 2 {
                // few elements with long lists and strings of their own
                for i in 0..4 {
                    l.push(long(t, octets / 4, i ^ seed));
                }
            } else {
                for i in 0..count as u64 {
                    l.push(match &**t {
                        Ty::Rec(n) if i % 8 != 0 => V::R(latin(rec(n), z.fields(), i ^ seed, STRICT)),
                        _ => z.clone(),
                    });
                }
            }
        }
        _ => {}
    }
    settle(r, &mut vals, STRICT);
    let mut b = enc_pdu(r, &Hdr::default(), &vals);
    b[2] = r.pdu.unwrap().0;
    let n = b.len();
    b.truncate(match cut {
        0 => n,
        1 => n - 1,
        _ => n - n / 3,
    });
    b
}

/// A value whose last list is as long as `octets` and its count allow.
fn long(t: &Ty, octets: usize, x: u64) -> V {
    match t {
        Ty::Bytes => V::B((0..octets).map(|i| (i as u64 ^ x) as u8).collect()),
        Ty::Vec(t) => {
            let z = one_each(t, 0);
            let mut b = vec![];
            enc(t, &z, &mut b);
            let n = (octets / b.len().max(1)).min(65_535) as u64;
            V::L((0..n)
                .map(|i| match &**t {
                    Ty::Rec(n) => V::R(latin(rec(n), z.fields(), i ^ x, STRICT)),
                    _ => z.clone(),
                })
                .collect())
        }
        Ty::Rec(n) => {
            let r = rec(n);
            let last = r.fields.iter().rposition(|f| matches!(f.ty, Ty::Vec(_) | Ty::Bytes));
            let last = last.or(r.fields.iter().rposition(|f| matches!(f.ty, Ty::Rec(_))));
            V::R(r.fields.iter().enumerate().map(|(i, f)| if Some(i) == last { long(&f.ty, octets, x) } else { one_each(&f.ty, 0) }).collect())
        }
        t => one_each(t, 0),
    }
}

pub fn k_big(s: &str, c: &Big) -> Res {
    let i = info(s);
    let b = big_octets(s, c);
    let most = most_cpu(b.len());
    let limit = MEM_BASE + MEM_PER_BYTE * b.len();
    // the least of three, as others use the machine too
    let mut least = f64::MAX;
    let mut ok = false;
    for _ in 0..3 {
        let mut rd: &[u8] = &b;
        let t = cpu_seconds();
        let (p, mem) = measure("robust", static_name(s), &b, 16 * limit, || guarded(|| Ok((i.dec_slice)(&mut rd))));
        let p = p?;
        if let Ok(mut p) = p {
            ok = true;
            let _ = p.len();
            let _ = p.ser(&mut BytesMut::new());
        } else {
            ok = false;
        }
        least = least.min(cpu_seconds() - t);
        ensure!(mem <= limit, "decoding {} bytes allocated {mem} bytes", b.len());
        ensure!(ok == (c.4 == 0), "{} octets, {}, were {}", b.len(), if c.4 == 0 { "complete" } else { "cut" }, if ok { "decoded" } else { "refused" });
        if least <= most {
            break;
        }
    }
    ensure!(least <= most, "decoding {} octets took {least:.1} s of processor time, more than {most:.1} s", b.len());
    Ok(Seen::when(b.len() > MAX).label_if(ok, "accepted").label_if(b.len() > 100_000, "more than 100,000 octets").label_if(least > 0.1, "more than 0.1 s").label_if(least > most / 10.0, "more than a tenth of the time allowed"))
}

fn bigs(ctx: &Ctx, s: &'static str) {
    let r = rec(s);
    let mut l = Local::new(ctx, "big", s);
    for (li, f) in r.fields.iter().enumerate() {
        if !matches!(f.ty, Ty::Vec(_) | Ty::Bytes | Ty::OptBytes(_)) {
            continue;
        }
        for how in 0..3u8 {
            if how > 0 && !matches!(f.ty, Ty::Vec(_)) {
                continue;
            }
            for octets in if ctx.thorough { vec![100_000usize, 1 << 20, 1 << 22] } else { vec![20_000usize, 1 << 21] } {
                for cut in 0..3u8 {
                    let c: Big = (li, octets, how, ctx.seed.wrapping_mul(77) ^ octets as u64, cut);
                    if l.judge(hash(&c), || c, || k_big(s, &c)) {
                        return;
                    }
                }
            }
        }
    }
}

fn same_result(a: &DecResult, b: &DecResult) -> Result<(), String> {
    match (a, b) {
        (Ok(p), Ok(q)) => ensure!(p.dbg() == q.dbg(), "same bytes, different PDUs: {} / {}", p.dbg(), q.dbg()),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => return Err(format!("same bytes, accepted once and refused once: {e:?}")),
    }
    Ok(())
}

/// Every proper prefix of a valid encoding is refused; so is every prefix of a body.
pub fn k_prefix(s: &str, c: &PduCase) -> Res {
    let (i, r) = (info(s), rec(s));
    let b = enc_pdu(r, &c.hdr(), &c.vals);
    if b.len() > 3000 {
        return Ok(Seen::default().label("too big, skipped"));
    }
    let h = PduHeader::deserialize(&mut &b[..HEADER]);
    for n in 0..b.len() {
        let p = guarded(|| Ok((i.dec)(&mut &b[..n]))).map_err(|e| format!("the first {n} of {} octets: {e}", b.len()))?;
        ensure!(p.is_err(), "the first {n} of {} octets were decoded", b.len());
        if n >= HEADER {
            let p = guarded(|| Ok((i.dec_body)(&mut &b[HEADER..n], h))).map_err(|e| format!("body cut to {n} of {}: {e}", b.len()))?;
            ensure!(p.is_err(), "the first {n} of {} octets were decoded as a body", b.len());
        }
    }
    ensure!((i.dec)(&mut &b[..]).is_ok(), "the whole of {} octets was refused", b.len());
    Ok(list_labels(Seen::when(b.len() > HEADER), r, &c.vals, b.len()))
}

/// Prefixes where a recorded finding may show.
pub fn k_prefix_finding(s: &str, c: &PduCase) -> Res {
    let (i, r) = (info(s), rec(s));
    let b = enc_pdu(r, &c.hdr(), &c.vals);
    if b.len() > 2000 {
        return Ok(Seen::default().label("too big, skipped"));
    }
    let name = if s == "MinefieldDataPdu" { "minefield-optional-lists" } else { "grid-padding-to-end" };
    let mut known = false;
    for n in HEADER..b.len() {
        let p = guarded(|| Ok((i.dec)(&mut &b[..n])))?;
        if p.is_ok() {
            LEGACY.set(true);
            let l = dec_fields(&r.fields, &mut &b[HEADER..n]);
            LEGACY.set(false);
            ensure!(l.is_ok(), "the first {n} of {} octets were decoded, beyond finding {name}", b.len());
            known = true;
        }
    }
    Ok(Seen { known: known.then(|| name.into()), ..Seen::yes() })
}

/// Stop now: memory is running away, or the code does not come back.
pub fn bail(v: &Violation) -> ! {
    let prop = PROP.get().copied().unwrap_or("C04");
    let path = save_replay(prop, v);
    println!("VIOLATION property={prop} replay={path}");
    println!("  {} / {}: {}", v.kind, v.subject, v.msg);
    let ev = serde_json::json!({"property": prop, "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        "seed": seed(), "level": "exploration", "wall_s": 0.0, "violations": 1,
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at the first case that exhausts the process or does not end", "samples": [v.case]}});
    let _ = std::fs::create_dir_all("/verif/evidence");
    let _ = std::fs::write(format!("/verif/evidence/{prop}.json"), ev.to_string());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

// ===================================================== C05 type dispatch

/// (type code on the wire, family code on the wire, body)
/// `form` varies the other header fields of the octets: length, version, timestamp, status, exercise.
pub fn k_dispatch(s: &str, c: &(PduCase, u8, u8, u16)) -> Res {
    let (i, r) = (info(s), rec(s));
    let (case, ty, fam, form) = c;
    let (own, _) = r.pdu.unwrap();
    let mut b = enc_pdu(r, &case.hdr(), &case.vals);
    if b.len() > MAX {
        return Ok(Seen::default().label("too big, skipped"));
    }
    b[2] = *ty;
    b[3] = *fam;
    let n = b.len() as u16;
    let len = [n, 0, HEADER as u16, n.wrapping_sub(1), n + 1, u16::MAX, 8192, n][usize::from(form % 8)];
    b[8..10].copy_from_slice(&len.to_be_bytes());
    match form / 8 % 8 {
        1 => b[0] = 0,
        2 => b[1] = 0,
        3 => b[4..8].fill(0),
        4 => b[10..12].fill(0),
        5 => b[4..8].fill(255),
        6 => b[0..2].fill(0),
        7 => {
            b[0..2].fill(0);
            b[4..8].fill(0);
            b[10..12].fill(0);
        }
        _ => {}
    }
    let known = &schema().enums["PduType"];
    let want_type = if known.set.contains(&u64::from(*ty)) { u64::from(*ty) } else { known.default };
    let peek = PduHeader::get_pdu_type(&b).ok_or("no PDU type in a complete header")?;
    ensure!(peek.to_v().n() == want_type, "type {ty} seen as {peek:?}");
    let mut rd: &[u8] = &b;
    match (i.dec)(&mut rd) {
        Ok(p) => {
            ensure!(ty == &own, "{s} was decoded from a PDU of type {ty}");
            ensure!(p.hdr().pdu_type.to_v().n() == u64::from(own), "{s} decoded with type {:?}", p.hdr().pdu_type);
            ensure!((i.is)(p.any()), "{s} is not itself");
            for j in PDUS {
                if j.name != s {
                    ensure!(!(j.is)(p.any()), "{s} passes for {}", j.name);
                }
            }
        }
        Err(e) => {
            ensure!(ty != &own, "{s} refuses its own type: {}", err(e));
            ensure!(matches!(e, DISError::InvalidHeader { .. }), "{s} refuses type {ty} with {}", err(e));
        }
    }
    // the same when the header is read first and the body under it
    let mut rd: &[u8] = &b;
    let h = <PduHeader as GenericHeader>::deserialize(&mut rd);
    match (i.dec_body)(&mut rd, h) {
        Ok(p) => {
            ensure!(ty == &own, "{s} was decoded under a header of type {ty}");
            ensure!(p.hdr().pdu_type.to_v().n() == u64::from(own), "{s} decoded in two steps with type {:?}", p.hdr().pdu_type);
        }
        Err(e) => {
            ensure!(ty != &own, "{s} refuses a header of its own type: {}", err(e));
            ensure!(matches!(e, DISError::InvalidHeader { .. }), "{s} refuses a header of type {ty} with {}", err(e));
        }
    }
    // whatever the header said before, a PDU leaves with its own type and family
    let mut p = build(i, r, case);
    if let Some(t) = known.set.contains(&u64::from(*ty)).then(|| Conv::from_v(&V::N((*ty).into()))) {
        p.hdr_mut().set_pdu_type(t);
    }
    if schema().enums["ProtocolFamily"].set.contains(&u64::from(*fam)) {
        p.hdr_mut().set_protocol_family(Conv::from_v(&V::N((*fam).into())));
    }
    let out = ser(&mut *p).map_err(err)?;
    let (_, family) = r.pdu.unwrap();
    ensure!(out[2] == own && out[3] == family, "{s} sent as type {} of family {}", out[2], out[3]);
    ensure!(p.hdr().pdu_type.to_v().n() == u64::from(own), "{s} has type {:?} after serialization", p.hdr().pdu_type);
    ensure!(p.hdr().protocol_family.to_v().n() == u64::from(family), "{s} has family {:?} after serialization", p.hdr().protocol_family);
    Ok(Seen::yes().label(if ty == &own { "own type" } else { "other type" }))
}

pub fn k_fresh(s: &str, _: &u8) -> Res {
    let (i, r) = (info(s), rec(s));
    let (own, family) = r.pdu.unwrap();
    let p = (i.new)();
    ensure!(p.hdr().pdu_type.to_v().n() == u64::from(own), "new {s} has type {:?}", p.hdr().pdu_type);
    ensure!(p.hdr().protocol_family.to_v().n() == u64::from(family), "new {s} has family {:?}", p.hdr().protocol_family);
    let n = p.len().map_err(err)?;
    ensure!(p.hdr().length == n, "new {s} says {} octets, not {n}", p.hdr().length);
    ensure!(p.hdr().protocol_version.to_v().n() == 7, "new {s} has version {:?}", p.hdr().protocol_version);
    for mut p in [(i.new)(), (i.default)()] {
        let b = ser(&mut *p).map_err(err)?;
        ensure!(b.len() == usize::from(n), "new {s} is {} octets, not {n}", b.len());
        ensure!(b[2] == own && b[3] == family, "new {s} sent as type {} of family {}", b[2], b[3]);
        ensure!((i.dec)(&mut &b[..]).is_ok(), "new {s} cannot be read back");
    }
    Ok(Seen::yes())
}

// ============================================================ C06 header

/// What follows the twelve octets, and how they lie in the buffer, does not matter.
fn header_anywhere<H: GenericHeader + PartialEq + std::fmt::Debug>(b: &[u8]) -> Result<(), String> {
    let h = H::deserialize(&mut &b[..]);
    let k = crate::run::hash(&b.to_vec());
    let n = [1, 4, 12, 52, 116, 1000, 1460, 1500, 4084, 8180, 8200, 9000, 30_000, 65_523, 65_524, 70_000][if k % 16 == 0 { 8 + k as usize / 16 % 8 } else { k as usize / 16 % 8 }];
    let mut long = b.to_vec();
    long.resize(12 + n, (k >> 20) as u8);
    let mut rd: &[u8] = &long;
    let g = H::deserialize(&mut rd);
    ensure!(g == h, "with {n} octets behind it the header is {g:?}, not {h:?}");
    ensure!(rd.len() == n, "{} octets left of {n}", rd.len());
    for at in 0..16 {
        let (g, peek) = placed(&long[..13], at, |b| (H::deserialize(&mut &b[..]), PduHeader::get_pdu_type(b)));
        ensure!(g == h, "at address 16 n + {at} the header is {g:?}, not {h:?}");
        ensure!(peek == Some(h.pdu_type()), "at address 16 n + {at} the type is {peek:?}, not {:?}", h.pdu_type());
    }
    let peek = PduHeader::get_pdu_type(&long);
    ensure!(peek == Some(h.pdu_type()), "with {n} octets behind it the type is {peek:?}, not {:?}", h.pdu_type());
    let mut chunks = crate::alloc::Chunks::new(&long[..13], &[(k >> 32) as usize, (k >> 40) as usize, if k >> 63 == 0 { 0 } else { (k >> 48) as usize }]);
    let g = H::deserialize(&mut chunks);
    ensure!(g == h, "from several chunks the header is {g:?}, not {h:?}");
    ensure!(chunks.remaining() == 1, "{} octets left of 1", chunks.remaining());
    // what it is written as does not depend on the buffer either
    let mut plain = BytesMut::new();
    h.serialize(&mut plain);
    for k in [k, k >> 8] {
        let mut b = room(k);
        let before = (k >> 24) as usize % 40;
        b.resize(before, 0xa5);
        h.serialize(&mut b);
        ensure!(b[before..] == plain[..] && b[..before].iter().all(|x| *x == 0xa5), "behind {before} others, with room for {}, written as {:02x?}, not {:02x?}", b.capacity(), &b[before..], &plain[..]);
    }
    Ok(())
}

/// Setting type, family and length sets these, whatever the header held, and nothing else.
fn header_setters<H: GenericHeader + PartialEq + std::fmt::Debug>(b: &[u8]) -> Result<(), String> {
    let k = crate::run::hash(&(b.to_vec(), 1u8));
    let pick = |e: &str, k: u64| {
        let c = &schema().enums[e].codes;
        c[k as usize % c.len()]
    };
    let (t, f, l) = (pick("PduType", k), pick("ProtocolFamily", k >> 16), (k >> 32) as u16);
    let mut h = H::deserialize(&mut &b[..]);
    let mut was = BytesMut::new();
    h.serialize(&mut was);
    h.set_pdu_type(Conv::from_v(&V::N(t)));
    h.set_protocol_family(Conv::from_v(&V::N(f)));
    h.set_length(l);
    ensure!((h.pdu_type().to_v().n(), h.protocol_family().to_v().n(), h.length()) == (t, f, l), "set type {t}, family {f}, length {l} in {b:02x?}: {h:?}");
    let mut now = BytesMut::new();
    h.serialize(&mut now);
    (was[2], was[3]) = (t as u8, f as u8);
    was[8..10].copy_from_slice(&l.to_be_bytes());
    ensure!(now == was, "set type {t}, family {f}, length {l}: {:02x?}, not {:02x?}", &now[..], &was[..]);
    Ok(())
}

pub fn k_setters(s: &str, b: &Vec<u8>) -> Res {
    if s == "LiveEntityPduHeader" { header_setters::<LiveEntityPduHeader>(b)? } else { header_setters::<PduHeader>(b)? }
    Ok(Seen::yes())
}

/// Twelve octets through a header codec and through every PDU codec.
pub fn k_header(s: &str, b: &Vec<u8>) -> Res {
    let e = |name: &str, x: u8| {
        let e = &schema().enums[name];
        if e.set.contains(&u64::from(x)) { u64::from(x) } else { e.default }
    };
    let want = [e("ProtocolVersion", b[0]), b[1].into(), e("PduType", b[2]), e("ProtocolFamily", b[3])];
    let ts = u32::from_be_bytes([b[4], b[5], b[6], b[7]]);
    let len = u16::from_be_bytes([b[8], b[9]]);
    let canon: Vec<u8> = want.iter().map(|x| *x as u8).chain(b[4..].iter().copied()).collect();
    match s {
        "PduHeader" => {
            header_anywhere::<PduHeader>(b)?;
            header_setters::<PduHeader>(b)?;
        }
        "LiveEntityPduHeader" => {
            header_anywhere::<LiveEntityPduHeader>(b)?;
            header_setters::<LiveEntityPduHeader>(b)?;
        }
        _ => {}
    }
    if s == "LiveEntityPduHeader" {
        let sub = e("DISLiveEntitySubprotocolNumber", b[10]);
        let mut rd: &[u8] = b;
        let h = LiveEntityPduHeader::deserialize(&mut rd);
        ensure!(rd.is_empty(), "{} octets left", rd.len());
        let got = [h.protocol_version.to_v().n(), h.exercise_id.into(), h.pdu_type.to_v().n(), h.protocol_family.to_v().n()];
        ensure!(got == want, "read {got:?}, not {want:?}");
        ensure!(h.timestamp == ts && h.length == len, "read timestamp {} length {}", h.timestamp, h.length);
        ensure!(h.subprotocol_number.to_v().n() == sub, "read subprotocol {:?}", h.subprotocol_number);
        ensure!(h.pdu_type() == h.pdu_type && h.protocol_family() == h.protocol_family && h.length() == len, "accessors disagree with fields");
        let mut out = BytesMut::new();
        h.serialize(&mut out);
        let mut canon = canon;
        canon[10] = sub as u8;
        ensure!(out[..] == canon[..], "wrote {:02x?}, not {canon:02x?}", &out[..]);
        let mut h2 = LiveEntityPduHeader::new(Conv::from_v(&V::N(0)), Conv::from_v(&V::N(0)), 0, 0);
        h2.protocol_version = h.protocol_version;
        h2.exercise_id = h.exercise_id;
        h2.set_pdu_type(h.pdu_type);
        h2.set_protocol_family(h.protocol_family);
        h2.timestamp = ts;
        h2.set_length(len);
        h2.subprotocol_number = h.subprotocol_number;
        let mut out2 = BytesMut::new();
        h2.serialize(&mut out2);
        ensure!(out2[..11] == canon[..11] && out2[11] == 0, "fields written as {:02x?}, not {canon:02x?}", &out2[..]);
        ensure!(LiveEntityPduHeader::LENGTH == 12, "length constant");
        return Ok(Seen::yes());
    }
    let check = |h: &PduHeader| {
        let got = [h.protocol_version.to_v().n(), h.exercise_id.into(), h.pdu_type.to_v().n(), h.protocol_family.to_v().n()];
        ensure!(got == want, "read {got:?}, not {want:?}");
        ensure!(h.timestamp == ts && h.length == len, "read timestamp {} length {}", h.timestamp, h.length);
        ensure!(h.status_record.to_u8() == b[10], "read status {:#x}", h.status_record.to_u8());
        ensure!(h.pdu_type() == h.pdu_type && h.protocol_family() == h.protocol_family && h.length() == len, "accessors disagree with fields");
        Ok(())
    };
    if s == "PduHeader" {
        let mut rd: &[u8] = b;
        let h = PduHeader::deserialize(&mut rd);
        ensure!(rd.is_empty(), "{} octets left", rd.len());
        check(&h)?;
        let mut out = BytesMut::new();
        h.serialize(&mut out);
        ensure!(out[..] == canon[..], "wrote {:02x?}, not {canon:02x?}", &out[..]);
        let mut h2 = PduHeader::new(Conv::from_v(&V::N(0)), Conv::from_v(&V::N(0)), 0, 0);
        h2.protocol_version = h.protocol_version;
        h2.exercise_id = h.exercise_id;
        h2.set_pdu_type(h.pdu_type);
        h2.set_protocol_family(h.protocol_family);
        h2.timestamp = ts;
        h2.set_length(len);
        h2.status_record = h.status_record;
        let mut out2 = BytesMut::new();
        h2.serialize(&mut out2);
        ensure!(out2[..11] == canon[..11] && out2[11] == 0, "fields written as {:02x?}, not {canon:02x?}", &out2[..]);
        let h3 = PduHeader::new(h.pdu_type, h.protocol_family, h.exercise_id, len);
        ensure!(h3.pdu_type == h.pdu_type && h3.protocol_family == h.protocol_family && h3.exercise_id == b[1] && h3.length == len
            && h3.status_record.to_u8() == 0 && h3.protocol_version.to_v().n() == 7, "constructor: {h3:?}");
        let mut out3 = BytesMut::new();
        open_dis_rust::pdu_macro::FieldSerialize::serialize_field(&h, &mut out3);
        ensure!(out3 == out, "field serialization differs");
        let h4 = <PduHeader as open_dis_rust::pdu_macro::FieldDeserialize>::deserialize_field(&mut &b[..]);
        ensure!(h4 == h, "field deserialization differs");
        ensure!(open_dis_rust::pdu_macro::FieldLen::field_len(&h) == 12 && PduHeader::LENGTH == 12, "length of the header");
        let peek = PduHeader::get_pdu_type(b);
        ensure!(peek == Some(h.pdu_type), "peeked type {peek:?}, decoded {:?}", h.pdu_type);
        return Ok(Seen::yes());
    }
    // through the codec of a PDU
    let (i, r) = (info(s), rec(s));
    let c = PduCase::zero(r);
    let mut full = enc_pdu(r, &c.hdr(), &c.vals);
    full[..12].copy_from_slice(b);
    let p = (i.dec)(&mut &full[..]).map_err(err)?;
    check(p.hdr())?;
    let h = *p.hdr();
    let q = (i.dec_body)(&mut &full[12..], h).map_err(err)?;
    ensure!(*q.hdr() == h, "header given {h:?}, kept {:?}", q.hdr());
    let mut p = p;
    let out = ser(&mut *p).map_err(err)?;
    let (own, family) = r.pdu.unwrap();
    let mut canon = canon;
    canon[2] = own;
    canon[3] = family;
    canon[8..10].copy_from_slice(&(full.len() as u16).to_be_bytes());
    ensure!(out[..12] == canon[..], "wrote {:02x?}, not {canon:02x?}", &out[..12]);
    Ok(Seen::yes())
}

// ============================================================ C08 enums

pub fn k_enum(s: &str, code: &u64) -> Res {
    let e = ENUMS.iter().find(|e| e.name == s).ok_or("harness")?;
    let sc = &schema().enums[s];
    let w = e.width;
    let wire: Vec<u8> = code.to_be_bytes()[8 - usize::from(w)..].to_vec();
    let mut long = wire.clone();
    long.extend([0xde, 0xad]);
    let known = sc.set.contains(code);
    if !known && sc.default == u64::MAX {
        return Ok(Seen::default().label("no default"));
    }
    let want = if known { *code } else { sc.default };
    let mut rd: &[u8] = &long;
    let got = (e.dec)(&mut rd);
    ensure!(got == want, "{s}: code {code} decoded to {got:#x}, not {want:#x}");
    ensure!(rd.len() == 2, "{s}: {} octets read, not {w}", long.len() - rd.len());
    for cut in 1..long.len() {
        let (x, y) = long.split_at(cut);
        let mut chain = x.chain(y);
        let got = (e.dec)(&mut chain);
        ensure!(got == want && chain.remaining() == 2, "{s}: code {code} in two chunks decoded to {got:#x}, not {want:#x}");
    }
    if known {
        let c = (e.cast)(*code);
        ensure!(c == *code, "{s}: member {} encodes to {c}, not {code}", sc.names[code]);
        let n = (e.dbg)(*code);
        ensure!(n == sc.names[code], "{s}: {code} is {n}");
    }
    if let Some(f) = &e.field {
        let mut rd: &[u8] = &long;
        let got = (f.dec)(&mut rd).n();
        ensure!(got == want && rd.len() == 2, "{s}: field code {code} decoded to {got:#x}, not {want:#x}");
        let (x, y) = long.split_at(1);
        let mut chain = x.chain(y);
        let got = (f.dec)(&mut chain).n();
        ensure!(got == want && chain.remaining() == 2, "{s}: field code {code} in two chunks decoded to {got:#x}, not {want:#x}");
        if known {
            let mut b = BytesMut::from(&b"x"[..]);
            (f.ser)(&V::N(*code), &mut b);
            ensure!(b[1..] == wire[..], "{s}: {code} encoded as {:02x?}", &b[1..]);
            let n = (f.len)(&V::N(*code));
            ensure!(n == usize::from(w), "{s}: field length {n}, not {w}");
        }
    }
    Ok(Seen::yes().label(if known { "known code" } else { "unknown code" }))
}

// ==================================================== C09 consumption

pub type Stream = (Vec<(usize, PduCase)>, Vec<u8>, Vec<usize>);

pub fn k_stream(_: &str, c: &Stream) -> Res {
    let (items, tail, cuts) = c;
    let mut b = vec![];
    let mut ends = vec![];
    for (k, c) in items {
        let r = rec(PDUS[*k].name);
        let e = enc_pdu(r, &c.hdr(), &c.vals);
        if e.len() > MAX {
            return Ok(Seen::default().label("too big, skipped"));
        }
        b.extend(e);
        ends.push(b.len());
    }
    b.extend_from_slice(tail);
    let total = b.len();
    let mut slice: &[u8] = &b;
    let mut chunks = Chunks::new(&b, cuts);
    let mut owned = BytesMut::from(&b[..]);
    let cut = cuts.first().map_or(0, |c| c % (total + 1));
    let (x, y) = b.split_at(cut);
    let mut chain = x.chain(y);
    // more octets follow than 16 or 32 bits can count
    let mut endless = Chunks::new(&b, cuts);
    endless.far = [1 << 16, (1 << 32) - total, 1 << 32, usize::MAX >> 1][(total + cuts.len()) % 4] - tail.len();
    let far = endless.far;
    // a buffer that decodes and encodes something else while it is read
    let mut busy = Chunks::new(&b, if cuts.len() % 2 == 0 { cuts } else { &[] });
    if (total + tail.len()) % 4 == 0 {
        let others = [items[0].0, (items[0].0 + 1 + total) % PDUS.len()].map(|k| {
            let r = rec(PDUS[k].name);
            let c = sweep_case(r, 77 + tail.len() as u64, STRICT);
            (k, enc_pdu(r, &c.hdr(), &c.vals))
        });
        let (mut n, every) = (0, 1 + total / 8);
        busy.busy = Some(Box::new(move || {
            n += 1;
            if n % every == 1 || n < 4 {
                let (k, b) = &others[n % 2];
                if let Ok(mut p) = (PDUS[*k].dec_slice)(&mut &b[..]) {
                    let _ = p.len();
                    let _ = p.ser(&mut BytesMut::new());
                }
            }
        }));
    }
    let mut seen = vec![];
    for ((k, c), end) in items.iter().zip(&ends) {
        let i = &PDUS[*k];
        let r = rec(i.name);
        let left = total - end;
        let start = total - slice.remaining();
        let p = (i.dec_slice)(&mut slice).map_err(|e| format!("{} at {start}: {}", i.name, err(e)))?;
        ensure!(slice.len() == left, "{}: {} octets left, not {left}", i.name, slice.len());
        let mut want = c.vals.clone();
        canon_fields(&r.fields, &mut want);
        if let Some(d) = diff_fields(&r.fields, &want, &model(r, &*p)) {
            return Err(format!("in a stream: {}{d}", i.name));
        }
        for (how, q, rest) in [
            ("chunks", (i.dec)(&mut chunks), chunks.remaining()),
            ("owned buffer", (i.dec_bytes)(&mut owned), owned.remaining()),
            ("chain", (i.dec)(&mut chain), chain.remaining()),
            ("endless buffer", (i.dec)(&mut endless), endless.remaining().wrapping_sub(far)),
            ("busy buffer", (i.dec)(&mut busy), busy.remaining()),
        ] {
            let q = q.map_err(|e| format!("{} from {how}: {}", i.name, err(e)))?;
            ensure!(rest == left, "{} from {how}: {rest} octets left, not {left}", i.name);
            if let Some(d) = diff_fields(&r.fields, &want, &model(r, &*q)) {
                return Err(format!("from {how}: {}{d}", i.name));
            }
            ensure!(q.hdr() == p.hdr() && q.dbg() == p.dbg(), "{} from {how} differs", i.name);
        }
        // the two-step way: header, then body
        let mut two: &[u8] = &b[start..];
        let h = <PduHeader as GenericHeader>::deserialize(&mut two);
        let q = (i.dec_body)(&mut two, h).map_err(|e| format!("{} body: {}", i.name, err(e)))?;
        ensure!(two.len() == left, "{} body: {} octets left, not {left}", i.name, two.len());
        let dbg = p.dbg();
        ensure!(q.dbg() == dbg, "{} decoded in two steps differs", i.name);
        seen.push((start, dbg));
    }
    // all headers first, then the bodies, the last one first
    let mut heads: Vec<_> = items
        .iter()
        .zip(&seen)
        .map(|((k, _), (start, dbg))| {
            let mut two: &[u8] = &b[*start..];
            (<PduHeader as GenericHeader>::deserialize(&mut two), two, *k, dbg)
        })
        .collect();
    while let Some((h, mut two, k, dbg)) = heads.pop() {
        let q = (PDUS[k].dec_body)(&mut two, h).map_err(|e| format!("{} body, after other headers: {}", PDUS[k].name, err(e)))?;
        ensure!(q.dbg() == *dbg, "{} differs when other headers are read before its body", PDUS[k].name);
    }
    Ok(Seen::when(items.len() > 1 || !tail.is_empty())
        .label_if(items.len() > 1, "several PDUs")
        .label_if(!tail.is_empty(), "trailing octets")
        .label_if(chunks.c.len() + 1 > 3, "several chunks"))
}

// ====================================================== C19 bundles

pub type Bundle = (Vec<(usize, PduCase)>, Vec<u8>, u8);

/// What a receiver does: peek at the type, take the length from the header, read that much.
pub fn k_bundle(_: &str, c: &Bundle) -> Res {
    let (items, junk, how) = c;
    let mut b = BytesMut::with_capacity(if how & 1 == 0 { 0 } else { 1 << 16 });
    b.extend_from_slice(junk);
    // sometimes after more than 16 bits can count
    if how >> 4 == 7 {
        b.resize(0x10000 + usize::from(how & 7), 0x5a);
    }
    let before = b.to_vec();
    let mut ends = vec![];
    for (k, c) in items {
        let (i, r) = (&PDUS[*k], rec(PDUS[*k].name));
        if enc_pdu(r, &c.hdr(), &c.vals).len() > MAX {
            return Ok(Seen::default().label("too big, skipped"));
        }
        build(i, r, c).ser(&mut b).map_err(|e| format!("{}: {}", i.name, err(e)))?;
        ends.push(b.len());
    }
    let mut at = before.len();
    // sometimes in front of so many others that 16 bits count few
    let end = b.len();
    if how >> 4 == 9 {
        b.resize(at + 0x10000 + usize::from(how & 15), 0);
    }
    let mut owned = b.split_off(at);
    ensure!(b[..] == before[..], "writing the bundle changed what was in the buffer before");
    let all = owned.to_vec();
    let mut rest = &all[..];
    for (n, ((k, c), end)) in items.iter().zip(&ends).enumerate() {
        let (i, r) = (&PDUS[*k], rec(PDUS[*k].name));
        let name = i.name;
        let t = PduHeader::get_pdu_type(rest).ok_or_else(|| format!("PDU {n} of the bundle, a {name}: no type to be seen"))?;
        let t = t.to_v().n();
        let code = |p: &PduInfo| u64::from(rec(p.name).pdu.unwrap().0);
        let of: Vec<usize> = (0..PDUS.len()).filter(|p| code(&PDUS[*p]) == t).collect();
        ensure!(of == [*k], "PDU {n} of the bundle, a {name}, shows type {t}, of {:?}", of.iter().map(|p| PDUS[*p].name).collect::<Vec<_>>());
        let mut h = rest;
        let head = <PduHeader as GenericHeader>::deserialize(&mut h);
        let len = usize::from(head.length);
        ensure!(len == usize::from(u16::from_be_bytes([rest[8], rest[9]])), "{name}: header length {len} is not on the wire");
        ensure!(at + len == *end, "PDU {n} of the bundle, a {name}, has length {len} but takes {} octets", end - at);
        let (mine, after) = rest.split_at(len);
        let mut want = c.vals.clone();
        canon_fields(&r.fields, &mut want);
        let good = |how: &str, q: Result<Box<dyn DynPdu>, DISError>, left: usize| {
            let q = q.map_err(|e| format!("PDU {n} of the bundle, a {name}, {how}: {}", err(e)))?;
            ensure!(left == 0, "PDU {n} of the bundle, a {name}, {how}: {left} octets not read");
            if let Some(d) = diff_fields(&r.fields, &want, &model(r, &*q)) {
                return Err(format!("PDU {n} of the bundle {how}: {name}{d}"));
            }
            check_hdr(q.hdr(), c, r, len)
        };
        let mut m = mine;
        let q = (i.dec_slice)(&mut m);
        good("taken out", q, m.len())?;
        let mut m = owned.split_to(len);
        let q = (i.dec_bytes)(&mut m);
        good("split off", q, m.len())?;
        let mut m = rest.take(len);
        let q = (i.dec)(&mut m);
        good("taken", q, m.remaining())?;
        let mut m = &mine[HEADER..];
        let q = (i.dec_body)(&mut m, head);
        good("after its header", q, m.len())?;
        // a receiver that expects another type does not take it for one
        let other = &PDUS[(k + 1 + usize::from(*how) % (PDUS.len() - 1)) % PDUS.len()];
        let mut m = mine;
        match (other.dec_slice)(&mut m) {
            Err(DISError::InvalidHeader { .. }) => {}
            Err(e) => return Err(format!("{name} read as {}: {}", other.name, err(e))),
            Ok(_) => return Err(format!("{name} was read as {}", other.name)),
        }
        // less than its length is not enough
        let mut m = &mine[..len - 1];
        ensure!((i.dec_slice)(&mut m).is_err(), "{name} was read without its last octet");
        rest = after;
        at += len;
    }
    ensure!(at == end && owned[..] == *rest && rest.iter().all(|x| *x == 0), "the last PDU ends at {at}, not {end}");
    let left = PduHeader::get_pdu_type(rest);
    ensure!(left.is_none() == (rest.len() < HEADER), "{left:?} seen in {} octets", rest.len());
    Ok(Seen::when(items.len() > 1)
        .label_if(items.len() > 3, "more than three PDUs")
        .label_if(all.len() > 1024, "more than 1024 octets")
        .label_if(all.len() > 65_535 || at > 65_535, "in a buffer of more than 65535 octets")
        .label_if(!junk.is_empty(), "not at the start of the buffer"))
}

/// How a buffer is divided does not matter, for arbitrary bytes either.
pub fn k_chunk(s: &str, c: &(Vec<u8>, Vec<usize>)) -> Res {
    let i = info(s);
    let (b, cuts) = c;
    let mut slice: &[u8] = b;
    let mut chunks = Chunks::new(b, cuts);
    let n = chunks.c.len();
    let p = (i.dec_slice)(&mut slice);
    let q = (i.dec)(&mut chunks);
    same_result(&p, &q)?;
    let mut owned = BytesMut::from(&b[..]);
    let o = (i.dec_bytes)(&mut owned);
    same_result(&p, &o)?;
    let at = hash(c) & 15;
    let (q, left) = placed(b, at, |mut b| ((i.dec_slice)(&mut b), b.len()));
    same_result(&p, &q).map_err(|e| format!("at address 16 n + {at}: {e}"))?;
    ensure!(p.is_err() || left == slice.len(), "at address 16 n + {at} {left} octets left, not {}", slice.len());
    if p.is_ok() {
        ensure!(slice.remaining() == chunks.remaining(), "{} and {} octets left", slice.remaining(), chunks.remaining());
        ensure!(slice.remaining() == owned.remaining(), "{} and {} octets left", slice.remaining(), owned.remaining());
        let mut two: &[u8] = b;
        let h = <PduHeader as GenericHeader>::deserialize(&mut two);
        let q = (i.dec_body)(&mut two, h);
        same_result(&p, &q)?;
        ensure!(two.remaining() == slice.remaining(), "in two steps {} octets left, not {}", two.remaining(), slice.remaining());
    } else if b.len() >= HEADER {
        let mut two: &[u8] = b;
        let h = <PduHeader as GenericHeader>::deserialize(&mut two);
        match ((i.dec_body)(&mut two, h), &p) {
            (Err(e), Err(f)) => ensure!(
                std::mem::discriminant(&e) == std::mem::discriminant(f),
                "refused with {}, in two steps with {}", f, err(e)
            ),
            _ => return Err("refused in one step, accepted in two".into()),
        }
    }
    Ok(Seen::when(n > 1).label_if(p.is_ok(), "accepted").label_if(n > 5, "more than 5 chunks"))
}

// ======================================================= C10 histories

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// assign every field
    Put(u8, PduCase),
    /// assign one field
    Set(u8, usize, PduCase),
    /// a small change somewhere
    Nudge(u8, u64),
    /// assign the header fields
    Header(u8, PduCase),
    /// serialize behind what the buffer already holds
    Append(u8),
    /// serialize into a buffer of its own
    Alone(u8),
    Finalize(u8),
    Measure(u8),
    /// failing serializations of an oversized variant
    Fail(u8, u8),
    /// replace by what is read back
    Reread(u8),
    /// drop the first octets of the buffer, or all of it
    Consume(usize),
    /// something else is put into the buffer
    Fill(u32),
}

pub fn k_history(s: &str, c: &(usize, Vec<Op>)) -> Res {
    let names = [s, PDUS[c.0].name];
    let recs = names.map(rec);
    let infos = names.map(info);
    let mut objs = [(infos[0].new)(), (infos[1].new)()];
    let mut cases = [PduCase::zero(recs[0]), PduCase::zero(recs[1])];
    for k in 0..2 {
        put(&mut *objs[k], recs[k], &cases[k]);
    }
    let mut buf = BytesMut::new();
    let mut model_buf: Vec<u8> = vec![];
    let mut serialized = 0;
    let mut written: Vec<(usize, PduCase, Option<Vec<u8>>)> = vec![];
    for (step, op) in c.1.iter().enumerate() {
        match op {
            Op::Put(k, x) => {
                let k = usize::from(*k);
                cases[k] = x.clone();
                put(&mut *objs[k], recs[k], x);
            }
            Op::Set(k, f, x) => {
                let k = usize::from(*k);
                let f = f % recs[k].fields.len();
                cases[k].vals[f] = x.vals[f].clone();
                objs[k].set(f, &x.vals[f]);
            }
            Op::Nudge(k, seed) => {
                let k = usize::from(*k);
                let mut new = cases[k].vals.clone();
                nudge(&recs[k].fields, &mut new, *seed);
                settle(recs[k], &mut new, STRICT);
                for f in 0..new.len() {
                    if new[f] != cases[k].vals[f] {
                        objs[k].set(f, &new[f]);
                    }
                }
                cases[k].vals = new;
            }
            Op::Header(k, x) => {
                let k = usize::from(*k);
                let y = PduCase { vals: cases[k].vals.clone(), ..x.clone() };
                put_hdr(&mut *objs[k], &y);
                cases[k] = y;
            }
            Op::Append(k) | Op::Alone(k) => {
                let k = usize::from(*k);
                let before: Vec<V> = model(recs[k], &*objs[k]);
                let fresh = ser(&mut *build(infos[k], recs[k], &cases[k]));
                let got = if matches!(op, Op::Append(_)) {
                    let r = objs[k].ser(&mut buf);
                    if let Ok(f) = &fresh {
                        model_buf.extend_from_slice(f);
                    }
                    ensure!(buf[..] == model_buf[..], "step {step}: {} appended to {} octets: buffer differs from what a fresh PDU appends", names[k], model_buf.len());
                    r.map(|()| None)
                } else {
                    ser(&mut *objs[k]).map(Some)
                };
                match (got, fresh) {
                    (Ok(Some(g)), Ok(f)) => {
                        ensure!(g == f, "step {step}: {} {}", names[k], byte_diff(&f, &g).unwrap_or_default());
                        serialized += 1;
                        written.push((k, cases[k].clone(), Some(g)));
                    }
                    (Ok(None), Ok(_)) => serialized += 1,
                    (Err(_), Err(_)) => written.push((k, cases[k].clone(), None)),
                    (g, f) => return Err(format!("step {step}: {} serializes: {}, a fresh one: {}", names[k], g.is_ok(), f.is_ok())),
                }
                let after = model(recs[k], &*objs[k]);
                for (j, f) in recs[k].fields.iter().enumerate() {
                    if !matches!(f.derive, Some(Derive::OptLen(_))) {
                        ensure!(before[j] == after[j], "step {step}: serializing changed {}.{}", names[k], f.name);
                    }
                }
            }
            Op::Finalize(k) => {
                let k = usize::from(*k);
                objs[k].fin();
            }
            Op::Measure(k) => {
                let k = usize::from(*k);
                let f = build(infos[k], recs[k], &cases[k]).len();
                let g = objs[k].len();
                ensure!(f.as_ref().ok() == g.as_ref().ok(), "step {step}: {} measures {g:?}, a fresh one {f:?}", names[k]);
            }
            Op::Fail(k, times) => {
                let k = usize::from(*k);
                let Some(li) = recs[k].fields.iter().position(|f| matches!(f.ty, Ty::Vec(_) | Ty::Bytes)) else { continue };
                let mut big = cases[k].clone();
                let o = Opts { big: false, ..STRICT };
                grow(recs[k], &mut big, li, 9000, 0, 1, o);
                let keep = objs[k].get(li);
                objs[k].set(li, &big.vals[li]);
                let failed = objs[k].ser(&mut buf).is_err();
                if failed {
                    for _ in 0..*times {
                        ensure!(objs[k].ser(&mut buf).is_err(), "step {step}: {} is refused once, but not again", names[k]);
                    }
                    ensure!(buf[..] == model_buf[..], "step {step}: a failed serialization of {} changed the buffer", names[k]);
                    ensure!(objs[k].get(li) == big.vals[li], "step {step}: a failed serialization changed {}", names[k]);
                } else {
                    model_buf = buf.to_vec();
                }
                objs[k].set(li, &keep);
            }
            Op::Reread(k) => {
                let k = usize::from(*k);
                let Ok(b) = ser(&mut *objs[k]) else { continue };
                let mut rd: &[u8] = &b;
                let Ok(p) = (infos[k].dec)(&mut rd) else { continue };
                if !rd.is_empty() {
                    continue;
                }
                let v = model(recs[k], &*p);
                let again = ser(&mut *{
                    let mut q = p;
                    std::mem::swap(&mut q, &mut objs[k]);
                    q
                });
                ensure!(again.as_ref().ok() == Some(&b), "step {step}: serializing {} twice gives different octets", names[k]);
                cases[k].vals = v;
            }
            Op::Fill(n) => {
                let n = *n as usize;
                buf.extend_from_slice(&vec![n as u8; n]);
                model_buf.resize(model_buf.len() + n, n as u8);
            }
            Op::Consume(n) => {
                let n = if *n > 200 { buf.len() } else { (*n).min(buf.len()) };
                buf.advance(n);
                model_buf.drain(..n);
            }
        }
    }
    // the same once more, the last first, and one of them on a thread that did nothing yet
    for (k, c, b) in written.iter().rev() {
        let again = ser(&mut *build(infos[*k], recs[*k], c));
        ensure!(again.as_ref().ok() == b.as_ref(), "{} written again at the end: {}", names[*k], byte_diff(b.as_deref().unwrap_or_default(), again.as_deref().unwrap_or_default()).unwrap_or_default());
    }
    // the last, and the last that was refused
    for (k, c, _) in written.iter().rev().take(1).chain(written.iter().rfind(|w| w.2.is_none())) {
        let i = PDUS.iter().position(|p| p.name == names[*k]).unwrap();
        let step = crate::once::Step::Write(i, c.clone());
        let (a, b) = (crate::once::on_new_thread(&step), crate::once::run(&step));
        ensure!(a == b, "{} written on a new thread: {}", names[*k], crate::once::differ(&a, &b));
    }
    Ok(Seen::when(serialized > 1).label_if(serialized > 3, "more than 3 serializations").label_if(c.1.iter().any(|o| matches!(o, Op::Fail(..))), "with a failed serialization"))
}

fn op(s: &'static str, other: &'static str) -> BoxedStrategy<Op> {
    let mut arms: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    for (k, n) in [(0u8, s), (1, other)] {
        let c = pdu_case(rec(n), STRICT_SMALL);
        let m = if k == 0 { 3 } else { 1 };
        arms.push((2 * m, c.clone().prop_map(move |c| Op::Put(k, c)).boxed()));
        if k == 0 {
            arms.push((1, pdu_case(rec(n), STRICT).prop_map(move |c| Op::Put(k, c)).boxed()));
        }
        arms.push((2 * m, (0usize..64, c.clone()).prop_map(move |(f, c)| Op::Set(k, f, c)).boxed()));
        arms.push((2 * m, any::<u64>().prop_map(move |n| Op::Nudge(k, n)).boxed()));
        arms.push((m, c.prop_map(move |c| Op::Header(k, c)).boxed()));
        arms.push((3 * m, Just(Op::Append(k)).boxed()));
        arms.push((2 * m, Just(Op::Alone(k)).boxed()));
        arms.push((m, Just(Op::Finalize(k)).boxed()));
        arms.push((m, Just(Op::Measure(k)).boxed()));
        arms.push((m, prop_oneof![Just(0u8), 1u8..40, edited_or(1..=255, 1).prop_map(|n| n as u8)].prop_map(move |n| Op::Fail(k, n)).boxed()));
        arms.push((m, Just(Op::Reread(k)).boxed()));
    }
    arms.push((3, (0usize..300).prop_map(Op::Consume).boxed()));
    let fill = prop_oneof![
        4 => 0u32..600,
        1 => 600u32..9000,
        1 => select(vec![1024u32, 1400, 1472, 1500, 4096, 8192, 16_384, 32_768, 65_507, 65_535, 65_536]),
        1 => 9000u32..80_000,
        1 => edited_or(1..=100_000, 12).prop_map(|n| n as u32)
    ];
    arms.push((2, (fill, 0u32..12).prop_map(|(n, k)| Op::Fill(n.saturating_sub(k * 6))).boxed()));
    Union::new_weighted(arms).boxed()
}

// ======================================================== C11 records

/// The same octets in several chunks, read both ways, are the same record.
fn elsewhere(s: &str, b: &[u8], got: &V, left: usize) -> Result<(), String> {
    let (o, r) = (recops(s), rec(s));
    let k = crate::run::hash(&b.to_vec());
    let cuts: Vec<usize> = if b.len() < 80 && k % 4 == 0 { (0..b.len()).collect() } else { vec![(k >> 8) as usize, (k >> 16) as usize >> (k & 3), b.len() - left][..1 + (k >> 62) as usize % 3].to_vec() };
    let field = o.field.as_ref().map_or(o.dec, |f| f.dec);
    for at in if b.len() < 200 && k % 8 == 1 { 0..16 } else { k >> 30 & 15..(k >> 30 & 15) + 1 } {
        let (x, n) = placed(b, at, |mut b| ((if k >> 60 & 1 == 0 { o.dec } else { field })(&mut b), b.len()));
        if x != *got {
            return Err(format!("at address 16 n + {at} {s} differs: {}", diff_fields(&r.fields, got.fields(), x.fields()).unwrap_or_default()));
        }
        ensure!(n == left, "{s} at address 16 n + {at}: {n} octets left, not {left}");
    }
    let mut rd = crate::alloc::Chunks::new(b, &cuts);
    let x = (if k >> 61 & 1 == 0 { o.dec } else { field })(&mut rd);
    if x != *got {
        return Err(format!("from {} chunks {s} differs: {}", cuts.len() + 1, diff_fields(&r.fields, got.fields(), x.fields()).unwrap_or_default()));
    }
    ensure!(rd.remaining() == left, "{s} from several chunks: {} octets left, not {left}", rd.remaining());
    Ok(())
}

pub fn k_rec(s: &str, c: &(V, Vec<u8>)) -> Res {
    let (o, r) = (recops(s), rec(s));
    let (v, tail) = c;
    let mut want = vec![];
    enc_fields(&r.fields, v.fields(), &mut want);
    let mut b = room(want.len() as u64 ^ hash(&tail) << 20);
    b.extend_from_slice(b"pre");
    (o.ser)(v, &mut b);
    ensure!(&b[..3] == b"pre", "earlier octets changed");
    let bytes = b[3..].to_vec();
    let mut w = v.clone();
    canon_fields(&r.fields, w.fields_mut());
    let mut full = bytes.clone();
    full.extend_from_slice(tail);
    let mut rd: &[u8] = &full;
    let got = (o.dec)(&mut rd);
    if let Some(d) = diff_fields(&r.fields, w.fields(), got.fields()) {
        return Err(format!("written and read back differ: {s}{d}"));
    }
    ensure!(rd.len() == tail.len(), "{s}: {} octets left, not {}", rd.len(), tail.len());
    if let Some(d) = byte_diff(&want, &bytes) {
        return Err(format!("encoding of {s} {d}"));
    }
    if let Some(l) = o.length {
        ensure!(l == bytes.len(), "{s}: length constant {l}, {} octets written", bytes.len());
    }
    if let Some(f) = &o.field {
        let n = (f.len)(v);
        ensure!(n == bytes.len(), "{s}: length {n}, {} octets written", bytes.len());
        let mut b2 = room(hash(&want));
        (f.ser)(v, &mut b2);
        ensure!(b2[..] == bytes[..], "{s}: the two encoders differ");
        let mut rd: &[u8] = &full;
        let got2 = (f.dec)(&mut rd);
        ensure!(got2 == got, "{s}: the two decoders differ: {}", diff_fields(&r.fields, got.fields(), got2.fields()).unwrap_or_default());
        ensure!(rd.len() == tail.len(), "{s}: {} octets left, not {}", rd.len(), tail.len());
    }
    elsewhere(s, &full, &got, tail.len())?;
    let mut again = BytesMut::new();
    (o.ser)(&got, &mut again);
    ensure!(again[..] == bytes[..], "{s}: read back, it is written differently");
    let zero = bytes.iter().all(|x| *x == 0);
    Ok(Seen::when(!zero).label_if(bytes.len() > 255, "more than 255 octets").label_if(!tail.is_empty(), "trailing octets"))
}

/// A record whose counts or lengths disagree with its lists still measures what it writes, both ways.
pub fn k_rec_loose(s: &str, v: &V) -> Res {
    let o = recops(s);
    let Some(f) = &o.field else { return Ok(Seen::default()) };
    let mut b = BytesMut::new();
    (o.ser)(v, &mut b);
    let mut b2 = BytesMut::new();
    (f.ser)(v, &mut b2);
    ensure!(b == b2, "{s}: the two encoders differ");
    let n = (f.len)(v);
    ensure!(n == b.len(), "{s}: length {n}, {} octets written", b.len());
    Ok(Seen::yes().label("counts or lengths that disagree with the lists"))
}

/// Grid records whose padding runs to the end of the buffer: as intended, or as the finding predicts.
pub fn k_rec_finding(s: &str, c: &(V, Vec<u8>)) -> Res {
    let (o, r) = (recops(s), rec(s));
    let (v, tail) = c;
    let mut b = vec![];
    enc_fields(&r.fields, v.fields(), &mut b);
    b.extend_from_slice(tail);
    let mut rd: &[u8] = &b;
    let got = (o.dec)(&mut rd);
    if diff_fields(&r.fields, v.fields(), got.fields()).is_none() && rd.len() == tail.len() {
        return Ok(Seen::yes().label("decoded as intended"));
    }
    let mut lr: &[u8] = &b;
    LEGACY.set(true);
    let l = dec_fields(&r.fields, &mut lr);
    LEGACY.set(false);
    let Ok(l) = l else { return Err(format!("{s}: not as intended")) };
    if let Some(d) = diff_fields(&r.fields, &l, got.fields()) {
        return Err(format!("neither as intended nor as in finding grid-padding-to-end: {s}{d}"));
    }
    ensure!(rd.len() == lr.len(), "neither as intended nor as in finding grid-padding-to-end: {} octets left", rd.len());
    Ok(Seen { known: Some("grid-padding-to-end".into()), ..Seen::yes() })
}

/// Records read from specified octets with unknown codes and non-zero paddings.
pub fn k_rec_dec(s: &str, v: &V) -> Res {
    let (o, r) = (recops(s), rec(s));
    let mut b = vec![];
    enc_fields(&r.fields, v.fields(), &mut b);
    let mut rb: &[u8] = &b;
    let want = match dec_fields(&r.fields, &mut rb) {
        Ok(w) => w,
        Err(DecErr::Unspecified(_)) => return Ok(Seen::default().label("unspecified input")),
        Err(DecErr::Underflow) => return Err("harness".into()),
    };
    let mut rd: &[u8] = &b;
    let got = (o.dec)(&mut rd);
    if let Some(d) = diff_fields(&r.fields, &want, got.fields()) {
        return Err(format!("octets read differently: {s}{d}"));
    }
    ensure!(rd.is_empty(), "{s}: {} octets left", rd.len());
    elsewhere(s, &b, &got, 0)?;
    Ok(Seen::yes())
}

/// The records with a length given from outside.
pub fn k_opt(s: &str, c: &(Vec<u8>, Vec<u8>)) -> Res {
    use open_dis_rust::{
        common::data_types::{antenna_pattern::AntennaPattern, modulation_parameters::ModulationParameters},
        pdu_macro::{FieldDeserializeWithLen, FieldLen, FieldSerialize},
    };
    let (data, tail) = c;
    let mut full = data.clone();
    full.extend_from_slice(tail);
    macro_rules! go {
        ($t:ty, $l:ty) => {{
            let mut rd: &[u8] = &full;
            let x = <$t>::deserialize(&mut rd, data.len() as $l);
            ensure!(x.is_some() == !data.is_empty(), "{} octets read as {x:?}", data.len());
            ensure!(rd.len() == tail.len(), "{} octets left, not {}", rd.len(), tail.len());
            let x = x.unwrap_or_default();
            let mut b = BytesMut::new();
            x.serialize(&mut b);
            ensure!(b[..] == data[..], "{} octets came back as {}", data.len(), b.len());
            ensure!(x.field_len() == data.len(), "length {}, not {}", x.field_len(), data.len());
            let mut b = BytesMut::new();
            x.serialize_field(&mut b);
            ensure!(b[..] == data[..], "the two encoders differ");
            let mut rd: &[u8] = &full;
            let y = <Option<$t> as FieldDeserializeWithLen>::deserialize_with_len(&mut rd, data.len());
            ensure!(rd.len() == tail.len(), "{} octets left, not {}", rd.len(), tail.len());
            ensure!(y.is_some() == !data.is_empty(), "{} octets read as {y:?}", data.len());
            let mut b = BytesMut::new();
            y.serialize_field(&mut b);
            ensure!(b[..] == data[..], "optional: {} octets came back as {}", data.len(), b.len());
            ensure!(y.field_len() == data.len(), "optional: length {}, not {}", y.field_len(), data.len());
        }};
    }
    if s == "AntennaPattern" {
        go!(AntennaPattern, u16)
    } else {
        go!(ModulationParameters, u8)
    }
    Ok(Seen::when(!data.is_empty()))
}

// ======================================================= C14 fixpoint

pub fn k_fix(s: &str, b: &Vec<u8>) -> Res {
    let (i, r) = (info(s), rec(s));
    let Ok(mut p) = (i.dec)(&mut &b[..]) else {
        return Ok(Seen::default().label("refused"));
    };
    let mut m1 = model(r, &*p);
    let h1 = *p.hdr();
    let b1 = match ser(&mut *p) {
        Ok(b) => b,
        Err(DISError::PduSizeExceeded { size, .. }) if size > MAX => return Ok(Seen::default().label("accepted, but too big to send")),
        Err(e) => return Err(format!("accepted, but cannot be serialized: {}", err(e))),
    };
    let mut rd: &[u8] = &b1;
    let mut q = (i.dec)(&mut rd).map_err(|e| format!("own re-encoding refused: {}", err(e)))?;
    ensure!(rd.is_empty(), "{} octets of the own re-encoding left over", rd.len());
    canon_fields(&r.fields, &mut m1);
    if let Some(d) = diff_fields(&r.fields, &m1, &model(r, &*q)) {
        return Err(format!("relayed PDU differs: {s}{d}"));
    }
    let h2 = *q.hdr();
    ensure!(
        h1.protocol_version == h2.protocol_version
            && h1.exercise_id == h2.exercise_id
            && h1.timestamp == h2.timestamp
            && h1.pdu_type == h2.pdu_type
            && h1.status_record == h2.status_record,
        "relayed header differs: {h1:?} / {h2:?}"
    );
    let b2 = ser(&mut *q).map_err(|e| format!("second serialization: {}", err(e)))?;
    if let Some(d) = byte_diff(&b1, &b2) {
        return Err(format!("second encoding of {s} {d}"));
    }
    Ok(Seen::yes().label_if(b1[..] != b[..], "normalized").label_if(b1[..] == b[..], "identical"))
}

// ============================================================== driver


fn each_pdu(f: impl Fn(&'static str) + Sync) {
    // the expensive ones first
    let mut names: Vec<&'static str> = PDUS.iter().map(|p| p.name).collect();
    names.sort_by_key(|n| std::cmp::Reverse(rec(n).fields.iter().filter(|f| matches!(f.ty, Ty::Vec(_))).count()));
    names.par_iter().with_max_len(1).for_each(|s| f(s));
}

pub fn check(ctx: &Ctx) -> Option<(&'static str, Vec<&'static str>)> {
    let t = |quick: u32, factor: u32| if ctx.thorough { quick * factor * 3 } else { quick * 5 };
    let common = "schema/schema.json (field order, widths, codes and counts of every PDU and record) is what the protocol prescribes";
    Some(match ctx.prop {
        "C01" => {
            each_pdu(|s| {
                search(ctx, "rt", s, &pdu_case(rec(s), LAST), t(2500, 20), |c| k_rt(s, c));
                if let Some(st) = sized_case(s, LAST) {
                    search(ctx, "rt", s, &st, t(60, 20), |c| k_rt(s, c));
                }
                sweep(ctx, "rt", s, 65_536, STRICT, k_rt);
                list_sizes_of(ctx, "rt", s, STRICT, k_rt);
                if FINDING_PDUS.contains(&s) {
                    let st = (pdu_case(rec(s), FULL), Just(vec![])).boxed();
                    search(ctx, "finding", s, &st, t(1500, 20), |c| k_finding(s, c));
                }
            });
            ("one PDU with every public field assigned from generated values (boundary, literal-derived, uniform and correlated), counts and lengths made consistent; plus a sweep in which every scalar of up to 16 bits and every enumeration takes every value. Non-trivial: at most 8192 octets and a body that is not all zero; distinct by the generated case.",
             vec![common, "count and length fields are set consistently by the caller, as the API requires"])
        }
        "C02" => {
            each_pdu(|s| {
                search(ctx, "enc", s, &pdu_case(rec(s), FULL), t(1500, 20), |c| k_enc(s, c));
                sweep(ctx, "enc", s, 65_536, FULL, k_enc);
                list_sizes_of(ctx, "enc", s, FULL, k_enc);
                list_sizes_of(ctx, "dec", s, WIRE_STRICT, k_dec);
                search(ctx, "dec", s, &pdu_case(rec(s), WIRE), t(1000, 20), |c| k_dec(s, c));
                search(ctx, "arb", s, &arbitrary_bytes(s, WIRE_STRICT), t(2000, 20), |c| k_arb(s, c));
                if FINDING_PDUS.contains(&s) {
                    let st = (pdu_case(rec(s), WIRE_FULL), Just(vec![])).boxed();
                    let st = st.prop_map(|(mut c, t): (PduCase, Vec<u8>)| { known_codes(&mut c, s); (c, t) }).boxed();
                    search(ctx, "finding", s, &st, t(1000, 20), |c| k_finding(s, c));
                }
            });
            ("encodings compared octet by octet with an independent reference encoder; reference encodings with unknown codes and non-zero paddings decoded; arbitrary and mutated octets decoded by the crate and by a reference decoder. Non-trivial: a body that is not all zero, or a decode whose meaning the reference fixes.",
             vec![common])
        }
        "C03" => {
            each_pdu(|s| {
                search(ctx, "len", s, &pdu_case(rec(s), FULL), t(2500, 20), |c| k_len(s, c));
                if let Some(st) = sized_case(s, FULL) {
                    search(ctx, "len", s, &st, t(400, 20), |c| k_len(s, c));
                }
                lengths(ctx, s);
                list_sizes_of(ctx, "len", s, FULL, k_len);
                let r = rec(s);
                if r.fields.iter().any(|f| f.derive.is_some()) {
                    let st = (pdu_case(r, FULL), any::<u64>())
                        .prop_map(move |(mut c, mut x)| {
                            loosen(&r.fields, &mut c.vals, &mut x);
                            c
                        })
                        .boxed();
                    search(ctx, "loose", s, &st, t(1500, 20), |c| k_loose(s, c));
                }
            });
            sizes(ctx);
            ("generated PDUs, with counts and lengths that agree with their lists and ones that do not, every list length from 0 to 300 and sizes around 256, 8192 and 65536 octets; octets written, header, length field, calculated and finalized length compared with the reference size. Non-trivial: more than a header.",
             vec![common])
        }
        "C04" => {
            each_pdu(|s| {
                search(ctx, "robust", s, &arbitrary_bytes(s, WIRE_FULL), t(4000, 25), |c| k_robust(s, c));
                let k = PDUS.iter().position(|p| p.name == s).unwrap();
                search(ctx, "process", s, &crate::once::steps(k, false), t(40, 20), |c| crate::once::k_process(s, c));
                search(ctx, "together", s, &crate::once::lanes(k, false), t(12, 20), |c| crate::once::k_together(s, c));
                search(ctx, "prefix", s, &pdu_case(rec(s), Opts { big: false, ..WIRE_STRICT }), t(60, 25), |c| k_prefix(s, c));
                search(ctx, "prefix", s, &pdu_case(rec(s), STRICT), t(40, 25), |c| k_prefix(s, c));
                inflate(ctx, s);
                bigs(ctx, s);
                search(ctx, "kept", s, &arbitrary_bytes(s, WIRE_FULL), t(100, 20), |c| k_kept(s, c));
                let whole = pdu_case(rec(s), STRICT).prop_map(move |c| enc_pdu(rec(s), &c.hdr(), &c.vals)).boxed();
                search(ctx, "kept", s, &whole, t(40, 20), |c| k_kept(s, c));
                if FINDING_PDUS.contains(&s) {
                    search(ctx, "prefix-finding", s, &pdu_case(rec(s), WIRE_FULL), t(200, 25), |c| k_prefix_finding(s, c));
                }
            });
            ("arbitrary octets, mutated encodings, inflated counts, every proper prefix of generated encodings; panics, acceptance of prefixes, buffer operations, processor time, allocated memory and memory kept over fifty repetitions observed; lists and records of up to some megabytes; what a new process reads first compared with what it reads after other steps. Non-trivial: more than a header.",
             vec![common, "work bound: 2,000,000 + 64 n buffer operations and 32 MiB + 1024 n octets of memory and 0.5 s + 0.5 us n of processor time for n octets of input"])
        }
        "C05" => {
            each_pdu(|s| {
                let mut l = Local::new(ctx, "fresh", s);
                l.judge(0, || 0u8, || k_fresh(s, &0));
                drop(l);
                let fams = &schema().enums["ProtocolFamily"].codes;
                let mut l = Local::new(ctx, "dispatch", s);
                for ty in 0..=255u8 {
                    for (j, fam) in fams.iter().chain([200, 255].iter()).enumerate() {
                        for form in 0..64 {
                            // every form for the own family, one of them for the others
                            if *fam != u64::from(rec(s).pdu.unwrap().1) && form != (u16::from(ty) * 5 + j as u16) % 64 {
                                continue;
                            }
                            let c = (sweep_case(rec(s), u64::from(ty) * 7 + j as u64 + ctx.seed, STRICT), ty, *fam as u8, form);
                            if l.judge(u64::from(ty) << 16 | fam << 8 | u64::from(form), || c.clone(), || k_dispatch(s, &c)) {
                                return;
                            }
                        }
                    }
                }
                drop(l);
                let st = (pdu_case(rec(s), STRICT), prop_oneof![any::<u8>(), 0u8..80], prop_oneof![any::<u8>(), 0u8..14, Just(rec(s).pdu.unwrap().1)], any::<bool>(), 0u16..64)
                    .prop_map(move |(c, t, f, own, form)| (c, if own { rec(s).pdu.unwrap().0 } else { t }, f, form))
                    .boxed();
                search(ctx, "dispatch", s, &st, t(1500, 20), |c| k_dispatch(s, c));
            });
            ["PduHeader", "LiveEntityPduHeader"].par_iter().for_each(|s| {
                let code = |n| select(schema().enums[n].codes.iter().map(|x| *x as u8).collect::<Vec<_>>());
                let st = (code("ProtocolVersion"), any::<u8>(), code("PduType"), code("ProtocolFamily"), int(4), int(2), any::<[u8; 2]>())
                    .prop_map(|(v, x, t, f, ts, l, e)| [&[v, x, t, f][..], &(ts.n() as u32).to_be_bytes(), &(l.n() as u16).to_be_bytes(), &e].concat())
                    .boxed();
                search(ctx, "setters", s, &st, t(40_000, 20), |c| k_setters(s, c));
            });
            ("every PDU type offered all 256 type codes with every family code, and generated bodies; type and family set in both kinds of header, whatever they held; headers overwritten before serialization; downcasts of each decoded PDU to all 66 types. Non-trivial: every case of at most 8192 octets.",
             vec![common])
        }
        "C06" => {
            let hdr = |s: &'static str| {
                let own = schema().recs.get(s).map(|r| r.pdu.unwrap());
                let e = |n| {
                    let c: Vec<u8> = schema().enums[n].codes.iter().map(|x| *x as u8).collect();
                    Union::new_weighted(vec![(3, select(c).boxed()), (1, any::<u8>().boxed())])
                };
                (e("ProtocolVersion"), int(1), e("PduType"), e("ProtocolFamily"), int(4), int(2), any::<u8>(), any::<u8>())
                    .prop_map(move |(v, x, t, f, ts, l, s, p)| {
                        let mut b = vec![v, x.n() as u8, own.map_or(t, |o| o.0), f];
                        b.extend((ts.n() as u32).to_be_bytes());
                        b.extend((l.n() as u16).to_be_bytes());
                        b.extend([s, p]);
                        b
                    })
                    .boxed()
            };
            ["PduHeader", "LiveEntityPduHeader"].par_iter().for_each(|s| {
                search(ctx, "header", s, &hdr(s), t(200_000, 20), |c| k_header(s, c));
                // every value of every octet, and every 16-bit length
                let mut l = Local::new(ctx, "header", s);
                for pos in 0..12usize {
                    for x in 0..65536u32 {
                        if x > 255 && pos != 8 {
                            break;
                        }
                        for bg in [0u8, 0xff, 0x5a] {
                            let mut b = vec![bg; 12];
                            if pos == 8 {
                                b[8..10].copy_from_slice(&(x as u16).to_be_bytes());
                            } else {
                                b[pos] = x as u8;
                            }
                            if l.judge(hash(&b), || b.clone(), || k_header(s, &b)) {
                                return;
                            }
                        }
                    }
                }
            });
            each_pdu(|s| search(ctx, "header", s, &hdr(s), t(4000, 20), |c| k_header(s, c)));
            ("twelve generated octets (known and unknown codes, all values of every octet and of the length) through both header codecs and as the header of every PDU type. Non-trivial: every case.", vec![common])
        }
        "C07" => crate::misc::status(ctx, t(240_000, 10)),
        "C08" => {
            ENUMS.par_iter().for_each(|e| {
                let mut l = Local::new(ctx, "enum", e.name);
                let sc = &schema().enums[e.name];
                let codes: Box<dyn Iterator<Item = u64>> = if e.width < 4 {
                    Box::new(0..=mask(e.width))
                } else {
                    let near = sc.codes.clone().into_iter().flat_map(|c| {
                        [c, c.wrapping_add(1), c.wrapping_sub(1), c + (1 << 8), c + (1 << 16), c + (1 << 24), c | 0x8000_0000, c.swap_bytes() >> 32]
                    });
                    let n = if ctx.thorough { 20_000_000 } else { 1_000_000 };
                    Box::new(near.chain(0..n).chain(boundary(4)).map(|c| c & 0xffff_ffff))
                };
                for c in codes {
                    if l.judge(c, || c, || k_enum(e.name, &c)) {
                        return;
                    }
                }
                drop(l);
                if e.width == 4 {
                    let st = int(4).prop_map(|v| v.n()).boxed();
                    search(ctx, "enum", e.name, &st, t(20_000, 50), |c| k_enum(e.name, c));
                }
            });
            ("every code of every 8- and 16-bit enumeration; for 32-bit ones every member, its neighbours and aliases, the first million codes and generated codes. Non-trivial: the meaning of the code is fixed (a member, or a default exists).",
             vec!["the member tables in schema/schema.json are those of SISO-REF-010 as the crate transcribes it"])
        }
        "C09" => {
            each_pdu(|s| {
                let k = PDUS.iter().position(|p| p.name == s).unwrap();
                let own = pdu_case(rec(s), STRICT);
                let st = (own, vec(any_pdu(true), 0..4), 0usize..4, vec(any::<u8>(), 0..40), vec(0usize..4096, 0..12))
                    .prop_map(move |(c, mut v, at, tail, cuts)| {
                        let at = at.min(v.len());
                        v.insert(at, (k, c));
                        // nearly the same once more
                        if cuts.len() % 3 == 1 {
                            let (k, mut c) = v[at].clone();
                            nudge(&rec(PDUS[k].name).fields, &mut c.vals, hash(&(&tail, &cuts)));
                            settle(rec(PDUS[k].name), &mut c.vals, STRICT);
                            v.insert(at + 1, (k, c));
                        }
                        (v, tail, cuts)
                    })
                    .boxed();
                search(ctx, "stream", s, &st, t(600, 20), |c| k_stream(s, c));
                let st = (arbitrary_bytes(s, WIRE_FULL), vec(0usize..4096, 0..12)).boxed();
                search(ctx, "chunk", s, &st, t(2000, 20), |c| k_chunk(s, c));
                every_cut(ctx, s);
                let mut l = Local::new(ctx, "chunk", s);
                list_sizes(s, STRICT, MAX, &mut |i, vals| {
                    let b = enc_pdu(rec(s), &sweep_case(rec(s), i, STRICT).hdr(), &vals);
                    let x = i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20;
                    let cuts = (0..1 + x % 5).map(|j| (x >> (7 * j)) as usize % b.len().max(1)).collect();
                    let c = (b, cuts);
                    l.judge(i << 20, || c.clone(), || k_chunk(s, &c))
                });
                drop(l);
                if FINDING_PDUS.contains(&s) {
                    let st = (pdu_case(rec(s), FULL), vec(any::<u8>(), 0..40)).boxed();
                    search(ctx, "finding", s, &st, t(1000, 20), |c| k_finding(s, c));
                }
            });
            ("streams of one to four PDUs of any types with trailing octets, read from a slice, an owned buffer, a chain, many chunks, a buffer with more octets behind than 16 or 32 bits can count and one that decodes other PDUs while it is read, in one step, in two, and all headers before the bodies; arbitrary octets cut at arbitrary places; every single cut of a sample PDU. Non-trivial: several PDUs or trailing octets, or more than one chunk.",
             vec![common])
        }
        "C10" => {
            let names: Vec<&'static str> = PDUS.iter().map(|p| p.name).collect();
            each_pdu(|s| {
                let k = names.iter().position(|n| *n == s).unwrap();
                for (n, d) in [7usize, 31].into_iter().enumerate() {
                    let o = (k + d) % names.len();
                    let st = (Just(o), vec(op(s, names[o]), 1..24)).boxed();
                    search(ctx, "history", s, &st, t(if n == 0 { 500 } else { 300 }, 20), |c| k_history(s, c));
                }
                search(ctx, "process", s, &crate::once::steps(k, true), t(40, 20), |c| crate::once::k_process(s, c));
                search(ctx, "together", s, &crate::once::lanes(k, true), t(12, 20), |c| crate::once::k_together(s, c));
            });
            ("histories of up to 23 operations on two PDUs of different types and one buffer: assignments, header edits, serializations (appending or alone, some of them failing), finalization, measurement, re-reading, consumption of the buffer; every serialization compared with that of a fresh PDU holding the same values, and with the same at the end of the history and on a new thread; what a new process writes first compared with what it writes after other steps. Non-trivial: at least two successful serializations, or steps before.",
             vec!["a fresh PDU with the same field values is the reference"])
        }
        "C11" => {
            RECS.par_iter().with_max_len(1).for_each(|o| {
                let s = o.name;
                let r = rec(s);
                let st = (rec_case(r, STRICT), vec(any::<u8>(), 0..24)).boxed();
                search(ctx, "rec", s, &st, t(4000, 20), |c| k_rec(s, c));
                let st = rec_case(r, Opts { big: true, ..WIRE_STRICT });
                search(ctx, "rec-dec", s, &st, t(3000, 20), |c| k_rec_dec(s, c));
                if r.fields.iter().any(|f| f.derive.is_some()) {
                    let st = (rec_case(r, FULL), any::<u64>())
                        .prop_map(move |(mut v, mut x)| {
                            loosen(&r.fields, v.fields_mut(), &mut x);
                            v
                        })
                        .boxed();
                    search(ctx, "rec-loose", s, &st, t(1000, 20), |c| k_rec_loose(s, c));
                }
                let mut l = Local::new(ctx, "rec", s);
                for i in 0..65_536u64 {
                    let c = (V::R(sweep_case(r, i, STRICT).vals), vec![0xaa; (i % 4) as usize]);
                    if l.judge(i, || c.clone(), || k_rec(s, &c)) {
                        return;
                    }
                }
                drop(l);
                let mut l = Local::new(ctx, "rec", s);
                list_sizes(s, STRICT, 3 * MAX, &mut |i, v| {
                    let c = (V::R(v), vec![0xaa; (i % 4) as usize]);
                    l.judge(i << 20, || c.clone(), || k_rec(s, &c))
                });
                drop(l);
                if s == "GridAxisDescriptor" || s == "GridDataRecord" {
                    let st = (rec_case(r, FULL), vec(any::<u8>(), 0..24)).boxed();
                    search(ctx, "rec-finding", s, &st, t(2000, 20), |c| k_rec_finding(s, c));
                }
                if s == "RecordSpecificationElement" {
                    crate::misc::products(ctx);
                }
            });
            for (s, max) in [("AntennaPattern", 65_535usize), ("ModulationParameters", 255)] {
                let st = (size(max, true).prop_flat_map(|n| vec(any::<u8>(), n)), vec(any::<u8>(), 0..24)).boxed();
                search(ctx, "opt", s, &st, t(600, 20), |c| k_opt(s, c));
                let mut l = Local::new(ctx, "opt", s);
                for n in (0..=300).chain([65_534, 65_535]) {
                    if n <= max {
                        let c = ((0..n).map(|i| (i * 7 + 1) as u8).collect::<Vec<u8>>(), vec![1u8, 2, 3]);
                        if l.judge(n as u64, || c.clone(), || k_opt(s, &c)) {
                            break;
                        }
                    }
                }
            }
            crate::misc::generic(ctx, t(2000, 20));
            ("every record type on its own: generated values and a sweep over all values of all scalars of up to 16 bits, with trailing octets, through both encoders and decoders; wire forms with unknown codes. Non-trivial: not all octets zero.",
             vec![common])
        }
        "C12" => crate::misc::vectors(ctx, t(1_000_000, 12)),
        "C13" => crate::misc::clock(ctx, t(150_000, 15)),
        "C14" => {
            each_pdu(|s| {
                search(ctx, "fix", s, &arbitrary_bytes(s, WIRE_FULL), t(4000, 25), |c| k_fix(s, c));
                let st = pdu_case(rec(s), WIRE).prop_map(move |c| enc_pdu(rec(s), &c.hdr(), &c.vals)).boxed();
                search(ctx, "fix", s, &st, t(1500, 25), |c| k_fix(s, c));
                let mut l = Local::new(ctx, "fix", s);
                list_sizes(s, WIRE, MAX, &mut |i, vals| {
                    let b = enc_pdu(rec(s), &sweep_case(rec(s), i, WIRE).hdr(), &vals);
                    l.judge(i << 20, || b.clone(), || k_fix(s, &b))
                });
            });
            ("arbitrary octets near valid encodings, decoded, encoded, decoded and encoded again. Non-trivial: the octets were accepted.", vec![])
        }
        "C15" => crate::misc::flags(ctx, t(80_000, 15)),
        "C16" => crate::ctor::ctors(ctx, t(4_000, 20)),
        "C17" => crate::value::copies(ctx, t(4_000, 20)),
        "C19" => {
            each_pdu(|s| {
                let k = PDUS.iter().position(|p| p.name == s).unwrap();
                let st = (pdu_case(rec(s), STRICT), vec(any_pdu(false), 0..6), 0usize..6, vec(any::<u8>(), 0..20), any::<u8>())
                    .prop_map(move |(c, mut v, at, junk, how)| {
                        let at = at.min(v.len());
                        v.insert(at, (k, c));
                        (v, junk, how)
                    })
                    .boxed();
                search(ctx, "bundle", s, &st, t(1200, 12), |c| k_bundle(s, c));
                if let Some(big) = sized_case(s, STRICT) {
                    let st = (big, vec(any_pdu(false), 0..3), 0usize..3, vec(any::<u8>(), 0..20), any::<u8>())
                        .prop_map(move |(c, mut v, at, junk, how)| {
                            let at = at.min(v.len());
                            v.insert(at, (k, c));
                            (v, junk, how)
                        })
                        .boxed();
                    search(ctx, "bundle", s, &st, t(200, 12), |c| k_bundle(s, c));
                }
            });
            ("bundles of one to six PDUs of any types, written by the library one after another behind other octets, taken apart by peeked type and header length alone. Non-trivial: more than one PDU.",
             vec![common])
        }
        "C18" => crate::value::errors(ctx, t(2_000, 20)),
        _ => return None,
    })
}

/// A small PDU of any type.
fn any_pdu(wire: bool) -> BoxedStrategy<(usize, PduCase)> {
    Union::new(PDUS.iter().enumerate().map(|(k, p)| {
        pdu_case(rec(p.name), Opts { wire, ..STRICT_SMALL })
            .prop_map(move |mut c| {
                known_codes(&mut c, PDUS[k].name);
                (k, c)
            })
            .boxed()
    }))
    .boxed()
}

/// Replace unknown enumeration codes by the default (paddings stay).
fn known_codes(c: &mut PduCase, s: &str) {
    let r = rec(s);
    for (f, v) in r.fields.iter().zip(c.vals.iter_mut()) {
        walk(&f.ty, v, &mut |t, x| {
            if let Ty::Enum(e, _) = t {
                let e = &schema().enums[e];
                if !e.set.contains(&x.n()) {
                    *x = V::N(e.default);
                }
            }
        });
    }
}

/// Every list length up to the limit of its count, in every list.
fn lengths(ctx: &Ctx, s: &'static str) {
    let r = rec(s);
    let mut l = Local::new(ctx, "len", s);
    for (li, f) in r.fields.iter().enumerate() {
        let top = match f.ty {
            Ty::Vec(_) | Ty::Bytes | Ty::OptBytes(_) | Ty::OptVec(_) => 300,
            _ => continue,
        };
        for n in 0..=top {
            let mut c = PduCase::zero(r);
            // nested lists stay short
            c.vals[li] = match &f.ty {
                Ty::Vec(t) => V::L(vec![one_each(t, 1); n]),
                Ty::OptVec(t) => V::L(vec![V::O(Some(Box::new(one_each(t, 1)))); n]),
                t => one_each(t, n),
            };
            settle(r, &mut c.vals, FULL);
            if l.judge((li as u64) << 32 | n as u64, || c.clone(), || k_len(s, &c)) {
                return;
            }
        }
    }
}

/// The size helpers.
fn sizes(ctx: &Ctx) {
    let mut l = Local::new(ctx, "size", "constants");
    for n in (0..70_000usize).chain([usize::MAX - 12, usize::MAX]) {
        if l.judge(n as u64, || n, || k_size("constants", &n)) {
            return;
        }
    }
}
pub fn k_size(_: &str, n: &usize) -> Res {
    use open_dis_rust::common::constants as k;
    ensure!(k::validate_pdu_size(*n) == (*n <= 8192), "{n} octets valid: {}", k::validate_pdu_size(*n));
    if *n <= usize::MAX - 12 {
        ensure!(k::total_pdu_size(*n) == n + 12, "total of {n} is {}", k::total_pdu_size(*n));
    }
    Ok(Seen::yes())
}

/// A count or length field claims far more than there is.
fn inflate(ctx: &Ctx, s: &'static str) {
    let r = rec(s);
    let n = enc_pdu(r, &Hdr::default(), &PduCase::zero(r).vals).len();
    let mut l = Local::new(ctx, "robust", s);
    for extra in [0usize, 1, 40, 2000] {
        for elems in [0, 1, 2] {
            for at in HEADER..n {
                for w in [1usize, 2, 4] {
                    if at + w > n {
                        continue;
                    }
                    let mut c = PduCase::zero(r);
                    c.vals = r.fields.iter().map(|f| one_each(&f.ty, elems)).collect();
                    settle(r, &mut c.vals, FULL);
                    let mut b = enc_pdu(r, &c.hdr(), &c.vals);
                    for x in &mut b[at..at + w] {
                        *x = 0xff;
                    }
                    b[2] = r.pdu.unwrap().0;
                    b.extend((0..extra).map(|i| if elems == 2 { 0xff } else { (i % 3) as u8 }));
                    if l.judge(hash(&b), || b.clone(), || k_robust(s, &b)) {
                        return;
                    }
                }
            }
        }
    }
}

/// One sample PDU cut in two at every place.
fn every_cut(ctx: &Ctx, s: &'static str) {
    let r = rec(s);
    let mut l = Local::new(ctx, "chunk", s);
    for i in 0..2u64 {
        let mut c = sweep_case(r, 1 + i + ctx.seed, STRICT);
        c.status = 0;
        let b = enc_pdu(r, &c.hdr(), &c.vals);
        for cut in 1..b.len() {
            let c = (b.clone(), vec![cut]);
            if l.judge(hash(&c), || c.clone(), || k_chunk(s, &c)) {
                return;
            }
        }
        let c = (b.clone(), (1..b.len()).collect::<Vec<_>>());
        if l.judge(hash(&c), || c.clone(), || k_chunk(s, &c)) {
            return;
        }
    }
}

// =============================================================== replay

pub fn replay(kind: &str, s: &str, case: Value) -> Option<Res> {
    fn go<C: serde::de::DeserializeOwned>(case: Value, f: impl FnOnce(&C) -> Res) -> Option<Res> {
        let c: C = serde_json::from_value(case.clone()).ok()?;
        Some(on(&|| ("again", String::new(), case.clone()), || f(&c)))
    }
    match kind {
        "rt" => go(case, |c| k_rt(s, c)),
        "finding" => go(case, |c| k_finding(s, c)),
        "enc" => go(case, |c| k_enc(s, c)),
        "dec" => go(case, |c| k_dec(s, c)),
        "arb" => go(case, |c| k_arb(s, c)),
        "len" => go(case, |c| k_len(s, c)),
        "loose" => go(case, |c| k_loose(s, c)),
        "rec-loose" => go(case, |c| k_rec_loose(s, c)),
        "size" => go(case, |c| k_size(s, c)),
        "robust" => go(case, |c| k_robust(s, c)),
        "kept" => go(case, |c| k_kept(s, c)),
        "prefix" => go(case, |c| k_prefix(s, c)),
        "prefix-finding" => go(case, |c| k_prefix_finding(s, c)),
        "dispatch" => go(case, |c| k_dispatch(s, c)),
        "fresh" => go(case, |c| k_fresh(s, c)),
        "header" => go(case, |c| k_header(s, c)),
        "setters" => go(case, |c| k_setters(s, c)),
        "enum" => go(case, |c| k_enum(s, c)),
        "process" => go(case, |c| crate::once::k_process(s, c)),
        "together" => go(case, |c| (0..40).map(|_| crate::once::k_together(s, c)).find(|r| r.is_err()).unwrap_or(Ok(Seen::when(true)))),
        "big" => go(case, |c| k_big(s, c)),
        "bundle" => go(case, |c| k_bundle(s, c)),
        "stream" => go(case, |c| k_stream(s, c)),
        "chunk" => go(case, |c| k_chunk(s, c)),
        "history" => go(case, |c| k_history(s, c)),
        "rec" => go(case, |c| k_rec(s, c)),
        "rec-dec" => go(case, |c| k_rec_dec(s, c)),
        "rec-finding" => go(case, |c| k_rec_finding(s, c)),
        "opt" => go(case, |c| k_opt(s, c)),
        "fix" => go(case, |c| k_fix(s, c)),
        "status" => go(case, |c| crate::misc::k_status(s, c)),
        "vector" => go(case, |c| crate::misc::k_vector(s, c)),
        "clock" => go(case, |c| crate::misc::k_clock(s, c)),
        "clock-history" => go(case, |c| crate::misc::k_clock_history(s, c)),
        "flags" => go(case, |c| crate::misc::k_flags(s, c)),
        "generic" => go(case, |c| crate::misc::k_generic(s, c)),
        "ctor" => go(case, |c| crate::ctor::k_ctor(s, c)),
        "default" => go(case, |c| crate::ctor::k_default(s, c)),
        "new-pdu" => go(case, |c| crate::ctor::k_new_pdu(s, c)),
        "copy" => go(case, |c| crate::value::k_copy(s, c)),
        "enum-eq" => go(case, |c| crate::value::k_enum_eq(s, c)),
        "header-eq" => go(case, |c| crate::value::k_header_eq(s, c)),
        "error" => go(case, |c| crate::value::k_error(s, c)),
        "short" => go(case, |c| crate::value::k_short(s, c)),
        "limit" => go(case, |c| crate::value::k_limit(s, c)),
        "new-header" => go(case, |c| crate::ctor::k_new_header(s, c)),
        _ => None,
    }
}
