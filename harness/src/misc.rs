//! Status record bits, vectors, timestamps, bit flags.
use crate::{
    alloc::Chunks,
    gen_::PDUS,
    model::V,
    props::k_rec,
    run::*,
    strat::int,
};
use bytes::{Buf, BytesMut};
use open_dis_rust::{
    common::{
        GenericHeader,
        data_types::vector3_float::Vector3Float as V3,
        enums::{
            ActiveInterrogationIndicator as Aii, CoupledExtensionIndicator as Cei,
            DetonationTypeIndicator as Dti, FireTypeIndicator as Fti, FrozenBehavior,
            IntercomAttachedIndicator as Iai, LVCIndicator as Lvc, LandPlatformAppearance,
            ObjectStateAppearanceGeneral, PduStatusIFFSimulationMode as Ism, PduType,
            ProtocolFamily, RadioAttachedIndicator as Rai, TransferredEntityIndicator as Tei,
        },
        live_entity_pdu_header::LiveEntityPduHeader,
        pdu_header::{PduHeader, PduStatusRecord},
    },
    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
};
use crate::strat::edited_or;
use proptest::{collection::vec, prelude::*, sample::select, strategy::Union};
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
type Out = (&'static str, Vec<&'static str>);

// ========================================================== C07 status

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Set {
    Tei(u8),
    Lvc(u8),
    Cei(u8),
    Bits(u8),
    Dti(u8),
    Rai(u8),
    Iai(u8),
    Fti(u8),
    Ism(u8),
    Aii(u8),
    /// write it into a header, read the header back
    Wire,
    /// replace it with a copy made from its octet
    Copy,
    Fresh(u8),
}

const TEI: [Tei; 2] = [Tei::NoDifference, Tei::Difference];
const LVC: [Lvc; 4] = [Lvc::NoStatement, Lvc::Live, Lvc::Virtual, Lvc::Constructive];
const CEI: [Cei; 2] = [Cei::NotCoupled, Cei::Coupled];
const DTI: [Dti; 3] = [Dti::Munition, Dti::Expendable, Dti::NonMunitionExplosion];
const RAI: [Rai; 3] = [Rai::NoStatement, Rai::Unattached, Rai::Attached];
const IAI: [Iai; 3] = [Iai::NoStatement, Iai::Unattached, Iai::Attached];
const FTI: [Fti; 2] = [Fti::Munition, Fti::Expendable];
const ISM: [Ism; 2] = [Ism::Regeneration, Ism::Interactive];
const AII: [Aii; 2] = [Aii::NotActive, Aii::Active];

fn all_sets() -> Vec<Set> {
    let mut v = vec![Set::Wire, Set::Copy];
    for i in 0..2 {
        v.extend([Set::Tei(i), Set::Cei(i), Set::Fti(i), Set::Ism(i), Set::Aii(i)]);
    }
    for i in 0..3 {
        v.extend([Set::Dti(i), Set::Rai(i), Set::Iai(i)]);
    }
    for i in 0..4 {
        v.extend([Set::Lvc(i), Set::Bits(i)]);
    }
    v
}

/// The record read in every way against the octet it should be.
fn status_is(r: PduStatusRecord, m: u8) -> Result<(), String> {
    let g = |n: &str, a: u8, b: u8| if a == b { Ok(()) } else { Err(format!("octet {m:#010b}: {n} is {a}, not {b}")) };
    g("the octet", r.to_u8(), m)?;
    let b45 = m >> 4 & 3;
    let two = if b45 == 3 { 0 } else { b45 };
    g("TEI", r.tei() as u8, m & 1)?;
    g("LVC", r.lvc() as u8, m >> 1 & 3)?;
    g("CEI", r.cei() as u8, m >> 3 & 1)?;
    g("bits 4-5", r.bit4_5(), b45)?;
    g("DTI", r.get_dti() as u8, two)?;
    g("RAI", r.get_rai() as u8, two)?;
    g("IAI", r.get_iai() as u8, two)?;
    g("FTI", r.get_fti() as u8, b45 & 1)?;
    g("ISM", r.get_ism() as u8, b45 & 1)?;
    g("AII", r.get_aii() as u8, b45 >> 1)?;
    ensure!(r == PduStatusRecord::from_u8(m), "octet {m:#010b}: not equal to the record read from it");
    Ok(())
}

pub fn k_status(_: &str, c: &(u8, Vec<Set>)) -> Res {
    let (start, ops) = c;
    let mut m = *start;
    let mut r = PduStatusRecord::from_u8(m);
    k_indicator(m)?;
    status_is(r, m)?;
    let mut changed = 0;
    for o in ops {
        let old = m;
        match *o {
            Set::Tei(x) => {
                r.set_tei(TEI[usize::from(x)]);
                m = m & !1 | x;
            }
            Set::Lvc(x) => {
                r.set_lvc(LVC[usize::from(x)]);
                m = m & !6 | x << 1;
            }
            Set::Cei(x) => {
                r.set_cei(CEI[usize::from(x)]);
                m = m & !8 | x << 3;
            }
            Set::Bits(x) => {
                r.set_bit4_5(x);
                m = m & !0x30 | x << 4;
            }
            Set::Dti(x) => {
                r.set_dti(DTI[usize::from(x)]);
                m = m & !0x30 | x << 4;
            }
            Set::Rai(x) => {
                r.set_rai(RAI[usize::from(x)]);
                m = m & !0x30 | x << 4;
            }
            Set::Iai(x) => {
                r.set_iai(IAI[usize::from(x)]);
                m = m & !0x30 | x << 4;
            }
            Set::Fti(x) => {
                r.set_fti(FTI[usize::from(x)]);
                m = m & !0x10 | x << 4;
            }
            Set::Ism(x) => {
                r.set_ism(ISM[usize::from(x)]);
                m = m & !0x10 | x << 4;
            }
            Set::Aii(x) => {
                r.set_aii(AII[usize::from(x)]);
                m = m & !0x20 | x << 5;
            }
            Set::Copy => r = PduStatusRecord::from_u8(r.to_u8()),
            Set::Fresh(x) => {
                r = PduStatusRecord::from_u8(x);
                m = x;
            }
            Set::Wire => {
                let mut h = PduHeader::new(PduType::EntityState, ProtocolFamily::EntityInformation, 7, 12);
                h.status_record = r;
                let mut b = BytesMut::new();
                h.serialize(&mut b);
                ensure!(b.len() == 12 && b[10] == m, "octet {m:#010b}: written as {:02x?}", &b[..]);
                r = PduHeader::deserialize(&mut b).status_record;
            }
        }
        status_is(r, m).map_err(|e| format!("after {o:?} on {old:#010b}: {e}"))?;
        changed += u32::from(m != old);
    }
    Ok(Seen::when(changed > 0 || ops.is_empty()).label_if(changed > 1, "several changes").label_if(m & 0xc0 != 0, "reserved bits set"))
}

/// The two-bit indicators as numbers.
fn k_indicator(x: u8) -> Res {
    let m = x & 3;
    let w = if m == 3 { 0 } else { m };
    ensure!(Dti::from(x) as u8 == w && u8::from(Dti::from(x)) == w, "DTI of {x} is {:?}", Dti::from(x));
    ensure!(Rai::from(x) as u8 == w && u8::from(Rai::from(x)) == w, "RAI of {x} is {:?}", Rai::from(x));
    ensure!(Iai::from(x) as u8 == w && u8::from(Iai::from(x)) == w, "IAI of {x} is {:?}", Iai::from(x));
    Ok(Seen::yes())
}

pub fn status(ctx: &Ctx, n: u32) -> Out {
    let sets = all_sets();
    {
        let mut l = Local::new(ctx, "status", "default");
        let c: (u8, Vec<Set>) = (PduStatusRecord::default().to_u8(), vec![]);
        let r = (|| {
            ensure!(c.0 == 0 && PduStatusRecord::new_zero().to_u8() == 0, "the default record is {:#x}", c.0);
            Ok(Seen::yes())
        })();
        l.eval(0, || c.clone(), r);
    }
    let mut l = Local::new(ctx, "status", "octets");
    'all: for x in 0..=255u8 {
        for (i, a) in sets.iter().enumerate() {
            for (j, b) in sets.iter().enumerate() {
                let c = (x, vec![*a, *b]);
                let id = u64::from(x) << 32 | (i as u64) << 16 | j as u64;
                if l.judge(id, || c.clone(), || k_status("", &c)) {
                    break 'all;
                }
            }
        }
    }
    drop(l);
    let one = Union::new_weighted(vec![
        (8, select(sets).boxed()),
        (1, any::<u8>().prop_map(Set::Fresh).boxed()),
    ]);
    search(ctx, "status", "sequences", &(any::<u8>(), vec(one, 0..40)).boxed(), n, |c| k_status("", c));
    ("every octet times every pair of the 36 single-field updates, exhaustively; random sequences of up to 40 updates, header round trips and fresh records; after each update every field is read. Non-trivial: the octet changed.",
     vec!["reserved bits 6-7 are retained, the shared bits 4-5 read 3 as the default of the two-bit indicators"])
}

// ========================================================= C12 vectors

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vecs {
    /// bit patterns of the components
    pub a: [u32; 3],
    pub b: [u32; 3],
    pub k: u32,
}

fn dec(x: [u32; 3]) -> [f64; 3] {
    x.map(|b| f64::from(f32::from_bits(b)))
}
fn v3(x: [u32; 3]) -> V3 {
    V3::new(f32::from_bits(x[0]), f32::from_bits(x[1]), f32::from_bits(x[2]))
}
fn comp(v: &V3) -> [f32; 3] {
    [v.x, v.y, v.z]
}
const EPS: f64 = f32::EPSILON as f64;
const TINY: f64 = 1e-44;

/// `got` approximates `want`, the terms of which add up to at most `scale`.
fn near(what: &str, got: f32, want: f64, scale: f64) -> Result<(), String> {
    if scale > 0.999 * f64::from(f32::MAX) || !scale.is_finite() {
        return Ok(()); // may overflow
    }
    let tol = 8.0 * EPS * scale + TINY;
    if (f64::from(got) - want).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{what} is {got:e}, not {want:e}"))
    }
}

/// As `near` for a single term, which is infinite only if it has to be.
fn near_one(what: &str, got: f32, want: f64) -> Result<(), String> {
    if want.is_finite() && want.abs() > 1.001 * f64::from(f32::MAX) && f64::from(got) != f64::INFINITY.copysign(want) {
        return Err(format!("{what} is {got:e}, not {want:e}"));
    }
    near(what, got, want, want.abs())
}

fn same(what: &str, got: f32, want: f32) -> Result<(), String> {
    if got == want || got.is_nan() && want.is_nan() { Ok(()) } else { Err(format!("{what} is {got:e}, not {want:e}")) }
}

pub fn k_vector(_: &str, c: &Vecs) -> Res {
    for (v, w) in [
            (V3::zero(), [0f32, 0.0, 0.0]),
            (V3::one(), [1.0, 1.0, 1.0]),
            (V3::unit_x(), [1.0, 0.0, 0.0]),
            (V3::unit_y(), [0.0, 1.0, 0.0]),
            (V3::unit_z(), [0.0, 0.0, 1.0]),
            (V3::default(), [0.0, 0.0, 0.0]),
        ] {
            ensure!(comp(&v) == w, "constant {w:?} is {v:?}");
        }
    let (a, b) = (v3(c.a), v3(c.b));
    let (x, y) = (dec(c.a), dec(c.b));
    let k = f32::from_bits(c.k);
    ensure!(a.x.to_bits() == c.a[0] && a.y.to_bits() == c.a[1] && a.z.to_bits() == c.a[2], "new({x:?}) is {a:?}");
    // component by component
    for (n, got, want) in [
        ("sum", comp(&(a + b)), [0, 1, 2].map(|i| comp(&a)[i] + comp(&b)[i])),
        ("difference", comp(&(a - b)), [0, 1, 2].map(|i| comp(&a)[i] - comp(&b)[i])),
    ] {
        for i in 0..3 {
            same(&format!("{n} of {x:?} and {y:?}, component {i},"), got[i], want[i])?;
        }
    }
    for i in 0..3 {
        near_one(&format!("{x:?} times {k:e}, component {i},"), comp(&(a * k))[i], x[i] * f64::from(k))?;
        if k != 0.0 {
            near_one(&format!("{x:?} over {k:e}, component {i},"), comp(&(a / k))[i], x[i] / f64::from(k))?;
        }
    }
    let finite = x.iter().chain(&y).all(|f| f.is_finite());
    if !finite {
        return Ok(Seen::default().label("not finite"));
    }
    let p = [x[0] * y[0], x[1] * y[1], x[2] * y[2]];
    near(&format!("{x:?} dot {y:?}"), a.dot(&b), p[0] + p[1] + p[2], p.iter().map(|t| t.abs()).sum())?;
    let cr = comp(&a.cross(&b));
    for i in 0..3 {
        let (j, l) = ((i + 1) % 3, (i + 2) % 3);
        let (s, t) = (x[j] * y[l], x[l] * y[j]);
        near(&format!("{x:?} cross {y:?}, component {i},"), cr[i], s - t, s.abs() + t.abs())?;
    }
    // the largest component taken out first, so that nothing overflows even in f64
    let big = x.iter().fold(0f64, |m, t| m.max(t.abs()));
    let mag = if big == 0.0 { 0.0 } else { big * x.iter().map(|t| (t / big).powi(2)).sum::<f64>().sqrt() };
    near_one(&format!("magnitude of {x:?}"), a.magnitude(), mag)?;
    ensure!(a.magnitude() >= 0.0, "magnitude of {x:?} is {}", a.magnitude());
    match a.normalize() {
        None => ensure!(mag == 0.0, "{x:?} has no direction, its magnitude is {mag:e}"),
        Some(u) => {
            ensure!(mag != 0.0, "the zero vector has direction {u:?}");
            for i in 0..3 {
                let (got, want) = (f64::from(comp(&u)[i]), x[i] / mag);
                ensure!((got - want).abs() <= 8.0 * EPS * want.abs().max(1e-3), "direction of {x:?}, component {i}, is {got:e}, not {want:e}");
            }
            let m = f64::from(u.magnitude());
            ensure!((m - 1.0).abs() <= 8.0 * EPS, "direction of {x:?} has magnitude {m}");
        }
    }
    // the wire
    let mut w = BytesMut::new();
    a.serialize(&mut w);
    let want: Vec<u8> = c.a.iter().flat_map(|b| b.to_be_bytes()).collect();
    ensure!(w[..] == want[..], "{x:?} written as {:02x?}", &w[..]);
    let r = V3::deserialize(&mut w);
    ensure!(comp(&r).map(f32::to_bits) == c.a, "{x:?} read back as {r:?}");
    let unequal = c.a[0] != c.a[1] && c.a[1] != c.a[2] && c.b[0] != c.b[1] && c.b[1] != c.b[2];
    let sc = |m: f64| !(1e-15..1e15).contains(&m);
    Ok(Seen::when(unequal && mag != 0.0)
        .label_if(sc(mag) && mag != 0.0, "extreme magnitude")
        .label_if(mag == 0.0, "zero vector")
        .label_if(cr.iter().all(|t| *t == 0.0), "parallel"))
}

fn float() -> BoxedStrategy<u32> {
    Union::new_weighted(vec![
        (4, (-100i32..100).prop_map(|i| (i as f32 / 4.0).to_bits()).boxed()),
        (3, (any::<f32>()).prop_map(f32::to_bits).boxed()),
        (3, (-1e4f32..1e4).prop_map(f32::to_bits).boxed()),
        (2, (-45i32..39, any::<bool>(), 1u8..10).prop_map(|(e, s, m)| (if s { -1f32 } else { 1f32 } * f32::from(m) * 10f32.powi(e)).to_bits()).boxed()),
        (2, select(vec![0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, 1e20, 1e-20, 1e19, 2e-20]).prop_map(f32::to_bits).boxed()),
        (1, int(4).prop_map(|v| v.n() as u32).boxed()),
        (1, crate::strat::float(4).prop_map(|v| v.n() as u32).boxed()),
    ])
    .boxed()
}

/// Vectors of one scale, of mixed scales, with relations between the two.
fn vecs() -> BoxedStrategy<Vecs> {
    let any3 = || (float(), float(), float()).prop_map(|(a, b, c)| [a, b, c]);
    let scaled = (-38i32..38).prop_flat_map(move |e| {
        let s = 10f32.powi(e);
        [-9.9f32..9.9, -9.9f32..9.9, -9.9f32..9.9].prop_map(move |v| v.map(|x| (x * s).to_bits()))
    });
    let axis = (0usize..3, float()).prop_map(|(i, f)| {
        let mut v = [0; 3];
        v[i] = f;
        v
    });
    let one = Union::new_weighted(vec![(3, any3().boxed()), (3, scaled.boxed()), (1, axis.boxed())]).boxed();
    (one.clone(), one, float(), 0u8..8)
        .prop_map(|(a, b, k, rel)| {
            let kk = f32::from_bits(k);
            let b = match rel {
                0 => a,
                1 => a.map(|x| (f32::from_bits(x) * kk).to_bits()),
                2 => a.map(|x| x ^ 0x8000_0000),
                3 => [a[1], a[2], a[0]],
                _ => b,
            };
            Vecs { a, b, k }
        })
        .boxed()
}

pub fn vectors(ctx: &Ctx, n: u32) -> Out {
    (0..8u32).into_par_iter().with_max_len(1).for_each(|i| {
        search(ctx, "vector", &format!("vectors-{i}"), &vecs(), n / 8, |c| k_vector("", c));
    });
    let mut l = Local::new(ctx, "vector", "constants");
    // every pair of axes and signs
    let f = [0f32, 1.0, -1.0, 1e30, -1e30, 1e-30, 3e38, 1e-44].map(f32::to_bits);
    for i in 0..f.len().pow(3) {
        let a = [f[i % 8], f[i / 8 % 8], f[i / 64]];
        for b in [[f[1], 0, 0], [0, f[1], 0], [0, 0, f[1]], [f[2], f[1], f[1]], a] {
            let c = Vecs { a, b, k: f[1 + i % 7] };
            if l.judge(hash(&(a, b)), || c.clone(), || k_vector("", &c)) {
                return ("", vec![]);
            }
        }
    }
    ("pairs of vectors of one scale between 1e-38 and 1e38, of mixed scales, on axes, parallel, opposite, with arbitrary bit patterns, and a scalar, against f64 arithmetic with a tolerance of 8 units in the last place of the largest term. Non-trivial: not all components alike, magnitude not 0.",
     vec!["sums of products whose terms may overflow f32 are not judged; magnitude and direction always are when the components are finite"])
}

// ======================================================= C13 timestamps

thread_local! {
    /// (seconds, nanoseconds, advance per reading, first reading, last reading)
    static CLOCK: Cell<Option<(i64, i64, i64)>> = const { Cell::new(None) };
    static READS: Cell<u32> = const { Cell::new(0) };
}

/// The process' clock: real, except on a thread that has set a time.
#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some((s, n, step))) = CLOCK.try_with(Cell::get) {
            let reads = READS.get();
            READS.set(reads + 1);
            let t = n + step * i64::from(reads);
            unsafe {
                (*ts).tv_sec = s + t.div_euclid(1_000_000_000);
                (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
            }
            return 0;
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Time {
    pub sec: i64,
    pub nano: i64,
    /// how far the clock moves between two readings
    pub step: i64,
    pub via: usize,
}

/// 2^31 units make an hour.
fn units(sec: i64, nano: i64) -> f64 {
    (sec.rem_euclid(3600) as f64 + nano as f64 / 1e9) * (2f64.powi(31) / 3600.0)
}

const VIA: [&str; 8] = [
    "PduHeader::calculate_dis_timestamp",
    "LiveEntityPduHeader::calculate_dis_timestamp",
    "PduHeader::new",
    "LiveEntityPduHeader::new",
    "PduHeader::default",
    "LiveEntityPduHeader::default",
    "new PDU",
    "default PDU",
];

pub fn k_clock(_: &str, c: &Time) -> Res {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            CLOCK.set(None);
        }
    }
    READS.set(0);
    CLOCK.set(Some((c.sec, c.nano, c.step)));
    let off = Off;
    let (t, f) = (PduType::EntityState, ProtocolFamily::EntityInformation);
    let got = match c.via % 8 {
        0 => PduHeader::calculate_dis_timestamp(),
        1 => LiveEntityPduHeader::calculate_dis_timestamp(),
        2 => PduHeader::new(t, f, 1, 12).timestamp,
        3 => LiveEntityPduHeader::new(t, f, 1, 12).timestamp,
        4 => PduHeader::default().timestamp,
        5 => LiveEntityPduHeader::default().timestamp,
        k => {
            let i = &PDUS[c.via / 8 % PDUS.len()];
            let p = if k == 6 { (i.new)() } else { (i.default)() };
            p.hdr().timestamp
        }
    };
    drop(off);
    let reads = READS.get();
    if reads == 0 {
        // the clock is read by other means than clock_gettime: nothing to compare with
        return Ok(Seen::default().label("clock not read"));
    }
    let what = || format!("{} at second {} of the hour + {} ns", VIA[c.via % 8], c.sec.rem_euclid(3600), c.nano);
    ensure!(got < 1 << 31, "{}: timestamp {got} is more than an hour", what());
    // some reading between the first and the last
    let (lo, span) = (units(c.sec, c.nano), c.step as f64 / 1e9 * f64::from(reads - 1) * 2f64.powi(31) / 3600.0);
    let d = (f64::from(got) - lo + 2.5).rem_euclid(2f64.powi(31));
    ensure!(d <= span + 5.0, "{}: timestamp {got}, not {lo:.1}", what());
    Ok(Seen::when(got != 0)
        .label_if(c.sec.rem_euclid(3600) < 2 || c.sec.rem_euclid(3600) > 3597, "near the hour")
        .label(VIA[c.via % 8]))
}

/// Readings one after another on one thread: (nanoseconds since the last, how it is read).
pub fn k_clock_history(_: &str, c: &(Time, Vec<(i64, usize)>)) -> Res {
    let mut t = c.0.clone();
    let mut seen = k_clock("", &t)?;
    for (k, (d, via)) in c.1.iter().enumerate() {
        let n = t.sec as i128 * 1_000_000_000 + i128::from(t.nano) + i128::from(*d);
        if n < 0 {
            break;
        }
        t = Time { sec: (n / 1_000_000_000) as i64, nano: (n % 1_000_000_000) as i64, step: c.0.step, via: *via };
        let s = k_clock("", &t).map_err(|e| format!("reading {} ({d} ns after the one before): {e}", k + 2))?;
        seen.nontrivial |= s.nontrivial;
    }
    Ok(seen.label_if(c.1.len() > 1, "more than two readings"))
}

pub fn clock(ctx: &Ctx, n: u32) -> Out {
    let sec = Union::new_weighted(vec![
        (4, (1_500_000_000i64..2_500_000_000).boxed()),
        (3, (400_000i64..700_000, -3i64..4).prop_map(|(h, d)| h * 3600 + d).boxed()),
        (2, (10_000_000i64..40_000_000, -2i64..3).prop_map(|(m, d)| m * 60 + d).boxed()),
        (1, (0i64..100_000).boxed()),
        (1, (4_000_000_000i64..200_000_000_000).boxed()),
        (1, (400_000i64..700_000, edited_or(0..=100_000, 0), -1i64..2).prop_map(|(h, s, d)| h * 3600 + s as i64 + d).boxed()),
        (1, (400_000i64..700_000, edited_or(0..=1500, 0), -1i64..61).prop_map(|(h, m, d)| h * 3600 + m as i64 * 60 + d).boxed()),
        (1, (edited_or(0..=200_000_000_000, 1 << 31), -1i64..2).prop_map(|(s, d)| (s as i64 + d).max(0)).boxed()),
    ]);
    let nano = Union::new_weighted(vec![
        (3, (0i64..1_000_000_000).boxed()),
        (2, select(vec![0, 1, 999, 1000, 999_999, 1_000_000, 500_000_000, 999_999_999, 999_999_000, 999_000_000]).boxed()),
        (1, (0i64..1000).prop_map(|m| m * 1_000_000).boxed()),
        (1, (0i64..1_000_000).prop_map(|m| 999_999_999 - m).boxed()),
        (1, (edited_or(0..=999_999_999, 0), select(vec![1i64, 1000, 1_000_000]), -1i64..2).prop_map(|(n, k, d)| (n as i64 * k + d).rem_euclid(1_000_000_000)).boxed()),
    ]);
    let step = Union::new_weighted(vec![(3, Just(0).boxed()), (2, select(vec![1, 1000, 1_000_000, 100_000_000]).boxed()), (1, (0i64..2_000_000).boxed())]);
    let via = 0usize..8 * PDUS.len();
    let st = (sec, nano, step, via).prop_map(|(sec, nano, step, via)| Time { sec, nano, step, via }).boxed();
    search(ctx, "clock", "times", &st, n, |c| k_clock("", c));
    let delta = Union::new_weighted(vec![
        (2, (0i64..20_000).boxed()),
        (2, (20_000i64..1_000_000).boxed()),
        (2, (1_000_000i64..1_000_000_000).boxed()),
        (2, (1_000_000_000i64..60_000_000_000).boxed()),
        (2, (60_000_000_000i64..7_200_000_000_000).boxed()),
        (1, (1i64..50).prop_map(|h| h * 3_600_000_000_000).boxed()),
        (1, (1i64..400).prop_map(|m| m * 60_000_000_000).boxed()),
        (1, (-5_000_000_000i64..0).boxed()),
        (1, (-7_200_000_000_000i64..0).boxed()),
    ]);
    // mostly the same way again
    let hist = (st.clone(), proptest::collection::vec((delta, 0usize..8 * PDUS.len(), any::<bool>()), 1..12))
        .prop_map(|(t, v)| {
            let via = t.via;
            (t, v.into_iter().map(|(d, w, own)| (d, if own { via } else { w })).collect::<Vec<_>>())
        })
        .boxed();
    search(ctx, "clock-history", "times", &hist, n / 2, |c| k_clock_history("", c));
    // every second of an hour, every way
    let mut l = Local::new(ctx, "clock", "hour");
    'all: for s in 0..3600 {
        for via in 0..8 {
            for nano in [0, 999_999_999] {
                let c = Time { sec: 1_700_000_000 / 3600 * 3600 + s, nano, step: 0, via: via + 8 * (s as usize % PDUS.len()) };
                if l.judge(hash(&(s, via, nano)), || c.clone(), || k_clock("", &c)) {
                    break 'all;
                }
            }
        }
    }
    drop(l);
    // order within the hour
    let mut l = Local::new(ctx, "clock", "order");
    let mut last = 0;
    for i in 0..u64::from(n) {
        let ns = 3_599_999_999_999u64 / u64::from(n) * i;
        let c = Time { sec: 1_800_000_000 + (ns / 1_000_000_000) as i64, nano: (ns % 1_000_000_000) as i64, step: 0, via: (i % 2) as usize };
        let r = guarded(|| {
            k_clock("", &c)?;
            READS.set(0);
            CLOCK.set(Some((c.sec, c.nano, 0)));
            let t = PduHeader::calculate_dis_timestamp();
            CLOCK.set(None);
            ensure!(t >= last, "later in the hour, timestamp {t} after {last}");
            last = t;
            Ok(Seen::yes())
        });
        if l.eval(i, || c.clone(), r) {
            break;
        }
    }
    ("instants between 1970 and 8300, at and around hour, minute, second and microsecond boundaries, with a clock that stands still or moves between readings; every second of an hour; every way of obtaining a fresh timestamp; ascending instants of one hour; histories of readings nanoseconds to hours apart, also backwards. Non-trivial: the timestamp is not 0.",
     vec!["CLOCK_REALTIME is read with clock_gettime, which the harness supplies", "2 units (3.4 microseconds) of tolerance; the least significant bit is not a flag"])
}

// ========================================================== C15 flags

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Bits {
    pub a: u32,
    pub b: u32,
    pub cut: u8,
}

const FROZEN: [(&str, u32); 3] = [("RunSimulationClock", 0), ("TransmitUpdates", 1), ("ProcessUpdates", 2)];
const OBJECT: [(&str, u32); 7] =
    [("PercentComplete", 0), ("Damage", 8), ("Predistributed", 10), ("State", 11), ("IsSmoking", 12), ("IsFlaming", 13), ("IEDPresent", 14)];
const LAND: [(&str, u32); 26] = [
    ("PaintScheme", 0),
    ("MobilityKilled", 1),
    ("FirePowerKilled", 2),
    ("Damage", 3),
    ("IsSmokeEmanating", 5),
    ("IsEngineEmittingSmoke", 6),
    ("TrailingDustCloud", 7),
    ("PrimaryHatch", 9),
    ("HeadLightsOn", 12),
    ("TailLightsOn", 13),
    ("BrakeLightsOn", 14),
    ("IsFlaming", 15),
    ("LauncherOperational", 16),
    ("CamouflageType", 17),
    ("ConcealedPosition", 19),
    ("IsFrozen", 21),
    ("PowerPlantOn", 22),
    ("State", 23),
    ("TentExtended", 24),
    ("RampExtended", 25),
    ("BlackoutLightsOn", 26),
    ("BlackoutBrakeLightsOn", 27),
    ("SpotSearchLight1On", 28),
    ("InteriorLightsOn", 29),
    ("OccupantsSurrendered", 30),
    ("MaskedCloaked", 31),
];

macro_rules! flag_check {
    ($ty:ty, $int:ty, $from:ident, $as_:ident, $table:expr, $c:expr) => {{
        let (a, b) = ($c.a as $int, $c.b as $int);
        let all: $int = $table.iter().fold(0, |m, (_, k)| m | (1 as $int) << k);
        for x in [a, a & all] {
            match <$ty>::$from(x) {
                Some(f) => {
                    ensure!(x & !all == 0, "{x:#x}, with undefined bits, is {f:?}");
                    ensure!(f.$as_() == x, "{x:#x} is read back as {:#x}", f.$as_());
                }
                None => ensure!(x & !all != 0, "{x:#x}, of defined bits only, is refused"),
            }
        }
        let (f, g) = (<$ty>::from_bits_retain(a & all), <$ty>::from_bits_retain(b & all));
        ensure!((f | g).$as_() == (a | b) & all, "union");
        ensure!((f & g).$as_() == a & b & all, "intersection");
        ensure!((f - g).$as_() == a & !b & all, "difference");
        ensure!((f ^ g).$as_() == (a ^ b) & all, "symmetric difference");
        ensure!((!f).$as_() == !a & all, "complement");
        ensure!(f.contains(g) == (b & all & !a == 0), "containment");
        ensure!(<$ty>::default().$as_() == 0 && <$ty>::all().$as_() == all, "default or all");
        let mut names: Vec<&str> = f.iter_names().map(|(n, _)| n).collect();
        names.sort_unstable();
        let mut want: Vec<&str> = $table.iter().filter(|(_, k)| a >> k & 1 == 1).map(|(n, _)| *n).collect();
        want.sort_unstable();
        ensure!(names == want, "{:#x} has {names:?}, not {want:?}", a & all);
        for (n, k) in $table {
            let f = <$ty>::from_name(n).ok_or_else(|| format!("no flag {n}"))?;
            ensure!(f.$as_() == (1 as $int) << k, "{n} is {:#x}", f.$as_());
        }
        (a, b, all)
    }};
}

macro_rules! wire_check {
    ($ty:ty, $as_:ident, $a:expr, $c:expr) => {{
        // the wire carries all bits, defined or not
        let want = $a.to_be_bytes();
        let f = <$ty>::from_bits_retain($a);
        let mut w = BytesMut::from(&[0x77u8][..]);
        f.serialize_field(&mut w);
        ensure!(w[0] == 0x77 && w[1..] == want[..], "{:#x} written as {:02x?}", $a, &w[1..]);
        ensure!(f.field_len() == want.len(), "{:#x} measures {}", $a, f.field_len());
        let mut full = want.to_vec();
        full.extend([9, 8]);
        let mut rd = Chunks::new(&full, &[usize::from($c.cut)]);
        let g = <$ty>::deserialize_field(&mut rd);
        ensure!(g.$as_() == $a, "{:#x} read back as {:#x}", $a, g.$as_());
        ensure!(rd.remaining() == 2, "{} octets left", rd.remaining());
    }};
}

pub fn k_flags(s: &str, c: &Bits) -> Res {
    let z = match s {
        "FrozenBehavior" => {
            let (a, b, all) = flag_check!(FrozenBehavior, u8, from_u8, as_u8, FROZEN, c);
            wire_check!(FrozenBehavior, as_u8, a, c);
            (u32::from(a), u32::from(b), u32::from(all))
        }
        "ObjectStateAppearanceGeneral" => {
            let (a, b, all) = flag_check!(ObjectStateAppearanceGeneral, u16, from_u16, as_u16, OBJECT, c);
            wire_check!(ObjectStateAppearanceGeneral, as_u16, a, c);
            (u32::from(a), u32::from(b), u32::from(all))
        }
        "LandPlatformAppearance" => flag_check!(LandPlatformAppearance, u32, from_u32, as_u32, LAND, c),
        _ => panic!("harness: no flags {s}"),
    };
    Ok(Seen::when(z.0 != 0 && z.1 != 0).label_if(z.0 & !z.2 != 0, "undefined bits").label_if(z.0 & !z.2 == 0, "defined bits only"))
}

pub fn flags(ctx: &Ctx, n: u32) -> Out {
    for s in ["FrozenBehavior", "ObjectStateAppearanceGeneral", "LandPlatformAppearance"] {
        let bits = || {
            Union::new_weighted(vec![
                (2, any::<u32>().boxed()),
                (1, (0u32..32).prop_map(|k| 1 << k).boxed()),
                (1, (0u32..32, 0u32..32).prop_map(|(k, j)| 1 << k | 1 << j).boxed()),
                (1, int(4).prop_map(|v| v.n() as u32).boxed()),
            ])
        };
        let st = (bits(), bits(), 0u8..4).prop_map(|(a, b, cut)| Bits { a, b, cut }).boxed();
        search(ctx, "flags", s, &st, n, |c| k_flags(s, c));
        let mut l = Local::new(ctx, "flags", s);
        let top = if s == "FrozenBehavior" { 256u32 } else { 65_536 };
        for i in 0..top {
            // the 32-bit set: both halves run through all values
            let a = if s == "LandPlatformAppearance" { i | (i.wrapping_mul(0x9e37) << 16) } else { i };
            let c = Bits { a, b: a.rotate_left(5) ^ 0x1234_5678, cut: (i % 4) as u8 };
            if l.judge(u64::from(i), || c, || k_flags(s, &c)) {
                break;
            }
        }
    }
    ("all values of the 8- and 16-bit sets, 65,536 and random values of the 32-bit set, in pairs, through the integer conversions, the set operations and the wire. Non-trivial: both sets not empty.",
     vec!["the flag positions are those of SISO-REF-010-2023 as first recorded from the code"])
}

// ============================================== record specification sizes

/// Record length times record count, in octets and beyond 16 bits.
pub fn products(ctx: &Ctx) {
    let mut l = Local::new(ctx, "rec", "RecordSpecificationElement");
    let dims = [0u64, 1, 2, 3, 7, 8, 15, 16, 17, 64, 100, 255, 256, 257, 300, 1000];
    for &a in &dims {
        for &b in &dims {
            let n = a * b;
            if n > 100_000 {
                continue;
            }
            let v = V::R(vec![V::N(0x0102_0304), V::N(5), V::N(a), V::N(b), V::B((0..n).map(|i| (i * 7 + 1) as u8).collect())]);
            let c = (v, vec![0xabu8, 0xcd]);
            if l.judge(a << 32 | b, || c.clone(), || k_rec("RecordSpecificationElement", &c)) {
                return;
            }
        }
    }
}

// ======================================= codecs of primitives and collections

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Generic {
    pub text: String,
    pub nums: Vec<u64>,
    pub some: Option<u64>,
    pub opts: Vec<Option<u64>>,
    pub tail: Vec<u8>,
}

/// `s`: the primitive type.
pub fn k_generic(s: &str, c: &Generic) -> Res {
    fn put<T: FieldSerialize + FieldLen>(what: &str, x: &T, want: &[u8], before: &[u8]) -> Result<(), String> {
        let mut b = BytesMut::from(before);
        x.serialize_field(&mut b);
        ensure!(b.starts_with(before), "{what}: what was in the buffer changed");
        ensure!(b[before.len()..] == *want, "{what} written as {:02x?}, not {want:02x?}", &b[before.len()..]);
        ensure!(x.field_len() == want.len(), "{what} of {} octets says {}", want.len(), x.field_len());
        Ok(())
    }
    macro_rules! go {
        ($t:ty, $conv:expr, $bits:expr) => {{
            let conv: fn(u64) -> $t = $conv;
            let bits: fn($t) -> u64 = $bits;
            let w = size_of::<$t>();
            let be = |n: u64| n.to_be_bytes()[8 - w..].to_vec();
            let cut = |n: u64| if w == 8 { n } else { n & ((1 << (8 * w)) - 1) };
            let list: Vec<$t> = c.nums.iter().map(|n| conv(*n)).collect();
            let mut all: Vec<u8> = vec![];
            for (n, x) in c.nums.iter().zip(&list) {
                put(s, x, &be(*n), &c.tail)?;
                all.extend(be(*n));
            }
            put("list", &list, &all, &c.tail)?;
            // read back one by one, as a list, and from many chunks
            let mut full = all.clone();
            full.extend(&c.tail);
            let mut rd: &[u8] = &full;
            for n in &c.nums {
                let x = <$t as FieldDeserialize>::deserialize_field(&mut rd);
                ensure!(bits(x) == cut(*n), "{s} read as {:x}, not {:x}", bits(x), cut(*n));
            }
            ensure!(rd == &c.tail[..], "{} octets left", rd.len());
            let cuts: Vec<usize> = (1..full.len()).collect();
            let mut chunked = Chunks::new(&full, &cuts);
            for rest in [0, 1] {
                let (got, left) = if rest == 0 {
                    let mut rd: &[u8] = &full;
                    (odr_list::<$t, _>(&mut rd, list.len()), rd.remaining())
                } else {
                    (odr_list::<$t, _>(&mut chunked, list.len()), chunked.remaining())
                };
                let got: Vec<u64> = got.into_iter().map(bits).collect();
                let want: Vec<u64> = c.nums.iter().map(|n| cut(*n)).collect();
                ensure!(got == want, "list of {s} read as {got:x?}, not {want:x?}");
                ensure!(left == c.tail.len(), "{left} octets left, not {}", c.tail.len());
            }
            let some: Option<$t> = c.some.map(conv);
            put("option", &some, &c.some.map_or(vec![], be), &c.tail)?;
            let opts: Vec<Option<$t>> = c.opts.iter().map(|o| o.map(conv)).collect();
            let want: Vec<u8> = c.opts.iter().flatten().flat_map(|n| be(*n)).collect();
            put("list of options", &opts, &want, &c.tail)?;
            put("list of lists", &vec![list.clone(), vec![], list.clone()], &[all.clone(), all.clone()].concat(), &c.tail)?;
        }};
    }
    fn odr_list<T: FieldDeserialize, B: Buf>(b: &mut B, n: usize) -> Vec<T> {
        open_dis_rust::pdu_macro::deserialize_list(b, n)
    }
    put("text", &c.text, c.text.as_bytes(), &c.tail)?;
    match s {
        "u8" => go!(u8, |n| n as u8, |x| x.into()),
        "i8" => go!(i8, |n| n as i8, |x| (x as u8).into()),
        "u16" => go!(u16, |n| n as u16, |x| x.into()),
        "i16" => go!(i16, |n| n as i16, |x| (x as u16).into()),
        "u32" => go!(u32, |n| n as u32, |x| x.into()),
        "i32" => go!(i32, |n| n as i32, |x| (x as u32).into()),
        "u64" => go!(u64, |n| n, |x| x),
        "i64" => go!(i64, |n| n as i64, |x| x as u64),
        "f32" => go!(f32, |n| f32::from_bits(n as u32), |x| x.to_bits().into()),
        _ => go!(f64, f64::from_bits, f64::to_bits),
    }
    Ok(Seen::when(!c.nums.is_empty()))
}

pub fn generic(ctx: &Ctx, n: u32) {
    let num = || int(8).prop_map(|v| v.n());
    let st = (
        "\\PC{0,12}",
        vec(num(), 0..6),
        proptest::option::of(num()),
        vec(proptest::option::of(num()), 0..5),
        vec(any::<u8>(), 0..6),
    )
        .prop_map(|(text, nums, some, opts, tail)| Generic { text, nums, some, opts, tail })
        .boxed();
    for s in ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"] {
        search(ctx, "generic", s, &st, n, |c| k_generic(s, c));
    }
}
