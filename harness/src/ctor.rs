//! C16: what constructors and defaults make.
use crate::{
    gen_::{CTORS, PDUS},
    model::*,
    run::*,
    strat::*,
};
use bytes::BytesMut;
use open_dis_rust::common::{
    GenericHeader, live_entity_pdu_header::LiveEntityPduHeader, pdu_header::PduHeader,
};
use proptest::prelude::*;
use rayon::prelude::*;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// What a field holds when nothing was put there.
pub fn fresh(ty: &Ty) -> V {
    match ty {
        Ty::Enum(e, _) => V::N(schema().enums[e].default),
        Ty::Rec(n) if n == "SimulationAddress" => V::R(vec![V::N(1), V::N(1)]),
        Ty::Rec(n) => V::R(rec(n).fields.iter().map(|f| fresh(&f.ty)).collect()),
        Ty::Variant(n) => V::X(0, variant_fields(n, 0).iter().map(|f| fresh(&f.ty)).collect()),
        t => zero(t),
    }
}

fn at<'a>(mut v: &'a mut V, path: &[usize]) -> &'a mut V {
    for i in path {
        v = &mut v.fields_mut()[*i];
    }
    v
}

/// `v`: a generated record, from which the arguments are taken.
pub fn k_ctor(s: &str, v: &V) -> Res {
    let r = rec(s);
    let op = CTORS.iter().find(|c| c.name == s && c.args.is_some()).ok_or("harness: no constructor")?;
    let mut want = fresh(&Ty::Rec(s.into()));
    let mut src = v.clone();
    let mut args = vec![];
    for p in op.args.unwrap() {
        let a = at(&mut src, p).clone();
        *at(&mut want, p) = a.clone();
        args.push(a);
    }
    let some = !args.is_empty();
    compare(s, r, &want, (op.make)(&args))?;
    // the same values given again, in between another record
    let zeros: Vec<V> = op.args.unwrap().iter().map(|p| {
        let mut w = V::R(r.fields.iter().map(|f| zero(&f.ty)).collect());
        at(&mut w, p).clone()
    }).collect();
    (op.make)(&zeros);
    compare(s, r, &want, (op.make)(&args))?;
    Ok(Seen::when(some))
}

fn compare(s: &str, r: &Rec, want: &V, got: (V, Vec<u8>)) -> Result<(), String> {
    if let Some(d) = diff_fields(&r.fields, want.fields(), got.0.fields()) {
        return Err(format!("made by {s}'s constructor: {s}{d}"));
    }
    let mut b = vec![];
    enc_fields(&r.fields, want.fields(), &mut b);
    ensure!(b == got.1, "made by {s}'s constructor and written: {:02x?}, not {b:02x?}", got.1);
    Ok(())
}

pub fn k_default(s: &str, _: &u8) -> Res {
    let r = rec(s);
    let want = fresh(&Ty::Rec(s.into()));
    let op = CTORS.iter().find(|c| c.name == s && c.args.is_none()).ok_or("harness: no default")?;
    compare(s, r, &want, (op.make)(&[]))?;
    Ok(Seen::yes())
}

/// A new PDU holds defaults, whatever was done to others before.
pub fn k_new_pdu(s: &str, c: &PduCase) -> Res {
    let r = rec(s);
    let i = PDUS.iter().find(|p| p.name == s).unwrap();
    let mut other = build(i, r, c);
    let mut b = BytesMut::new();
    let _ = other.ser(&mut b);
    let h = other.hdr();
    let _ = PduHeader::new(h.pdu_type, h.protocol_family, c.exercise, c.garbage as u16);
    let _ = LiveEntityPduHeader::new(h.pdu_type, h.protocol_family, c.exercise, c.garbage as u16);
    let _ = (i.dec_slice)(&mut &b[..]);
    for (how, p) in [("new", (i.new)()), ("default", (i.default)())] {
        for (k, f) in r.fields.iter().enumerate() {
            if let Some(d) = diff(&f.ty, &fresh(&f.ty), &p.get(k)) {
                return Err(format!("{how} {s}: .{}{d}", f.name));
            }
        }
        let h = p.hdr();
        ensure!(h.protocol_version.to_v().n() == 7, "{how} {s} has version {:?}", h.protocol_version);
        ensure!(h.exercise_id == 1, "{how} {s} has exercise {}", h.exercise_id);
        ensure!(h.status_record.to_u8() == 0, "{how} {s} has status {:#x}", h.status_record.to_u8());
    }
    Ok(Seen::when(c.vals.iter().any(|v| !matches!(v, V::N(0)))))
}

/// Type, family, exercise and length given to a header constructor.
pub fn k_new_header(s: &str, c: &(u64, u64, u8, u16)) -> Res {
    let (t, f) = (Conv::from_v(&V::N(c.0)), Conv::from_v(&V::N(c.1)));
    let mut b = BytesMut::new();
    let ts;
    if s == "LiveEntityPduHeader" {
        let h = LiveEntityPduHeader::new(t, f, c.2, c.3);
        ensure!(h.subprotocol_number.to_v().n() == schema().enums["DISLiveEntitySubprotocolNumber"].default, "subprotocol {:?}", h.subprotocol_number);
        ts = h.timestamp;
        h.serialize(&mut b);
    } else {
        let h = PduHeader::new(t, f, c.2, c.3);
        ts = h.timestamp;
        ensure!(h.status_record.to_u8() == 0, "status {:#x}", h.status_record.to_u8());
        h.serialize(&mut b);
    }
    ensure!(ts < 1 << 31, "timestamp {ts}");
    let mut want = vec![7, c.2, c.0 as u8, c.1 as u8];
    want.extend(ts.to_be_bytes());
    want.extend(c.3.to_be_bytes());
    want.extend(if s == "LiveEntityPduHeader" { [schema().enums["DISLiveEntitySubprotocolNumber"].default as u8, 0] } else { [0, 0] });
    ensure!(b[..] == want[..], "header made and written: {:02x?}, not {want:02x?}", &b[..]);
    Ok(Seen::yes())
}

pub fn ctors(ctx: &Ctx, n: u32) -> (&'static str, Vec<&'static str>) {
    const O: Opts = Opts { wire: false, safe: Safe::No, big: true };
    CTORS.par_iter().with_max_len(1).for_each(|op| {
        let s = op.name;
        if op.args.is_none() {
            let mut l = Local::new(ctx, "default", s);
            l.judge(0, || 0u8, || k_default(s, &0));
            return;
        }
        let st = (rec_case(rec(s), O), any::<u64>())
            .prop_map(move |(mut v, mut x)| {
                // arguments need not agree with one another
                if x % 2 == 0 {
                    loosen(&rec(s).fields, v.fields_mut(), &mut x);
                }
                v
            })
            .boxed();
        search(ctx, "ctor", s, &st, n, |c| k_ctor(s, c));
        let mut l = Local::new(ctx, "ctor", s);
        for i in 0..65_536u64 {
            let c = V::R(crate::props::latin(rec(s), &rec(s).fields.iter().map(|f| crate::props::one_each(&f.ty, 1)).collect::<Vec<_>>(), i, O));
            if l.judge(i, || c.clone(), || k_ctor(s, &c)) {
                return;
            }
        }
    });
    PDUS.par_iter().with_max_len(1).for_each(|p| {
        let st = pdu_case(rec(p.name), O);
        search(ctx, "new-pdu", p.name, &st, n / 8, |c| k_new_pdu(p.name, c));
    });
    ["PduHeader", "LiveEntityPduHeader"].par_iter().for_each(|s| {
        let ts = &schema().enums["PduType"].codes;
        let fs = &schema().enums["ProtocolFamily"].codes;
        let mut l = Local::new(ctx, "new-header", s);
        let mut i = 0u64;
        for t in ts {
            for f in fs {
                for _ in 0..64 {
                    i += 1;
                    let c = (*t, *f, (i.wrapping_mul(0x9e37_79b9) >> 7) as u8, (i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 11) as u16);
                    if l.judge(i, || c, || k_new_header(s, &c)) {
                        return;
                    }
                }
            }
        }
        drop(l);
        let st = (proptest::sample::select(ts.clone()), proptest::sample::select(fs.clone()), any::<u8>(), int(2))
            .prop_map(|(a, b, c, d)| (a, b, c, d.n() as u16))
            .boxed();
        search(ctx, "new-header", s, &st, 4 * n, |c| k_new_header(s, c));
    });
    ("every record constructor with generated arguments and a sweep of them; every default; a new PDU of every type after another one was filled and written; both header constructors with every type and family. Non-trivial: the constructor takes arguments / the other PDU was not empty.",
     vec!["which argument goes to which field (schema/ctors.json) was read off the signatures"])
}
