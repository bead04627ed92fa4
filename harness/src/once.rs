//! What a process does at first, and what it does after other things: `odr-verif once` runs the
//! steps given on its standard input and prints what the last of them does.
use crate::{gen_::PDUS, model::*, props::*, run::*, strat::*};
use proptest::{collection::vec, prelude::*, sample::select, strategy::Union};
use bytes::BytesMut;
use serde::{Deserialize, Serialize};
use std::{
    io::{Read, Write},
    process::{Command, Stdio},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Write(usize, PduCase),
    Read(usize, Vec<u8>),
    Times(u16, Box<Step>),
}

pub fn run(s: &Step) -> String {
    let one = || match s {
        Step::Write(k, c) => {
            let i = &PDUS[*k];
            let mut p = build(i, rec(i.name), c);
            let l = p.len().map_err(|e| e.to_string());
            let b = ser(&mut *p).map_err(|e| e.to_string());
            Ok(format!("{l:?} {b:02x?} {}", p.dbg()))
        }
        Step::Read(k, b) => {
            let i = &PDUS[*k];
            let mut rd: &[u8] = b;
            Ok(match (i.dec)(&mut rd) {
                Ok(p) => format!("{} left, {}", rd.len(), p.dbg()),
                Err(e) => format!("refused: {e}"),
            })
        }
        Step::Times(n, s) => {
            for _ in 1..*n {
                silently(s);
            }
            Ok(run(s))
        }
    };
    guarded(one).unwrap_or_else(|e| e)
}

/// Only for what it leaves behind.
fn silently(s: &Step) {
    let _ = guarded(|| {
        match s {
            Step::Write(k, c) => {
                let i = &PDUS[*k];
                let _ = build(i, rec(i.name), c).ser(&mut BytesMut::new());
            }
            Step::Read(k, b) => {
                let mut rd: &[u8] = b;
                let _ = (PDUS[*k].dec)(&mut rd);
            }
            Step::Times(n, s) => (0..*n).for_each(|_| silently(s)),
        }
        Ok(())
    });
}

/// The last step alone as the first thing on a new thread.
pub fn on_new_thread(s: &Step) -> String {
    std::thread::scope(|t| t.spawn(|| run(s)).join()).expect("harness: thread")
}

pub fn child() -> i32 {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("harness: read steps");
    let steps: Vec<Step> = serde_json::from_str(&text).expect("harness: parse steps");
    let mut last = String::new();
    if let Some((s, before)) = steps.split_last() {
        before.iter().for_each(silently);
        last = run(s);
    }
    print!("{last}");
    0
}

/// What a new process that takes these steps says of the last.
fn process(steps: &[&Step]) -> Result<String, String> {
    let exe = std::env::current_exe().expect("harness: own path");
    let mut c = Command::new(exe)
        .arg("once")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: start a process");
    let text = serde_json::to_vec(steps).expect("harness: steps");
    let mut stdin = c.stdin.take().expect("harness: stdin");
    // a child that has died is seen in its output
    let _ = stdin.write_all(&text);
    drop(stdin);
    let out = c.wait_with_output().expect("harness: wait");
    match out.status.code() {
        Some(4) | None => Err("the process is aborted".into()),
        c => Ok(format!("{c:?} {}", String::from_utf8_lossy(&out.stdout))),
    }
}

pub fn differ(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(30);
    let cut = |s: &str| s.bytes().skip(at).take(100).map(char::from).collect::<String>();
    format!("at first ..{}.., afterwards ..{}..", cut(a), cut(b))
}

/// `c`: what is done before, and what must not be affected by it.
pub fn k_process(s: &str, c: &(Vec<Step>, Step)) -> Res {
    let alone = process(&[&c.1])?;
    let all: Vec<&Step> = c.0.iter().chain([&c.1]).collect();
    let after = process(&all)?;
    if alone != after {
        return Err(format!("{s}: {}", differ(&alone, &after)));
    }
    Ok(Seen::when(!c.0.is_empty()).label(if matches!(c.1, Step::Read(..)) { "read" } else { "written" }))
}

pub fn steps(k: usize, write: bool) -> BoxedStrategy<(Vec<Step>, Step)> {
    let n = PDUS.len();
    let o = Opts { big: false, ..STRICT };
    let own = pdu_case(rec(PDUS[k].name), o);
    let w = move |i: usize| pdu_case(rec(PDUS[i].name), o).prop_map(move |c| Step::Write(i, c)).boxed();
    let r = move |i: usize| arbitrary_bytes(PDUS[i].name, WIRE_FULL).prop_map(move |b| Step::Read(i, b)).boxed();
    let others = [(k + 5) % n, (k + 23) % n];
    let step = Union::new([w(k), w(k), r(k), r(k), w(others[0]), r(others[0]), w(others[1]), r(others[1])]);
    let big = pdu_case(rec(PDUS[k].name), STRICT).prop_map(move |c| Step::Write(k, c)).boxed();
    let r = rec(PDUS[k].name);
    let refused = match r.fields.iter().position(|f| matches!(f.ty, Ty::Vec(_) | Ty::Bytes)) {
        Some(li) => (own.clone(), any::<u16>()).prop_map(move |(mut c, n)| {
            grow(r, &mut c, li, 8300 + usize::from(n % 700), 0, 1, o);
            Step::Write(k, c)
        }).boxed(),
        None => w(k),
    };
    let step = Union::new([step.clone().boxed(), step.clone().boxed(), step.boxed(), big, refused]);
    let times = prop_oneof![1u16..6, 10u16..20, select(vec![32u16, 64, 100, 127, 128, 255, 256, 257, 512, 1000, 1024]), edited_or(1..=2000, 2).prop_map(|n| n as u16)];
    let step = prop_oneof![3 => step.clone(), 1 => (times, step).prop_map(|(n, s)| Step::Times(n, Box::new(s)))];
    let before = vec(step, 0..6);
    if write {
        let own = prop_oneof![3 => own, 1 => pdu_case(r, STRICT)];
        (before, own.clone(), own, any::<usize>(), 0u8..3)
            .prop_map(move |(mut b, mut a, c, f, m)| {
                // often one that is the same but for a field
                if m > 0 {
                    let f = f % c.vals.len();
                    let x = a.vals[f].clone();
                    a = c.clone();
                    if m == 1 {
                        a.vals[f] = x;
                    }
                    b.push(Step::Write(k, a));
                }
                (b, Step::Write(k, c))
            })
            .boxed()
    } else {
        (before, arbitrary_bytes(PDUS[k].name, WIRE_FULL), any::<usize>(), any::<u8>(), 0u8..3)
            .prop_map(move |(mut b, c, at, x, m)| {
                if m > 0 {
                    let mut a = c.clone();
                    if m == 1 && !a.is_empty() {
                        let at = at % a.len();
                        a[at] = x;
                    }
                    b.push(Step::Read(k, a));
                }
                (b, Step::Read(k, c))
            })
            .boxed()
    }
}

/// Lanes that run at the same time, each over and over: the outcomes are those each has alone.
pub fn k_together(s: &str, lanes: &Vec<Vec<Step>>) -> Res {
    // what the lanes do alone, one after the other
    let alone: Vec<Vec<String>> = lanes.iter().map(|l| l.iter().map(run).collect()).collect();
    let start = std::sync::Barrier::new(lanes.len());
    let bad = std::sync::atomic::AtomicBool::new(false);
    let lane = |l: &Vec<Step>, want: &Vec<String>| -> Option<String> {
        start.wait();
        for _ in 0..TOGETHER {
            for (st, w) in l.iter().zip(want) {
                if bad.load(std::sync::atomic::Ordering::Relaxed) {
                    return None;
                }
                let got = run(st);
                if got != *w {
                    bad.store(true, std::sync::atomic::Ordering::Relaxed);
                    return Some(differ(w, &got).replace("at first", "alone").replace("afterwards", "on threads side by side"));
                }
            }
        }
        None
    };
    let found: Vec<Option<String>> = std::thread::scope(|t| {
        let h: Vec<_> = lanes.iter().zip(&alone).map(|(l, w)| t.spawn(|| lane(l, w))).collect();
        h.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    if let Some(m) = found.into_iter().flatten().next() {
        return Err(format!("{s}: {m}"));
    }
    Ok(Seen::when(lanes.len() > 1).label("side by side"))
}
const TOGETHER: u32 = 25;

pub fn lanes(k: usize, write: bool) -> BoxedStrategy<Vec<Vec<Step>>> {
    let n = PDUS.len();
    let o = Opts { big: false, ..STRICT };
    let step = move |i: usize| {
        if write {
            pdu_case(rec(PDUS[i].name), o).prop_map(move |c| Step::Write(i, c)).boxed()
        } else {
            arbitrary_bytes(PDUS[i].name, WIRE_FULL).prop_map(move |b| Step::Read(i, b)).boxed()
        }
    };
    let step = Union::new_weighted(vec![(6, step(k)), (1, step((k + 7) % n)), (1, step((k + 31) % n))]);
    vec(vec(step, 1..3), 2..4).boxed()
}
