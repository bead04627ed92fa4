//! `odr-verif check C01` decides one property on generated cases (exit 0, 1; 3 = no verdict);
//! `odr-verif replay FILE` re-runs one saved case (exit 1 if it still fails).
mod alloc;
mod ctor;
mod value;
mod custom;
mod gen_;
mod misc;
mod model;
mod once;
mod props;
mod run;
mod strat;
use std::collections::BTreeMap;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn findings(prop: &str) -> BTreeMap<String, String> {
    // finding: property=C01 <name>: <what fails>
    let text = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={prop} ")))
        .filter_map(|l| l.split_once(": "))
        .map(|(n, d)| (n.trim().to_string(), d.trim().to_string()))
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // local time differs from UTC by an odd offset
    unsafe { std::env::set_var("TZ", "XXX-5:45") };
    run::install_hook();
    run::watchdog();
    let code = match (args.get(1).map(String::as_str), args.get(2)) {
        (Some("check"), Some(p)) => check(p),
        (Some("replay"), Some(f)) => replay(f),
        (Some("once"), None) => once::child(),
        (Some("lines"), None) => {
            strat::line_pairs().iter().for_each(|x| println!("{x:08x}"));
            0
        }
        (Some("edited"), None) => {
            strat::edited().iter().for_each(|w| println!("{w:?}"));
            for n in model::schema().recs.keys() {
                if strat::worth(n) > 1 {
                    println!("{n}: {} times", strat::worth(n));
                }
            }
            0
        }
        _ => {
            eprintln!("usage: odr-verif check PROPERTY | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn check(prop: &str) -> i32 {
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    let _ = run::PROP.set(Box::leak(prop.to_string().into_boxed_str()));
    let ctx: &'static run::Ctx = Box::leak(Box::new(run::Ctx {
        prop: Box::leak(prop.to_string().into_boxed_str()),
        seed: env("VERIF_SEED").parse().unwrap_or(1),
        thorough: env("VERIF_TIER") == "thorough",
        stats: Default::default(),
        start: std::time::Instant::now(),
    }));
    let f = findings(prop);
    match props::check(ctx) {
        Some((rule, assumptions)) => run::finish(ctx, rule, &assumptions, &f),
        None => {
            eprintln!("ERROR: no property {prop}");
            2
        }
    }
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("harness: read replay file");
    let doc: serde_json::Value = serde_json::from_str(&text).expect("harness: parse replay file");
    let s = |k: &str| doc[k].as_str().unwrap_or_default().to_string();
    let _ = run::PROP.set(Box::leak(s("property").into_boxed_str()));
    match props::replay(&s("kind"), &s("subject"), doc["case"].clone()) {
        Some(Err(m)) => {
            println!("{} / {}: {m}", s("kind"), s("subject"));
            println!("VIOLATION property={} replay={file}", s("property"));
            1
        }
        Some(Ok(_)) => {
            println!("no violation");
            0
        }
        None => {
            eprintln!("ERROR: this case cannot be replayed on its own");
            3
        }
    }
}
