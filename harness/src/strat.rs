//! Generators over the schema: proptest strategies for whole PDUs and records.
use crate::model::*;
use proptest::{collection::vec, prelude::*, sample::select, strategy::Union};
use serde::{Deserialize, Serialize};
use std::{collections::BTreeSet, sync::OnceLock};

/// What kind of values to generate.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Opts {
    /// Values as they may appear on the wire: unknown enumeration codes, non-zero paddings
    pub wire: bool,
    /// Keep clear of the recorded findings (see known_findings.txt)
    pub safe: Safe,
    /// Size class of the top-level lists
    pub big: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Safe {
    No,
    /// items whose decoder runs to the end of the buffer may come last
    Last,
    /// no such items
    Strict,
}

/// The code under test, file by file (whether it is the table of enumerations, and its lines
/// without comments and blank ones); only ever used to choose values, never to judge.
fn sources() -> &'static [(bool, Vec<String>)] {
    static S: OnceLock<Vec<(bool, Vec<String>)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut out = vec![];
        let mut stack = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = stack.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            let mut names: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            names.sort();
            for p in names {
                if p.is_dir() {
                    stack.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    let text = std::fs::read_to_string(&p).unwrap_or_default();
                    let code = text.split("#[cfg(test)]").next().unwrap();
                    let lines = code.lines().map(|l| l.split("//").next().unwrap().trim().to_string()).filter(|l| !l.is_empty()).collect();
                    out.push((p.file_name().is_some_and(|x| x == "enums.rs"), lines));
                }
            }
        }
        out
    })
}

/// Hashes of the pairs of neighbouring lines of the code under test (`odr-verif lines` prints
/// them for schema/lines.txt): generation dwells on what was edited since.
pub fn line_pairs() -> Vec<u32> {
    let mut out = BTreeSet::new();
    for (_, lines) in sources() {
        for i in 0..lines.len() {
            out.insert(pair(lines, i));
        }
    }
    out.into_iter().collect()
}
fn pair(lines: &[String], i: usize) -> u32 {
    let prev = if i == 0 { "" } else { &lines[i - 1] };
    let h = prev.bytes().chain([b'\n']).chain(lines[i].bytes()).fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3));
    (h >> 32) as u32
}

fn known_pairs() -> std::collections::HashSet<u32> {
    include_str!("../../schema/lines.txt").split_ascii_whitespace().filter_map(|x| u32::from_str_radix(x, 16).ok()).collect()
}

/// What lines that are not in schema/lines.txt (and their surroundings) mention.
/// Nothing if there are none or if most of the code is different.
pub fn edited() -> &'static [Window] {
    static W: OnceLock<Vec<Window>> = OnceLock::new();
    W.get_or_init(|| {
        let known = known_pairs();
        let mut out: Vec<Window> = vec![];
        let (mut n, mut new) = (0, 0);
        let mut sum = String::new();
        for (table, lines) in sources() {
            for i in 0..lines.len() {
                n += 1;
                if known.contains(&pair(lines, i)) {
                    continue;
                }
                new += 1;
                sum.push_str(&lines[i]);
                sum.push('\n');
                for (a, b) in [(0, 1), (1, 1), (1, 2), (3, 4), (8, 8)] {
                    if *table && a > 1 {
                        continue;
                    }
                    let mut w = window(&lines[i.saturating_sub(a)..lines.len().min(i + b)].join("\n"));
                    w.derive();
                    if !w.bare() && w.ints.len() + w.members.len() <= 24 && !out.contains(&w) {
                        out.push(w);
                    }
                }
            }
        }
        let mut w = window(&sum);
        w.derive();
        if !w.bare() && w.ints.len() + w.members.len() <= 40 && !out.contains(&w) {
            out.push(w);
        }
        if new > 2000 || new * 5 > n {
            out.clear();
        }
        out
    })
}
/// The types whose definitions or implementations were edited; none if something else was, too.
fn edited_types() -> BTreeSet<String> {
    let known: std::collections::HashSet<u32> = known_pairs();
    let mut out = BTreeSet::new();
    let word = |l: &str, k: &str| {
        let i = l.find(k)?;
        let n: String = l[i + k.len()..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
        (!n.is_empty()).then_some(n)
    };
    for (_, lines) in sources() {
        for i in 0..lines.len() {
            if known.contains(&pair(lines, i)) {
                continue;
            }
            let name = (0..=i).rev().find_map(|j| {
                let l = &lines[j];
                word(l, " for ").filter(|_| l.starts_with("impl")).or_else(|| word(l, "struct ")).or_else(|| word(l, "enum ")).or_else(|| word(l, "impl "))
            });
            match name {
                Some(n) => drop(out.insert(n)),
                None => return BTreeSet::new(),
            }
        }
    }
    out
}

/// How many times as many cases a PDU or record is worth, having been edited.
pub fn worth(subject: &str) -> u32 {
    static W: OnceLock<std::collections::HashMap<String, u32>> = OnceLock::new();
    *W.get_or_init(|| {
        fn uses(ty: &Ty, t: &BTreeSet<String>) -> bool {
            match ty {
                Ty::Rec(n) => t.contains(n) || rec(n).fields.iter().any(|f| uses(&f.ty, t)),
                Ty::Enum(n, _) => t.contains(n),
                Ty::Vec(x) | Ty::OptVec(x) => uses(x, t),
                Ty::OptBytes(w) => t.contains(OPAQUE[usize::from(*w == 2)]),
                Ty::Marking(_) => t.contains(OPAQUE[2]) || t.contains(OPAQUE[3]),
                Ty::Variant(n) => t.contains(n) || (0..variant_count(n)).any(|i| variant_fields(n, i).iter().any(|f| uses(&f.ty, t))),
                _ => false,
            }
        }
        const OPAQUE: [&str; 4] = ["ModulationParameters", "AntennaPattern", "EntityMarking", "AggregateMarking"];
        let mut out = std::collections::HashMap::new();
        let t = edited_types();
        let s = schema();
        if edited().is_empty() || t.iter().any(|n| !s.recs.contains_key(n) && !s.enums.contains_key(n) && !VARIANTS.contains(&n.as_str()) && !OPAQUE.contains(&n.as_str())) {
            return out;
        }
        for pdu in [true, false] {
            let all: Vec<&Rec> = s.recs.values().filter(|r| r.pdu.is_some() == pdu).collect();
            let hit: Vec<&&Rec> = all.iter().filter(|r| uses(&Ty::Rec(r.name.clone()), &t)).collect();
            for r in &hit {
                out.insert(r.name.clone(), (1 + all.len() / hit.len()).clamp(1, 6) as u32);
            }
        }
        out
    })
    .get(subject)
    .unwrap_or(&1)
}

/// Numbers the edited lines mention, in `range`, or else one of `usual`.
pub fn edited_or(range: std::ops::RangeInclusive<u64>, usual: u64) -> BoxedStrategy<u64> {
    let l: Vec<u64> = edited_ints().into_iter().filter(|n| range.contains(n)).collect();
    if l.is_empty() { Just(usual).boxed() } else { select(l).boxed() }
}
pub fn edited_floats(w: u8) -> Vec<u64> {
    let l: BTreeSet<u64> = edited().iter().flat_map(|e| e.floats.iter().copied()).filter(|n| (n >> 32 == 0) == (w == 4)).collect();
    let of = |n: u64| if w == 4 { f64::from(f32::from_bits(n as u32)) } else { f64::from_bits(n) };
    let mut out: BTreeSet<u64> = l.iter().flat_map(|n| [*n, *n ^ (1 << (8 * w - 1)), n.wrapping_add(1) & mask(w), n.wrapping_sub(1) & mask(w)]).collect();
    // and what lies between two of them
    for a in l.iter().take(12) {
        for b in l.iter().take(12).filter(|b| *b > a) {
            for x in [0.25, 0.5, 0.8] {
                let x = of(*a) + (of(*b) - of(*a)) * x;
                out.insert(if w == 4 { u64::from((x as f32).to_bits()) } else { x.to_bits() });
            }
        }
    }
    out.into_iter().collect()
}
pub fn edited_ints() -> Vec<u64> {
    let mut set = BTreeSet::new();
    for w in edited() {
        set.extend(w.ints.iter().flat_map(|n| [*n, n.wrapping_add(1), n.wrapping_sub(1)]));
        set.extend(&w.more);
        set.extend(w.members.iter().map(|m| m.1));
    }
    set.into_iter().collect()
}

/// Integer literals of the code under test: candidates for special-cased values.
/// They only bias the generators, no verdict depends on them.
pub fn dictionary() -> &'static [u64] {
    static D: OnceLock<Vec<u64>> = OnceLock::new();
    D.get_or_init(|| {
        let mut set = BTreeSet::new();
        for (_, lines) in sources().iter().filter(|(e, _)| !e) {
            let mut floats = BTreeSet::new();
            lines.iter().for_each(|l| scan(l, &mut set, &mut floats));
            set.extend(floats);
        }
        let base: Vec<u64> = set.into_iter().collect();
        let mut all: BTreeSet<u64> = base.iter().copied().collect();
        for b in &base {
            if b.count_ones() > 0 && *b < u64::MAX {
                all.insert(b + 1);
                all.insert(b - 1);
            }
        }
        all.into_iter().collect()
    })
}

/// The numbers in a text: integers, and numbers as they look as floats of 4 and of 8 octets.
fn scan(text: &str, ints: &mut BTreeSet<u64>, floats: &mut BTreeSet<u64>) {
    let mut float = |f: f64| {
        floats.insert(f.to_bits());
        floats.insert((f as f32).to_bits().into());
    };
    let ident = |c: char| c.is_ascii_alphanumeric() || c == '_';
    for line in text.lines() {
        let line = line.split("//").next().unwrap_or("");
        for (i, _) in line.match_indices("::") {
            let a = line[..i].rsplit(|c: char| !ident(c)).next().unwrap_or("");
            let b = line[i + 2..].split(|c: char| !ident(c)).next().unwrap_or("");
            if let (Some(bits), "MAX" | "MIN") = (a.strip_prefix(['u', 'i']).and_then(|n| n.parse::<u32>().ok()).filter(|n| [8, 16, 32, 64].contains(n)), b) {
                let m = u64::MAX >> (64 - bits);
                ints.insert(match (a.starts_with('u'), b) {
                    (true, "MAX") => m,
                    (true, _) => 0,
                    (_, "MAX") => m >> 1,
                    _ => (m >> 1) + 1,
                });
            }
            match (a, b) {
                ("consts", "PI") => float(std::f64::consts::PI),
                ("consts", "TAU") => float(std::f64::consts::TAU),
                ("consts", "FRAC_PI_2") => float(std::f64::consts::FRAC_PI_2),
                ("f32" | "f64", "EPSILON" | "MIN_POSITIVE" | "MAX" | "MIN" | "INFINITY" | "NEG_INFINITY" | "NAN") => {
                    let (x, y) = match b {
                        "EPSILON" => (f32::EPSILON, f64::EPSILON),
                        "MIN_POSITIVE" => (f32::MIN_POSITIVE, f64::MIN_POSITIVE),
                        "MAX" => (f32::MAX, f64::MAX),
                        "MIN" => (f32::MIN, f64::MIN),
                        "INFINITY" => (f32::INFINITY, f64::INFINITY),
                        "NEG_INFINITY" => (f32::NEG_INFINITY, f64::NEG_INFINITY),
                        _ => (f32::NAN, f64::NAN),
                    };
                    float(f64::from(x));
                    float(y);
                }
                _ => {}
            }
        }
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if c == b'b' && i + 3 < b.len() && b[i + 1] == b'\'' && b[i + 3] == b'\'' {
                ints.insert(b[i + 2].into());
                i += 4;
                continue;
            }
            if c.is_ascii_digit() && !prev_ident {
                let s = i;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'_'
                        || (b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())
                        || (b[i] == b'-' && b[i - 1] == b'e' && i > s + 1 && i + 1 < b.len() && b[i + 1].is_ascii_digit() && !line[s..i].starts_with("0x")))
                {
                    i += 1;
                }
                let t: String = line[s..i].replace('_', "").to_lowercase();
                let num = |t: &str, r: u32| {
                    let t = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"]
                        .iter()
                        .find_map(|x| t.strip_suffix(x))
                        .unwrap_or(t);
                    u64::from_str_radix(t, r).ok()
                };
                if let Some(h) = t.strip_prefix("0x") {
                    ints.extend(num(h, 16));
                } else if let Some(h) = t.strip_prefix("0b") {
                    ints.extend(num(h, 2));
                } else if let Some(n) = num(&t, 10) {
                    ints.insert(n);
                    float(n as f64);
                } else {
                    let t = t.trim_end_matches("f32").trim_end_matches("f64");
                    if let Ok(f) = t.parse::<f64>() {
                        float(f);
                    }
                }
            } else {
                i += 1;
            }
        }
    }
}

/// What a few neighbouring lines of the code under test mention: numbers, enumeration members, texts.
/// Like the dictionary, this only biases the generators.
#[derive(Debug, Default, PartialEq, Eq, Hash, Clone)]
pub struct Window {
    ints: Vec<u64>,
    floats: Vec<u64>,
    members: Vec<(String, u64)>,
    texts: Vec<String>,
    /// octets in a row: lists of numbers, texts, numbers of more than one octet
    runs: Vec<Vec<u8>>,
    /// fields
    names: BTreeSet<String>,
    /// sums, shifts and the like of the numbers
    more: Vec<u64>,
}
impl Window {
    fn bare(&self) -> bool {
        self.ints.is_empty() && self.floats.is_empty() && self.members.is_empty() && self.texts.is_empty() && self.names.is_empty()
    }
    fn derive(&mut self) {
        let mut set = BTreeSet::new();
        for a in &self.ints {
            for b in &self.ints {
                set.extend(a.checked_mul(*b));
                set.extend(a.checked_add(*b));
                set.extend(a.checked_sub(*b));
                set.insert(a | b);
                if *b < 64 {
                    set.insert(a << b);
                }
            }
        }
        self.more = set.into_iter().filter(|n| !self.ints.contains(n)).take(400).collect();
    }
}
pub fn windows() -> &'static [Window] {
    static W: OnceLock<Vec<Window>> = OnceLock::new();
    W.get_or_init(|| {
        let mut out = std::collections::HashSet::new();
        for (_, lines) in sources().iter().filter(|(e, _)| !e) {
            for i in 0..lines.len() {
                for n in [1, 3, 8] {
                    let mut w = window(&lines[i..lines.len().min(i + n)].join("\n"));
                    w.names.clear();
                    if !w.bare() && w.ints.len() + w.members.len() <= 12 {
                        out.insert(w);
                    }
                }
            }
        }
        let mut all: Vec<Window> = out.into_iter().collect();
        all.sort_by_key(|w| format!("{w:?}"));
        all
    })
}
fn runs(text: &str, ints: &[u64]) -> Vec<Vec<u8>> {
    let mut out = BTreeSet::new();
    for (i, _) in text.match_indices('[') {
        let inner = text[i + 1..].split(['[', ']']).next().unwrap_or("");
        let octets: Option<Vec<u8>> = inner
            .split(',')
            .map(str::trim)
            .filter(|x| !x.is_empty())
            .map(|x| {
                let mut one = BTreeSet::new();
                scan(x, &mut one, &mut BTreeSet::new());
                one.first().filter(|n| one.len() == 1 && **n < 256).map(|n| *n as u8)
            })
            .collect();
        out.extend(octets.filter(|o| o.len() > 1 && o.len() <= 32));
    }
    let mut parts = text.split('"');
    parts.next();
    while let (Some(s), Some(_)) = (parts.next(), parts.next()) {
        let (mut b, mut rest) = (vec![], s.as_bytes());
        while let Some((c, r)) = rest.split_first() {
            rest = r;
            let hex = |n: usize| r.get(1..1 + n).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
            b.push(match (c, r.first()) {
                (b'\\', Some(b'x')) if hex(2).is_some() => {
                    rest = &r[3..];
                    hex(2).unwrap()
                }
                (b'\\', Some(e)) => {
                    rest = &r[1..];
                    match e {
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'0' => 0,
                        e => *e,
                    }
                }
                _ => *c,
            });
        }
        if !b.is_empty() && b.len() <= 32 {
            out.insert(b);
        }
    }
    for n in ints.iter().filter(|n| **n > 255) {
        let b = n.to_be_bytes();
        let w = if *n < 1 << 16 { 2 } else if *n < 1 << 32 { 4 } else { 8 };
        out.insert(b[8 - w..].to_vec());
        out.insert(b[8 - w..].iter().rev().copied().collect());
        if *n < 1 << 24 && w == 4 {
            out.insert(b[5..].to_vec());
        }
    }
    out.into_iter().take(40).collect()
}
fn window(text: &str) -> Window {
    let mut w = Window::default();
    let (mut ints, mut floats) = (BTreeSet::new(), BTreeSet::new());
    scan(text, &mut ints, &mut floats);
    w.ints = ints.into_iter().collect();
    w.floats = floats.into_iter().collect();
    let ident = |c: char| c.is_ascii_alphanumeric() || c == '_';
    for (i, _) in text.match_indices("::") {
        let a = text[..i].rsplit(|c: char| !ident(c)).next().unwrap_or("");
        let b = text[i + 2..].split(|c: char| !ident(c)).next().unwrap_or("");
        if a == "PduType" || a == "ProtocolFamily" {
            continue;
        }
        if let Some(c) = schema().enums.get(a).and_then(|e| e.names.iter().find(|(_, n)| *n == b).map(|(c, _)| *c)) {
            if !w.members.contains(&(a.to_string(), c)) {
                w.members.push((a.to_string(), c));
            }
        }
    }
    let mut parts = text.split('"');
    parts.next();
    while let (Some(s), Some(_)) = (parts.next(), parts.next()) {
        if !s.is_empty() && s.len() < 16 && !s.contains('{') {
            w.texts.push(s.to_string());
        }
    }
    w.members.sort();
    w.texts.sort();
    w.runs = runs(text, &w.ints);
    let names = field_names();
    w.names = text.split(|c: char| !ident(c)).filter(|n| !n.is_empty() && names.contains(n)).map(str::to_string).collect();
    w
}

fn field_names() -> &'static BTreeSet<&'static str> {
    static N: OnceLock<BTreeSet<&'static str>> = OnceLock::new();
    N.get_or_init(|| {
        let s = schema();
        s.recs.values().flat_map(|r| &r.fields).map(|f| f.name.as_str()).chain(["protocol_version", "exercise_id", "timestamp"]).collect()
    })
}

pub fn boundary(w: u8) -> Vec<u64> {
    let bits = 8 * u32::from(w);
    let m = mask(w);
    let mut v = vec![0, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 254, 255, m, m - 1, m - 2, m >> 1, (m >> 1) + 1];
    for k in 0..bits {
        v.push(1 << k);
        v.push((1u64 << k) - 1);
        v.push(((1u64 << k) + 1) & m);
        v.push(!(1u64 << k) & m);
    }
    v.extend([0x0102_0304_0506_0708 & m, 0xfedc_ba98_7654_3210 & m, 0xaaaa_aaaa_aaaa_aaaa & m, 0x5555_5555_5555_5555 & m]);
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| *x <= m && seen.insert(*x));
    v
}

pub fn int(w: u8) -> BoxedStrategy<V> {
    let m = mask(w);
    let dict: Vec<u64> = dictionary().iter().map(|d| d & m).collect();
    let mut arms: Vec<(u32, BoxedStrategy<u64>)> = vec![
        (3, select(boundary(w)).boxed()),
        (4, any::<u64>().prop_map(move |x| x & m).boxed()),
        (2, (0u64..=300).prop_map(move |x| x & m).boxed()),
    ];
    if !dict.is_empty() {
        arms.push((2, select(dict).boxed()));
    }
    let new: Vec<u64> = edited_ints().iter().map(|d| d & m).collect();
    if !new.is_empty() {
        arms.push((2, select(new).boxed()));
    }
    Union::new_weighted(arms).prop_map(V::N).boxed()
}

pub fn float(w: u8) -> BoxedStrategy<V> {
    let m = mask(w);
    let special: Vec<u64> = if w == 4 {
        [
            0.0f32, -0.0, 1.0, -1.0, 0.5, 1.5, 3.25, -100.0, 1e10, 1e-10, f32::MAX, f32::MIN, f32::MIN_POSITIVE,
            f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 360.0, 180.0, 90.0, 3.141_592_7, 6.283_185_5,
            -3.141_592_7, -6.283_185_5, 1.570_796_4, -1.570_796_4, -180.0, -90.0, 57.295_78, 0.017_453_292, 9.806_65, 343.0, 16_777_216.0,
        ]
        .iter()
        .map(|f| u64::from(f.to_bits()))
        .chain([1, 0x7fff_ff, 0x7f80_0001, 0x7fc0_1234, 0xffc0_0000, 0xff80_0001, 0x0102_0304])
        .collect()
    } else {
        [
            0.0f64, -0.0, 1.0, -1.0, 0.5, 1.5, 3.25, -100.0, 1e10, 1e-10, 6_378_137.0, f64::MAX, f64::MIN,
            f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300, 0.1,
            std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::TAU, std::f64::consts::FRAC_PI_2, 360.0, 180.0, -180.0, 90.0,
            6_356_752.314_245, 299_792_458.0, 4_294_967_296.0, 9_007_199_254_740_992.0,
        ]
        .iter()
        .map(|f| f.to_bits())
        .chain([1, 0xf_ffff_ffff_ffff, 0x7ff0_0000_0000_0001, 0xfff8_0000_0000_1234, 0x0102_0304_0506_0708])
        .collect()
    };
    let nice = if w == 4 {
        (-100_000i32..100_000).prop_map(|i| u64::from((i as f32 / 16.0).to_bits())).boxed()
    } else {
        (-100_000_000i64..100_000_000).prop_map(|i| (i as f64 / 64.0).to_bits()).boxed()
    };
    // of every magnitude that occurs in practice
    let usual = (-4.0f64..9.0, any::<bool>())
        .prop_map(move |(e, minus)| {
            let x = 10f64.powf(e) * if minus { -1.0 } else { 1.0 };
            if w == 4 { u64::from((x as f32).to_bits()) } else { x.to_bits() }
        })
        .boxed();
    let dict: Vec<u64> = dictionary().iter().copied().filter(|d| *d <= m).collect();
    let mut arms = vec![
        (3, select(special).boxed()),
        (3, any::<u64>().prop_map(move |x| x & m).boxed()),
        (3, nice),
        (2, usual),
    ];
    if !dict.is_empty() {
        arms.push((1, select(dict).boxed()));
    }
    let new = edited_floats(w);
    if !new.is_empty() {
        arms.push((1, select(new).boxed()));
    }
    Union::new_weighted(arms).prop_map(V::N).boxed()
}

fn enum_(name: &str, w: u8, wire: bool) -> BoxedStrategy<V> {
    let e = &schema().enums[name];
    let known = select(e.codes.clone()).prop_map(V::N).boxed();
    if wire {
        let near: Vec<u64> = e.codes.iter().flat_map(|c| [c.wrapping_add(1) & mask(w), c.wrapping_sub(1) & mask(w), (c + (1 << 8)) & mask(w), (c + (1 << 16)) & mask(w)]).collect();
        Union::new_weighted(vec![(5, known), (2, select(near).prop_map(V::N).boxed()), (2, int(w))]).boxed()
    } else {
        known
    }
}

/// List lengths up to `max`, biased to the small and to boundaries.
pub fn size(max: usize, big: bool) -> BoxedStrategy<usize> {
    let b: Vec<usize> = [
        5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 99, 100, 101, 126, 127, 128, 129, 150, 199, 200, 201,
        249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 600, 767, 768, 1000, 1023, 1024, 1025, 1400, 1472, 1500, 2047,
        2048, 2049, 4095, 4096, 4097, 8000, 8191, 8192,
    ]
    .into_iter()
    .chain([max, max.saturating_sub(1), max.saturating_sub(2)])
    .filter(|x| *x <= max)
    .collect();
    let small = max.min(4);
    let mut arms: Vec<(u32, BoxedStrategy<usize>)> = vec![(14, (0..=small).boxed())];
    if max > 4 && big {
        arms.push((4, (5..=max.min(24)).boxed()));
        arms.push((2, select(b).boxed()));
        arms.push((1, (0..=max).boxed()));
        let new: Vec<usize> = edited_ints().into_iter().map(|n| n as usize).filter(|n| *n <= max && *n <= 8192).collect();
        if !new.is_empty() {
            arms.push((2, select(new).boxed()));
        }
    } else if max > 4 {
        arms.push((2, (5..=max.min(12)).boxed()));
    }
    Union::new_weighted(arms).boxed()
}

pub fn min_size(ty: &Ty) -> usize {
    match ty {
        Ty::Rec(n) => rec(n).fields.iter().map(|f| min_size(&f.ty)).sum(),
        Ty::Barr(n) | Ty::Marking(n) => *n,
        Ty::Variant(_) => 4,
        t => int_width(t).map_or(0, usize::from),
    }
}

fn list(elem: BoxedStrategy<V>, max: usize, big: bool) -> BoxedStrategy<V> {
    (vec(elem, 1..=5), size(max, big))
        .prop_map(|(pool, n)| V::L((0..n).map(|i| pool[i % pool.len()].clone()).collect()))
        .boxed()
}

fn bytes(max: usize, big: bool) -> BoxedStrategy<V> {
    (size(max, big), any::<u64>(), 0u8..8)
        .prop_map(|(n, s, k)| {
            let mut x = s | 1;
            let mut b: Vec<u8> = (0..n)
                    .map(|i| match k {
                        0 => 0,
                        1 => 0xff,
                        2 => i as u8,
                        _ => {
                            x ^= x << 13;
                            x ^= x >> 7;
                            x ^= x << 17;
                            (x >> 24) as u8
                        }
                    })
                    .collect();
            if k > 4 {
                ends(&mut b, s);
            }
            V::B(b)
        })
        .boxed()
}

/// Octets that begin or end (or both) with a run of a filler.
fn ends(b: &mut [u8], s: u64) {
    let fill = [0, 0, 0, 0xff, b' ', 0x7f, 1, 0][(s >> 8) as usize % 8];
    let (n, m) = (b.len(), b.len().min(1 + (s >> 16) as usize % 8));
    if s % 4 != 0 {
        b[n - m..].fill(fill);
    }
    if s % 4 != 1 && s % 4 != 2 {
        b[..m].fill(fill);
    }
}

fn marking() -> BoxedStrategy<V> {
    let ch = Union::new_weighted(vec![
        (8, select("ABCXYZ0189 -_/az".chars().collect::<Vec<_>>()).boxed()),
        (1, select(vec!['é', 'ß', '€', '漢', '😀', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}']).boxed()),
        (1, select(vec!['\0', '\t', '\n', '"', '\'', '\\', '~', '!']).boxed()),
    ]);
    vec(ch, 0..=14).prop_map(|c| V::B(c.into_iter().collect::<String>().into_bytes())).boxed()
}

pub fn strat(ty: &Ty, o: Opts, depth: usize, count_max: usize) -> BoxedStrategy<V> {
    let big = o.big && depth == 0;
    let lim = |sz: usize| {
        let m = count_max.min(8200 / sz.max(1) + 2);
        if depth > 1 { m.min(6) } else { m }
    };
    match ty {
        Ty::U(w) | Ty::I(w) | Ty::Flags(w) => int(*w),
        Ty::F(w) => float(*w),
        Ty::Enum(n, w) => enum_(n, *w, o.wire),
        Ty::Pad(w) => {
            if o.wire {
                int(*w)
            } else {
                Just(V::N(0)).boxed()
            }
        }
        Ty::Align(_) => {
            if o.wire {
                int(1)
            } else {
                Just(V::N(0)).boxed()
            }
        }
        Ty::Barr(n) => Union::new_weighted(vec![
            (4, vec(any::<u8>(), *n).boxed()),
            (1, (any::<u8>(), Just(*n)).prop_map(|(b, n)| vec![b; n]).boxed()),
            (1, (select(vec![0u8, 0, 0xff]), Just(*n)).prop_map(|(b, n)| vec![b; n]).boxed()),
            (2, (vec(any::<u8>(), *n), any::<u64>()).prop_map(|(mut b, s)| {
                // mostly zeros, or zeros (or other fillers) at an end
                if s % 3 == 0 {
                    for (i, b) in b.iter_mut().enumerate() {
                        if (s >> (8 + i % 40)) & 3 != 0 {
                            *b = 0;
                        }
                    }
                } else if !b.is_empty() {
                    ends(&mut b, s >> 2);
                }
                b
            }).boxed()),
        ])
        .prop_map(V::B)
        .boxed(),
        Ty::Bytes => bytes(lim(1), o.big && depth <= 1),
        Ty::OptBytes(w) => {
            let m = if *w == 1 { 255 } else { 8200 };
            (bytes(m, big), 0u8..4).prop_map(|(b, k)| V::O((k > 0).then(|| Box::new(b)))).boxed()
        }
        Ty::Marking(_) => marking(),
        Ty::Vec(t) => list(strat(t, o, depth + 1, usize::MAX), lim(min_size(t)), big),
        Ty::OptVec(t) => {
            let e = strat(t, o, depth + 1, usize::MAX);
            let e = (e, 0u8..4).prop_map(|(v, k)| V::O((k > 0).then(|| Box::new(v)))).boxed();
            list(e, lim(min_size(t).max(1)).min(300), big)
        }
        Ty::Rec(n) => fields(&rec(n).fields, o, depth).prop_map(V::R).boxed(),
        Ty::Variant(n) => {
            let mut arms = vec![];
            for t in 0..variant_count(n) {
                arms.push(fields(variant_fields(n, t), o, depth + 1).prop_map(move |f| V::X(t, f)).boxed());
            }
            Union::new(arms).boxed()
        }
    }
}

pub fn count_max(fields: &[Field], i: usize) -> usize {
    for f in fields {
        let m = int_width(&f.ty).map_or(usize::MAX, |w| mask(w).min(1 << 40) as usize);
        match f.derive {
            Some(Derive::Count(l) | Derive::OptLen(l)) if l == i => return m,
            Some(Derive::Bits(l) | Derive::Bytes8(l)) if l == i => return m / 8,
            Some(Derive::Sub(_, l)) if l == i => return 65535,
            Some(Derive::Prod(_, l)) if l == i => return 8200,
            _ => {}
        }
    }
    usize::MAX
}

fn fields(fs: &[Field], o: Opts, depth: usize) -> BoxedStrategy<Vec<V>> {
    fs.iter()
        .enumerate()
        .map(|(i, f)| strat(&f.ty, o, depth, count_max(fs, i)))
        .collect::<Vec<_>>()
        .boxed()
}

// ------------------------------------------------------------ consistency

/// Make the dependent fields (counts, lengths, tags) agree with what they describe.
pub fn fix_fields(fs: &[Field], v: &mut [V], o: Opts) {
    for i in 0..fs.len() {
        fix(&fs[i].ty, &mut v[i], o);
    }
    for i in 0..fs.len() {
        let w = int_width(&fs[i].ty);
        match fs[i].derive {
            Some(Derive::Count(l) | Derive::OptLen(l)) => {
                truncate(&mut v[l], count_max(fs, l));
                v[i] = V::N(v[l].count() as u64);
            }
            Some(Derive::Bits(l)) => {
                truncate(&mut v[l], (mask(w.unwrap()) / 8).min(1 << 30) as usize);
                let n = v[l].count() as u64;
                v[i] = V::N(if n == 0 { 0 } else { 8 * n - v[i].n() % 8 });
            }
            Some(Derive::Bytes8(l)) => v[i] = V::N(8 * v[l].count() as u64),
            Some(Derive::Sub(sf, l)) => {
                truncate(&mut v[l], 65535);
                let n = v[l].count() as u64;
                v[i].fields_mut()[sf] = V::N(n);
            }
            Some(Derive::Tag(l)) => {
                let V::X(t, _) = v[l] else { panic!() };
                v[i] = V::N(t.into());
            }
            Some(Derive::Prod(c, l)) => {
                let n = v[l].count() as u64;
                let (a, b) = (v[i].n(), v[c].n());
                let (len, cnt) = if n == 0 {
                    if a & 1 == 0 { (a, 0) } else { (0, b) }
                } else {
                    let divs: Vec<u64> = (1..=n).filter(|d| n % d == 0 && *d <= 65535 && n / d <= 65535).collect();
                    let d = divs[(b % divs.len() as u64) as usize];
                    (n / d, d)
                };
                v[i] = V::N(len);
                v[c] = V::N(cnt);
            }
            None => {}
        }
    }
}

fn truncate(v: &mut V, n: usize) {
    match v {
        V::L(l) => l.truncate(n),
        V::B(l) => l.truncate(n),
        V::O(Some(b)) => truncate(b, n),
        _ => {}
    }
}

fn greedy(v: &V) -> bool {
    // the last field of a grid record or axis is the alternative
    matches!(v.fields().last(), Some(V::X(_, f)) if matches!(f.last(), Some(V::B(_))))
}

fn fix(ty: &Ty, v: &mut V, o: Opts) {
    match ty {
        Ty::Rec(n) => fix_fields(&rec(n).fields, v.fields_mut(), o),
        Ty::Vec(t) => {
            if let V::L(l) = v {
                l.iter_mut().for_each(|x| fix(t, x, o));
            }
        }
        Ty::Variant(n) => {
            let V::X(t, f) = v else { panic!() };
            let fs = variant_fields(n, *t);
            if o.safe != Safe::No {
                if let (Some(V::B(p)), "padding") = (f.last_mut(), fs.last().unwrap().name.as_str()) {
                    p.clear();
                }
            }
            fix_fields(fs, f, o);
        }
        _ => {}
    }
}

fn plain_alternative(v: &mut V) {
    let x = v.fields_mut().last_mut().unwrap();
    if let V::X(t, f) = x {
        *x = match (f.len(), *t) {
            (6, _) => V::X(0, vec![f[0].clone(), f[1].clone()]),
            _ => V::X(2, vec![V::N(0), V::N(f.len() as u64), V::L(vec![])]),
        };
    }
}

/// As `fix_fields`, for a whole PDU or record; also avoids the recorded findings as `o.safe` says.
pub fn settle(r: &Rec, v: &mut [V], o: Opts) {
    if o.safe != Safe::No {
        for (f, v) in r.fields.iter().zip(v.iter_mut()) {
            if matches!(f.ty, Ty::OptVec(_)) {
                *v = V::L(vec![]);
            }
        }
    }
    // pass 1 bounds the lists
    fix_fields(&r.fields, v, o);
    if o.safe != Safe::No && r.pdu.is_some() {
        let lists: Vec<usize> = r
            .fields
            .iter()
            .enumerate()
            .filter(|(_, f)| matches!(&f.ty, Ty::Vec(t) if matches!(&**t, Ty::Rec(n) if n == "GridAxisDescriptor" || n == "GridDataRecord")))
            .map(|(i, _)| i)
            .collect();
        let mut may_be_last = o.safe == Safe::Last;
        for i in lists.into_iter().rev() {
            for x in v[i].fields_mut().iter_mut().rev() {
                if !may_be_last && greedy(x) {
                    plain_alternative(x);
                }
                may_be_last = false;
            }
        }
        fix_fields(&r.fields, v, o);
    }
    if o.safe == Safe::Strict && r.pdu.is_none() && (r.name == "GridAxisDescriptor" || r.name == "GridDataRecord") {
        let mut x = V::R(v.to_vec());
        if greedy(&x) {
            plain_alternative(&mut x);
            v.clone_from_slice(x.fields());
            fix_fields(&r.fields, v, o);
        }
    }
}

/// Make some of the dependent fields disagree with what they describe, as a careless caller would.
/// (Lengths computed when writing are left alone.)
pub fn loosen(fs: &[Field], v: &mut [V], x: &mut u64) {
    fn next(x: &mut u64) -> u64 {
        *x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        *x >> 20
    }
    fn off(n: u64, w: u8, x: &mut u64) -> u64 {
        let r = next(x);
        mask(w)
            & match r % 10 {
                0 => n.wrapping_add(1),
                1 => n.wrapping_sub(1),
                2 => 0,
                3 => mask(w),
                4 => next(x),
                5 => n.wrapping_add(next(x) % 9),
                6 => n / 2,
                _ => n,
            }
    }
    fn inside(ty: &Ty, v: &mut V, x: &mut u64) {
        match ty {
            Ty::Rec(n) => loosen(&rec(n).fields, v.fields_mut(), x),
            Ty::Vec(t) => {
                if let V::L(l) = v {
                    l.iter_mut().for_each(|e| inside(t, e, x));
                }
            }
            Ty::Variant(n) => {
                let V::X(t, f) = v else { panic!() };
                loosen(variant_fields(n, *t), f, x);
            }
            _ => {}
        }
    }
    for (f, v) in fs.iter().zip(v.iter_mut()) {
        inside(&f.ty, v, x);
    }
    for (i, f) in fs.iter().enumerate() {
        match f.derive {
            Some(Derive::Count(_) | Derive::Bits(_) | Derive::Bytes8(_)) => {
                v[i] = V::N(off(v[i].n(), int_width(&f.ty).unwrap(), x));
            }
            Some(Derive::Sub(sf, _)) => {
                let n = v[i].fields()[sf].n();
                v[i].fields_mut()[sf] = V::N(off(n, 2, x));
            }
            Some(Derive::Tag(_)) => {
                let r = next(x);
                if let (Ty::Enum(e, _), 0) = (&f.ty, r % 4) {
                    let codes = &schema().enums[e].codes;
                    v[i] = V::N(codes[(r / 4) as usize % codes.len()]);
                }
            }
            Some(Derive::Prod(c, _)) => {
                v[i] = V::N(off(v[i].n(), 2, x));
                v[c] = V::N(off(v[c].n(), 2, x));
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ modes

/// A correlation imposed on otherwise independent fields.
#[derive(Clone, Debug)]
pub enum Mode {
    Free,
    /// every scalar is the low bits of the same number
    Same(u64),
    /// copy one component over another one of the same type
    Equal(usize, usize),
    /// draw from what a few lines of the code mention
    Focus(usize, u64),
    /// the same for lines that were edited
    Edited(usize, u64),
    /// some records nothing but zeros, or ones; all elements of some lists alike
    Plain(u64),
    /// one record is a copy of another in which little is different
    Twin(u64),
}

pub fn mode() -> BoxedStrategy<Mode> {
    let w = select(vec![0u64, 0, u64::MAX, 1, 0xffff, 0xff, 0x8000_0000_8000_8080, 0x7f7f_7f7f_7f7f_7f7f, 0x3f80_0000]);
    let new = edited().len();
    let mut arms = vec![
        (7, Just(Mode::Free).boxed()),
        (1, w.prop_map(Mode::Same).boxed()),
        (1, any::<u64>().prop_map(Mode::Same).boxed()),
        (2, (0usize..4096, 0usize..64).prop_map(|(a, b)| Mode::Equal(a, b)).boxed()),
        (2, any::<u64>().prop_map(Mode::Plain).boxed()),
        (2, any::<u64>().prop_map(Mode::Twin).boxed()),
        (4, (0..windows().len().max(1), any::<u64>()).prop_map(|(a, b)| Mode::Focus(a, b)).boxed()),
    ];
    if new > 0 {
        arms.push((6, (0..new, any::<u64>()).prop_map(|(a, b)| Mode::Edited(a, b)).boxed()));
    }
    Union::new_weighted(arms).boxed()
}

pub fn walk(ty: &Ty, v: &mut V, f: &mut dyn FnMut(&Ty, &mut V)) {
    walk_named("", ty, v, &mut |_, t, v| f(t, v));
}
/// Every component with the name of the field that holds it.
fn walk_named(name: &str, ty: &Ty, v: &mut V, f: &mut dyn FnMut(&str, &Ty, &mut V)) {
    f(name, ty, v);
    match ty {
        Ty::Rec(n) => {
            for (g, x) in rec(n).fields.iter().zip(v.fields_mut()) {
                walk_named(&g.name, &g.ty, x, f);
            }
        }
        Ty::Vec(t) => {
            if let V::L(l) = v {
                l.iter_mut().for_each(|x| walk_named(name, t, x, f));
            }
        }
        Ty::OptVec(t) => {
            for x in v.fields_mut() {
                if let V::O(Some(x)) = x {
                    walk_named(name, t, x, f);
                }
            }
        }
        Ty::Variant(n) => {
            let V::X(t, l) = v else { panic!() };
            for (g, x) in variant_fields(n, *t).iter().zip(l) {
                walk_named(&g.name, &g.ty, x, f);
            }
        }
        _ => {}
    }
}

fn draw(x: &mut u64) -> u64 {
    *x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
    *x >> 24
}

/// Put something the window mentions into `v`.
fn steer(w: &Window, t: &Ty, v: &mut V, x: &mut u64) {
    let r = draw(x);
    let pick = |l: &[u64]| (!l.is_empty()).then(|| l[(r % l.len() as u64) as usize]);
    let near = match (r >> 20) % 8 {
        0 => 1,
        1 => u64::MAX,
        _ => 0u64,
    };
    let int = if !w.more.is_empty() && (r >> 36) % 6 == 0 { pick(&w.more) } else { pick(&w.ints) };
    match t {
        Ty::U(k) | Ty::I(k) | Ty::Flags(k) => {
            if let Some(n) = int {
                *v = V::N(n.wrapping_add(near) & mask(*k));
            }
        }
        Ty::F(k) => {
            let fits: Vec<u64> = w.floats.iter().copied().filter(|n| (n >> 32 == 0) == (*k == 4)).collect();
            if let Some(mut n) = pick(&fits) {
                // also what lies between two of them
                if (r >> 26) % 2 == 0 {
                    let of = |n: u64| if *k == 4 { f64::from(f32::from_bits(n as u32)) } else { f64::from_bits(n) };
                    let (a, b) = (of(n), of(fits[((r >> 10) % fits.len() as u64) as usize]));
                    let x = a + (b - a) * ((r >> 30) % 1000) as f64 / 1000.0;
                    n = if *k == 4 { u64::from((x as f32).to_bits()) } else { x.to_bits() };
                }
                *v = V::N(if (r >> 23) % 4 == 0 { n ^ (1 << (8 * k - 1)) } else { n });
            }
        }
        Ty::Enum(e, _) => {
            let mut fits: Vec<u64> = w.members.iter().filter(|(n, _)| n == e).map(|(_, c)| *c).collect();
            if fits.is_empty() {
                fits = w.ints.iter().copied().filter(|n| schema().enums[e].set.contains(n)).collect();
            }
            if let Some(n) = pick(&fits) {
                *v = V::N(n);
            }
        }
        Ty::Vec(e) => {
            let cap = if (r >> 28) % 8 == 0 { 8000 } else { 1000 };
            let n = int.unwrap_or(u64::MAX).wrapping_add(near);
            if let V::L(l) = v {
                let n = if n > 300 && n < 8192 && (r >> 42) % 3 == 0 { n + 1 + n / 16 } else { n };
                if n > 300 && n < 8192 && cap == 8000 && n * min_size(e) as u64 <= cap {
                    *l = vec![zero(e); n as usize];
                } else if n <= 300 && n * min_size(e) as u64 <= cap && !l.is_empty() {
                    *l = (0..n as usize).map(|i| l[i % l.len()].clone()).collect();
                }
            }
        }
        Ty::Bytes | Ty::Barr(_) if !w.runs.is_empty() && (r >> 40) % 3 == 0 => {
            let run = &w.runs[(r >> 5) as usize % w.runs.len()];
            if let V::B(b) = v {
                let may_grow = matches!(t, Ty::Bytes);
                if may_grow && b.len() < run.len() {
                    b.resize(run.len() + (r >> 16) as usize % 4, (r >> 20) as u8);
                }
                if b.len() >= run.len() {
                    let room = b.len() - run.len();
                    let at = match (r >> 12) % 4 {
                        0 => room,
                        1 => (r >> 22) as usize % (room + 1),
                        _ => 0,
                    };
                    b[at..at + run.len()].copy_from_slice(run);
                    if may_grow && (r >> 14) % 8 == 0 {
                        *b = run.clone();
                    }
                }
            }
        }
        Ty::Bytes | Ty::Barr(_) => {
            let n = int.unwrap_or(u64::MAX).wrapping_add(near);
            if let V::B(b) = v {
                if matches!(t, Ty::Bytes) && (r >> 26) % 2 == 0 {
                    if n <= 300 || n <= 8192 && (r >> 28) % 16 == 0 {
                        let m = b.len().max(1);
                        *b = (0..n as usize).map(|i| b.get(i % m).copied().unwrap_or(7)).collect();
                        if (r >> 32) % 3 == 0 {
                            ends(b, draw(x));
                        }
                    }
                } else if !b.is_empty() && n <= 0xffff_ffff {
                    if (r >> 33) % 8 == 0 {
                        b.fill(n as u8);
                    } else {
                        let o = (r >> 27) as usize % b.len().min(8);
                        b[o] = n as u8;
                    }
                }
            }
        }
        Ty::Marking(_) => {
            if !w.texts.is_empty() {
                *v = V::B(w.texts[(r % w.texts.len() as u64) as usize].clone().into_bytes());
            }
        }
        _ => {}
    }
}

/// Every scalar and octet zero, or `fill`.
fn blank(t: &Ty, v: &mut V, fill: u64) {
    walk(t, v, &mut |t, y| match (t, y) {
        (Ty::U(w) | Ty::I(w) | Ty::Flags(w), y) => *y = V::N(fill & mask(*w)),
        (Ty::F(_), y) => *y = V::N(0),
        (Ty::Enum(e, w), y) if schema().enums[e].set.contains(&(fill & mask(*w))) => *y = V::N(fill & mask(*w)),
        (Ty::Barr(_) | Ty::Bytes, V::B(b)) => b.fill(fill as u8),
        _ => {}
    });
}

/// A small change somewhere, often one that keeps sums, checksums and sets of values as they were.
/// (What depends on other fields has to be settled afterwards.)
pub fn nudge(fs: &[Field], v: &mut [V], seed: u64) {
    let mut x = seed | 1;
    let mut all = |f: &mut dyn FnMut(&Ty, &mut V)| {
        for (g, y) in fs.iter().zip(v.iter_mut()) {
            if g.derive.is_none() {
                walk(&g.ty, y, f);
            }
        }
    };
    let kind = draw(&mut x) % 7;
    if kind == 6 {
        // the order of a list
        let mut n = 0;
        all(&mut |_, y| n += usize::from(matches!(y, V::L(l) if l.len() > 1)));
        let (k, r) = (draw(&mut x) as usize % n.max(1), draw(&mut x) as usize);
        let mut i = 0;
        all(&mut |_, y| {
            if let V::L(l) = y {
                if l.len() > 1 {
                    if i == k {
                        match r % 3 {
                            0 => l.reverse(),
                            1 => l.rotate_left(1),
                            _ => {
                                let (a, b) = ((r >> 8) % l.len(), (r >> 24) % l.len());
                                l.swap(a, b);
                            }
                        }
                    }
                    i += 1;
                }
            }
        });
        return;
    }
    let mut leaves: Vec<(Ty, V)> = vec![];
    all(&mut |t, y| match (t, &*y) {
        _ if leaves.len() >= 2048 => {}
        (Ty::U(_) | Ty::I(_) | Ty::F(_) | Ty::Enum(..), _) => leaves.push((t.clone(), y.clone())),
        (Ty::Bytes | Ty::Barr(_), V::B(b)) if !b.is_empty() => leaves.push((t.clone(), y.clone())),
        _ => {}
    });
    if leaves.is_empty() {
        return;
    }
    let i = draw(&mut x) as usize % leaves.len();
    let r = draw(&mut x);
    let alike: Vec<usize> = (0..leaves.len()).filter(|j| *j != i && leaves[*j].0 == leaves[i].0).collect();
    let other = (!alike.is_empty() && r % 3 != 0 || matches!(leaves[i].1, V::N(_)) && !alike.is_empty())
        .then(|| if (r >> 8) % 2 == 0 { alike[(r >> 9) as usize % alike.len()] } else { *alike.iter().find(|j| **j > i).unwrap_or(&alike[0]) });
    let d = 1 << (draw(&mut x) % 8);
    let bits = draw(&mut x);
    let octets = |b: &mut [u8], kind: u64| {
        let (p, q) = (bits as usize % b.len(), (bits >> 16) as usize % b.len());
        match kind {
            1 => b.swap(p, q),
            2 if p != q => {
                b[p] = b[p].wrapping_add(d as u8);
                b[q] = b[q].wrapping_sub(d as u8);
            }
            3 if p != q => {
                b[p] ^= d as u8;
                b[q] ^= d as u8;
            }
            4 => b[p] = (bits >> 32) as u8,
            _ => b[p] ^= d as u8,
        }
    };
    let (mut first, mut second) = (leaves[i].1.clone(), None);
    match (&leaves[i].0, &mut first, other) {
        (_, V::N(a), Some(j)) if kind == 1 => {
            second = Some((j, V::N(*a)));
            *a = leaves[j].1.n();
        }
        (t @ (Ty::U(_) | Ty::I(_) | Ty::F(_)), V::N(a), Some(j)) if kind == 2 || kind == 3 => {
            let m = mask(int_width(t).unwrap_or(8));
            let b = leaves[j].1.n();
            let (e, f) = if kind == 2 { (a.wrapping_add(d), b.wrapping_sub(d)) } else { (*a ^ d, b ^ d) };
            *a = e & m;
            second = Some((j, V::N(f & m)));
        }
        (Ty::Enum(e, _), V::N(a), _) => {
            let c = &schema().enums[e].codes;
            *a = c[bits as usize % c.len()];
        }
        (t, V::N(a), _) => {
            let w = int_width(t).unwrap_or(1);
            *a = if kind == 4 { bits & mask(w) } else { *a ^ (1 << (bits % (8 * u64::from(w)))) };
        }
        (_, V::B(a), Some(j)) if kind == 5 => {
            if let V::B(b) = &leaves[j].1 {
                if a.len() == b.len() {
                    second = Some((j, V::B(std::mem::replace(a, b.clone()))));
                }
            }
        }
        (_, V::B(a), _) => octets(a, kind),
        _ => {}
    }
    let new: Vec<(usize, V)> = second.into_iter().chain([(i, first)]).collect();
    let mut k = 0;
    all(&mut |t, y| {
        let leaf = match (t, &*y) {
            (Ty::U(_) | Ty::I(_) | Ty::F(_) | Ty::Enum(..), _) => true,
            (Ty::Bytes | Ty::Barr(_), V::B(b)) => !b.is_empty(),
            _ => false,
        };
        if leaf {
            if let Some((_, n)) = new.iter().find(|n| n.0 == k) {
                *y = n.clone();
            }
            k += 1;
        }
    });
}

pub fn apply_mode(fs: &[Field], v: &mut [V], m: &Mode) {
    let mut all = |f: &mut dyn FnMut(&Ty, &mut V)| {
        for (g, x) in fs.iter().zip(v.iter_mut()) {
            walk(&g.ty, x, f);
        }
    };
    match m {
        Mode::Free => {}
        Mode::Same(n) => all(&mut |t, x| match t {
            Ty::Enum(e, w) => {
                let c = n & mask(*w);
                if schema().enums[e].set.contains(&c) {
                    *x = V::N(c);
                }
            }
            Ty::U(w) | Ty::I(w) | Ty::F(w) | Ty::Flags(w) => *x = V::N(n & mask(*w)),
            _ => {}
        }),
        Mode::Focus(w, seed) => {
            let Some(w) = windows().get(*w) else { return };
            let mut x = *seed | 1;
            // how often a field is drawn from the window
            let rate = 2 + seed % 3;
            all(&mut |t, v| {
                if draw(&mut x) % rate == 0 {
                    steer(w, t, v, &mut x);
                }
            });
        }
        Mode::Edited(w, seed) => {
            let Some(w) = edited().get(*w) else { return };
            let mut x = *seed | 1;
            // how often a field is drawn from the window if it is mentioned there, and if not
            let (named, other) = match seed % 4 {
                0 => (1, 12),
                1 => (2, 6),
                2 => (1, 3),
                _ => (3, 3),
            };
            let mut pool: Vec<(Ty, V)> = vec![];
            let mut each = |name: &str, t: &Ty, v: &mut V| {
                let hit = w.names.contains(name);
                if draw(&mut x) % if hit { named } else { other } != 0 {
                    return;
                }
                if !hit {
                    return steer(w, t, v, &mut x);
                }
                let r = draw(&mut x);
                match (r % 8, t) {
                    // as another field that is mentioned
                    (0, _) => {
                        let same: Vec<&V> = pool.iter().filter(|(u, _)| u == t).map(|(_, v)| v).collect();
                        if !same.is_empty() {
                            *v = same[(r >> 8) as usize % same.len()].clone();
                        }
                    }
                    // nothing but zeros or ones
                    (1, _) => blank(t, v, if (r >> 8) % 4 == 0 { u64::MAX } else { 0 }),
                    (2, Ty::Rec(_)) => walk(t, v, &mut |t, v| steer(w, t, v, &mut x)),
                    (2, _) => {}
                    _ => steer(w, t, v, &mut x),
                }
                if pool.len() < 64 {
                    pool.push((t.clone(), v.clone()));
                }
            };
            for (g, x) in fs.iter().zip(v.iter_mut()) {
                walk_named(&g.name, &g.ty, x, &mut each);
            }
        }
        Mode::Plain(seed) => {
            let mut x = *seed | 1;
            let rate = 2 + seed % 4;
            let fill = if seed % 5 == 4 { u64::MAX } else { 0 };
            let twins = (seed >> 8) % 2 == 0;
            let sparse = [0, 0, 2, 4, 6, 7][(seed >> 9) as usize % 6];
            all(&mut |t, v| {
                x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
                let r = x >> 32;
                match (t, v) {
                    (Ty::Rec(_), v) if r % rate == 0 => blank(t, v, fill),
                    (Ty::Vec(_), V::L(l)) if sparse > 1 && r % 7 == 0 => l.clear(),
                    (Ty::Vec(_), V::L(l)) if twins && l.len() > 1 && r % 3 != 0 => {
                        let a = l[0].clone();
                        let keep = r as usize % (2 * l.len());
                        for (i, y) in l.iter_mut().enumerate().skip(1) {
                            if i != keep {
                                *y = a.clone();
                            }
                        }
                    }
                    (Ty::Rec(_) | Ty::Vec(_) | Ty::OptVec(_) | Ty::Variant(_), _) => {}
                    // single fields
                    (t, v) if (r >> 8) % 8 < sparse => blank(t, v, fill),
                    _ => {}
                }
            });
        }
        Mode::Twin(seed) => {
            let mut x = *seed | 1;
            for _ in 0..1 + draw(&mut x) % 3 {
                let mut items: Vec<(String, V)> = vec![];
                all(&mut |t, v| {
                    if let (Ty::Rec(n), true) = (t, items.len() < 512) {
                        items.push((n.clone(), v.clone()));
                    }
                });
                let twice: Vec<usize> = (0..items.len()).filter(|i| items[i + 1..].iter().any(|y| y.0 == items[*i].0)).collect();
                if twice.is_empty() {
                    return;
                }
                let from = twice[draw(&mut x) as usize % twice.len()];
                let (name, mut copy) = items[from].clone();
                nudge(&rec(&name).fields, copy.fields_mut(), draw(&mut x) ^ seed);
                let later: Vec<usize> = (from + 1..items.len()).filter(|i| items[*i].0 == name).collect();
                let r = draw(&mut x) as usize;
                let to = later[if r % 4 == 0 { (r >> 2) % later.len() } else { 0 }];
                let mut i = 0;
                all(&mut |t, v| {
                    if matches!(t, Ty::Rec(_)) {
                        if i == to {
                            *v = copy.clone();
                        }
                        i += 1;
                    }
                });
            }
        }
        Mode::Equal(a, b) => {
            let mut items: Vec<(Ty, V)> = vec![];
            all(&mut |t, x| {
                if matches!(t, Ty::U(_) | Ty::F(_) | Ty::Rec(_) | Ty::I(_)) && items.len() < 4096 {
                    items.push((t.clone(), x.clone()));
                }
            });
            if items.is_empty() {
                return;
            }
            let (ty, val) = items[a % items.len()].clone();
            let n = items.iter().filter(|(t, _)| *t == ty).count();
            let target = b % n;
            let mut i = 0;
            all(&mut |t, x| {
                if *t == ty {
                    if i == target {
                        *x = val.clone();
                    }
                    i += 1;
                }
            });
        }
    }
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PduCase {
    pub version: u8,
    pub exercise: u8,
    pub timestamp: u32,
    pub status: u8,
    /// put into fields that serialization is to overwrite
    pub garbage: u64,
    pub vals: Vec<V>,
}
impl PduCase {
    pub fn hdr(&self) -> Hdr {
        Hdr { version: self.version, exercise: self.exercise, timestamp: self.timestamp, status: self.status }
    }
    pub fn zero(r: &Rec) -> Self {
        Self {
            version: 7,
            exercise: 1,
            timestamp: 0,
            status: 0,
            garbage: 0,
            vals: r.fields.iter().map(|f| zero(&f.ty)).collect(),
        }
    }
}

pub fn zero(ty: &Ty) -> V {
    match ty {
        Ty::Enum(e, _) => {
            let e = &schema().enums[e];
            V::N(if e.set.contains(&0) { 0 } else { e.codes[0] })
        }
        Ty::Barr(n) => V::B(vec![0; *n]),
        Ty::Bytes | Ty::Marking(_) => V::B(vec![]),
        Ty::Vec(_) | Ty::OptVec(_) => V::L(vec![]),
        Ty::OptBytes(_) => V::O(None),
        Ty::Rec(n) => V::R(rec(n).fields.iter().map(|f| zero(&f.ty)).collect()),
        Ty::Variant(n) => V::X(0, variant_fields(n, 0).iter().map(|f| zero(&f.ty)).collect()),
        _ => V::N(0),
    }
}

/// The header fields that a caller sets.
fn header_fields() -> &'static [Field] {
    static F: OnceLock<Vec<Field>> = OnceLock::new();
    F.get_or_init(|| {
        [("protocol_version", Ty::Enum("ProtocolVersion".into(), 1)), ("exercise_id", Ty::U(1)), ("timestamp", Ty::U(4)), ("status_record", Ty::U(1))]
            .into_iter()
            .map(|(name, ty)| Field { name: name.into(), ty, derive: None })
            .collect()
    })
}

pub fn pdu_case(r: &'static Rec, o: Opts) -> BoxedStrategy<PduCase> {
    let ver = enum_("ProtocolVersion", 1, o.wire);
    (fields(&r.fields, o, 0), mode(), ver, int(1), int(4), any::<u8>(), any::<u64>())
        .prop_map(move |(mut vals, m, ver, ex, ts, status, garbage)| {
            apply_mode(&r.fields, &mut vals, &m);
            settle(r, &mut vals, o);
            let mut h = [ver, ex, ts, V::N(status.into())];
            match m {
                Mode::Focus(w, seed) => apply_mode(header_fields(), &mut h, &Mode::Focus(w, seed ^ (seed >> 32))),
                Mode::Edited(w, seed) => apply_mode(header_fields(), &mut h, &Mode::Edited(w, seed ^ (seed >> 32))),
                _ => {}
            }
            PduCase {
                version: h[0].n() as u8,
                exercise: h[1].n() as u8,
                timestamp: h[2].n() as u32,
                status: h[3].n() as u8,
                garbage,
                vals,
            }
        })
        .boxed()
}

pub fn rec_case(r: &'static Rec, o: Opts) -> BoxedStrategy<V> {
    (fields(&r.fields, o, 0), mode())
        .prop_map(move |(mut vals, m)| {
            apply_mode(&r.fields, &mut vals, &m);
            settle(r, &mut vals, o);
            V::R(vals)
        })
        .boxed()
}

/// Build the real PDU for a case.
pub fn build(info: &PduInfo, r: &Rec, c: &PduCase) -> Box<dyn DynPdu> {
    let mut p = (info.new)();
    put(&mut *p, r, c);
    p
}

pub fn put(p: &mut dyn DynPdu, r: &Rec, c: &PduCase) {
    for (i, f) in r.fields.iter().enumerate() {
        match f.derive {
            Some(Derive::OptLen(j)) => p.set(i, &V::N(stale(c.garbage, c.vals[j].count() as u64, int_width(&f.ty).unwrap()))),
            _ => p.set(i, &c.vals[i]),
        }
    }
    put_hdr(p, c);
    if c.garbage >> 58 == 0 {
        p.hdr_mut().length = stale(c.garbage >> 3, enc_pdu(r, &c.hdr(), &c.vals).len() as u64, 2) as u16;
    }
}

/// What a length field happens to hold before it is computed: anything, or something close to the truth.
fn stale(g: u64, actual: u64, w: u8) -> u64 {
    let bits = 8 * u32::from(w);
    (match (g >> 40) % 16 {
        0 => actual,
        1 => actual ^ 1 << (g % u64::from(bits)),
        2 => actual & 0xff,
        3 => actual.swap_bytes() >> (64 - bits),
        4 => actual.wrapping_add(g % 17).wrapping_sub(8),
        5 => actual ^ (g & 0xff) << 8,
        6 => actual ^ g & 0xff,
        7 => actual * (2 + g % 8),
        8 => 0,
        9 => u64::MAX,
        _ => g,
    }) & mask(w)
}

pub fn put_hdr(p: &mut dyn DynPdu, c: &PduCase) {
    let h = p.hdr_mut();
    h.protocol_version = Conv::from_v(&V::N(c.version.into()));
    h.exercise_id = c.exercise;
    h.timestamp = c.timestamp;
    h.status_record = open_dis_rust::common::pdu_header::PduStatusRecord::from_u8(c.status);
    h.length = (c.garbage >> 16) as u16;
}
