//! C01/C02/C07/C09: what `select` does, recorded as events and deduplicated by the signature that
//! the specification exports (spec/Recipe.tla): two numbers with equal signature for a locale are
//! indistinguishable for every rule of that locale (checked by TLC), so one representative per
//! observed (locale, signature, result) goes to TLC.
use crate::util::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::PluralRules;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use unic_langid::LanguageIdentifier;

/// where rules ask for n, C01/C02 speak about numbers that n (a double) holds to the last digit
pub fn exact_n(x: &Num) -> bool {
    let (i, f) = x.text.split_once('.').unwrap_or((&x.text, ""));
    let f = f.trim_end_matches('0');
    let i = i.trim_start_matches('0');
    let f = if i.is_empty() { f.trim_start_matches('0') } else { f };
    f.is_empty() || i.len() + f.len() <= 15
}

/// i v w f t of a numeral, computed from its digits
#[derive(Clone, Debug)]
pub struct Num {
    pub text: String,
    pub val: [u64; 5],
}
pub fn num(int: &str, frac: &str) -> Option<Num> {
    let i: u64 = int.parse().ok()?;
    let trim = frac.trim_end_matches('0');
    let f: u64 = if frac.is_empty() { 0 } else { frac.parse().ok()? };
    let t: u64 = if trim.is_empty() { 0 } else { trim.parse().ok()? };
    let text = if frac.is_empty() {
        int.to_string()
    } else {
        format!("{}.{}", int, frac)
    };
    Some(Num {
        text,
        val: [i, frac.len() as u64, trim.len() as u64, f, t],
    })
}

pub struct Expr {
    o: usize,
    m: u64,
    cuts: Vec<u64>,
}
pub struct LocaleRules {
    pub loc: String,
    pub group: usize,
    pub pr: Pr,
}
pub struct World {
    pub groups: Vec<Vec<Expr>>,
    /// do the rules of the group ask for n?
    pub asks_n: Vec<bool>,
    pub locs: Vec<LocaleRules>,
}

pub fn load_world(recipe: &Value, ty: &str) -> (World, Vec<String>) {
    let mut groups: Vec<Vec<Expr>> = vec![];
    let mut asks_n: Vec<bool> = vec![];
    let mut keys: HashMap<String, usize> = HashMap::new();
    let mut locs = vec![];
    let mut missing = vec![];
    let mut names: Vec<&String> = recipe[ty].as_object().unwrap().keys().collect();
    names.sort();
    for name in names {
        let r = &recipe[ty][name];
        let key = r.to_string();
        let g = *keys.entry(key).or_insert_with(|| {
            let es = r
                .as_array()
                .unwrap()
                .iter()
                .filter(|e| e["o"] != "n")
                .map(|e| Expr {
                    o: match e["o"].as_str().unwrap() {
                        "i" => 0,
                        "v" => 1,
                        "w" => 2,
                        "f" => 3,
                        _ => 4,
                    },
                    m: e["m"].as_str().unwrap().parse().unwrap(),
                    cuts: e["c"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|c| c.as_str().unwrap().parse().unwrap())
                        .collect(),
                })
                .collect();
            groups.push(es);
            asks_n.push(r.as_array().unwrap().iter().any(|e| e["o"] == "n"));
            groups.len() - 1
        });
        let id: LanguageIdentifier = name.parse().unwrap();
        match catch(|| PluralRules::create(id.clone(), rule_type(ty))) {
            Ok(Ok(pr)) => locs.push(LocaleRules {
                loc: name.clone(),
                group: g,
                pr: Pr::new(ty, id, pr),
            }),
            _ => missing.push(name.clone()),
        }
    }
    (World { groups, asks_n, locs }, missing)
}

pub fn signature(es: &[Expr], val: &[u64; 5]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for e in es {
        let x = if e.m == 0 { val[e.o] } else { val[e.o] % e.m };
        let k = e.cuts.iter().filter(|&&c| c <= x).count() as u64;
        h = (h ^ k).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub fn fracs(maxlen: usize) -> Vec<String> {
    let mut v = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..maxlen {
        let mut nxt = vec![];
        for s in &cur {
            for d in 0..10 {
                nxt.push(format!("{}{}", s, d));
            }
        }
        v.extend(nxt.iter().cloned());
        cur = nxt;
    }
    v
}

/// the numbers to select with: (source kind, number)
fn numbers(rng: &mut Rng, dict: &Dict) -> Vec<Num> {
    let mut v = vec![];
    let dn = dict_numbers(dict);
    let th = thorough();
    for i in 0..(if th { 1300u64 } else { 330 }) {
        for f in fracs(if th { 3 } else { 2 }) {
            v.push(num(&i.to_string(), &f).unwrap());
        }
    }
    for i in (0..=30).chain([99, 100, 101, 102, 103, 110, 111, 112, 119, 120, 1000, 1001, 100000, 1000000]) {
        for f in fracs(3) {
            v.push(num(&i.to_string(), &f).unwrap());
        }
    }
    // just above and below integers
    for i in (0..=24).chain([99, 100, 101, 1000, 999999, 1000000, 1000001]) {
        for k in 0..18 {
            v.extend(num(&i.to_string(), &format!("{}1", "0".repeat(k))));
            v.extend(num(&i.to_string(), &format!("{}5", "0".repeat(k))));
            v.extend(num(&i.to_string(), &"9".repeat(k + 1)));
            v.extend(num(&i.to_string(), &"0".repeat(k + 1)));
        }
    }
    // many visible zeros, many leading zeros
    for i in (0..=25).chain([100, 101, 111, 1000, 1000000]) {
        for k in (19..=66).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513]) {
            let z = "0".repeat(k);
            v.extend(num(&i.to_string(), &z));
            if k <= 34 {
                v.extend(num(&format!("{}{}", z, i), ""));
                v.extend(num(&format!("{}{}", z, i), "10"));
                v.extend(num(&i.to_string(), &format!("1{}", &z[k - 18..])));
            }
        }
    }
    // nearly nothing
    for k in (18..60).chain([75, 100, 150, 200, 250, 300]) {
        for d in ["1", "5", "10", "25"] {
            v.extend(num("0", &format!("{}{}", "0".repeat(k), d)));
        }
    }
    // a counter of 16 bits does not hold these
    for k in [65535usize, 65536, 65537] {
        let z = "0".repeat(k);
        for i in (0..=5).chain([10, 11, 20, 21]) {
            v.extend(num(&i.to_string(), &z));
        }
        v.extend(num(&format!("{}1", z), ""));
    }
    // around every power of two and ten, and numbers that are small once their high bits are lost
    let powers = (21..64).map(|k| 1u64 << k).chain((6..20).map(|k| 10u64.pow(k)));
    for p in powers.chain([0]) {
        for d in 0..=230u64 {
            for x in [p.wrapping_add(d), p.wrapping_sub(d)] {
                v.extend(num(&x.to_string(), ""));
            }
        }
    }
    for _ in 0..3000 {
        let x = (rng.next() >> rng.below(40)) & !0xffff_ffff | rng.below(130);
        v.extend(num(&x.to_string(), ""));
        v.extend(num(&(x >> 1).to_string(), ""));
        // many digits before round thousands
        let x = (rng.next() >> rng.below(8)) / 100_000 * 100_000 + rng.below(100) * 1000;
        v.extend(num(&x.to_string(), ""));
    }
    // dictionary and edge values, alone, with fractions, and as fractions
    let mut special: Vec<u64> = dn;
    special.extend(edge_numbers());
    for n in &special {
        let s = n.to_string();
        v.extend(num(&s, ""));
        for f in ["0", "00", "1", "5", "10", "01", "11", "20", "001", "000000", "12345",
            "000001", "00000001", "0000000001", "00000000001", "000000000001", "99999", "9999999", "999999999", "99999999999", "999999999999"] {
            v.extend(num(&s, f));
        }
        for i in (0..=25).chain([30, 40, 50, 60, 70, 80, 90, 100, 101, 110, 111, 120, 1000, 1000000]) {
            let i = &i.to_string();
            v.extend(num(i, &s));
            v.extend(num(i, &format!("0{}", s)));
            v.extend(num(i, &format!("{}0", s)));
        }
    }
    let rounds = if th { 400_000 } else { 60_000 };
    for _ in 0..rounds {
        let il = 1 + rng.below(19) as usize;
        let mut int = rng.digits(il);
        if rng.below(3) == 0 {
            // values near multiples of powers of ten
            let k = rng.below(7) as usize;
            let bl = 1 + rng.below(12) as usize;
            let base = rng.digits(bl);
            int = format!("{}{}", base, "0".repeat(k));
            if let Ok(x) = int.parse::<u64>() {
                int = x.wrapping_add(rng.below(120)).to_string();
            }
        }
        if rng.below(8) != 0 {
            int = int.trim_start_matches('0').to_string();
            if int.is_empty() {
                int = "0".into();
            }
        }
        let frac = match rng.below(4) {
            0 => String::new(),
            1 => {
                let l = 1 + rng.below(3) as usize;
                rng.digits(l)
            }
            2 => {
                let l = 1 + rng.below(18) as usize;
                rng.digits(l)
            }
            _ => {
                let a = rng.below(6) as usize;
                let b = rng.below(4) as usize;
                let c = rng.below(6) as usize;
                format!("{}{}{}", "0".repeat(a), rng.digits(b), "0".repeat(c))
            }
        };
        v.extend(num(&int, &frac));
    }
    v
}

/// numbers for every argument type: the first ones go to every locale, the rest to some of each rule set
fn carried_numbers(rng: &mut Rng, dict: &Dict) -> (Vec<Num>, usize) {
    let mut v = vec![];
    let mut special = dict_numbers(dict);
    special.extend(edge_numbers());
    special.extend(0..=130);
    special.extend([1000, 1001, 1002, 10000, 100000, 1000000, 2000000]);
    special.sort();
    special.dedup();
    for n in &special {
        v.extend(num(&n.to_string(), ""));
    }
    for i in 0..=25u64 {
        for f in fracs(1) {
            v.extend(num(&i.to_string(), &f));
        }
    }
    let all = v.len();
    for i in 131..3000u64 {
        v.extend(num(&i.to_string(), ""));
    }
    for i in 0..=130u64 {
        for f in fracs(2) {
            v.extend(num(&i.to_string(), &f));
        }
    }
    for n in &special {
        v.extend(num(&n.to_string(), "5"));
        v.extend(num("1", &n.to_string()));
        v.extend(num("0", &n.to_string()));
    }
    for _ in 0..(if thorough() { 60_000 } else { 6_000 }) {
        let il = 1 + rng.below(19) as usize;
        let int = rng.digits(il).parse::<u64>().unwrap().to_string();
        let fl = if rng.below(2) == 0 { 0 } else { 1 + rng.below(9) as usize };
        v.extend(num(&int, &rng.digits(fl)));
    }
    (v, all)
}

const CODES: [&str; 8] = ["zero", "one", "two", "few", "many", "other", "err", "panic"];
fn code(r: Result<Result<&'static str, ()>, ()>) -> usize {
    match r {
        Ok(Ok(c)) => CODES.iter().position(|x| *x == c).unwrap(),
        Ok(Err(())) => 6,
        Err(()) => 7,
    }
}
fn sel_text(pr: &PluralRules, t: &str) -> usize {
    code(catch(|| pr.select(t).map(|c| cat_name(&c)).map_err(|_| ())))
}
fn sel_u64(pr: &PluralRules, x: u64) -> usize {
    code(catch(|| pr.select(x).map(|c| cat_name(&c)).map_err(|_| ())))
}

struct Seen {
    idx: HashMap<u64, usize>,
    bits: Vec<Vec<u8>>, // [locale in group][sig idx]
}

pub fn explore() {
    let ty = arg_req("type");
    let recipe: Value = serde_json::from_str(&std::fs::read_to_string(arg_req("recipe")).unwrap()).unwrap();
    let mut out = Out::create(&arg_req("out"));
    let dict = dictionary();
    // a locale that cannot be created is no matter of C01/C02 (see C08)
    let (w, missing) = load_world(&recipe, &ty);
    let mut rng = Rng::new(seed());
    let nums = numbers(&mut rng, &dict);
    // numbers that go through every argument type
    let (carriers, all_locales) = carried_numbers(&mut rng, &dict);
    let all_locales = all_locales.min(carriers.len());
    let max_int: u64 = if thorough() { 400_000_000 } else { 2_400_000 };
    let all_seen: Mutex<HashSet<(String, u64, usize)>> = Mutex::new(HashSet::new());
    let out_m = Mutex::new(&mut out);
    let next = AtomicUsize::new(0);
    let evals = AtomicUsize::new(0);
    let sigs = AtomicUsize::new(0);
    // integer range is split in slices so that threads share the work of the groups
    let slices = 24u64;
    // where the code is slow the rest of the integers is left out, never the chosen numbers
    let start = std::time::Instant::now();
    let limit = std::time::Duration::from_secs(if thorough() { 3600 } else { 240 });
    let skipped = AtomicUsize::new(0);
    let jobs: Vec<(usize, u64)> = (0..w.groups.len()).flat_map(|g| (0..=slices).map(move |s| (g, s))).collect();
    let mut jobs = jobs;
    jobs.sort_by_key(|&(_, s)| if s == slices { 0 } else { s + 1 });
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j >= jobs.len() {
                    break;
                }
                let (g, s) = jobs[j];
                if s < slices && s > 0 && start.elapsed() > limit {
                    skipped.fetch_add(1, Ordering::Relaxed);
                    continue;
                }
                let locs: Vec<&LocaleRules> = w.locs.iter().filter(|l| l.group == g).collect();
                let es = &w.groups[g];
                let mut seen = Seen {
                    idx: HashMap::new(),
                    bits: vec![vec![]; locs.len()],
                };
                let mut evs = vec![];
                let mut n = 0usize;
                let mut carried = 0usize;
                let mut look = |seen: &mut Seen, val: &[u64; 5], f: &dyn Fn(&PluralRules) -> usize, text: &dyn Fn() -> String, src: &str| {
                    let sg = signature(es, val);
                    let k = seen.idx.len();
                    let k = *seen.idx.entry(sg).or_insert(k);
                    for (li, l) in locs.iter().enumerate() {
                        let r = l.pr.with(|p| f(p));
                        n += 1;
                        let b = &mut seen.bits[li];
                        if b.len() <= k {
                            b.resize(k + 1, 0);
                        }
                        if b[k] & (1 << r) == 0 {
                            b[k] |= 1 << r;
                            if all_seen.lock().unwrap().insert((l.loc.clone(), sg, r)) {
                                evs.push(json!({"ty": ty, "loc": l.loc, "x": text(), "r": CODES[r], "src": src}));
                            }
                        }
                    }
                };
                if s < slices {
                    let a = max_int / slices * s;
                    let b = max_int / slices * (s + 1);
                    for i in a..b {
                        look(&mut seen, &[i, 0, 0, 0, 0], &|p| sel_u64(p, i), &|| i.to_string(), "u64");
                    }
                } else {
                    for x in &nums {
                        if w.asks_n[g] && !exact_n(x) {
                            continue;
                        }
                        look(&mut seen, &x.val, &|p| sel_text(p, &x.text), &|| x.text.clone(), "str");
                        if x.val[1] == 0 {
                            look(&mut seen, &x.val, &|p| sel_u64(p, x.val[0]), &|| x.text.clone(), "u64");
                        }
                    }
                }
                drop(look);
                if s == slices {
                    // the other argument types, and negative numbers; one locale of the group at a time
                    for (k, x) in carriers.iter().enumerate() {
                        if w.asks_n[g] && !exact_n(x) {
                            continue;
                        }
                        for (li, l) in locs.iter().enumerate() {
                            if locs.len() > 4 && k >= all_locales && (k + li) % locs.len() >= 4 {
                                continue;
                            }
                            let sg = signature(es, &x.val);
                            for (src, r) in l.pr.with(|p| all_types(p, x)) {
                                carried += 1;
                                if all_seen.lock().unwrap().insert((l.loc.clone(), sg, r)) {
                                    evs.push(json!({"ty": ty, "loc": l.loc, "x": x.text, "r": CODES[r], "src": src}));
                                }
                            }
                        }
                    }
                }
                let n = n + carried;
                evals.fetch_add(n, Ordering::Relaxed);
                sigs.fetch_add(seen.idx.len(), Ordering::Relaxed);
                let mut o = out_m.lock().unwrap();
                for e in evs {
                    o.ev(&e);
                }
            });
        }
    });
    out.flush();
    println!(
        "STATS {}",
        json!({"evaluations": evals.load(Ordering::Relaxed), "events": out.n, "numbers": nums.len(), "ints": max_int, "slices_left_out": skipped.load(Ordering::Relaxed),
               "locales": w.locs.len(), "not_offered": missing, "rulesets": w.groups.len(), "dictionary": dict.ints.len()})
    );
}

/// the same number in every argument type that carries it, with both signs
fn all_types(p: &PluralRules, x: &Num) -> Vec<(&'static str, usize)> {
    let mut res: Vec<(&'static str, usize)> = vec![];
    res.push(("str", sel_text(p, &x.text)));
    res.push(("String", code(catch(|| p.select(x.text.clone()).map(|c| cat_name(&c)).map_err(|_| ())))));
    let neg = format!("-{}", x.text);
    res.push(("-str", sel_text(p, &neg)));
    res.push(("-String", code(catch(|| p.select(neg.clone()).map(|c| cat_name(&c)).map_err(|_| ())))));
    if let Ok(Ok(o)) = catch(|| PluralOperands::try_from(x.text.as_str())) {
        res.push(("operands", code(catch(move || p.select(o).map(|c| cat_name(&c)).map_err(|_| ())))));
    }
    if x.val[1] == 0 {
        let i = x.val[0];
        macro_rules! ty {
            ($t:ident) => {
                if let Ok(y) = <$t>::try_from(i) {
                    res.push((stringify!($t), code(catch(|| p.select(y).map(|c| cat_name(&c)).map_err(|_| ())))));
                }
            };
        }
        macro_rules! sty {
            ($t:ident, $n:expr) => {
                ty!($t);
                if let Ok(y) = <$t>::try_from(-(i as i128)) {
                    if y != <$t>::MIN || std::mem::size_of::<$t>() < 8 {
                        res.push(($n, code(catch(|| p.select(y).map(|c| cat_name(&c)).map_err(|_| ())))));
                    }
                }
            };
        }
        ty!(u8);
        ty!(u16);
        ty!(u32);
        ty!(u64);
        ty!(usize);
        sty!(i8, "-i8");
        sty!(i16, "-i16");
        sty!(i32, "-i32");
        sty!(i64, "-i64");
        sty!(isize, "-isize");
    }
    if let Ok(d) = x.text.parse::<f64>() {
        if d.to_string() == x.text {
            res.push(("f64", code(catch(|| p.select(d).map(|c| cat_name(&c)).map_err(|_| ())))));
            res.push(("-f64", code(catch(|| p.select(-d).map(|c| cat_name(&c)).map_err(|_| ())))));
        }
    }
    if let Ok(d) = x.text.parse::<f32>() {
        if d.to_string() == x.text {
            res.push(("f32", code(catch(|| p.select(d).map(|c| cat_name(&c)).map_err(|_| ())))));
            res.push(("-f32", code(catch(|| p.select(-d).map(|c| cat_name(&c)).map_err(|_| ())))));
        }
    }
    res
}

/// C07: one number through every argument type that can carry it
pub fn reps() {
    let recipe: Value = serde_json::from_str(&std::fs::read_to_string(arg_req("recipe")).unwrap()).unwrap();
    let mut out = Out::create(&arg_req("out"));
    let dict = dictionary();
    let mut evals = 0u64;
    let mut rng = Rng::new(seed() ^ 77);
    let mut nums = vec![];
    for i in 0..=260u64 {
        nums.extend(num(&i.to_string(), ""));
    }
    for i in (0..=25).chain([100, 101, 111, 1000, 1000000]) {
        for f in fracs(2) {
            nums.extend(num(&i.to_string(), &f));
        }
    }
    let mut special = dict_numbers(&dict);
    special.extend(edge_numbers());
    for n in &special {
        nums.extend(num(&n.to_string(), ""));
        nums.extend(num(&n.to_string(), "5"));
        nums.extend(num("1", &n.to_string()));
    }
    for _ in 0..(if thorough() { 60_000 } else { 4_000 }) {
        let il = 1 + rng.below(19) as usize;
        let int = rng.digits(il).parse::<u64>().unwrap().to_string();
        let fl = if rng.below(2) == 0 { 0 } else { 1 + rng.below(9) as usize };
        nums.extend(num(&int, &rng.digits(fl)));
    }
    for ty in ["cardinal", "ordinal"] {
        let (w, _) = load_world(&recipe, ty);
        let mut seen: HashSet<(usize, u64, u64)> = HashSet::new();
        for x in &nums {
            for (li, l) in w.locs.iter().enumerate() {
                let res = l.pr.with(|p| all_types(p, x));
                evals += res.len() as u64;
                let mut h = 0u64;
                for r in &res {
                    h = h.wrapping_mul(31).wrapping_add(r.1 as u64 + 1);
                    h = h.wrapping_mul(31).wrapping_add(r.0.len() as u64);
                }
                if seen.insert((li, signature(&w.groups[l.group], &x.val), h)) {
                    let rs: Vec<Value> = res.iter().map(|r| json!([r.0, CODES[r.1]])).collect();
                    out.ev(&json!({"ty": ty, "loc": l.loc, "x": x.text, "rs": rs}));
                }
            }
        }
    }
    out.flush();
    println!("STATS {}", json!({"evaluations": evals, "events": out.n, "numbers": nums.len()}));
}
