//! C03-C06: conversions to plural operands.  A fast mirror of the specification screens the bulk of
//! the calls; everything it does not confirm, and a sample of what it does, is recorded for TLC.
use crate::util::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralRuleType, PluralRules};
use serde_json::{json, Map, Value};
use std::collections::HashSet;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

type Conv = Result<Result<PluralOperands, ()>, ()>;

fn conv_str(s: &str) -> Conv {
    doing(s);
    catch(|| PluralOperands::try_from(s).map_err(|_| ()))
}
fn conv_string(s: &str) -> Conv {
    doing(s);
    let t = s.to_string();
    catch(|| PluralOperands::try_from(t).map_err(|_| ()))
}

fn event(k: &str, x: &str, r: &Conv) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("k".into(), k.into());
    m.insert("x".into(), x.into());
    m.insert("sel".into(), 9.into());
    m.insert("min".into(), 0.into());
    m.insert("fin".into(), 1.into());
    ops_fields(&mut m, r);
    m
}

/// keeps every unconfirmed event (up to a limit) and a sample of the confirmed ones
struct Sink {
    out: Mutex<Out>,
    suspects: AtomicU64,
    evals: AtomicU64,
    long: AtomicU64,
    kept: Mutex<HashSet<String>>,
}
impl Sink {
    fn new() -> Sink {
        Sink {
            out: Mutex::new(Out::create(&arg_req("out"))),
            suspects: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            long: AtomicU64::new(0),
            kept: Mutex::new(HashSet::new()),
        }
    }
    fn put(&self, good: bool, keep: bool, ev: &dyn Fn() -> Map<String, Value>) {
        if !good {
            if self.suspects.fetch_add(1, Ordering::Relaxed) >= 4000 {
                return;
            }
        } else if !keep {
            return;
        }
        let v = Value::Object(ev());
        // long texts are costly for TLC: some of them will do
        if v["x"].as_str().map_or(0, |x| x.len()) > 2000 && self.long.fetch_add(1, Ordering::Relaxed) >= 8 {
            return;
        }
        if self.kept.lock().unwrap().insert(v.to_string()) {
            self.out.lock().unwrap().ev(&v);
        }
    }
    fn done(self, extra: Value) {
        let mut o = self.out.into_inner().unwrap();
        o.flush();
        println!(
            "STATS {}",
            json!({"evaluations": self.evals.load(Ordering::Relaxed), "events": o.n,
                   "suspects": self.suspects.load(Ordering::Relaxed), "extra": extra})
        );
    }
}

/// mirror: operands of a plain numeral; None when they do not fit
pub fn mirror(text: &str) -> Option<PluralOperands> {
    let s = text.strip_prefix('-').unwrap_or(text);
    let (int, frac) = s.split_once('.').unwrap_or((s, ""));
    let u = |d: &str| -> Option<u64> {
        let mut x: u64 = 0;
        for c in d.bytes() {
            x = x.checked_mul(10)?.checked_add((c - b'0') as u64)?;
        }
        Some(x)
    };
    let trim = frac.trim_end_matches('0');
    Some(PluralOperands {
        n: s.parse().ok()?,
        i: u(int)?,
        v: frac.len(),
        w: trim.len(),
        f: u(frac)?,
        t: u(trim)?,
    })
}

fn plain_inputs(rng: &mut Rng, dict: &Dict) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let th = thorough();
    let mut ints: Vec<String> = (0..=130u64).map(|x| x.to_string()).collect();
    ints.extend(edge_numbers().iter().map(|x| x.to_string()));
    ints.extend(dict_numbers(dict).iter().map(|x| x.to_string()));
    for s in [
        "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617",
        "18446744073709551620", "18446744073709551700", "184467440737095516150", "99999999999999999999",
        "100000000000000000000", "123456789012345678901234567890", "9007199254740993", "9007199254740995",
        "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709549568",
        "18446744073709550591", "18446744073709550592", "18446744073709551000", "4294967295", "4294967296",
    ] {
        ints.push(s.to_string());
    }
    let mut fr: Vec<String> = vec!["".into()];
    fr.extend(crate::sel::fracs(2));
    for s in ["000", "001", "100", "010", "999", "0000000000", "00000000000000000000", "000000000000000000000000000001",
        "10000000000000000000", "100000000000000000000", "18446744073709551615", "18446744073709551616",
        "184467440737095516150", "184467440737095516160", "99999999999999999999", "9007199254740993", "0203000", "50", "500", "123456789",
        "1234567890123456789012"] {
        fr.push(s.to_string());
    }
    for i in &ints {
        for f in fr.iter().step_by(if i.len() < 3 || th { 1 } else { 3 }) {
            v.push(if f.is_empty() { i.clone() } else { format!("{}.{}", i, f) });
        }
        v.push(i.clone());
        v.push(format!("0{}", i));
        v.push(format!("000000000000000000000000{}", i));
        v.push(format!("1.{}", i));
        v.push(format!("1.0{}", i));
        v.push(format!("0.{}0", i));
    }
    // lengths around what 8 and 16 bits count
    for k in (1..330).chain([510, 511, 512, 513, 766, 767, 768, 769, 770, 771, 800, 1023, 1024, 1025, 1100, 4095, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 131072]) {
        v.push("9".repeat(k));
        v.push(format!("1{}", "0".repeat(k)));
        v.push(format!("0.{}1", "0".repeat(k)));
        v.push(format!("1.{}", "0".repeat(k)));
        v.push(format!("{}1", "0".repeat(k)));
        v.push(format!("{}.5", "0".repeat(k)));
    }
    for _ in 0..(if th { 3_000_000 } else { 250_000 }) {
        let il = 1 + if rng.below(6) == 0 { rng.below(28) } else { rng.below(20) } as usize;
        let fl = match rng.below(6) {
            0 => 0,
            1 => 1 + rng.below(30),
            _ => 1 + rng.below(10),
        } as usize;
        let mut s = rng.digits(il);
        if fl > 0 {
            s.push('.');
            match rng.below(3) {
                0 => s.push_str(&rng.digits(fl)),
                1 => {
                    let z = rng.below(fl as u64 + 1) as usize;
                    s.push_str(&rng.digits(fl - z));
                    s.push_str(&"0".repeat(z));
                }
                _ => {
                    let z = rng.below(fl as u64 + 1) as usize;
                    s.push_str(&"0".repeat(z));
                    s.push_str(&rng.digits(fl - z));
                }
            }
        }
        v.push(s);
    }
    v
}

/// C03
pub fn text() {
    let sink = Sink::new();
    let dict = dictionary();
    let mut rng = Rng::new(seed() ^ 0x303);
    start_watchdog(20);
    let inputs = plain_inputs(&mut rng, &dict);
    let keep_every = (inputs.len() * 4 / 6000).max(1);
    let mut k = 0usize;
    for s in &inputs {
        for neg in [false, true] {
            let t = if neg { format!("-{}", s) } else { s.clone() };
            let want = mirror(&t);
            for st in [false, true] {
                let r = if st { conv_string(&t) } else { conv_str(&t) };
                sink.evals.fetch_add(1, Ordering::Relaxed);
                k += 1;
                let good = match (&r, &want) {
                    (Ok(Ok(a)), Some(b)) => a == b,
                    (Ok(Err(())), None) => true,
                    _ => false,
                };
                // long numerals are costly for TLC and regular
                let keep = k % keep_every == 0 && t.len() < 80 || t.len() <= 3 && !st || k % (keep_every * 20) == 0 && t.len() < 400;
                sink.put(good, keep, &|| {
                    let mut m = event("text", &t, &r);
                    m.insert("src".into(), (if st { "String" } else { "str" }).into());
                    m
                });
            }
        }
    }
    stop_watch();
    sink.done(json!({"numerals": inputs.len()}));
}

/// C04
pub fn ints() {
    let sink = Sink::new();
    let dict = dictionary();
    let th = thorough();
    let good = |r: &Conv, abs: u64, min: bool| match r {
        Ok(Ok(o)) => o.n == abs as f64 && o.i == abs && o.v == 0 && o.w == 0 && o.f == 0 && o.t == 0,
        Ok(Err(())) => min,
        Err(()) => false,
    };
    macro_rules! one {
        ($t:ident, $x:expr, $keep:expr) => {{
            let x: $t = $x;
            let r: Conv = catch(|| PluralOperands::try_from(x).map_err(|_| ()));
            let abs = (x as i128).unsigned_abs() as u64;
            let min = std::mem::size_of::<$t>() == 8 && <$t>::MIN != 0 && x == <$t>::MIN;
            sink.put(good(&r, abs, min), $keep, &|| {
                let mut m = event("int", &abs.to_string(), &r);
                m.insert("min".into(), (min as i32).into());
                m.insert("src".into(), stringify!($t).into());
                m.insert("arg".into(), x.to_string().into());
                m
            });
        }};
    }
    macro_rules! all {
        ($t:ident, $step:expr, $keep:expr) => {{
            let mut n = 0u64;
            let mut x = <$t>::MIN as i128;
            while x <= <$t>::MAX as i128 {
                one!($t, x as $t, n % $keep == 0);
                n += 1;
                x += $step;
            }
            sink.evals.fetch_add(n, Ordering::Relaxed);
        }};
    }
    all!(u8, 1, 1);
    all!(i8, 1, 1);
    all!(u16, 1, 97);
    all!(i16, 1, 97);
    // 32 bit: threads over slices
    let slices = 64i128;
    let next = AtomicU64::new(0);
    let step = if th { 1 } else { 37 };
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let s = next.fetch_add(1, Ordering::Relaxed) as i128;
                if s >= slices {
                    break;
                }
                let width = (1i128 << 32) / slices;
                let mut n = 0u64;
                let mut x = s * width;
                while x < (s + 1) * width {
                    let keep = n == 0;
                    one!(u32, x as u32, keep);
                    one!(i32, x as u32 as i32, keep);
                    n += 2;
                    x += step;
                }
                sink.evals.fetch_add(n, Ordering::Relaxed);
            });
        }
    });
    let mut special: Vec<u64> = edge_numbers();
    special.extend(dict_numbers(&dict));
    let mut rng = Rng::new(seed() ^ 0x404);
    let rounds: u64 = if th { 400_000_000 } else { 4_000_000 };
    let ns = special.len() as u64;
    for k in 0..ns + rounds {
        let (x, keep) = if k < ns {
            (special[k as usize], k % 4 == seed() % 4)
        } else {
            let b = rng.below(64) as u32;
            (rng.next() >> b, k % (rounds / 400) == 0)
        };
        one!(u64, x, keep);
        one!(usize, x as usize, keep);
        one!(i64, x as i64, keep);
        one!(i64, (x as i64).wrapping_neg(), keep);
        one!(isize, x as isize, keep);
        one!(isize, (x as isize).wrapping_neg(), keep);
        if k < ns {
            one!(u32, x as u32, false);
            one!(i32, x as i32, false);
            one!(i32, (x as i32).wrapping_neg(), false);
            one!(u16, x as u16, false);
            one!(i16, (x as i16).wrapping_neg(), false);
        }
    }
    one!(i64, i64::MIN, true);
    one!(isize, isize::MIN, true);
    one!(i32, i32::MIN, true);
    one!(i64, i64::MAX, true);
    one!(u64, u64::MAX, true);
    sink.evals.fetch_add((ns + rounds) * 6, Ordering::Relaxed);
    sink.done(json!({"exhaustive": if th { "8, 16 and 32 bit types" } else { "8 and 16 bit types" }}));
}

fn f64_event(x: f64, r: &Conv, src: &str) -> Map<String, Value> {
    let a = x.abs();
    let mut m = event("float", "0", r);
    m.insert("src".into(), src.into());
    m.insert("arg".into(), format!("{:e}", x).into());
    m.insert("fin".into(), (x.is_finite() as i32).into());
    let (lo, c, hi) = if x.is_finite() { neighbours64(a) } else { ("0".into(), "0".into(), "0".into()) };
    m.insert("xl".into(), lo.into());
    m.insert("x".into(), c.into());
    m.insert("xh".into(), hi.into());
    m
}
fn f32_event(x: f32, r: &Conv) -> Map<String, Value> {
    let a = x.abs();
    let mut m = event("float", "0", r);
    m.insert("src".into(), "f32".into());
    m.insert("arg".into(), format!("{:e}", x).into());
    m.insert("fin".into(), (x.is_finite() as i32).into());
    let (lo, c, hi) = if x.is_finite() { neighbours32(a) } else { ("0".into(), "0".into(), "0".into()) };
    m.insert("xl".into(), lo.into());
    m.insert("x".into(), c.into());
    m.insert("xh".into(), hi.into());
    m
}

/// C05
pub fn floats() {
    let start = std::time::Instant::now();
    let sink = Sink::new();
    let dict = dictionary();
    let th = thorough();
    let two64 = 18446744073709551616.0f64;
    let c64 = |x: f64, keep: bool| {
        let r: Conv = catch(|| PluralOperands::try_from(x).map_err(|_| ()));
        let a = x.abs();
        let good = if !x.is_finite() {
            matches!(r, Ok(Err(())))
        } else if a >= two64 {
            matches!(r, Ok(Err(()))) // anything else is for TLC to judge
        } else {
            matches!((&r, mirror(&a.to_string())), (Ok(Ok(o)), Some(ref m)) if o == m)
        };
        sink.put(good, keep, &|| f64_event(x, &r, "f64"));
    };
    let c32 = |x: f32, keep: bool| {
        let r: Conv = catch(|| PluralOperands::try_from(x).map_err(|_| ()));
        let a = x.abs();
        let good = if !x.is_finite() {
            matches!(r, Ok(Err(())))
        } else if a as f64 >= two64 {
            matches!(r, Ok(Err(()))) // anything else is for TLC to judge
        } else {
            matches!((&r, mirror(&a.to_string())), (Ok(Ok(o)), Some(ref m)) if o == m)
        };
        sink.put(good, keep, &|| f32_event(x, &r));
    };
    // decimal-looking values, edges, dictionary
    let mut list: Vec<f64> = vec![0.0, -0.0, 1.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::EPSILON, 0.1, 0.2, 0.3, 0.1 + 0.2,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e300, two64,
        9007199254740992.0, 9007199254740994.0, 4503599627370496.5, 4503599627370495.5, 2251799813685248.25, 1e-5, 1e-7, 1e-300];
    for n in edge_numbers().into_iter().chain(dict_numbers(&dict)) {
        let x = n as f64;
        list.push(x);
        for d in [0.5, 0.25, 0.1, 0.01, 0.05, 0.001, 0.75, 0.9, 1e-6, 1e-9] {
            list.push(x + d);
        }
        for d in [10.0, 100.0, 1000.0, 1e6] {
            list.push(x / d);
        }
        list.push(f64::from_bits(x.to_bits().wrapping_add(1)));
        list.push(f64::from_bits(x.to_bits().wrapping_sub(1)));
    }
    let stride = (list.len() / 700).max(1);
    for (k, &x) in list.iter().enumerate() {
        let keep = k < 40 || k % stride == 0;
        c64(x, keep);
        c64(-x, keep && k % 3 == 0);
        c32(x as f32, keep);
        c32(-(x as f32), keep && k % 3 == 0);
        sink.evals.fetch_add(4, Ordering::Relaxed);
    }
    for i in 0..=(if th { 20_000u32 } else { 3_000 }) {
        for d in [1.0, 10.0, 100.0, 1000.0] {
            c64(i as f64 / d, i % 400 == 3);
            c32(i as f32 / d as f32, i % 400 == 3);
        }
        sink.evals.fetch_add(8, Ordering::Relaxed);
    }
    let rounds: u64 = if th { 60_000_000 } else { 2_000_000 };
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let s = next.fetch_add(1, Ordering::Relaxed);
                if s >= 64 {
                    break;
                }
                let mut rng = Rng::new(seed().wrapping_mul(1000).wrapping_add(s));
                for k in 0..rounds / 64 {
                    let keep = k % (rounds / 64 / 8) == 1;
                    match rng.below(4) {
                        0 => c64(f64::from_bits(rng.next()), keep),
                        1 => {
                            // exponents around one
                            let e = 1023 - 60 + rng.below(125);
                            c64(f64::from_bits((rng.next() >> 12) | (e << 52)), keep)
                        }
                        2 => {
                            let p = rng.below(12) as i32;
                            let b = 10 + rng.below(42);
                            let m = rng.below(1 << b) as f64;
                            c64(m / 10f64.powi(p), keep)
                        }
                        _ => {
                            let b = 1 + rng.below(52);
                            let m = rng.below(1 << b) as f64;
                            let sh = rng.below(40) as i32;
                            c64(m / 2f64.powi(sh), keep)
                        }
                    }
                    c32(f32::from_bits(rng.next() as u32), keep);
                    sink.evals.fetch_add(2, Ordering::Relaxed);
                }
            });
        }
    });
    // every f32: the positive ones against the mirror, the negative ones against the positive
    let left_out = AtomicU64::new(0);
    if th {
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let s = next.fetch_add(1, Ordering::Relaxed);
                    if s >= 256 {
                        break;
                    }
                    // 37 is odd: every slice once, in an order that spreads over the exponents
                    let s = s * 37 % 256;
                    if start.elapsed().as_secs() > 1500 {
                        left_out.fetch_add(1, Ordering::Relaxed);
                        continue;
                    }
                    for k in 0..(1u64 << 23) {
                        let x = f32::from_bits(((s << 23) | k) as u32);
                        c32(x, false);
                        let a: Conv = catch(|| PluralOperands::try_from(x).map_err(|_| ()));
                        let b: Conv = catch(|| PluralOperands::try_from(-x).map_err(|_| ()));
                        let same = match (&a, &b) {
                            (Ok(Ok(a)), Ok(Ok(b))) => a == b,
                            (Ok(Err(())), Ok(Err(()))) => true,
                            _ => false,
                        };
                        sink.put(same, false, &|| f32_event(-x, &b));
                    }
                    sink.evals.fetch_add(2 << 23, Ordering::Relaxed);
                });
            }
        });
    }
    let left = left_out.load(Ordering::Relaxed);
    sink.done(json!({"exhaustive_f32": th && left == 0, "f32_slices_left_out": left}));
}

/// C06: all short strings over a small alphabet, hand-made and mutated strings
pub fn junk() {
    let mut out = Out::create(&arg_req("out"));
    let dict = dictionary();
    let mut rng = Rng::new(seed() ^ 0x606);
    start_watchdog(20);
    let mut inputs: Vec<String> = vec![];
    let alphabet: Vec<char> = "-+.015e ".chars().collect();
    let maxlen = if thorough() { 6 } else { 4 };
    let mut cur: Vec<String> = vec![String::new()];
    inputs.push(String::new());
    for _ in 0..maxlen {
        let mut nxt = vec![];
        for s in &cur {
            for c in &alphabet {
                let mut t = s.clone();
                t.push(*c);
                nxt.push(t);
            }
        }
        inputs.extend(nxt.iter().cloned());
        cur = nxt;
    }
    let exhaustive = inputs.len();
    let words = [
        "inf", "-inf", "+inf", "infinity", "-infinity", "Infinity", "INF", "nan", "-nan", "NaN", "+nan", "nan.0", "inf.0",
        "0x10", "1_000", "1,5", "1'000", "½", "１", "٣", "१२", "٣.٥", "1\u{0661}", "−1", "–1", "∞", "1\0", "\0", "\n", "1\n", "\t1",
        " 1", "1 ", "1 .5", "1. 5", "- 1", "1-", "1+", "--1", "--1.5", "++1", "+-1", "-+1", "+1", "+1.5", "-+1.5", "1.+5", "1.-5", "-1.+5", "1.5.", "1..5",
        "1.2.3", "..", ".", "-", "+", "-.", "+.", ".e1", "1e", "1e+", "1e-", "e1", "1e1", "1E1", "1e+1", "1e-1", "10e-1", "15e-1", "1.5e1",
        "1.5e-1", "15e-2", "1.0e3", "1e3.0", "1e1e1", "1e18", "1e19", "1e20", "1e22", "1e308", "1e309", "1e400", "1e-400", "0e400", "0e-400", "1e99999", "0e99999",
        "1e-99999", "00e1", ".5", "5.", "-5.", "-.5", "+.5", "5.e1", ".5e1", "1.5f", "1f64", "0b1", "1u8", "١٢", "1\u{200b}", "\u{feff}1", "💯", "1💯", "é", "1é.5", "1.é",
        "foo", "one", "true", "null", "NULL", "#1", "$1", "1%", "1º", "²", "1/2", "(1)", "[1]", "{1}", "\"1\"", "1;", "1e١", "9007199254740993e0", "18446744073709551616e0", "1e0", "0e0",
    ];
    inputs.extend(words.iter().map(|s| s.to_string()));
    inputs.extend(dict.strs.iter().cloned());
    for n in [30, 100, 309, 310, 400, 1000, 4096, 65536, 70000] {
        inputs.push("9".repeat(n));
        inputs.push(format!("{}.{}", "9".repeat(n), "9".repeat(n)));
        inputs.push("-".repeat(n));
        inputs.push(format!("{}x", "1".repeat(n)));
        inputs.push(format!("{}1", " ".repeat(n)));
    }
    let chars: Vec<char> = "0123456789.-+eE xX_,infINFaN%é١½\u{ff11}\0\t\u{2212}💯".chars().collect();
    let bases = ["0", "1", "12", "1.5", "-1.5", "100.00", "0.001", "1e5", "123456789.987654321", "18446744073709551615", "inf", "nan", "+3", ".5", "5."];
    for _ in 0..(if thorough() { 400_000 } else { 20_000 }) {
        let mut s: Vec<char> = rng.pick(&bases).chars().collect();
        for _ in 0..1 + rng.below(3) {
            let p = rng.below(s.len() as u64 + 1) as usize;
            match rng.below(4) {
                0 | 1 => s.insert(p, *rng.pick(&chars)),
                2 => {
                    if p < s.len() {
                        s[p] = *rng.pick(&chars);
                    }
                }
                _ => {
                    if p < s.len() {
                        s.remove(p);
                    }
                }
            }
        }
        inputs.push(s.into_iter().collect());
    }
    let mut seen = HashSet::new();
    let mut evals = 0u64;
    let prs: Vec<PluralRules> = ["en", "ar", "ru", "ja"]
        .iter()
        .flat_map(|l| {
            [PluralRuleType::CARDINAL, PluralRuleType::ORDINAL]
                .iter()
                .filter_map(|t| catch(|| PluralRules::create(l.parse::<unic_langid::LanguageIdentifier>().unwrap(), *t).ok()).ok().flatten())
                .collect::<Vec<_>>()
        })
        .collect();
    for s in &inputs {
        if !seen.insert(s.clone()) {
            continue;
        }
        for st in [false, true] {
            let r = if st { conv_string(s) } else { conv_str(s) };
            let mut m = event("text", s, &r);
            m.insert("src".into(), (if st { "String" } else { "str" }).into());
            // select on several rule sets; the event carries the outcome that differs, if any does
            let okc = m["ok"].as_i64().unwrap();
            let mut sel = okc;
            for p in &prs {
                let c = if st {
                    let t = s.clone();
                    catch(|| p.select(t).is_ok())
                } else {
                    catch(|| p.select(s.as_str()).is_ok())
                };
                let c = match c {
                    Ok(true) => 1,
                    Ok(false) => 0,
                    Err(()) => 2,
                };
                if c != okc {
                    sel = c;
                }
                evals += 1;
            }
            m.insert("sel".into(), sel.into());
            evals += 1;
            // the String conversion is recorded when it differs from &str, and for a sample
            let keep = !st || evals % 7 == 0 || {
                let q = conv_str(s);
                match (&q, &r) {
                    (Ok(Ok(a)), Ok(Ok(b))) => a != b,
                    (Ok(Err(())), Ok(Err(()))) => false,
                    _ => true,
                }
            } || sel != okc;
            if keep {
                out.ev(&Value::Object(m));
            }
        }
    }
    stop_watch();
    // every locale: refused texts, and other argument types whose conversion may fail
    let mut everyone: Vec<PluralRules> = vec![];
    for t in [PluralRuleType::CARDINAL, PluralRuleType::ORDINAL] {
        for l in catch(|| PluralRules::get_locales(t)).unwrap_or_default() {
            everyone.extend(catch(|| PluralRules::create(l, t).ok()).ok().flatten());
        }
    }
    macro_rules! agree {
        ($x:expr, $prs:expr, $ev:expr) => {{
            let r: Conv = catch(|| PluralOperands::try_from($x).map_err(|_| ()));
            let mut m: Map<String, Value> = $ev(&r);
            let okc = m["ok"].as_i64().unwrap();
            let mut sel = okc;
            for p in $prs {
                let c = match catch(|| p.select($x).is_ok()) {
                    Ok(true) => 1,
                    Ok(false) => 0,
                    Err(()) => 2,
                };
                evals += 1;
                if c != okc {
                    sel = c;
                }
            }
            m.insert("sel".into(), sel.into());
            (sel != okc, m)
        }};
    }
    let mut n = 0u64;
    let short: Vec<&String> = inputs.iter().filter(|s| s.len() <= 2).collect();
    for s in words.iter().map(|s| *s).chain(short.iter().map(|s| s.as_str())).chain(dict.strs.iter().take(300).map(|s| s.as_str())) {
        n += 1;
        let (bad, m) = agree!(s, &everyone, |r: &Conv| {
            let mut m = event("text", s, r);
            m.insert("src".into(), "str".into());
            m
        });
        if bad || n % 5 == 0 {
            out.ev(&Value::Object(m));
        }
    }
    let mut fl: Vec<f64> = vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 0.5, 1e19, 1.8446744073709552e19, 2e19, 1e20, 1e300, f64::MAX, 5e-324, 1e-20, 0.1, 123.456];
    fl.extend((0..8).map(|k| f64::from_bits(0x7ff0_0000_0000_0001 + (k << 48))));
    fl.extend(edge_numbers().iter().map(|&x| x as f64));
    fl.extend(dict_numbers(&dict).iter().map(|&x| x as f64 / 8.0));
    for _ in 0..(if thorough() { 20_000 } else { 1_000 }) {
        fl.push(f64::from_bits(rng.next()));
    }
    for (k, &x) in fl.iter().enumerate() {
        let ps = if k < 30 { &everyone } else { &prs };
        for x in [x, -x] {
            let (bad, m) = agree!(x, ps, |r: &Conv| f64_event(x, r, "f64"));
            if bad || k % 10 == 0 {
                out.ev(&Value::Object(m));
            }
            let y = x as f32;
            let (bad, m) = agree!(y, ps, |r: &Conv| f32_event(y, r));
            if bad || k % 10 == 0 {
                out.ev(&Value::Object(m));
            }
        }
    }
    let mut il = edge_numbers();
    il.extend(dict_numbers(&dict));
    il.extend([u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) + 1]);
    for (k, &x) in il.iter().enumerate() {
        macro_rules! int {
            ($t:ident) => {{
                let y = x as $t;
                let (bad, m) = agree!(y, &prs, |r: &Conv| {
                    let abs = (y as i128).unsigned_abs() as u64;
                    let mut m = event("int", &abs.to_string(), r);
                    m.insert("src".into(), stringify!($t).into());
                    m.insert("arg".into(), y.to_string().into());
                    m
                });
                if bad || k % 40 == 0 {
                    out.ev(&Value::Object(m));
                }
            }};
        }
        int!(u8);
        int!(i8);
        int!(u16);
        int!(i16);
        int!(u32);
        int!(i32);
        int!(u64);
        int!(i64);
        int!(usize);
        int!(isize);
    }
    out.flush();
    println!("STATS {}", json!({"evaluations": evals, "events": out.n, "strings": seen.len(), "exhaustive_strings": exhaustive, "alphabet": "-+.015e ", "maxlen": maxlen}));
}
