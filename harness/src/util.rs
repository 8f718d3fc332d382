//! Shared helpers: seeded randomness, event output, the dictionary of literals of the code under
//! test, exact decimal expansions of floats, panic capture, hang watchdog.
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRuleType};
use serde_json::Value;
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn digits(&mut self, len: usize) -> String {
        (0..len)
            .map(|_| (b'0' + self.below(10) as u8) as char)
            .collect()
    }
}

pub fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == format!("--{}", name) {
            return it.next();
        }
    }
    None
}
pub fn arg_req(name: &str) -> String {
    arg(name).unwrap_or_else(|| panic!("missing --{}", name))
}
pub fn seed() -> u64 {
    arg("seed").and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    arg("tier").as_deref() == Some("thorough")
}

pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub n: u64,
}
impl Out {
    pub fn create(path: &str) -> Out {
        Out {
            f: std::io::BufWriter::new(std::fs::File::create(path).expect("create output")),
            n: 0,
        }
    }
    pub fn ev(&mut self, v: &Value) {
        self.n += 1;
        writeln!(self.f, "{}", v).unwrap();
    }
    pub fn flush(&mut self) {
        self.f.flush().unwrap();
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    let old = IN_CATCH.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    IN_CATCH.with(|c| c.set(old));
    r
}
thread_local! {
    static IN_CATCH: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// panics of the code under test are results; panics of the harness itself are reported
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if !IN_CATCH.with(|c| c.get()) {
            eprintln!("{}", i);
        }
    }));
}

pub fn cat_name(c: &PluralCategory) -> &'static str {
    match c {
        PluralCategory::ZERO => "zero",
        PluralCategory::ONE => "one",
        PluralCategory::TWO => "two",
        PluralCategory::FEW => "few",
        PluralCategory::MANY => "many",
        PluralCategory::OTHER => "other",
    }
}
pub fn rule_type(s: &str) -> PluralRuleType {
    match s {
        "cardinal" => PluralRuleType::CARDINAL,
        "ordinal" => PluralRuleType::ORDINAL,
        _ => panic!("type"),
    }
}

/// Literals that occur in the sources under test, used as extra inputs (never to judge).
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
}
pub fn dictionary() -> Dict {
    let mut ints = BTreeSet::new();
    let mut strs = BTreeSet::new();
    let mut files = vec![];
    for d in [
        "/repo/intl_pluralrules/src",
        "/repo/cldr_pluralrules_parser/src",
        "/repo/make_pluralrules/src",
    ] {
        walk(std::path::Path::new(d), &mut files);
    }
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        // integer and float literals; the raw language codes in the rule table are no numbers of
        // interest and would swamp the dictionary
        let b: Vec<char> = text.chars().collect();
        let mut k = 0;
        while k < b.len() {
            if b[k].is_ascii_digit() && (k == 0 || !(b[k - 1].is_alphanumeric() || b[k - 1] == '_')) {
                let mut s = String::new();
                let mut j = k;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') {
                    if b[j] != '_' {
                        s.push(b[j]);
                    }
                    j += 1;
                }
                let raw_code = f.ends_with("rules.rs") && s.ends_with("u64");
                let num = if let Some(h) = s.strip_prefix("0x") {
                    let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                    u64::from_str_radix(&h, 16).ok()
                } else {
                    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse::<u64>().ok()
                };
                if let (Some(n), false) = (num, raw_code) {
                    ints.insert(n);
                }
                k = j;
            } else if b[k] == '"' {
                let mut j = k + 1;
                let mut s = String::new();
                while j < b.len() && b[j] != '"' && b[j] != '\n' {
                    if b[j] == '\\' {
                        j += 1;
                    }
                    if j < b.len() {
                        s.push(b[j]);
                    }
                    j += 1;
                }
                if s.len() <= 60 && !s.is_empty() {
                    strs.insert(s);
                }
                k = j + 1;
            } else {
                k += 1;
            }
        }
    }
    Dict {
        ints: ints.into_iter().collect(),
        strs: strs.into_iter().collect(),
    }
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = match std::fs::read_dir(d) {
        Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

/// numbers near the literals of the code under test
pub fn dict_numbers(d: &Dict) -> Vec<u64> {
    let mut s = BTreeSet::new();
    for &n in &d.ints {
        for k in [n.wrapping_sub(1), n, n.wrapping_add(1)] {
            s.insert(k);
        }
        for base in [100u64, 1000, 10_000, 100_000, 1_000_000] {
            if let Some(x) = n.checked_add(base) {
                s.insert(x);
            }
            if let Some(x) = n.checked_mul(base) {
                s.insert(x);
            }
        }
        if let Some(x) = n.checked_mul(10) {
            s.insert(x);
        }
        s.insert(n / 10);
    }
    s.into_iter().collect()
}

pub fn edge_numbers() -> Vec<u64> {
    let mut s = BTreeSet::new();
    for p in 0..64u32 {
        for d in -2i64..=2 {
            s.insert((1u64 << p).wrapping_add(d as u64));
        }
    }
    let mut t: u64 = 1;
    loop {
        for d in -2i64..=2 {
            s.insert(t.wrapping_add(d as u64));
        }
        for m in 1..10u64 {
            if let Some(x) = t.checked_mul(m) {
                s.insert(x);
            }
        }
        match t.checked_mul(10) {
            Some(x) => t = x,
            None => break,
        }
    }
    s.insert(u64::MAX);
    s.insert(i64::MAX as u64);
    s.into_iter().collect()
}

/// exact decimal expansion of a non-negative finite float
pub fn exact(x: f64) -> String {
    if x.is_infinite() {
        return String::new();
    }
    if x == 0.0 {
        return "0".into();
    }
    let s = format!("{:.1100}", x);
    let s = s.trim_end_matches('0');
    s.trim_end_matches('.').to_string()
}
pub fn neighbours64(x: f64) -> (String, String, String) {
    let b = x.to_bits();
    let lo = if x == 0.0 { 0.0 } else { f64::from_bits(b - 1) };
    let hi = f64::from_bits(b + 1);
    (exact(lo), exact(x), exact(hi))
}
pub fn neighbours32(x: f32) -> (String, String, String) {
    let b = x.to_bits();
    let lo = if x == 0.0 { 0.0 } else { f32::from_bits(b - 1) };
    let hi = f32::from_bits(b + 1);
    (exact(lo as f64), exact(x as f64), if hi.is_infinite() { String::new() } else { exact(hi as f64) })
}

/// the fields describing one conversion result
pub fn ops_fields(m: &mut serde_json::Map<String, Value>, r: &Result<Result<PluralOperands, ()>, ()>) {
    match r {
        Err(()) => {
            m.insert("ok".into(), 2.into());
        }
        Ok(Err(())) => {
            m.insert("ok".into(), 0.into());
        }
        Ok(Ok(o)) => {
            m.insert("ok".into(), 1.into());
            // n must be a non-negative finite number; anything else is reported as a sentinel
            let sane = o.n.is_finite() && (o.n > 0.0 || o.n == 0.0);
            m.insert("ns".into(), (if sane { 1 } else { 0 }).into());
            let (lo, c, hi) = if sane {
                neighbours64(o.n.abs())
            } else {
                ("0".into(), "0".into(), "0".into())
            };
            m.insert("nl".into(), lo.into());
            m.insert("n".into(), c.into());
            m.insert("nh".into(), hi.into());
            m.insert("i".into(), o.i.to_string().into());
            m.insert("v".into(), clamp(o.v).into());
            m.insert("w".into(), clamp(o.w).into());
            m.insert("f".into(), o.f.to_string().into());
            m.insert("t".into(), o.t.to_string().into());
        }
    }
}
fn clamp(x: usize) -> i64 {
    x.min(1_000_000_000) as i64
}

/// Progress of a worker: what it is doing now. A call that does not return is reported as an event.
pub struct Watch {
    pub now: Mutex<String>,
    pub tick: AtomicU64,
}
pub static WATCH: Watch = Watch {
    now: Mutex::new(String::new()),
    tick: AtomicU64::new(0),
};
pub fn doing(what: &str) {
    let mut g = WATCH.now.lock().unwrap();
    g.clear();
    g.push_str(what);
    WATCH.tick.fetch_add(1, Ordering::Relaxed);
}
/// exits 3 with the current input on stdout when nothing moved for `secs`
pub fn start_watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = WATCH.tick.load(Ordering::Relaxed);
            if t == last && t != 0 {
                idle += 1;
            } else {
                idle = 0;
                last = t;
            }
            if idle >= secs {
                let g = WATCH.now.lock().unwrap();
                println!("HANG {}", serde_json::Value::from(g.as_str()));
                std::process::exit(3);
            }
        }
    });
}
pub fn stop_watch() {
    WATCH.tick.store(0, Ordering::Relaxed);
}

/// Whether instances may be shared between threads (an inherent constant wins over that of a trait)
struct Probe<T>(std::marker::PhantomData<T>);
trait NotShared {
    const SHARED: bool = false;
}
impl<T> NotShared for Probe<T> {}
#[allow(dead_code)]
impl<T: Sync + Send> Probe<T> {
    const SHARED: bool = true;
}
pub const SHARED: bool = Probe::<intl_pluralrules::PluralRules>::SHARED;
thread_local!(static OWN: std::cell::RefCell<std::collections::HashMap<usize, Option<std::rc::Rc<intl_pluralrules::PluralRules>>>> = Default::default());
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// An instance used by several threads; where the type does not allow that, each has one of its own.
pub struct Pr {
    k: usize,
    ty: String,
    id: unic_langid::LanguageIdentifier,
    p: intl_pluralrules::PluralRules,
}
// `p` is used by the thread that made it only, unless the type may be shared
unsafe impl Sync for Pr {}
unsafe impl Send for Pr {}
impl Pr {
    pub fn new(ty: &str, id: unic_langid::LanguageIdentifier, p: intl_pluralrules::PluralRules) -> Pr {
        Pr { k: NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed), ty: ty.into(), id, p }
    }
    pub fn with<R>(&self, f: impl FnOnce(&intl_pluralrules::PluralRules) -> R) -> R {
        if SHARED {
            return f(&self.p);
        }
        let own = OWN.with(|m| {
            m.borrow_mut().entry(self.k).or_insert_with(|| {
                catch(|| intl_pluralrules::PluralRules::create(self.id.clone(), rule_type(&self.ty)).ok()).ok().flatten().map(std::rc::Rc::new)
            }).clone()
        });
        f(&own.expect("created before"))
    }
}

/// A process that finds nothing of what others may have left in the usual places
pub fn process(exe: &std::path::Path) -> std::process::Command {
    let mut c = std::process::Command::new(exe);
    for v in ["TMPDIR", "HOME", "XDG_CACHE_HOME"] {
        c.env(v, "/proc/none");
    }
    c
}
