//! C09: histories of API calls, replayed sequentially and from several threads.  The expected
//! answers come from `call`, run once per call in a process of its own.
use crate::util::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::PluralRules;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use unic_langid::LanguageIdentifier;

fn cat<E>(r: Result<Result<intl_pluralrules::PluralCategory, E>, ()>) -> &'static str {
    match r {
        Ok(Ok(c)) => cat_name(&c),
        Ok(Err(_)) => "error",
        Err(()) => "panic",
    }
}
thread_local!(static BUF: std::cell::RefCell<String> = std::cell::RefCell::new(String::with_capacity(4096)));
pub fn select_as(p: &PluralRules, ty: &str, x: &str) -> &'static str {
    match ty {
        // always the same buffer of the thread: an address says nothing about the text
        "str" => BUF.with(|b| {
            let mut b = b.borrow_mut();
            b.clear();
            b.push_str(x);
            cat(catch(|| p.select(b.as_str())))
        }),
        "String" => cat(catch(|| p.select(x.to_string()))),
        "i8" => { let y: i8 = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "u8" => { let y: u8 = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "i32" => { let y: i32 = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "u64" => { let y: u64 = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "i64" => { let y: i64 = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "usize" => { let y: usize = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "f32" => { let y: f32 = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "f64" => { let y: f64 = x.parse().unwrap(); cat(catch(|| p.select(y))) }
        "operands" => match catch(|| PluralOperands::try_from(x)) {
            Ok(Ok(o)) => cat(catch(move || p.select(o))),
            Ok(Err(_)) => "error",
            Err(()) => "panic",
        },
        _ => panic!("argument type {}", ty),
    }
}
fn create(ty: &str, loc: &str) -> (&'static str, Option<PluralRules>) {
    let id: LanguageIdentifier = loc.parse().unwrap();
    match catch(|| PluralRules::create(id, rule_type(ty))) {
        Ok(Ok(p)) => ("ok", Some(p)),
        Ok(Err(_)) => ("refused", None),
        Err(()) => ("panic", None),
    }
}
fn locales(ty: &str) -> String {
    match catch(|| PluralRules::get_locales(rule_type(ty))) {
        Ok(v) => v.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(","),
        Err(()) => "panic".into(),
    }
}
fn locale_of(p: &PluralRules) -> String {
    catch(|| p.get_locale().to_string()).unwrap_or_else(|_| "panic".into())
}

/// one call in a fresh process; prints its result
pub fn call() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a[2..].iter().map(|s| s.as_str()).collect();
    let r = match a[0] {
        "create" => create(a[1], a[2]).0.to_string(),
        "locale" => match create(a[1], a[2]).1 {
            Some(p) => locale_of(&p),
            None => "none".into(),
        },
        "locales" => locales(a[1]),
        "select" => match create(a[1], a[2]).1 {
            Some(p) => select_as(&p, a[3], a[4]).to_string(),
            None => "none".into(),
        },
        _ => panic!(),
    };
    print!("{}", r);
}

/// an argument made ready beforehand
enum Arg {
    Str(String),
    I32(i32),
    U64(u64),
    F64(f64),
    Other(String, String),
}
impl Arg {
    fn new(k: &str, x: &str) -> Arg {
        match k {
            "str" => Arg::Str(x.into()),
            "i32" => Arg::I32(x.parse().unwrap()),
            "u64" => Arg::U64(x.parse().unwrap()),
            "f64" => Arg::F64(x.parse().unwrap()),
            _ => Arg::Other(k.into(), x.into()),
        }
    }
    fn select(&self, p: &PluralRules) -> &'static str {
        match self {
            Arg::Str(x) => cat(catch(|| p.select(x.as_str()))),
            Arg::I32(x) => cat(catch(|| p.select(*x))),
            Arg::U64(x) => cat(catch(|| p.select(*x))),
            Arg::F64(x) => cat(catch(|| p.select(*x))),
            Arg::Other(k, x) => select_as(p, k, x),
        }
    }
}

/// the first calls of this process, one thread each: type, locale, argument type, argument
pub fn burst() {
    let a: Vec<String> = std::env::args().collect();
    let cs: Vec<&[String]> = a[2..].chunks(4).collect();
    let barrier = std::sync::Barrier::new(cs.len());
    let rs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = cs.iter().map(|c| {
            let barrier = &barrier;
            s.spawn(move || {
                barrier.wait();
                let (r, p) = create(&c[0], &c[1]);
                format!("{} {}", r, p.map_or("none", |p| select_as(&p, &c[2], &c[3])))
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic none".into())).collect()
    });
    print!("{}", rs.join("\n"));
}

/// the table of answers of fresh processes, for the universe of the plan
pub fn fresh() {
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(arg_req("plan")).unwrap()).unwrap();
    let strs = |k: &str| -> Vec<String> { plan[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    let args: Vec<(String, String)> = plan["args"].as_array().unwrap().iter()
        .map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_str().unwrap().to_string())).collect();
    let mut jobs: Vec<Vec<String>> = vec![];
    for ty in strs("types") {
        jobs.push(vec!["locales".into(), ty.clone()]);
        for loc in strs("locs") {
            jobs.push(vec!["create".into(), ty.clone(), loc.clone()]);
            jobs.push(vec!["locale".into(), ty.clone(), loc.clone()]);
            for (a, x) in &args {
                jobs.push(vec!["select".into(), ty.clone(), loc.clone(), a.clone(), x.clone()]);
            }
        }
    }
    let res: Vec<Mutex<String>> = jobs.iter().map(|_| Mutex::new(String::new())).collect();
    let next = AtomicUsize::new(0);
    let me = std::env::current_exe().unwrap();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= jobs.len() {
                    break;
                }
                let o = process(&me).arg("call").args(&jobs[k]).output().expect("spawn");
                *res[k].lock().unwrap() = if o.status.success() { String::from_utf8_lossy(&o.stdout).into_owned() } else { "crash".into() };
            });
        }
    });
    let mut t = json!({"create": {}, "locale": {}, "locales": {}, "select": {}});
    for (j, r) in jobs.iter().zip(res) {
        let mut v = &mut t;
        for k in j {
            v = v.as_object_mut().unwrap().entry(k.clone()).or_insert_with(|| Value::Object(Map::new()));
        }
        *v = r.into_inner().unwrap().into();
    }
    std::fs::write(arg_req("out"), t.to_string()).unwrap();
    println!("STATS {}", json!({"evaluations": jobs.len()}));
}

struct Table {
    t: Value,
    sel: HashMap<(usize, usize, usize), String>, // type, locale, argument
    types: Vec<String>,
    locs: Vec<String>,
    args: Vec<(String, String)>,
}

fn ev(op: &str, h: usize, g: usize, ty: &str, loc: &str, a: &str, x: &str, r: &str) -> Value {
    json!({"op": op, "h": h, "g": g, "ty": ty, "loc": loc, "as": a, "x": x, "r": r})
}

/// executes one call of a behaviour on slots (1-based), returns the recorded event, or None when
/// the call cannot be made (creation was refused where the model expected otherwise)
fn exec(slots: &mut Vec<Option<PluralRules>>, c: &Value) -> Option<Value> {
    let u = |k: &str| c[k].as_u64().unwrap_or(0) as usize;
    let s = |k: &str| c[k].as_str().unwrap_or("");
    let (h, g) = (u("h"), u("g"));
    let r: String = match s("op") {
        "create" => {
            let (r, p) = create(s("ty"), s("loc"));
            if let Some(p) = p {
                slots[h] = Some(p);
            }
            r.into()
        }
        "clone" => {
            let p = slots[h].as_ref()?.clone();
            slots[g] = Some(p);
            "ok".into()
        }
        "drop" => {
            slots[h].take()?;
            "ok".into()
        }
        "select" => select_as(slots[h].as_ref()?, s("as"), s("x")).into(),
        "locale" => locale_of(slots[h].as_ref()?),
        "locales" => locales(s("ty")),
        _ => panic!(),
    };
    let mut m = c.as_object().unwrap().clone();
    m.insert("r".into(), r.into());
    Some(Value::Object(m))
}

pub fn run() {
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(arg_req("plan")).unwrap()).unwrap();
    let table: Value = serde_json::from_str(&std::fs::read_to_string(arg_req("table")).unwrap()).unwrap();
    let behaviours: Vec<Vec<Value>> = std::fs::read_to_string(arg_req("behaviours")).unwrap()
        .lines().map(|l| serde_json::from_str::<Value>(l).unwrap().as_array().unwrap().clone()).collect();
    let strs = |k: &str| -> Vec<String> { plan[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    let mut t = Table {
        types: strs("types"),
        locs: strs("locs"),
        args: plan["args"].as_array().unwrap().iter().map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_str().unwrap().to_string())).collect(),
        t: table,
        sel: HashMap::new(),
    };
    for (a, ty) in t.types.iter().enumerate() {
        for (b, loc) in t.locs.iter().enumerate() {
            for (c, (k, x)) in t.args.iter().enumerate() {
                t.sel.insert((a, b, c), t.t["select"][ty][loc][k][x].as_str().unwrap().to_string());
            }
        }
    }
    let out = Mutex::new(Out::create(&arg_req("out")));
    let calls = AtomicU64::new(0);
    let th = thorough();
    // 1. the behaviours of the specification, one after the other in this process
    let replay = |bs: &[Vec<Value>]| {
        for b in bs {
            let mut slots: Vec<Option<PluralRules>> = (0..9).map(|_| None).collect();
            let mut evs = vec![];
            for c in b {
                calls.fetch_add(1, Ordering::Relaxed);
                match exec(&mut slots, c) {
                    Some(e) => evs.push(e),
                    None => break,
                }
            }
            out.lock().unwrap().ev(&json!({"pre": [], "ev": evs, "mode": "replay"}));
        }
    };
    replay(&behaviours);
    // 2. again, from several threads at once
    std::thread::scope(|s| {
        for ch in behaviours.chunks((behaviours.len() / 6).max(1)) {
            s.spawn(move || replay(ch));
        }
    });
    // 3. long walks on shared instances: slots 1..n of `pre` are bound to (type, locale)
    let mut pre: Vec<(usize, usize)> = vec![];
    for a in 0..t.types.len() {
        for b in 0..t.locs.len() {
            if t.t["create"][&t.types[a]][&t.locs[b]] == "ok" {
                pre.push((a, b));
            }
        }
    }
    let mut shared: Vec<Option<PluralRules>> = vec![];
    for &(a, b) in &pre {
        shared.push(create(&t.types[a], &t.locs[b]).1);
    }
    if shared.iter().any(|p| p.is_none()) {
        // creation already failed: the replayed behaviours and this segment show it
        let evs: Vec<Value> = pre.iter().map(|&(a, b)| ev("create", 1, 0, &t.types[a], &t.locs[b], "", "", create(&t.types[a], &t.locs[b]).0)).collect();
        out.lock().unwrap().ev(&json!({"pre": [], "ev": evs, "mode": "create"}));
    }
    let shared: Vec<(usize, usize, Pr)> = pre.iter().zip(shared).filter_map(|(&(a, b), p)| p.map(|p| (a, b, Pr::new(&t.types[a], t.locs[b].parse().unwrap(), p)))).collect();
    let stop = AtomicBool::new(false);
    let suspects = AtomicU64::new(0);
    let walk = |id: u64, rounds: u64, mode: &str| {
        let mut rng = Rng::new(seed().wrapping_mul(7919).wrapping_add(id));
        let mut clones: Vec<Option<(usize, PluralRules)>> = vec![None, None, None, None];
        // a hot pair makes two threads meet on the same values often
        let mut recent: Vec<Value> = vec![];
        let mut k = 0u64;
        let mut hot = (0usize, 0usize);
        while k < rounds && !shared.is_empty() && !stop.load(Ordering::Relaxed) {
            k += 1;
            if k % 64 == 1 {
                hot = (rng.below(shared.len() as u64) as usize, rng.below(t.args.len() as u64) as usize);
            }
            let si = if rng.below(3) == 0 { hot.0 } else { rng.below(shared.len() as u64) as usize };
            let ai = if rng.below(3) == 0 { hot.1 } else { rng.below(t.args.len() as u64) as usize };
            let (a, b, p) = &shared[si];
            let (ty, loc) = (&t.types[*a], &t.locs[*b]);
            let (good, e): (bool, Value) = match rng.below(40) {
                0 => {
                    let l = rng.below(t.locs.len() as u64) as usize;
                    let y = rng.below(2) as usize % t.types.len();
                    let (r, _) = create(&t.types[y], &t.locs[l]);
                    (t.t["create"][&t.types[y]][&t.locs[l]] == r, ev("create", 8, 0, &t.types[y], &t.locs[l], "", "", r))
                }
                1 => {
                    let r = p.with(locale_of);
                    (t.t["locale"][ty][loc] == r.as_str(), ev("locale", 1, 0, ty, loc, "", "", &r))
                }
                2 => {
                    let j = rng.below(4) as usize;
                    clones[j] = Some((si, p.with(|p| p.clone())));
                    continue;
                }
                3 | 4 => {
                    let j = rng.below(4) as usize;
                    let (cs, q) = match &clones[j] {
                        Some(x) => x,
                        None => continue,
                    };
                    let (ca, cb, _) = &shared[*cs];
                    let r = select_as(q, &t.args[ai].0, &t.args[ai].1);
                    (t.sel[&(*ca, *cb, ai)] == r, ev("select", 1, 0, &t.types[*ca], &t.locs[*cb], &t.args[ai].0, &t.args[ai].1, r))
                }
                5 if k % 50 == 0 => {
                    let r = locales(ty);
                    (t.t["locales"][ty] == r.as_str(), ev("locales", 1, 0, ty, "", "", "", &r))
                }
                _ => {
                    let r = p.with(|p| select_as(p, &t.args[ai].0, &t.args[ai].1));
                    (t.sel[&(*a, *b, ai)] == r, ev("select", 1, 0, ty, loc, &t.args[ai].0, &t.args[ai].1, r))
                }
            };
            // record: each call of a walk as its own segment (slot 1 bound to its instance), the
            // calls before it kept for the reader
            if !good || k % (rounds / 40).max(1) == 0 {
                if !good {
                    if suspects.fetch_add(1, Ordering::Relaxed) >= 200 {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let bind = json!([[e["ty"], e["loc"]]]);
                let pre = if e["op"] == "create" || e["op"] == "locales" { json!([]) } else { bind };
                out.lock().unwrap().ev(&json!({"pre": pre, "ev": [e], "mode": mode, "before": recent, "step": k}));
            }
            if recent.len() >= 12 {
                recent.remove(0);
            }
            recent.push(e);
        }
        calls.fetch_add(k, Ordering::Relaxed);
    };
    walk(0, if th { 20_000_000 } else { 400_000 }, "walk");
    stop.store(false, Ordering::Relaxed);
    let walk = &walk;
    std::thread::scope(|s| {
        for id in 1..=8u64 {
            s.spawn(move || walk(id, if th { 10_000_000 } else { 300_000 }, "threads"));
        }
    });
    // 3b. storms: tight loops of creations (and selections on what was created) by threads that
    // start together and keep to few locales, so that calls really overlap
    let ids: Vec<LanguageIdentifier> = t.locs.iter().map(|l| l.parse().unwrap()).collect();
    let prep: Vec<Arg> = t.args.iter().map(|(k, x)| Arg::new(k, x)).collect();
    let listed = pre.clone();
    let nt = 8usize;
    let storms = if th { 400 } else { 48 };
    let mut srng = Rng::new(seed() ^ 0x5705);
    let storm_calls = AtomicU64::new(0);
    for round in 0..storms {
        let few: Vec<(usize, usize)> = if round % 4 == 3 {
            // any identifiers, also some that are refused
            (0..4).map(|_| (srng.below(t.types.len() as u64) as usize, srng.below(t.locs.len() as u64) as usize)).collect()
        } else {
            (0..[2, 3, 8][round % 3]).map(|_| *srng.pick(&listed)).collect()
        };
        let fargs: Vec<usize> = (0..3).map(|_| srng.below(prep.len() as u64) as usize).collect();
        let barrier = std::sync::Barrier::new(nt);
        let kind = round % 2;
        std::thread::scope(|s| {
            for id in 0..nt {
                let (few, fargs, barrier, t, ids, prep, out, suspects, storm_calls) = (&few, &fargs, &barrier, &t, &ids, &prep, &out, &suspects, &storm_calls);
                s.spawn(move || {
                    let own = few[id % few.len()];
                    // expectations worked out before, so that the loop itself is short
                    let exp: Vec<(bool, Vec<&str>)> = few.iter().map(|&(a, b)| (
                        t.t["create"][&t.types[a]][&t.locs[b]] == "ok",
                        fargs.iter().map(|&ai| t.sel[&(a, b, ai)].as_str()).collect())).collect();
                    let mut mine = create(&t.types[own.0], &t.locs[own.1]).1;
                    let mut bad: Vec<Vec<Value>> = vec![];
                    barrier.wait();
                    let n = if kind == 0 { 12_000 } else { 30_000 };
                    for k in 0..n {
                        if bad.len() >= 3 {
                            break;
                        }
                        let w = if kind == 0 && k % 2 == 1 { (id + k) % few.len() } else { id % few.len() };
                        let (a, b) = few[w];
                        if kind == 0 {
                            let r = catch(|| PluralRules::create(ids[b].clone(), rule_type(&t.types[a])));
                            let (name, p) = match r {
                                Ok(Ok(p)) => ("ok", Some(p)),
                                Ok(Err(_)) => ("refused", None),
                                Err(()) => ("panic", None),
                            };
                            let mut evs = vec![];
                            let mut wrong = (name == "ok") != exp[w].0 || name == "panic";
                            if let Some(p) = &p {
                                let j = k % 3;
                                let r = prep[fargs[j]].select(p);
                                if r != exp[w].1[j] {
                                    wrong = true;
                                    evs.push(ev("select", 1, 0, "", "", &t.args[fargs[j]].0, &t.args[fargs[j]].1, r));
                                }
                                if *p.get_locale() != ids[b] {
                                    wrong = true;
                                    evs.push(ev("locale", 1, 0, "", "", "", "", &locale_of(p)));
                                }
                            }
                            if wrong {
                                evs.insert(0, ev("create", 1, 0, &t.types[a], &t.locs[b], "", "", name));
                                bad.push(evs);
                            }
                        } else if let Some(p) = &mine {
                            let j = (k + id) % 3;
                            let r = prep[fargs[j]].select(p);
                            if r != exp[w].1[j] {
                                bad.push(vec![ev("create", 1, 0, &t.types[a], &t.locs[b], "", "", "ok"), ev("select", 1, 0, "", "", &t.args[fargs[j]].0, &t.args[fargs[j]].1, r)]);
                            }
                            if k % 512 == 0 {
                                let q = p.clone();
                                mine = Some(q);
                            }
                        }
                    }
                    storm_calls.fetch_add(2 * n as u64, Ordering::Relaxed);
                    for evs in bad {
                        if suspects.fetch_add(1, Ordering::Relaxed) < 400 {
                            out.lock().unwrap().ev(&json!({"pre": [], "ev": evs, "mode": "storm"}));
                        }
                    }
                });
            }
        });
    }
    calls.fetch_add(storm_calls.load(Ordering::Relaxed), Ordering::Relaxed);
    // 3c. the first calls of a process made by several threads at once
    let me = std::env::current_exe().unwrap();
    let next = AtomicUsize::new(0);
    let bursts = if th { 4000 } else { 500 };
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= bursts {
                    break;
                }
                let mut r = Rng::new(seed().wrapping_mul(104729).wrapping_add(k as u64));
                let same = r.below(2) == 0;
                let mut cs: Vec<Vec<String>> = vec![];
                for _ in 0..6 {
                    let (a, b) = *r.pick(&listed);
                    let (y, x) = r.pick(&t.args).clone();
                    cs.push(vec![t.types[a].clone(), t.locs[b].clone(), y, x]);
                }
                if same {
                    for j in 1..6 {
                        cs[j] = cs[j % 2].clone();
                    }
                }
                let o = process(&me).arg("burst").args(cs.iter().flatten()).output().expect("spawn");
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                let mut lines = text.lines();
                for c in &cs {
                    let l = lines.next().unwrap_or("crash crash");
                    let w: Vec<&str> = l.split(' ').collect();
                    calls.fetch_add(2, Ordering::Relaxed);
                    let good = t.t["create"][&c[0]][&c[1]] == w[0] && (w[0] != "ok" || t.t["select"][&c[0]][&c[1]][&c[2]][&c[3]] == w[1]);
                    if !good || k % 50 == 0 {
                        let mut evs = vec![ev("create", 1, 0, &c[0], &c[1], "", "", w[0])];
                        if w[0] == "ok" {
                            evs.push(ev("select", 1, 0, "", "", &c[2], &c[3], w[1]));
                        }
                        if good || suspects.fetch_add(1, Ordering::Relaxed) < 400 {
                            out.lock().unwrap().ev(&json!({"pre": [], "ev": evs, "mode": "burst", "calls": cs}));
                        }
                    }
                }
            });
        }
    });
    // 4. many instances alive at once, every pair of consecutive calls of a small universe
    let mut prev_calls = vec![];
    for (a, b, p) in shared.iter() {
        for ai in 0..t.args.len() {
            prev_calls.push((*a, *b, ai, p));
        }
    }
    let mut rng = Rng::new(seed() ^ 0x9999);
    let sample: Vec<_> = (0..(if th { 3000 } else { 700 })).filter(|_| !prev_calls.is_empty()).map(|_| rng.pick(&prev_calls).clone()).collect();
    let mut pairs = 0u64;
    for x in &sample {
        for y in &sample {
            let rx = x.3.with(|p| select_as(p, &t.args[x.2].0, &t.args[x.2].1));
            let ry = y.3.with(|p| select_as(p, &t.args[y.2].0, &t.args[y.2].1));
            pairs += 2;
            if t.sel[&(x.0, x.1, x.2)] != rx || t.sel[&(y.0, y.1, y.2)] != ry {
                if suspects.fetch_add(1, Ordering::Relaxed) < 400 {
                    let e1 = ev("select", 1, 0, "", "", &t.args[x.2].0, &t.args[x.2].1, rx);
                    let e2 = ev("select", 2, 0, "", "", &t.args[y.2].0, &t.args[y.2].1, ry);
                    out.lock().unwrap().ev(&json!({"pre": [[t.types[x.0], t.locs[x.1]], [t.types[y.0], t.locs[y.1]]], "ev": [e1, e2], "mode": "pair"}));
                }
            }
        }
    }
    calls.fetch_add(pairs, Ordering::Relaxed);
    let mut out = out.into_inner().unwrap();
    out.flush();
    println!("STATS {}", json!({"evaluations": calls.load(Ordering::Relaxed), "events": out.n, "pairs": pairs, "suspects": suspects.load(Ordering::Relaxed)}));
}

/// every listed locale with many arguments, asked in several orders and from several threads: calls
/// that are not answered alike everywhere, and a sample of the others, are compared with the answer
/// of a fresh process.
pub fn orders() {
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(arg_req("plan")).unwrap()).unwrap();
    let mut args: Vec<(String, String)> = plan["args"].as_array().unwrap().iter().map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_str().unwrap().to_string())).collect();
    let mut rng = Rng::new(seed() ^ 0x0909);
    let th = thorough();
    for i in 0..130u64 {
        args.push(("u64".into(), i.to_string()));
    }
    for i in 0..25u64 {
        for f in ["0", "1", "5", "00", "10", "01", "11", "21"] {
            args.push(("str".into(), format!("{}.{}", i, f)));
        }
    }
    let mut edge = edge_numbers();
    edge.extend(dict_numbers(&dictionary()));
    for _ in 0..(if th { 600 } else { 120 }) {
        args.push((["u64", "str"][rng.below(2) as usize].into(), rng.pick(&edge).to_string()));
    }
    for k in [0i64, 1, 2, 3, 5, 11, 100, 127, -1, -2, -128] {
        args.push(("i8".into(), k.to_string()));
        args.push(("f64".into(), format!("{}.5", k)));
        args.push(("f32".into(), format!("{}", k)));
        args.push(("String".into(), format!("{}", k)));
        args.push(("operands".into(), format!("{}.0", k)));
    }
    args.sort();
    args.dedup();
    let mut locs: Vec<(String, String)> = vec![];
    for ty in ["cardinal", "ordinal"] {
        let l = locales(ty);
        locs.extend(l.split(',').filter(|x| x.parse::<LanguageIdentifier>().is_ok()).map(|x| (ty.to_string(), x.to_string())));
    }
    locs.sort();
    locs.dedup();
    let insts: Vec<Option<Pr>> = locs.iter().map(|(ty, l)| create(ty, l).1.map(|p| Pr::new(ty, l.parse().unwrap(), p))).collect();
    let (nl, na) = (locs.len(), args.len());
    let ask = |k: usize| -> &'static str {
        let (l, a) = (k / na, k % na);
        match &insts[l] {
            Some(p) => p.with(|p| select_as(p, &args[a].0, &args[a].1)),
            None => "none",
        }
    };
    let total = nl * na;
    let first: Vec<&'static str> = (0..total).map(|k| ask(k)).collect();
    let differs: Mutex<HashMap<usize, Vec<&'static str>>> = Mutex::new(HashMap::new());
    let calls = AtomicU64::new(total as u64);
    let note = |k: usize, r: &'static str| {
        calls.fetch_add(1, Ordering::Relaxed);
        if first[k] != r {
            let mut d = differs.lock().unwrap();
            if d.len() < 3000 {
                let v = d.entry(k).or_insert_with(Vec::new);
                if !v.contains(&r) {
                    v.push(r);
                }
            }
        }
    };
    // arguments outside, backwards
    for a in (0..na).rev() {
        for l in (0..nl).rev() {
            note(l * na + a, ask(l * na + a));
        }
    }
    let shuffled = |seed: u64| -> Vec<usize> {
        let mut r = Rng::new(seed);
        let mut v: Vec<usize> = (0..total).collect();
        for k in (1..total).rev() {
            v.swap(k, r.below(k as u64 + 1) as usize);
        }
        v
    };
    // a new instance for each call
    for k in shuffled(seed() ^ 5) {
        let (l, a) = (k / na, k % na);
        let p = create(&locs[l].0, &locs[l].1).1;
        let r = match &p {
            Some(p) => select_as(p, &args[a].0, &args[a].1),
            None => "none",
        };
        note(k, r);
    }
    std::thread::scope(|s| {
        for id in 0..8u64 {
            let (shuffled, note, ask) = (&shuffled, &note, &ask);
            s.spawn(move || {
                for _ in 0..(if th { 6 } else { 1 }) {
                    for k in shuffled(seed().wrapping_mul(31).wrapping_add(id / 2)) {
                        note(k, ask(k));
                    }
                }
            });
        }
    });
    let differs = differs.into_inner().unwrap();
    let mut pick: Vec<usize> = differs.keys().copied().collect();
    pick.sort();
    pick.truncate(400);
    for _ in 0..(if th { 6000 } else { 900 }) {
        pick.push(rng.below(total as u64) as usize);
    }
    for l in 0..nl {
        pick.push(l * na + rng.below(na as u64) as usize);
    }
    pick.sort();
    pick.dedup();
    // the answers of fresh processes
    let res: Vec<Mutex<String>> = pick.iter().map(|_| Mutex::new(String::new())).collect();
    let next = AtomicUsize::new(0);
    let me = std::env::current_exe().unwrap();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j >= pick.len() {
                    break;
                }
                let (l, a) = (pick[j] / na, pick[j] % na);
                let o = process(&me).args(["call", "select", &locs[l].0, &locs[l].1, &args[a].0, &args[a].1]).output().expect("spawn");
                *res[j].lock().unwrap() = if o.status.success() { String::from_utf8_lossy(&o.stdout).into_owned() } else { "crash".into() };
            });
        }
    });
    let mut t = json!({"create": {}, "locale": {}, "locales": {}, "select": {}});
    let mut out = Out::create(&arg_req("out"));
    for (&k, r) in pick.iter().zip(res) {
        let (l, a) = (k / na, k % na);
        let path = [&locs[l].0, &locs[l].1, &args[a].0, &args[a].1];
        let mut v = &mut t["select"];
        for p in path {
            v = v.as_object_mut().unwrap().entry(p.clone()).or_insert_with(|| Value::Object(Map::new()));
        }
        *v = r.into_inner().unwrap().into();
        let mut seen = vec![first[k]];
        seen.extend(differs.get(&k).cloned().unwrap_or_default());
        for r in seen {
            out.ev(&json!({"pre": [[locs[l].0, locs[l].1]], "mode": "orders",
                "ev": [ev("select", 1, 0, &locs[l].0, &locs[l].1, &args[a].0, &args[a].1, r)]}));
        }
    }
    out.flush();
    std::fs::write(arg_req("table"), t.to_string()).unwrap();
    println!("STATS {}", json!({"evaluations": calls.load(Ordering::Relaxed), "events": out.n, "locales": nl, "arguments": na, "differing": differs.len(), "fresh": pick.len()}));
}
