//! C21: the parser, the operand conversions and the generator as functions of their arguments.
//! A plan is a list of calls [function, argument]; the expected answers come from `purecall`,
//! run once per call in a process of its own.
use crate::util::*;
use intl_pluralrules::operands::PluralOperands;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Mutex};

#[derive(Clone)]
struct Call {
    f: String,
    x: Vec<String>,
}
fn load(path: &str) -> Vec<Call> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    v.as_array().unwrap().iter().map(|c| Call {
        f: c[0].as_str().unwrap().into(),
        x: c[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
    }).collect()
}
fn hash(t: &str) -> String {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    format!("{:x}", h.finish())
}
fn shown<T: std::fmt::Debug, E>(r: Result<Result<T, E>, ()>) -> String {
    match r {
        Ok(Ok(x)) => hash(&format!("{:?}", x)),
        Ok(Err(_)) => "error".into(),
        Err(()) => "panic".into(),
    }
}
fn number<T: std::str::FromStr>(x: &str) -> String
where
    PluralOperands: TryFrom<T>,
{
    match x.parse::<T>() {
        Ok(y) => shown(catch(|| PluralOperands::try_from(y))),
        Err(_) => "not of this type".into(),
    }
}
thread_local!(static BUF: std::cell::RefCell<String> = std::cell::RefCell::new(String::with_capacity(65536)));
fn ask(c: &Call) -> String {
    // always the same buffer of the thread: an address says nothing about the text
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        b.push_str(&c.x[0]);
        answer(c, &b)
    })
}
fn answer(c: &Call, x: &String) -> String {
    doing(&c.f);
    match c.f.as_str() {
        "rule" => shown(catch(|| cldr_pluralrules_parser::parse_plural_rule(x.as_str()))),
        "ruleS" => shown(catch(|| cldr_pluralrules_parser::parse_plural_rule(x.clone()))),
        "cond" => shown(catch(|| cldr_pluralrules_parser::parse_plural_condition(x.as_str()))),
        "condS" => shown(catch(|| cldr_pluralrules_parser::parse_plural_condition(x.clone()))),
        "ops" => shown(catch(|| PluralOperands::try_from(x.as_str()))),
        "opsS" => shown(catch(|| PluralOperands::try_from(x.clone()))),
        "i8" => number::<i8>(x),
        "u8" => number::<u8>(x),
        "i32" => number::<i32>(x),
        "u64" => number::<u64>(x),
        "i64" => number::<i64>(x),
        "usize" => number::<usize>(x),
        "f32" => number::<f32>(x),
        "f64" => number::<f64>(x),
        "gen" => match catch(|| make_pluralrules::generate_rs(&c.x)) {
            Ok(t) => hash(&t),
            Err(()) => "refused".into(),
        },
        f => panic!("function {}", f),
    }
}

pub fn call() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = load(&a[2]);
    print!("{}", ask(&c.swap_remove(a[3].parse().unwrap())));
}

pub fn run() {
    start_watchdog(60);
    let plan = arg_req("plan");
    let calls = load(&plan);
    let th = thorough();
    // the answers of fresh processes
    let res: Vec<Mutex<String>> = calls.iter().map(|_| Mutex::new(String::new())).collect();
    let next = AtomicUsize::new(0);
    let me = std::env::current_exe().unwrap();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= calls.len() {
                    break;
                }
                doing(&calls[k].x.join("\n"));
                let o = process(&me).args(["purecall", &plan, &k.to_string()]).output().expect("spawn");
                *res[k].lock().unwrap() = if o.status.success() { String::from_utf8_lossy(&o.stdout).into() } else { "crash".into() };
            });
        }
    });
    let table: Vec<String> = res.into_iter().map(|m| m.into_inner().unwrap()).collect();
    std::fs::write(arg_req("table"), serde_json::to_string(&table).unwrap()).unwrap();
    let out = Mutex::new(Out::create(&arg_req("out")));
    let count = AtomicU64::new(0);
    // behaviours of the specification: each thread of them is a thread here
    let text = std::fs::read_to_string(arg_req("behaviours")).unwrap();
    for line in text.lines() {
        let b: Vec<Value> = serde_json::from_str(line).unwrap();
        let evs = std::thread::scope(|s| {
            let (back, got) = mpsc::channel::<(usize, String)>();
            let mut to: Vec<mpsc::Sender<usize>> = vec![];
            for t in 0..4usize {
                let (tx, rx) = mpsc::channel::<usize>();
                to.push(tx);
                let (back, calls) = (back.clone(), &calls);
                s.spawn(move || {
                    while let Ok(k) = rx.recv() {
                        if back.send((t, ask(&calls[k]))).is_err() {
                            break;
                        }
                    }
                });
            }
            let mut have: Vec<Option<String>> = vec![None; 4];
            let mut evs = vec![];
            for e in &b {
                let t = e["t"].as_u64().unwrap() as usize - 1;
                let c = e["c"].as_u64().unwrap() as usize;
                if c > 0 {
                    to[t].send(c - 1).unwrap();
                    evs.push(json!({"t": t + 1, "c": c, "r": ""}));
                } else {
                    while have[t].is_none() {
                        let (u, r) = got.recv().unwrap();
                        have[u] = Some(r);
                    }
                    count.fetch_add(1, Ordering::Relaxed);
                    evs.push(json!({"t": t + 1, "c": 0, "r": have[t].take().unwrap()}));
                }
            }
            drop(to);
            evs
        });
        out.lock().unwrap().ev(&json!({"mode": "replay", "ev": evs}));
    }
    // walks: a call now and then repeated, or the same argument through another function
    let suspects = AtomicU64::new(0);
    let walk = |id: u64, rounds: u64, mode: &str| {
        let mut rng = Rng::new(seed().wrapping_mul(6007).wrapping_add(id));
        let mut recent: Vec<usize> = vec![0];
        for k in 0..rounds {
            let mut c = match rng.below(4) {
                0 => *rng.pick(&recent),
                1 => (*rng.pick(&recent) + 1) % calls.len(),
                _ => rng.below(calls.len() as u64) as usize,
            };
            // the generator is slow
            if calls[c].f == "gen" && rng.below(8) > 0 {
                c = rng.below(calls.len() as u64) as usize;
            }
            let r = ask(&calls[c]);
            if recent.len() >= 6 {
                recent.remove(0);
            }
            recent.push(c);
            let good = r == table[c];
            if !good || k % (rounds / 40).max(1) == 0 {
                if !good && suspects.fetch_add(1, Ordering::Relaxed) >= 100 {
                    break;
                }
                out.lock().unwrap().ev(&json!({"mode": mode, "before": recent, "f": calls[c].f, "x": calls[c].x[0].chars().filter(char::is_ascii).take(2000).collect::<String>(), "ev": [{"t": 1, "c": c + 1, "r": ""}, {"t": 1, "c": 0, "r": r}]}));
            }
        }
        count.fetch_add(rounds, Ordering::Relaxed);
    };
    walk(0, if th { 4_000_000 } else { 150_000 }, "walk");
    let walk = &walk;
    std::thread::scope(|s| {
        for id in 1..=8u64 {
            s.spawn(move || walk(id, if th { 3_000_000 } else { 100_000 }, "threads"));
        }
    });
    stop_watch();
    // the other type of string
    for (k, c) in calls.iter().enumerate() {
        if c.f.ends_with('S') {
            let f = &c.f[..c.f.len() - 1];
            if let Some(j) = (k.saturating_sub(6)..k).find(|&j| calls[j].f == f && calls[j].x == c.x) {
                out.lock().unwrap().ev(&json!({"mode": "twins", "a": j + 1, "b": k + 1, "x": c.x[0].chars().filter(char::is_ascii).collect::<String>(), "f": f}));
            }
        }
    }
    out.lock().unwrap().flush();
    let n = out.lock().unwrap().n;
    println!("STATS {}", json!({"evaluations": count.load(Ordering::Relaxed), "fresh": calls.len(), "events": n}));
}
