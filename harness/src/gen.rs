//! C16, C18, C19: generate_rs in process.  Requests (NDJSON): id, files (contents), times, full.
//! Answers: id, ok (1 output, 0 refused), same (every run gave the same), h (hash of the output),
//! out (the text, when full), len.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::BufRead;

pub fn run() {
    start_watchdog(20);
    let reqs: Vec<Value> = std::io::BufReader::new(std::fs::File::open(arg_req("requests")).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let mut out = Out::create(&arg_req("out"));
    let mut evaluations = 0u64;
    for r in &reqs {
        let files: Vec<String> = r["files"].as_array().unwrap().iter().map(|f| f.as_str().unwrap().to_string()).collect();
        doing(&files.join("\n"));
        let mut first: Option<Result<String, ()>> = None;
        let mut same = true;
        for _ in 0..r["times"].as_u64().unwrap_or(1) {
            evaluations += 1;
            let g = catch(|| make_pluralrules::generate_rs(&files));
            match &first {
                None => first = Some(g),
                Some(f) => same &= *f == g,
            }
        }
        let g = first.unwrap();
        let mut h = DefaultHasher::new();
        g.as_ref().ok().hash(&mut h);
        let text = g.clone().unwrap_or_default();
        let flat: String = text.split_whitespace().collect();
        let has = |p: &str| flat.contains(p) as i32;
        let version: String = flat
            .split("CLDR_VERSION:usize=")
            .nth(1)
            .map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect())
            .unwrap_or_default();
        let mut a = json!({"id": r["id"], "ok": g.is_ok() as i32, "same": same as i32, "h": format!("{:x}", h.finish()),
            "len": text.len(), "card": has("constPRS_CARDINAL:"), "ord": has("constPRS_ORDINAL:"), "version": version});
        if r["full"].as_bool() == Some(true) {
            a["out"] = text.into();
        }
        out.ev(&a);
    }
    out.flush();
    println!("STATS {}", json!({"evaluations": evaluations}));
}
