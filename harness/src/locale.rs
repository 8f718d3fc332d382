//! C08: locale lists and creation of rules for every kind of language identifier.
use crate::util::*;
use intl_pluralrules::PluralRules;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use unic_langid::LanguageIdentifier;

const PROBES: [&str; 40] = [
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "18", "19", "20", "21", "22", "23", "40", "43", "63", "80", "83", "91", "100",
    "101", "102", "111", "800", "1000", "1000000", "0.0", "0.1", "1.0", "1.1", "1.5", "2.0", "10.2",
];

pub fn explore() {
    let mut out = Out::create(&arg_req("out"));
    let cldr: BTreeSet<String> = serde_json::from_str::<Value>(&std::fs::read_to_string(arg_req("locales")).unwrap())
        .unwrap()
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_str().unwrap().to_string())
        .collect();
    start_watchdog(20);
    let th = thorough();
    let mut rng = Rng::new(seed() ^ 0x808);
    let mut ids: BTreeSet<String> = BTreeSet::new();
    let mut listed: BTreeSet<String> = cldr.clone();
    for ty in ["cardinal", "ordinal"] {
        match catch(|| PluralRules::get_locales(rule_type(ty))) {
            Ok(v) => {
                let locs: Vec<String> = v.iter().map(|l| l.to_string()).collect();
                listed.extend(locs.iter().cloned());
                out.ev(&json!({"k": "list", "ty": ty, "locs": locs}));
            }
            Err(()) => out.ev(&json!({"k": "list", "ty": ty, "locs": ["panic"]})),
        }
    }
    ids.extend(listed.iter().cloned());
    let letters: Vec<char> = ('a'..='z').collect();
    for a in &letters {
        for b in &letters {
            ids.insert(format!("{}{}", a, b));
            for c in &letters {
                ids.insert(format!("{}{}{}", a, b, c));
            }
        }
    }
    // longer languages, among them extensions of listed ones
    for l in &listed {
        let base = l.split('-').next().unwrap();
        for s in ["aaa", "zz", "xyz", "abcde", "a", "z"] {
            let t = format!("{}{}", base, s);
            if t.len() != 4 && t.len() <= 8 {
                ids.insert(t);
            }
        }
    }
    for _ in 0..(if th { 200_000 } else { 3_000 }) {
        let n = 5 + rng.below(4);
        ids.insert((0..n).map(|_| *rng.pick(&letters)).collect());
    }
    let scripts = ["Latn", "Cyrl", "Arab", "Hans", "Hant", "Deva", "Aaaa", "Zzzz", "Grek"];
    let regions = ["US", "PT", "BR", "GB", "AA", "ZZ", "001", "419", "999", "CN", "RS", "IN"];
    let variants = ["valencia", "macos", "1996", "fonipa", "posix", "tarask", "scotland"];
    let mut bases: BTreeSet<String> = listed.iter().map(|l| l.split('-').next().unwrap().to_string()).collect();
    bases.insert("und".into());
    bases.insert("xx".into());
    bases.insert("root".into());
    for b in &bases {
        if b.len() == 4 {
            continue;
        }
        ids.insert(b.clone());
        for s in scripts {
            ids.insert(format!("{}-{}", b, s));
            let rs: &[&str] = if th { &regions } else { &regions[..3] };
            for r in rs {
                ids.insert(format!("{}-{}-{}", b, s, r));
            }
            ids.insert(format!("{}-{}-{}", b, s, variants[0]));
        }
        for r in regions {
            ids.insert(format!("{}-{}", b, r));
            ids.insert(format!("{}-{}-{}", b, r, variants[1]));
        }
        for v in variants {
            ids.insert(format!("{}-{}", b, v));
        }
        ids.insert(format!("{}-Latn-US-valencia-macos", b));
        // several variants, with and without script and region
        for n in 2..7 {
            let vs = variants.iter().cycle().skip(b.len() + n).take(n).cloned().collect::<Vec<_>>().join("-");
            for mid in ["", "-Latn", "-US", "-419", "-Cyrl-RS"] {
                ids.insert(format!("{}{}-{}", b, mid, vs));
            }
        }
        for r in ["aaaaa", "zzzzz", "abcdefgh", "0000", "9zzz", "1a2b", "1abcdefg", "a1b2c3d4"] {
            ids.insert(format!("{}-{}", b, r));
            ids.insert(format!("{}-PT-{}", b, r));
        }
        // every letter pair as region, for the bases that have regional rules and a few others
        if listed.iter().any(|l| l.starts_with(&format!("{}-", b))) || b == "en" || b == "und" || th {
            for x in &letters {
                for y in &letters {
                    ids.insert(format!("{}-{}{}", b, x.to_ascii_uppercase(), y.to_ascii_uppercase()));
                }
            }
            for n in (0..1000).step_by(if th { 1 } else { 37 }) {
                ids.insert(format!("{}-{:03}", b, n));
            }
        }
    }
    let mut calls = 0u64;
    let mut seen = BTreeSet::new();
    for s in &ids {
        let id: LanguageIdentifier = match s.parse() {
            Ok(i) => i,
            Err(_) => continue,
        };
        let canon = id.to_string();
        if !seen.insert(canon.clone()) {
            continue;
        }
        for ty in ["cardinal", "ordinal"] {
            doing(&canon);
            let id = id.clone();
            let r = catch(|| PluralRules::create(id, rule_type(ty)));
            calls += 1;
            let ev = match r {
                Err(()) => json!({"k": "create", "ty": ty, "loc": canon, "ok": 2, "got": "", "ps": []}),
                Ok(Err(_)) => json!({"k": "create", "ty": ty, "loc": canon, "ok": 0, "got": "", "ps": []}),
                Ok(Ok(pr)) => {
                    let got = pr.get_locale().to_string();
                    let ps: Vec<Value> = PROBES
                        .iter()
                        .map(|x| {
                            calls += 1;
                            json!([x, match catch(|| pr.select(*x)) {
                                Ok(Ok(c)) => cat_name(&c),
                                Ok(Err(_)) => "error",
                                Err(()) => "panic",
                            }])
                        })
                        .collect();
                    json!({"k": "create", "ty": ty, "loc": canon, "ok": 1, "got": got, "ps": ps})
                }
            };
            out.ev(&ev);
        }
    }
    stop_watch();
    out.flush();
    println!("STATS {}", json!({"evaluations": calls, "events": out.n, "identifiers": seen.len()}));
}
