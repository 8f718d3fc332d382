//! C10-C13: the rule parser.  Texts: the sentences enumerated by the specification in several
//! spellings, random longer sentences, token and character mutations of both, hand-made oddities.
use crate::util::*;
use cldr_pluralrules_parser::ast::*;
use cldr_pluralrules_parser::{parse_plural_condition, parse_plural_rule};
use serde_json::{json, Value as J};
use std::collections::HashSet;

fn op_name(o: &Operator) -> &'static str {
    match o {
        Operator::In => "In",
        Operator::NotIn => "NotIn",
        Operator::Within => "Within",
        Operator::NotWithin => "NotWithin",
        Operator::Is => "Is",
        Operator::IsNot => "IsNot",
        Operator::EQ => "EQ",
        Operator::NotEQ => "NotEQ",
    }
}
fn operand_name(o: &Operand) -> &'static str {
    match o {
        Operand::N => "n",
        Operand::I => "i",
        Operand::V => "v",
        Operand::W => "w",
        Operand::F => "f",
        Operand::T => "t",
    }
}
pub fn cond_json(c: &Condition) -> J {
    J::Array(
        c.0.iter()
            .map(|a| {
                J::Array(
                    a.0.iter()
                        .map(|r| {
                            let l: Vec<J> = r
                                .range_list
                                .0
                                .iter()
                                .map(|it| match it {
                                    RangeListItem::Value(v) => json!({"lo": v.0.to_string(), "hi": v.0.to_string(), "rg": 0}),
                                    RangeListItem::Range(g) => json!({"lo": g.lower_val.0.to_string(), "hi": g.upper_val.0.to_string(), "rg": 1}),
                                })
                                .collect();
                            let m = r.expression.modulus.as_ref().map(|m| (m.0).0);
                            json!({"o": operand_name(&r.expression.operand), "hm": m.is_some() as i32,
                                   "m": m.unwrap_or(0).to_string(), "r": op_name(&r.operator), "l": l})
                        })
                        .collect(),
                )
            })
            .collect(),
    )
}
fn dec_json(d: Option<&DecimalValue>) -> J {
    match d {
        None => json!({"int": "0", "hf": 0, "fr": ""}),
        Some(d) => json!({"int": d.integer.0.to_string(), "hf": d.decimal.is_some() as i32,
                          "fr": d.decimal.as_ref().map(|v| v.0.to_string()).unwrap_or_default()}),
    }
}
fn list_json(l: Option<&SampleList>) -> J {
    match l {
        None => json!({"h": 0, "r": [], "e": 0}),
        Some(l) => json!({"h": 1, "e": l.ellipsis as i32, "r": l.sample_ranges.iter().map(|r| json!({
            "lo": dec_json(Some(&r.lower_val)), "rg": r.upper_val.is_some() as i32, "hi": dec_json(r.upper_val.as_ref())})).collect::<Vec<_>>()}),
    }
}
/// the specification knows blank, tab and one representative of all other white space
fn norm(text: &str) -> String {
    text.chars().map(|c| if c != ' ' && c != '\t' && c.is_whitespace() { '\n' } else { c }).collect()
}
type P<T> = Result<Result<T, String>, ()>;
fn run(text: &str) -> (P<Rule>, P<Condition>) {
    doing(text);
    (catch(|| parse_plural_rule(text)), catch(|| parse_plural_condition(text)))
}
fn event(text: &str, r: &P<Rule>, c: &P<Condition>) -> J {
    let mut m = serde_json::Map::new();
    m.insert("x".into(), norm(text).into());
    let none = list_json(None);
    let (ok, cond, si, sd, hs) = match r {
        Err(()) => (2, json!([]), none.clone(), none, 0),
        Ok(Err(_)) => (0, json!([]), none.clone(), none, 0),
        Ok(Ok(r)) => (
            1,
            cond_json(&r.condition),
            list_json(r.samples.as_ref().and_then(|s| s.integer.as_ref())),
            list_json(r.samples.as_ref().and_then(|s| s.decimal.as_ref())),
            r.samples.is_some() as i32,
        ),
    };
    m.insert("ok".into(), ok.into());
    m.insert("cond".into(), cond);
    m.insert("si".into(), si);
    m.insert("sd".into(), sd);
    m.insert("hs".into(), hs.into());
    let (cok, cc) = match c {
        Err(()) => (2, json!([])),
        Ok(Err(_)) => (0, json!([])),
        Ok(Ok(c)) => (1, cond_json(c)),
    };
    m.insert("cok".into(), cok.into());
    m.insert("ccond".into(), cc);
    J::Object(m)
}

// ---- building sentences
#[derive(Clone)]
struct Tok(String);
fn is_word(t: &str) -> bool {
    matches!(t, "and" | "or" | "mod" | "is" | "not" | "in" | "within" | "@integer" | "@decimal")
}
fn blank(rng: &mut Rng, min: u64) -> String {
    let n = min + if rng.below(60) == 0 { rng.below(80) } else { rng.below(3) };
    (0..n).map(|_| if rng.below(4) == 0 { '\t' } else { ' ' }).collect()
}
/// style 0: one blank between all tokens; 1: no blank where none is needed; 2: CLDR style; 3: random blanks and tabs
fn spell(toks: &[String], style: u32, rng: &mut Rng) -> String {
    let mut s = String::new();
    for (k, t) in toks.iter().enumerate() {
        let t: &str = t;
        if k > 0 {
            let p: &str = &toks[k - 1];
            let need = is_word(p) || is_word(t);
            match style {
                0 => s.push(' '),
                1 => {
                    if need {
                        s.push(' ')
                    }
                }
                2 => {
                    let tight = t == ".." || p == ".." || t == "," || t == "~" || p == "~" || (p == "," && !toks[..k].iter().any(|x| x.starts_with('@')));
                    if !tight {
                        s.push(' ')
                    }
                }
                _ => s.push_str(&blank(rng, need as u64)),
            }
        } else if style == 3 {
            s.push_str(&blank(rng, 0));
        }
        match t {
            "…" if style == 3 && rng.below(2) == 0 => s.push_str("..."),
            "%" if style == 3 && rng.below(4) == 0 => {
                // the other spelling needs blanks of its own
                if !s.ends_with(|c| c == ' ' || c == '\t') {
                    s.push(' ');
                }
                s.push_str("mod ");
            }
            _ => s.push_str(t),
        }
    }
    if style == 3 {
        s.push_str(&blank(rng, 0));
    }
    s
}
/// words that someone may take for one of the grammar's, and some of the grammar's
const WORDS: &[&str] = &["with", "within", "without", "between", "inside", "isn't", "isnt", "isnot", "notin", "not", "is", "in", "into", "equals", "equal to", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "AND", "OR",
    "And", "Or", "IS", "IN", "NOT", "MOD", "WITHIN", "&", "&&", "|", "||", "!", "~", "^", "xor", "but", "nor", "mod", "modulo", "modulus", "rem", "div", "/", "*", "+", "-", "==", "===", "<>", "<=", ">=", "<", ">", "=<", "≠",
    "≤", "!==", "=!", "!", ":", ";", "..", "...", "…", "‥", "–", "to", "till", "through", ",", ",,", ", ,", ". .", ".", "'", "\"", "(", ")", "()", "[", "]", "{", "}", "@", "@integer", "@decimal", "@integers", "@decimals", "@int",
    "@dec", "@Integer", "@INTEGER", "@samples", "@sample", "@float", "@ integer", "integer", "decimal", "#", "//", "/*", "--", "true", "false", "null", "other", "any", "all", "even", "odd", "e", "c", "p", "j", "N", "nn", "ni", "abs",
    "0x1", "1e3", "1_000", "1.0", "-1", "+1", "01", "\\", "$", "%", "%%", "‰", "n", "i", "v", "w", "f", "t", "1", "0", "10", "\r", "\n", "\r\n", "\u{b}", "\u{c}", "\u{feff}", "\u{200b}"];
fn number(rng: &mut Rng, dict: &[u64]) -> u64 {
    match rng.below(12) {
        0 => *rng.pick(dict),
        1 => rng.next(),
        2 => u64::MAX - rng.below(3),
        3 | 4 => rng.below(1000),
        _ => rng.below(20),
    }
}
/// a random rule: its tokens and the condition they denote
/// (size 1: somewhat longer; 2: very long in one respect; 3: thousands of parts)
fn sentence(rng: &mut Rng, dict: &[u64], size: u32) -> (Vec<String>, Condition) {
    let mut toks: Vec<String> = vec![];
    let mut ors: Vec<AndCondition> = vec![];
    let lim = if size == 1 { 12 } else { 4 };
    let mut lims = [lim, lim, lim];
    if size == 2 {
        lims = [2, 2, 3];
        lims[rng.below(3) as usize] = [20, 40, 70, 140, 300, 900][rng.below(6) as usize];
    }
    if size == 3 {
        lims = [2, 2, 3];
        lims[rng.below(3) as usize] = 8000;
    }
    let nor = 1 + rng.below(lims[0]);
    let (mut from, mut to) = (0, 0);
    for o in 0..nor {
        if o > 0 {
            toks.push("or".into());
            if rng.below(8) == 0 {
                // the same alternative once more
                let again = toks[from..to].to_vec();
                toks.extend(again);
                ors.push(ors[ors.len() - 1].clone());
                continue;
            }
        }
        from = toks.len();
        let mut ands: Vec<Relation> = vec![];
        let nand = 1 + rng.below(lims[1]);
        let mut rel = 0;
        for a in 0..nand {
            if a > 0 {
                toks.push("and".into());
                if rng.below(8) == 0 {
                    let again = toks[rel..toks.len() - 1].to_vec();
                    rel = toks.len();
                    toks.extend(again);
                    ands.push(ands[ands.len() - 1].clone());
                    continue;
                }
            }
            rel = toks.len();
            let k = rng.below(6);
            toks.push("nivwft".chars().nth(k as usize).unwrap().to_string());
            let operand = [Operand::N, Operand::I, Operand::V, Operand::W, Operand::F, Operand::T][k as usize].clone();
            let modulus = if rng.below(2) == 0 {
                toks.push((if rng.below(3) == 0 { "mod" } else { "%" }).into());
                let m = number(rng, dict);
                toks.push(m.to_string());
                Some(Modulo(Value(m as usize)))
            } else {
                None
            };
            let ops = [
                (Operator::EQ, "="), (Operator::NotEQ, "!="), (Operator::In, "in"), (Operator::NotIn, "not in"), (Operator::Is, "is"),
                (Operator::IsNot, "is not"), (Operator::Within, "within"), (Operator::NotWithin, "not within"),
            ];
            let (op, w) = rng.pick(&ops).clone();
            toks.extend(w.split(' ').map(|x| x.to_string()));
            let mut items: Vec<RangeListItem> = vec![];
            let mut item = 0;
            for j in 0..1 + rng.below(lims[2]) {
                if j > 0 {
                    toks.push(",".into());
                    if rng.below(8) == 0 {
                        let again = toks[item..toks.len() - 1].to_vec();
                        item = toks.len();
                        toks.extend(again);
                        items.push(items[items.len() - 1].clone());
                        continue;
                    }
                }
                item = toks.len();
                let lo = number(rng, dict);
                toks.push(if rng.below(20) == 0 { format!("{}{}", &"0".repeat(40)[..1 + rng.below(if size == 2 { 40 } else { 3 }) as usize], lo) } else { lo.to_string() });
                if rng.below(3) == 0 {
                    let hi = number(rng, dict);
                    toks.push("..".into());
                    toks.push(hi.to_string());
                    items.push(RangeListItem::Range(Range { lower_val: Value(lo as usize), upper_val: Value(hi as usize) }));
                } else {
                    items.push(RangeListItem::Value(Value(lo as usize)));
                }
            }
            ands.push(Relation { expression: Expression { operand, modulus }, operator: op, range_list: RangeList(items) });
        }
        to = toks.len();
        ors.push(AndCondition(ands));
    }
    (toks, Condition(ors))
}
fn dec(rng: &mut Rng, frac: bool) -> (String, DecimalValue) {
    let i = if rng.below(8) == 0 { rng.next() } else { rng.below(200) };
    if frac {
        let len = 1 + rng.below(5) as usize;
        let mut f = rng.digits(len);
        if rng.below(2) == 0 {
            // no zero in front
            f = format!("{}{}", 1 + rng.below(9), f);
        }
        let v = f.parse::<usize>().unwrap();
        (format!("{}.{}", i, f), DecimalValue { integer: Value(i as usize), decimal: Some(Value(v)) })
    } else {
        (i.to_string(), DecimalValue { integer: Value(i as usize), decimal: None })
    }
}
fn samples(rng: &mut Rng, toks: &mut Vec<String>) -> Option<Samples> {
    let which = rng.below(4);
    let mut out = Samples { integer: None, decimal: None };
    for (bit, word) in [(1, "@integer"), (2, "@decimal")] {
        if which & bit == 0 {
            continue;
        }
        toks.push(word.into());
        let mut rs = vec![];
        let most = if rng.below(60) == 0 { [20, 50, 150, 1000][rng.below(4) as usize] } else { 6 };
        for k in 0..1 + rng.below(most) {
            if k > 0 {
                toks.push(",".into());
            }
            let fr = if rng.below(6) == 0 { bit == 1 } else { bit == 2 };
            let (t, lo) = dec(rng, fr);
            toks.push(t);
            let hi = if rng.below(4) == 0 {
                let (t, hi) = dec(rng, fr);
                toks.push("~".into());
                toks.push(t);
                Some(hi)
            } else {
                None
            };
            rs.push(SampleRange { lower_val: lo, upper_val: hi });
        }
        let e = rng.below(2) == 0;
        if e {
            toks.push(",".into());
            toks.push("…".into());
        }
        let l = SampleList { sample_ranges: rs, ellipsis: e };
        if bit == 1 {
            out.integer = Some(l)
        } else {
            out.decimal = Some(l)
        }
    }
    if which == 0 {
        None
    } else {
        Some(out)
    }
}

/// mirror of RuleSpelling!Spells: does the tree spell the text?
fn spells(text: &str, r: &Rule) -> bool {
    let mut p: &str = text;
    fn skip(p: &mut &str) {
        *p = p.trim_start();
    }
    fn word(p: &mut &str, ws: &[&str]) -> bool {
        skip(p);
        for w in ws {
            if let Some(q) = p.strip_prefix(w) {
                *p = q;
                return true;
            }
        }
        false
    }
    fn num(p: &mut &str, v: &Value) -> bool {
        skip(p);
        let n = p.bytes().take_while(|b| b.is_ascii_digit()).count();
        if n == 0 {
            return false;
        }
        let ok = p[..n].parse::<usize>() == Ok(v.0);
        *p = &p[n..];
        ok
    }
    fn dec(p: &mut &str, d: &DecimalValue) -> bool {
        num(p, &d.integer) && match &d.decimal {
            None => true,
            Some(v) => word(p, &["."]) && num(p, v),
        }
    }
    fn list(p: &mut &str, w: &str, l: &Option<SampleList>) -> bool {
        match l {
            None => true,
            Some(l) => {
                if l.sample_ranges.is_empty() || !word(p, &[w]) {
                    return false;
                }
                for (k, r) in l.sample_ranges.iter().enumerate() {
                    if k > 0 && !word(p, &[","]) || !dec(p, &r.lower_val) {
                        return false;
                    }
                    if let Some(h) = &r.upper_val {
                        if !word(p, &["~"]) || !dec(p, h) {
                            return false;
                        }
                    }
                }
                !l.ellipsis || word(p, &[","]) && word(p, &["...", "…"])
            }
        }
    }
    for (k, a) in r.condition.0.iter().enumerate() {
        if k > 0 && !word(&mut p, &["or"]) || a.0.is_empty() {
            return false;
        }
        for (j, rel) in a.0.iter().enumerate() {
            if j > 0 && !word(&mut p, &["and"]) || !word(&mut p, &[operand_name(&rel.expression.operand)]) || rel.range_list.0.is_empty() {
                return false;
            }
            if let Some(m) = &rel.expression.modulus {
                if !word(&mut p, &["mod", "%"]) || !num(&mut p, &m.0) {
                    return false;
                }
            }
            let ws: &[&str] = match rel.operator {
                Operator::EQ => &["="],
                Operator::NotEQ => &["!="],
                Operator::In => &["in"],
                Operator::NotIn => &["not", "in"],
                Operator::Is => &["is"],
                Operator::IsNot => &["is", "not"],
                Operator::Within => &["within"],
                Operator::NotWithin => &["not", "within"],
            };
            for w in ws {
                if !word(&mut p, &[w]) {
                    return false;
                }
            }
            for (i, it) in rel.range_list.0.iter().enumerate() {
                if i > 0 && !word(&mut p, &[","]) {
                    return false;
                }
                let ok = match it {
                    RangeListItem::Value(v) => num(&mut p, v),
                    RangeListItem::Range(g) => num(&mut p, &g.lower_val) && word(&mut p, &[".."]) && num(&mut p, &g.upper_val),
                };
                if !ok {
                    return false;
                }
            }
        }
    }
    if let Some(s) = &r.samples {
        if s.integer.is_none() && s.decimal.is_none() || !list(&mut p, "@integer", &s.integer) || !list(&mut p, "@decimal", &s.decimal) {
            return false;
        }
    }
    p.trim().is_empty()
}

pub fn explore() {
    let mut out = Out::create(&arg_req("out"));
    let mut rng = Rng::new(seed() ^ 0x1010);
    let dict = dictionary();
    let mut dn = dict_numbers(&dict);
    dn.extend(edge_numbers());
    let th = thorough();
    start_watchdog(30);
    let sentences: Vec<Vec<String>> = std::fs::read_to_string(arg_req("sentences")).unwrap().lines()
        .map(|l| l.split(' ').filter(|x| !x.is_empty()).map(|x| if x == "..." { "…".to_string() } else { x.to_string() }).collect()).collect();
    let mut seen: HashSet<String> = HashSet::new();
    let mut evals = 0u64;
    let (mut bulk, mut bulk_bad) = (0u64, 0u64);
    let mut wf = 0u64;
    let mut put = |out: &mut Out, t: &str| {
        if seen.insert(t.to_string()) {
            let (r, c) = run(t);
            out.ev(&event(t, &r, &c));
            evals += 2;
        }
    };
    // every sentence of the specification; the other spellings in rotation
    for (k, s) in sentences.iter().enumerate() {
        let st = 1 + (k as u32 + seed() as u32) % 3;
        put(&mut out, &spell(s, st, &mut rng));
        wf += 1;
        if th || s.len() <= 6 || k % 4 == 0 {
            for st in 0..4 {
                put(&mut out, &spell(s, st, &mut rng));
                wf += 1;
            }
        }
    }
    for t in ["", " ", "\t", "\n", " \n\t ", "\u{a0}", "@integer 1", " @integer 1", "@decimal 1.5", "@integer", "@decimal", "@", "@@", "@foo", "@foo 1", "@integer1", "@integer 1 @integer 2",
        "@decimal 1.0 @integer 1", "n = 1 @", "n = 1 @integer", "n = 1 @integer ", "n = 1@integer 1", "n = 1 @integer 1,", "n = 1 @integer 1, ", "n = 1 @integer ,1", "n = 1 @integer …", "n = 1 @integer 1 …",
        "n = 1 @integer 1, …, 2", "n = 1 @integer 1, … 2", "n = 1 @integer 1~", "n = 1 @integer ~1", "n = 1 @integer 1~2~3", "n = 1 @integer 1 2", "n = 1 @decimal 1.", "n = 1 @decimal .5", "n = 1 @decimal 1.5.5", "n = 1 @decimal 1 . 5",
        "n = 1 @decimal 1. 5", "n = 1 @decimal 1 .5", "n = 1 @integer 1 @decimal 1.0 @decimal 2.0", "n = 1 @integer 1 n = 2", "n = 1 @integer 1 and n = 2", "n = 1 @integer 1 or n = 2",
        "n = 1 and", "n = 1 or", "and n = 1", "or n = 1", "n = 1 and and n = 2", "n = 1 or or n = 2", "n = 1 and or n = 2", "n = 1 n = 2", "n = 1and n = 2", "n = 1 andn = 2", "n = 1 orn = 2", "n = 1or n = 2", "n = 1 & n = 2", "n = 1 && n = 2", "n = 1 || n = 2", "n = 1, and n = 2",
        "n", "n =", "= 1", "1", "1 = n", "n 1", "n == 1", "n = = 1", "n ! = 1", "n !== 1", "n <> 1", "n > 1", "n < 1", "n <= 1", "n = n", "n = i", "x = 1", "N = 1", "a = 1", "e = 1", "c = 1", "nn = 1", "n i = 1", "ni = 1",
        "n %", "n % = 1", "n % 10", "n % 10 10 = 1", "n % 10 % 5 = 1", "n mod 10 mod 5 = 1", "n mod = 1", "n mod10 = 1", "nmod10 = 1", "n modulo 10 = 1", "n % n = 1", "n % 0 = 1", "n % -1 = 1", "% 10 = 1", "n * 10 = 1", "n / 10 = 1", "n MOD 10 = 1",
        "n = 1,", "n = ,1", "n = 1,,2", "n = 1, ,2", "n = 1 2", "n = 1;2", "n = 1..", "n = ..1", "n = 1..2..3", "n = 1...2", "n = 1. .2", "n = 1.2", "n = 1,2..", "n = 1-2", "n = 1~2", "n = 1…2", "n = 1, …", "n = 1..2, …", "n = 1, 2, ...", "n = -1", "n = +1", "n = 1.5", "n = 0x1", "n = 1e1", "n = １", "n = ٣",
        "n in", "n in 1", "n in 1..2", "nin 1", "n in1", "nin1", "n not 1", "n not = 1", "n not is 1", "n is in 1", "n is not in 1", "n is not", "n is", "n isnot 1", "n is not1", "n is1", "n is 1..2", "n is not 1,2", "n not in", "n notin 1", "n not  in 1", "n not\tin 1", "n not within 1..2", "n notwithin 1", "n within", "n within 1..2", "nwithin1", "n with in 1", "n IN 1", "n In 1", "n Is 1", "n NOT IN 1",
        "n = 1 AND i = 2", "n = 1 And i = 2", "n = 1 OR i = 2", "n = 1\nand i = 2", "n\n= 1", "\nn = 1\n", "n = 1\r\n", "n\u{a0}= 1", "\u{2003}n = 1", "n = 1\0", "\0n = 1", "n = 1 #", "n = 1 // x", "n = 1.", "n = 1;", "n = 1 )", "(n = 1)", "(n = 1) or i = 2", "not n = 1", "! n = 1", "n = 1 and not i = 2", "💯", "n = 💯", "n = 1 💯", "é", "n ＝ 1",
        "n = 18446744073709551615", "n = 18446744073709551616", "n = 99999999999999999999999999", "n % 18446744073709551616 = 1", "n = 1..18446744073709551616", "n = 18446744073709551616..1", "n = 1,18446744073709551616", "n = 1 and i = 18446744073709551616", "n = 1 or i = 18446744073709551616",
        "n = 1 @integer 18446744073709551616", "n = 1 @decimal 1.18446744073709551616", "n = 1 @integer 1~18446744073709551616", "n = 5..1", "n = 007", "n % 010 = 1", "true", "false", "other", "n = 1 and true", "everything", "n=1", "n!=1", "n%10=1", "n%10!=1,2..3", "i=1and v=0", "i = 1 and v = 0 ,", "i = 1 and v", "i = 1 and v = ", "i = 1 or v != ", "i = 1 and v = 0 and", "t = 0 and i % 10 = 1 and i % 100 != 11 or t != 0 and", "nivwft = 1"] {
        put(&mut out, t);
    }
    for t in &dict.strs {
        put(&mut out, t);
    }
    // CLDR's own rules
    for f in ["/repo/intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json", "/repo/intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json"] {
        if let Ok(v) = std::fs::read_to_string(f).map_err(|_| ()).and_then(|s| serde_json::from_str::<J>(&s).map_err(|_| ())) {
            for (_, x) in v["supplemental"].as_object().into_iter().flatten() {
                for (_, l) in x.as_object().into_iter().flatten() {
                    for (_, r) in l.as_object().into_iter().flatten() {
                        if let Some(r) = r.as_str() {
                            put(&mut out, r);
                        }
                    }
                }
            }
        }
    }
    // random longer sentences: bulk by the mirror, some recorded (of the long ones the shortest that differs)
    let mut long_bad: Option<(String, serde_json::Value)> = None;
    let rounds = if th { 3_000_000u64 } else { 150_000 };
    for k in 0..rounds {
        let (mut toks, cond) = if rng.below(12) == 0 { (vec![], Condition(vec![])) } else { sentence(&mut rng, &dn, if k % 10000 == 3 { 3 } else if k % 300 == 7 { 2 } else { (k % 50 == 0) as u32 }) };
        let sm = samples(&mut rng, &mut toks);
        let st = rng.below(4) as u32;
        let t = spell(&toks, st, &mut rng);
        let (r, c) = run(&t);
        bulk += 2;
        let good = matches!((&r, &c), (Ok(Ok(r)), Ok(Ok(c))) if r.condition == cond && *c == cond && r.samples == sm);
        if !good {
            bulk_bad += 1;
        }
        if (!good && bulk_bad < 2000 && t.len() < 600) || (k % (rounds / 1500) == 0 && t.len() < 400) {
            out.ev(&event(&t, &r, &c));
        } else if !good && long_bad.as_ref().map_or(true, |(u, _)| t.len() < u.len()) {
            let e = event(&t, &r, &c);
            long_bad = Some((t, e));
        }
    }
    if let Some((_, e)) = long_bad {
        out.ev(&e);
    }
    // mutations of sentences
    let chars: Vec<char> = "nivwft=!%.,~@ \t\n0123456789andorismothi…-+()xé".chars().collect();
    let words = ["n", "i", "v", "=", "!=", "in", "not", "within", "is", "and", "or", "mod", "%", "..", ",", "~", "…", "@integer", "@decimal", "1", "10", "1.5", "..."];
    let rounds = if th { 6_000_000u64 } else { 300_000 };
    let mut accepted = 0u64;
    for k in 0..rounds {
        let mut toks: Vec<String> = if rng.below(2) == 0 {
            rng.pick(&sentences).clone()
        } else {
            let (mut t, _) = sentence(&mut rng, &dn, 0);
            samples(&mut rng, &mut t);
            t
        };
        let st = rng.below(4) as u32;
        let t = if rng.below(2) == 0 {
            for _ in 0..1 + rng.below(2) {
                let p = rng.below(toks.len() as u64 + 1) as usize;
                match rng.below(5) {
                    0 if p < toks.len() => {
                        toks.remove(p);
                    }
                    1 if p < toks.len() => {
                        let x = toks[p].clone();
                        toks.insert(p, x);
                    }
                    2 if p + 1 < toks.len() => toks.swap(p, p + 1),
                    3 if p < toks.len() => toks[p] = rng.pick(&words).to_string(),
                    _ => toks.insert(p, rng.pick(&words).to_string()),
                }
            }
            spell(&toks, st, &mut rng)
        } else {
            let mut s: Vec<char> = spell(&toks, st, &mut rng).chars().collect();
            for _ in 0..1 + rng.below(2) {
                let p = rng.below(s.len() as u64 + 1) as usize;
                match rng.below(4) {
                    0 if p < s.len() => {
                        s.remove(p);
                    }
                    1 if p < s.len() => s[p] = *rng.pick(&chars),
                    2 if p < s.len() => s.truncate(p),
                    _ => s.insert(p, *rng.pick(&chars)),
                }
            }
            s.into_iter().collect()
        };
        let (r, c) = run(&t);
        bulk += 2;
        let good = match (&r, &c) {
            (Err(()), _) | (_, Err(())) => false,
            (Ok(Ok(r)), Ok(Ok(c))) => {
                accepted += 1;
                spells(&t, r) && r.condition == *c
            }
            (Ok(Ok(_)), Ok(Err(_))) => false,
            (Ok(Err(_)), Ok(Ok(_))) => false, // rare: text before @ is fine, the rest is not
            (Ok(Err(_)), Ok(Err(_))) => true,
        };
        if !good {
            bulk_bad += 1;
        }
        if t.len() < 600 && (!good && bulk_bad < 6000 && (k % 8 == 0 || !matches!((&r, &c), (Ok(Err(_)), Ok(Ok(_)))))) || k % (rounds / 3000) == 0 {
            out.ev(&event(&t, &r, &c));
        }
    }
    // every edit of one and two characters (all of ASCII and some others) at every place of a few sentences
    let alpha: Vec<char> = (32u8..127).map(|b| b as char).chain("\t\n\0…\u{a0}\u{3000}×≠≤–−éＮ１٣".chars()).collect();
    let bases = ["n = 1", "i = 1 and v = 0 or f != 2..3,5", "n mod 10 is not 1 @integer 1, 2~5, … @decimal 1.5, 0.0~1.5", "t % 10 not in 1..2 or w within 3",
        "@integer 0, 10~16, … @decimal 0.0", "n=1@integer 1"];
    let (mut edits, mut recorded) = (0u64, 0u64);
    let mut judge_text = |t: &str, out: &mut Out| {
        let (r, c) = run(t);
        edits += 2;
        let good = match (&r, &c) {
            (Ok(Ok(r)), Ok(Ok(c))) => spells(t, r) && r.condition == *c,
            (Ok(Err(_)), Ok(Err(_))) => true,
            // the two disagree: rightly when it is the samples that are wrong
            (Ok(Err(_)), Ok(Ok(_))) => edits % 512 != 0,
            _ => false,
        };
        if !good {
            bulk_bad += 1;
            recorded += 1;
            if recorded < 3000 {
                out.ev(&event(t, &r, &c));
            }
        }
    };
    for (b, base) in bases.iter().enumerate() {
        let cs: Vec<char> = base.chars().collect();
        let of = |x: &[char]| -> String { x.iter().collect() };
        // every part left out, doubled, reversed or replaced; every two characters exchanged
        for p in 0..cs.len() {
            for q in p + 1..=cs.len() {
                let (head, part, tail) = (of(&cs[..p]), of(&cs[p..q]), of(&cs[q..]));
                judge_text(&format!("{}{}", head, tail), &mut out);
                judge_text(&format!("{}{}{}{}", head, part, part, tail), &mut out);
                judge_text(&format!("{}{}{}", head, part.chars().rev().collect::<String>(), tail), &mut out);
                judge_text(&format!("{}{}{}", head, part.to_uppercase(), tail), &mut out);
                judge_text(&part, &mut out);
                let mut x = cs.clone();
                x.swap(p, q - 1);
                judge_text(&of(&x), &mut out);
                if q - p < 9 {
                    for w in WORDS {
                        judge_text(&format!("{}{}{}", head, w, tail), &mut out);
                    }
                }
            }
        }
        for p in 0..=cs.len() {
            for w in WORDS {
                judge_text(&format!("{}{}{}", of(&cs[..p]), w, of(&cs[p..])), &mut out);
                judge_text(&format!("{} {} {}", of(&cs[..p]), w, of(&cs[p..])), &mut out);
            }
        }
        for p in 0..=cs.len() {
            let (head, tail): (String, String) = (cs[..p].iter().collect(), cs[p..].iter().collect());
            let rest: String = cs[p..].iter().skip(1).collect();
            for a in &alpha {
                judge_text(&format!("{}{}{}", head, a, tail), &mut out);
                judge_text(&format!("{}{}{}", head, a, rest), &mut out);
                for c2 in &alpha {
                    let all = b == 0 || th;
                    if all || rng.below(12) == 0 || c2.is_ascii_digit() && a.is_ascii_alphabetic() {
                        judge_text(&format!("{}{}{}{}", head, a, c2, tail), &mut out);
                    }
                    if all || rng.below(24) == 0 {
                        judge_text(&format!("{}{}{}{}", head, a, c2, rest), &mut out);
                    }
                }
            }
        }
    }
    bulk += edits;
    stop_watch();
    out.flush();
    println!("STATS {}", json!({"evaluations": evals + bulk, "events": out.n, "spec_sentences": sentences.len(), "spellings": wf,
        "mutants_accepted": accepted, "screened_out": bulk_bad}));
}
