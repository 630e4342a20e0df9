//! Questions about token patterns, answered from the patterns alone (no text is matched).
//! stdin: a JSON array of requests; stdout: a JSON array of answers.
//!   ["info", P]      -> {"ok": bool, "err": text, "tied": every alternative begins with \A, "min": shortest match, "shape": HIR without groups}
//!   ["same", P, Q]   -> {"same": bool, "witness": text}   equality of the two leftmost-first automata
use regex_automata::dfa::{dense, Automaton, StartKind};
use regex_automata::util::primitives::StateID;
use regex_automata::util::start;
use regex_automata::{Anchored, MatchKind};
use regex_syntax::hir::{Hir, HirKind, Look};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};

fn strip(h: &Hir) -> Hir {
    match h.kind() {
        HirKind::Empty => Hir::empty(),
        HirKind::Literal(l) => Hir::literal(l.0.clone()),
        HirKind::Class(c) => Hir::class(c.clone()),
        HirKind::Look(l) => Hir::look(*l),
        HirKind::Repetition(r) => {
            let mut r2 = r.clone();
            r2.sub = Box::new(strip(&r.sub));
            Hir::repetition(r2)
        }
        HirKind::Capture(c) => strip(&c.sub),
        HirKind::Concat(v) => Hir::concat(v.iter().map(strip).collect()),
        HirKind::Alternation(v) => Hir::alternation(v.iter().map(strip).collect()),
    }
}

fn info(p: &str) -> Value {
    match regex_syntax::parse(p) {
        Err(e) => json!({"ok": false, "err": e.to_string()}),
        Ok(h) => {
            let h = strip(&h);
            let pr = h.properties();
            json!({"ok": true, "tied": pr.look_set_prefix().contains(Look::Start), "min": pr.minimum_len(), "max": pr.maximum_len(),
                   "never": pr.minimum_len().is_none(), "shape": format!("{:?}", h)})
        }
    }
}

fn build(p: &str) -> Result<dense::DFA<Vec<u32>>, String> {
    dense::Builder::new()
        .configure(dense::Config::new().match_kind(MatchKind::LeftmostFirst).start_kind(StartKind::Anchored).minimize(false)
            .dfa_size_limit(Some(256 << 20)).determinize_size_limit(Some(256 << 20)))
        .build(p)
        .map_err(|e| e.to_string())
}

type Pair = (StateID, StateID);

fn word(from: &HashMap<Pair, Option<(Pair, u8)>>, mut k: Pair) -> String {
    let mut w: Vec<u8> = Vec::new();
    while let Some(Some((pk, c))) = from.get(&k) {
        w.push(*c);
        k = *pk;
    }
    w.reverse();
    String::from_utf8_lossy(&w).into_owned()
}

fn same(p: &str, q: &str) -> Value {
    if let (Ok(a), Ok(b)) = (regex_syntax::parse(p), regex_syntax::parse(q)) {
        if strip(&a) == strip(&b) {
            return json!({"same": true, "how": "shape"});
        }
    }
    let (a, b) = match (build(p), build(q)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return json!({"err": e}),
    };
    let cfg = start::Config::new().anchored(Anchored::Yes);
    let (sa, sb) = match (a.start_state(&cfg), b.start_state(&cfg)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return json!({"err": "start state"}),
    };
    let mut from: HashMap<Pair, Option<(Pair, u8)>> = HashMap::new();
    let mut q = VecDeque::new();
    from.insert((sa, sb), None);
    q.push_back((sa, sb));
    while let Some((x, y)) = q.pop_front() {
        if a.is_match_state(a.next_eoi_state(x)) != b.is_match_state(b.next_eoi_state(y)) {
            return json!({"same": false, "witness": word(&from, (x, y))});
        }
        if a.is_dead_state(x) && b.is_dead_state(y) {
            continue;
        }
        for c in 0..=255u8 {
            let k = (a.next_state(x, c), b.next_state(y, c));
            if a.is_quit_state(k.0) || b.is_quit_state(k.1) {
                return json!({"err": "quit state"});
            }
            if a.is_match_state(k.0) != b.is_match_state(k.1) {
                // matches are reported one byte late: this one ended before c
                return json!({"same": false, "witness": word(&from, (x, y))});
            }
            if !from.contains_key(&k) {
                if from.len() > 2_000_000 {
                    return json!({"err": "too many states"});
                }
                from.insert(k, Some(((x, y), c)));
                q.push_back(k);
            }
        }
    }
    json!({"same": true, "how": "automata", "states": from.len()})
}

fn main() {
    let reqs: Vec<Value> = serde_json::from_reader(std::io::stdin()).unwrap();
    let out: Vec<Value> = reqs
        .iter()
        .map(|r| match r[0].as_str().unwrap() {
            "info" => info(r[1].as_str().unwrap()),
            _ => same(r[1].as_str().unwrap(), r[2].as_str().unwrap()),
        })
        .collect();
    println!("{}", Value::Array(out));
}
