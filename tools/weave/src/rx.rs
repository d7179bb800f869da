//! Regex literals: each `Regex::new("...")` in the woven text gets an axiom that
//! says what the literal means, as a term over the spec type `Rx`.  The literal is
//! parsed by regex-syntax, the parser the regex crate itself uses.
use regex_syntax::hir::{Class, Hir, HirKind, Look};

fn cls(c: &Class) -> Option<String> {
    let mut v: Vec<(u32, u32)> = vec![];
    match c {
        Class::Unicode(u) => for r in u.ranges() { v.push((r.start() as u32, r.end() as u32)); },
        Class::Bytes(b) => for r in b.ranges() { v.push((r.start() as u32, r.end() as u32)); },
    }
    if v.iter().any(|r| r.1 > 127) { return None; }
    Some(format!("seq![{}]", v.iter().map(|r| format!("({}u8, {}u8)", r.0, r.1)).collect::<Vec<_>>().join(", ")))
}

fn tr(h: &Hir) -> Option<String> {
    Some(match h.kind() {
        HirKind::Empty => "Rx::Eps".into(),
        HirKind::Literal(l) => {
            let mut parts: Vec<String> = vec![];
            for b in l.0.iter() {
                if *b > 127 { return None; }
                parts.push(format!("Rx::Cls(seq![({b}u8, {b}u8)])"));
            }
            join("Cat", parts)?
        }
        HirKind::Class(c) => format!("Rx::Cls({})", cls(c)?),
        HirKind::Look(Look::Start) => "Rx::Bot".into(),
        HirKind::Capture(c) => tr(&c.sub)?,
        HirKind::Repetition(r) => {
            if !r.greedy { return None; }
            match (r.min, r.max) {
                (0, Some(1)) => format!("Rx::Opt(Box::new({}))", tr(&r.sub)?),
                (m @ (0 | 1), None) => {
                    let c = match r.sub.kind() {
                        HirKind::Class(c) => cls(c)?,
                        HirKind::Literal(l) if l.0.len() == 1 && l.0[0] < 128 => format!("seq![({0}u8, {0}u8)]", l.0[0]),
                        _ => return None,
                    };
                    format!("Rx::Run({c}, {m}nat)")
                }
                _ => return None,
            }
        }
        HirKind::Concat(v) => {
            let mut parts = vec![];
            for x in v {
                // a literal inside a concatenation is flattened
                if let HirKind::Literal(l) = x.kind() {
                    for b in l.0.iter() {
                        if *b > 127 { return None; }
                        parts.push(format!("Rx::Cls(seq![({b}u8, {b}u8)])"));
                    }
                } else { parts.push(tr(x)?); }
            }
            join("Cat", parts)?
        }
        HirKind::Alternation(v) => join("Alt", v.iter().map(tr).collect::<Option<Vec<_>>>()?)?,
        _ => return None,
    })
}

fn join(op: &str, mut parts: Vec<String>) -> Option<String> {
    let mut acc = parts.pop()?;
    while let Some(p) = parts.pop() { acc = format!("Rx::{op}(Box::new({p}), Box::new({acc}))"); }
    Some(acc)
}

/// The meaning of a literal: that of a known literal matching the same texts in the same way, if
/// there is one; else its own syntax.
pub fn term(lit: &str) -> Option<String> {
    let own = tr(&regex_syntax::parse(lit).ok()?);
    for k in KNOWN {
        if *k == lit { return own; }
        if same(k, lit) { return tr(&regex_syntax::parse(k).ok()?); }
    }
    own
}

/// The literals the contracts speak of.
const KNOWN: &[&str] = &[
    r"\A[0-9]+", r"\A[+-]?[0-9]+", r"\A(?:true|false)", r"\A[01]+", r"\A[+-]?[01]+", r"\A[0-9A-Fa-f]+", r"\A[+-]?[0-9A-Fa-f]+",
    r"(?i)\A[+-]?(?:infinity|inf|nan|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:e[+-]?[0-9]+)?)",
];

/// Both patterns find the same match in every text: their leftmost-first automata report matches at
/// the same places on every input (all reachable pairs of states are visited).
fn same(a: &str, b: &str) -> bool {
    use regex_automata::{dfa::{dense, Automaton, StartKind}, util::start, Anchored, MatchKind};
    // matches start at the start of the text
    if [a, b].iter().any(|p| !regex_syntax::parse(p).map_or(false, |h| h.properties().look_set_prefix().contains(Look::Start))) { return false; }
    let build = |p: &str| dense::Builder::new()
        .configure(dense::Config::new().match_kind(MatchKind::LeftmostFirst).start_kind(StartKind::Unanchored).dfa_size_limit(Some(1 << 24)).determinize_size_limit(Some(1 << 24)))
        .build(p).ok();
    let (Some(x), Some(y)) = (build(a), build(b)) else { return false };
    if x.has_empty() || y.has_empty() { return false; }
    // the pattern is applied to the whole text: every search starts at its start
    let cfg = start::Config::new().anchored(Anchored::No);
    let (Ok(i), Ok(j)) = (x.start_state(&cfg), y.start_state(&cfg)) else { return false };
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(i, j)];
    while let Some((i, j)) = todo.pop() {
        if !seen.insert((i, j)) { continue; }
        if seen.len() > 1 << 16 { return false; }
        if x.is_quit_state(i) || y.is_quit_state(j) || x.is_match_state(i) != y.is_match_state(j) { return false; }
        // a dead state stops the search for good: it reports no further match
        for b in 0..=255u8 { todo.push((x.next_state(i, b), y.next_state(j, b))); }
        let (ei, ej) = (x.next_eoi_state(i), y.next_eoi_state(j));
        if x.is_match_state(ei) != y.is_match_state(ej) { return false; }
    }
    true
}

#[cfg(test)]
mod tests {
    #[test]
    fn equivalence() {
        use super::same;
        assert!(same(r"\A(?:true|false)", r"\A(?:false|true)"));
        assert!(same(r"\A[0-9]+", r"\A[0-9][0-9]*"));
        assert!(same(r"\A[0-9]+", r"^[0-9]{1,}"));
        assert!(!same(r"\A[0-9]+", r"\A\d+"));
        assert!(!same(r"\A[0-9]+", r"\A[0-9]+?"));
        assert!(!same(r"\A[0-9]+", r"\A[0-9]*"));
        assert!(!same(r"\A[0-9]+", r"[0-9]+"));
        assert!(!same(r"\A(?:infinity|inf)", r"\A(?:inf|infinity)"));
        assert!(same(r"\A(?:infinity|inf)", r"\Ainf(?:inity)?"));
        assert!(!same(r"\A[+-]?[0-9]+", r"\A[+]?[0-9]+"));
        assert!(!same(r"\A[0-9]+", r"(?m)^[0-9]+"));
    }
}

/// (source text of the literal, its value)
pub fn literals(text: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let mut pos = 0;
    while let Some(i) = text[pos..].find("Regex") {
        pos += i + 5;
        let r = text[pos..].trim_start();
        let Some(r) = r.strip_prefix("::") else { continue };
        let Some(r) = r.trim_start().strip_prefix("new") else { continue };
        let Some(r) = r.trim_start().strip_prefix('(') else { continue };
        let r = r.trim_start();
        // the literal ends at some quote; take the shortest prefix that is one
        for (j, _) in r.match_indices('"').skip(1) {
            let mut k = j + 1;
            while r[k..].starts_with('#') { k += 1; }
            if let Ok(l) = syn::parse_str::<syn::LitStr>(&r[..k]) {
                if !out.iter().any(|x| x.1 == l.value()) { out.push((r[..k].to_string(), l.value())); }
                break;
            }
        }
    }
    out
}

pub fn section(text: &str) -> String {
    let lits = literals(text);
    // the regex crate compiles what regex-syntax parses (size limits aside)
    let ok: Vec<&String> = lits.iter().filter(|l| regex_syntax::parse(&l.1).is_ok()).map(|l| &l.0).collect();
    let mut o = String::from("use vxre::*;\npub mod vxre {\nuse vstd::prelude::*;\n/// `pat` is accepted by the regex compiler.\npub uninterp spec fn re_valid(pat: Seq<char>) -> bool;\n/// Each of these literals is accepted by the regex compiler.\npub broadcast axiom fn axiom_re_valid(p: Seq<char>)\n    requires false");
    for l in ok { o.push_str(&format!(" || p == {l}@")); }
    o.push_str(",\n    ensures #[trigger] re_valid(p);\n}\n");
    o.push_str("/// What each literal matches.\naxiom fn axiom_re_literals()\n    ensures true,\n");
    for (src, val) in &lits {
        if let Some(t) = term(val) {
            o.push_str(&format!("        forall|t: Seq<u8>| #[trigger] re_find({src}@, t) == rx_find({t}, t),\n"));
        }
    }
    o.push_str(";\n");
    o
}
