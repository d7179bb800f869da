//! A small macro_rules expander for the item-position macros of the crate.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Bind {
    One(Vec<TokenTree>),
    Many(Vec<HashMap<String, Bind>>),
}
type Binds = HashMap<String, Bind>;

#[derive(Clone)]
pub struct MacroDef {
    pub rules: Vec<(Vec<TokenTree>, Vec<TokenTree>)>,
}

pub fn parse_def(ts: TokenStream) -> Option<MacroDef> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut rules = vec![];
    while i < toks.len() {
        let pat = match &toks[i] {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => return None,
        };
        // =>
        i += 3;
        let body = match toks.get(i)? {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => return None,
        };
        i += 1;
        if let Some(TokenTree::Punct(p)) = toks.get(i) {
            if p.as_char() == ';' {
                i += 1;
            }
        }
        rules.push((pat, body));
    }
    Some(MacroDef { rules })
}

fn is_punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        _ => a.to_string() == b.to_string(),
    }
}

// $( ... ) sep? op : returns (inner, sep, op, next index)
fn rep_at(p: &[TokenTree], i: usize) -> Option<(Vec<TokenTree>, Option<TokenTree>, char, usize)> {
    if i + 1 >= p.len() || !is_punct(&p[i], '$') {
        return None;
    }
    let g = match &p[i + 1] {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => g,
        _ => return None,
    };
    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
    let mut j = i + 2;
    let is_op = |t: &TokenTree| is_punct(t, '*') || is_punct(t, '+') || is_punct(t, '?');
    if j < p.len() && is_op(&p[j]) {
        let c = p[j].to_string().chars().next()?;
        return Some((inner, None, c, j + 1));
    }
    let sep = p.get(j)?.clone();
    j += 1;
    let c = p.get(j)?.to_string().chars().next()?;
    Some((inner, Some(sep), c, j + 1))
}

fn match_frag(kind: &str, inp: &[TokenTree], stop: Option<&TokenTree>) -> Option<usize> {
    if inp.is_empty() {
        return None;
    }
    match kind {
        "ident" => matches!(inp[0], TokenTree::Ident(_)).then_some(1),
        "tt" => Some(1),
        "literal" => matches!(inp[0], TokenTree::Literal(_)).then_some(1),
        "expr" | "ty" | "path" | "pat" => {
            let mut n = 0;
            while n < inp.len() {
                if let Some(s) = stop {
                    if same(&inp[n], s) {
                        break;
                    }
                }
                n += 1;
            }
            (n > 0).then_some(n)
        }
        _ => None,
    }
}

fn do_match(p: &[TokenTree], inp: &[TokenTree]) -> Option<(Binds, usize)> {
    let mut b: Binds = HashMap::new();
    let mut i = 0;
    let mut k = 0;
    while i < p.len() {
        if let Some((inner, sep, op, next)) = rep_at(p, i) {
            let mut reps = vec![];
            loop {
                if op == '?' && reps.len() == 1 {
                    break;
                }
                let mut kk = k;
                if !reps.is_empty() {
                    if let Some(s) = &sep {
                        if kk < inp.len() && same(&inp[kk], s) {
                            kk += 1;
                        } else {
                            break;
                        }
                    }
                }
                match do_match(&inner, &inp[kk..]) {
                    Some((bb, n)) if n > 0 => {
                        reps.push(bb);
                        k = kk + n;
                    }
                    _ => break,
                }
            }
            if op == '+' && reps.is_empty() {
                return None;
            }
            // register names
            let mut names = vec![];
            collect_names(&inner, &mut names);
            for n in names {
                b.insert(n, Bind::Many(reps.clone()));
            }
            i = next;
            continue;
        }
        if is_punct(&p[i], '$') && i + 3 < p.len() + 0 && matches!(p[i + 1], TokenTree::Ident(_)) && is_punct(&p[i + 2], ':') {
            let name = p[i + 1].to_string();
            let kind = p[i + 3].to_string();
            let stop = p.get(i + 4);
            let n = match_frag(&kind, &inp[k..], stop)?;
            b.insert(name, Bind::One(inp[k..k + n].to_vec()));
            k += n;
            i += 4;
            continue;
        }
        match (&p[i], inp.get(k)) {
            (TokenTree::Group(pg), Some(TokenTree::Group(ig))) if pg.delimiter() == ig.delimiter() => {
                let pi: Vec<_> = pg.stream().into_iter().collect();
                let ii: Vec<_> = ig.stream().into_iter().collect();
                let (bb, n) = do_match(&pi, &ii)?;
                if n != ii.len() {
                    return None;
                }
                b.extend(bb);
                k += 1;
                i += 1;
            }
            (a, Some(c)) if same(a, c) => {
                k += 1;
                i += 1;
            }
            _ => return None,
        }
    }
    Some((b, k))
}

fn collect_names(p: &[TokenTree], out: &mut Vec<String>) {
    let mut i = 0;
    while i < p.len() {
        if is_punct(&p[i], '$') && i + 2 < p.len() && matches!(p[i + 1], TokenTree::Ident(_)) && is_punct(&p[i + 2], ':') {
            out.push(p[i + 1].to_string());
            i += 4;
            continue;
        }
        if let TokenTree::Group(g) = &p[i] {
            let v: Vec<_> = g.stream().into_iter().collect();
            collect_names(&v, out);
        }
        i += 1;
    }
}

fn used_names(body: &[TokenTree], out: &mut Vec<String>) {
    let mut i = 0;
    while i < body.len() {
        if is_punct(&body[i], '$') {
            if let Some(TokenTree::Ident(id)) = body.get(i + 1) {
                out.push(id.to_string());
                i += 2;
                continue;
            }
        }
        if let TokenTree::Group(g) = &body[i] {
            let v: Vec<_> = g.stream().into_iter().collect();
            used_names(&v, out);
        }
        i += 1;
    }
}

fn transcribe(body: &[TokenTree], b: &Binds) -> Option<Vec<TokenTree>> {
    let mut out = vec![];
    let mut i = 0;
    while i < body.len() {
        if let Some((inner, sep, _op, next)) = rep_at(body, i) {
            let mut names = vec![];
            used_names(&inner, &mut names);
            let reps = names.iter().find_map(|n| match b.get(n) {
                Some(Bind::Many(v)) => Some(v.clone()),
                _ => None,
            })?;
            for idx in 0..reps.len() {
                if idx > 0 {
                    if let Some(s) = &sep {
                        out.push(s.clone());
                    }
                }
                let mut bb = b.clone();
                for n in &names {
                    if let Some(Bind::Many(v)) = b.get(n) {
                        if let Some(x) = v.get(idx).and_then(|m| m.get(n)) {
                            bb.insert(n.clone(), x.clone());
                        }
                    }
                }
                out.extend(transcribe(&inner, &bb)?);
            }
            i = next;
            continue;
        }
        if is_punct(&body[i], '$') {
            if let Some(TokenTree::Ident(id)) = body.get(i + 1) {
                if let Some(Bind::One(v)) = b.get(&id.to_string()) {
                    out.extend(v.clone());
                    i += 2;
                    continue;
                }
            }
        }
        match &body[i] {
            TokenTree::Group(g) => {
                let v: Vec<_> = g.stream().into_iter().collect();
                let t = transcribe(&v, b)?;
                out.push(TokenTree::Group(Group::new(g.delimiter(), t.into_iter().collect())));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Some(out)
}

pub fn expand(def: &MacroDef, input: TokenStream) -> Option<TokenStream> {
    let inp: Vec<TokenTree> = input.into_iter().collect();
    for (p, body) in &def.rules {
        if let Some((b, n)) = do_match(p, &inp) {
            if n == inp.len() {
                return transcribe(body, &b).map(|v| v.into_iter().collect());
            }
        }
    }
    None
}
