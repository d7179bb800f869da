//! Differential search for a failing input: the real crate against an
//! independently written reference. `vh PROP --seed N --cases N --secs T`.
mod gen;
mod pat;
mod refi;
mod special;

use aoc_parse::{ParseContext, ParseError, ParseIter, Parser};
use gen::*;
use pat::*;
use refi::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Info { pub key: u64, pub nontrivial: bool, pub sample: String }
pub struct Fail { pub case: String, pub expected: String, pub actual: String }
pub type Out = Result<Option<Info>, Fail>;

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq)]
pub enum A { Out, Calls, Trace, Err, Loc, Display, Reuse, Aoc, None }

fn show_err(e: &ParseError) -> String { format!("Err at {}: {}", e.location, e) }

pub fn real_run(p: &BoxP, s: &str) -> (Result<V, ParseError>, u64) {
    CALLS.with(|c| c.set(0));
    let r = p.parse(s);
    (r, CALLS.with(|c| c.get()))
}

/// All matches of the parser at `start`, in order, with their values.
pub fn enumerate(p: &BoxP, s: &str, start: usize, limit: usize) -> (Vec<(usize, V)>, Option<ParseError>, bool) {
    let mut ctx = ParseContext::new(s);
    let mut out = vec![];
    let mut complete = true;
    if let Ok(mut it) = p.parse_iter(&mut ctx, start) {
        loop {
            out.push((it.match_end(), it.convert().0));
            if out.len() > limit { complete = false; break; }
            if it.backtrack(&mut ctx).is_err() { break; }
        }
    }
    // there may be no error, if something matched; ask only when there must be one
    let e = if out.is_empty() { Some(ctx.into_reported_error()) } else { None };
    (out, e, complete)
}

fn check_parse(aspects: &[A], pt: &Pat, p: &BoxP, s: &str, exp: &Result<(V, u64), Option<(usize, String)>>, how: &str, run: &dyn Fn() -> (Result<V, ParseError>, u64)) -> Result<(), Fail> {
    let _ = p;
    let (r, calls) = run();
    let mk = |expected: String, actual: String| Fail { case: format!("pattern {pt:?}\ninput {s:?}\n{how}"), expected, actual };
    let has = |a: A| aspects.contains(&a);
    match (exp, &r) {
        (Ok((v, c)), Ok(w)) => {
            if has(A::Out) && v != w { return Err(mk(format!("Ok({v:?})"), format!("Ok({w:?})"))); }
            if has(A::Calls) && *c != calls { return Err(mk(format!("{c} calls of mapping closures"), format!("{calls} calls"))); }
        }
        (Ok((v, _)), Err(e)) => if has(A::Out) { return Err(mk(format!("Ok({v:?})"), show_err(e))); },
        (Err(e), Ok(w)) => if has(A::Out) { return Err(mk(format!("{e:?}"), format!("Ok({w:?})"))); },
        (Err(e), Err(f)) => {
            if has(A::Calls) && calls != 0 { return Err(mk("no mapping closure is called when the parse fails".into(), format!("{calls} calls"))); }
            if has(A::Loc) && !(f.source == s && f.location <= s.len() && s.is_char_boundary(f.location)) {
                return Err(mk("an error that carries the input and a character boundary in it".into(), format!("source {:?} location {}", f.source, f.location)));
            }
            let Some((l, m)) = e else { return Err(mk("the reference expects some error to have been recorded".into(), show_err(f))) };
            if has(A::Err) {
                if f.location != *l || f.source != s { return Err(mk(format!("Err at {l}: {m}"), show_err(f))); }
                let d = display(s, *l, m);
                if f.to_string() != d { return Err(mk(format!("Err at {l}: {d}"), show_err(f))); }
            }
            if has(A::Display) && f.location <= s.len() && s.is_char_boundary(f.location) {
                let suffix = display(s, f.location, "");
                let text = f.to_string();
                let ok = text.ends_with(&suffix) && text.len() > suffix.len();
                if !ok { return Err(mk(format!("a message ending with {suffix:?} for location {}", f.location), format!("{text:?}"))); }
                let dbg = format!("{f:?}");
                if !dbg.contains(&format!("{text:?}")) { return Err(mk("Debug output containing the Display text".into(), dbg)); }
            }
        }
    }
    Ok(())
}

fn expect(pt: &Pat, s: &str) -> Option<(Vec<Ev>, Result<(V, u64), Option<(usize, String)>>)> {
    // long texts: fewer cases, more room
    let long = s.len() > 80;
    let mut rf = Ref { budget: if long { 600000 } else { 30000 }, depth: 0, max_depth: if long { 6000 } else { 120 } };
    let evs = rf.trace(pt, &[], s, 0).ok()?;
    let f = fold(&evs, s.len(), "extra unparsed text after match");
    Some((evs, f))
}

/// One case of the grammar suite.
pub fn gram(prof: &Prof, aspects: &[A], rng: &mut Rng) -> Out {
    let mut f = prof.clone();
    f.depth = 1 + rng.n(prof.depth);
    let big = if rng.p(1, 1500) { f.depth = f.depth.min(2); f.rep += 6; f.rules = 0; *rng.pick(&[100, 300, 700]) } else { 0 };
    let depth = f.depth;
    let mut g = G { r: rng, f, nrules: 0, ids: 0, big };
    let pt = if big == 0 && prof.rules >= 8 && g.r.p(3, 4) { g.rules(depth.min(3)) } else { g.pat(depth) };
    let mut s = g.input(&pt);
    if aspects.contains(&A::Aoc) && rng.p(1, 2) && s.ends_with('\n') { s.pop(); }
    one_case(&pt, &s, aspects, rng)
}

pub fn one_case(pt: &Pat, s: &str, aspects: &[A], rng: &mut Rng) -> Out {
    let text = if aspects.contains(&A::Aoc) && !s.ends_with('\n') { format!("{s}\n") } else { s.to_string() };
    let Some((evs, exp)) = expect(pt, &text) else { return Ok(None) };
    let p = build(pt, &[]);
    if aspects.contains(&A::Aoc) {
        let rp = &p;
        check_parse(&[A::Out, A::Err], pt, &p, &text, &exp, "through aoc_parse(), given the input without a final newline added", &|| {
            CALLS.with(|c| c.set(0));
            let r = aoc_parse::prelude::aoc_parse::<_, ParseError>(s, rp);
            (r, CALLS.with(|c| c.get()))
        })?;
    } else {
        check_parse(aspects, pt, &p, &text, &exp, "by parse()", &|| real_run(&p, &text))?;
    }
    if aspects.contains(&A::Reuse) {
        for k in 0..3 {
            let mut g = G { r: rng, f: BASE.clone(), nrules: 0, ids: 0, big: 0 };
            let s2 = if k == 1 { s.to_string() } else { g.input(pt) };
            let Some((_, exp2)) = expect(pt, &s2) else { continue };
            check_parse(&[A::Out, A::Err, A::Calls], pt, &p, &s2, &exp2, "by a later parse() of the same parser", &|| real_run(&p, &s2))?;
        }
        history(pt, &p, s, &evs, &exp, rng)?;
        check_parse(&[A::Out, A::Err, A::Calls], pt, &p, s, &exp, "by parse() through a reference, again", &|| {
            CALLS.with(|c| c.set(0));
            let r = (&&p).parse(s);
            (r, CALLS.with(|c| c.get()))
        })?;
    }
    if aspects.contains(&A::Trace) {
        let mut starts = vec![0];
        let bounds: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        starts.push(*rng.pick(&bounds));
        for st in starts {
            let mut rf = Ref { budget: 30000, depth: 0, max_depth: 120 };
            let Ok(evs) = rf.trace(pt, &[], s, st) else { continue };
            let want: Vec<(usize, V)> = evs.iter().filter_map(|e| match e { Ev::M(e, v, _) => Some((*e, v.clone())), _ => None }).collect();
            let (got, e, complete) = enumerate(&p, s, st, want.len() + 5);
            let mk = |expected: String, actual: String| Fail { case: format!("pattern {pt:?}\ninput {s:?}\nall matches from offset {st}, in order"), expected, actual };
            if !complete || got != want { return Err(mk(format!("{want:?}"), format!("{got:?}"))); }
            if let (Some(e), true) = (e, aspects.contains(&A::Err)) {
                let f = fold(&evs, usize::MAX, "");
                if let Err(Some((l, m))) = f {
                    if e.location != l || e.to_string() != display(s, l, &m) { return Err(mk(format!("Err at {l}: {m}"), show_err(&e))); }
                }
            }
        }
    }
    let nontrivial = evs.len() >= 2 && !s.is_empty();
    Ok(Some(Info { key: hash(&(format!("{pt:?}"), s)), nontrivial, sample: format!("{pt:?} on {s:?}: {} events, {}", evs.len(), match &exp { Ok((v, _)) => format!("Ok({v:?})"), Err(e) => format!("{e:?}") }) }))
}

/// The same parser in less usual circumstances: parses interleaved with each other, a parse made by a
/// conversion of another parse, texts that share a buffer.
fn history(pt: &Pat, p: &BoxP, s: &str, evs: &[Ev], exp: &Result<(V, u64), Option<(usize, String)>>, rng: &mut Rng) -> Result<(), Fail> {
    let s2 = G { r: rng, f: BASE.clone(), nrules: 0, ids: 0, big: 0 }.input(pt);
    if let Some((evs2, exp2)) = expect(pt, &s2) {
        // interleaved
        let (mut c1, mut c2) = (ParseContext::new(s), ParseContext::new(&s2));
        let (mut g1, mut g2) = (vec![], vec![]);
        let (mut i1, mut i2) = (p.parse_iter(&mut c1, 0).ok(), p.parse_iter(&mut c2, 0).ok());
        let want = |evs: &[Ev]| evs.iter().filter_map(|e| match e { Ev::M(e, v, _) => Some((*e, v.clone())), _ => None }).collect::<Vec<(usize, V)>>();
        let (w1, w2) = (want(evs), want(&evs2));
        while i1.is_some() || i2.is_some() {
            if let Some(it) = &mut i1 {
                g1.push((it.match_end(), it.convert().0));
                if g1.len() > w1.len() || it.backtrack(&mut c1).is_err() { i1 = None; }
            }
            if let Some(it) = &mut i2 {
                g2.push((it.match_end(), it.convert().0));
                if g2.len() > w2.len() || it.backtrack(&mut c2).is_err() { i2 = None; }
            }
        }
        if (&g1, &g2) != (&w1, &w2) {
            return Err(Fail { case: format!("pattern {pt:?}\ninputs {s:?} and {s2:?}\nall matches, in order, of two interleaved parses by the same parser"), expected: format!("{w1:?} / {w2:?}"), actual: format!("{g1:?} / {g2:?}") });
        }
        // nested
        NESTED.with(|n| *n.borrow_mut() = None);
        check_parse(&[A::Out, A::Err], pt, p, s, exp, "by parse(), its first conversion parsing another text with the same parser", &|| {
            NEST.with(|n| n.set(Some((p as *const BoxP, s2.as_str() as *const str))));
            let r = real_run(p, s);
            NEST.with(|n| n.set(None));
            r
        })?;
        if let Some(r) = NESTED.with(|n| n.borrow_mut().take()) {
            let r = std::cell::RefCell::new(Some(r));
            check_parse(&[A::Out, A::Err], pt, p, &s2, &exp2, "by a parse() made in a conversion of another parse() of the same parser", &|| (r.borrow_mut().take().unwrap(), 0))?;
        }
    }
    // parses given up: the iterator dropped after a match, and a conversion that panics
    {
        let mut c = ParseContext::new(s);
        if let Ok(mut it) = p.parse_iter(&mut c, 0) { if rng.p(1, 2) { let _ = it.backtrack(&mut c); } }
        check_parse(&[A::Out, A::Err], pt, p, s, exp, "by parse(), after a parse given up half-way", &|| real_run(p, s))?;
        ABORT.with(|a| a.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = p.parse(s); }));
        ABORT.with(|a| a.set(false));
        if r.is_err() { check_parse(&[A::Out, A::Err], pt, p, s, exp, "by parse(), after a parse() in which a conversion panicked", &|| real_run(p, s))?; }
        // the context again, from another position
        let want = |evs: &[Ev]| evs.iter().filter_map(|e| match e { Ev::M(e, v, _) => Some((*e, v.clone())), _ => None }).collect::<Vec<(usize, V)>>();
        let bounds: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        let mut c = ParseContext::new(s);
        for st in [0, *rng.pick(&bounds), 0] {
            let mut rf = Ref { budget: 30000, depth: 0, max_depth: 120 };
            let Ok(e) = rf.trace(pt, &[], s, st) else { continue };
            let (w, mut g) = (want(&e), vec![]);
            if let Ok(mut it) = p.parse_iter(&mut c, st) {
                loop {
                    g.push((it.match_end(), it.convert().0));
                    if g.len() > w.len() || it.backtrack(&mut c).is_err() { break; }
                }
            }
            if g != w { return Err(Fail { case: format!("pattern {pt:?}\ninput {s:?}\nall matches from offset {st}, in order, in a context that another parse by the same parser has used"), expected: format!("{w:?}"), actual: format!("{g:?}") }); }
        }
    }
    // a shared buffer: the text, then the text with one byte changed, at the same place in memory
    if !s.is_empty() {
        let mut buf: Vec<u8> = s.as_bytes().to_vec();
        let i = rng.n(buf.len());
        for k in 0..3 {
            if k == 1 && buf[i] < 128 { buf[i] = *rng.pick(b"0189abn,; \n+-x"); }
            if k == 2 { buf = { let mut b = buf; b.copy_from_slice(s.as_bytes()); b }; }
            let t = std::str::from_utf8(&buf).unwrap();
            let Some((_, e)) = expect(pt, t) else { continue };
            check_parse(&[A::Out, A::Err], pt, p, t, &e, "by parse(), in a buffer that held another text before", &|| real_run(p, t))?;
        }
    }
    Ok(())
}

type Suite = Box<dyn Fn(&mut Rng) -> Out + Send + Sync>;

fn gs(prof: Prof, aspects: &'static [A]) -> Suite { Box::new(move |r| gram(&prof, aspects, r)) }

fn suites(prop: &str) -> Vec<Suite> {
    use A::*;
    let uni = |p: Prof| Prof { unicode: true, ..p };
    match prop {
        "C01" => vec![gs(BASE, &[Out]), gs(uni(BASE), &[Out]), Box::new(special::scale)],
        "C02" => vec![gs(Prof { seq: 12, line: 0, section: 0, rules: 0, ..BASE }, &[Out, Trace]), gs(Prof { seq: 12, ..BASE }, &[Out, Trace]), Box::new(special::scale)],
        "C03" => vec![gs(Prof { alt: 8, opt: 5, line: 0, section: 0, rules: 0, ..BASE }, &[Out, Trace]), gs(Prof { alt: 8, opt: 5, ..BASE }, &[Out, Trace])],
        "C04" => vec![gs(Prof { rep: 12, line: 0, section: 0, rules: 0, ..BASE }, &[Out, Trace]), gs(Prof { rep: 12, depth: 3, ..BASE }, &[Out, Trace]), Box::new(special::scale)],
        "C05" => vec![gs(Prof { rep: 12, opt: 4, ..BASE }, &[None, Trace]), gs(Prof { rep: 8, line: 4, section: 4, ..BASE }, &[None]), gs(Prof { rep: 8, rules: 8, ..BASE }, &[None]), Box::new(special::scale)],
        "C06" => vec![gs(Prof { line: 10, ..BASE }, &[Out, Trace, Err]), gs(uni(Prof { line: 10, section: 0, rules: 0, depth: 3, ..BASE }), &[Out, Trace, Err]), Box::new(special::scale)],
        "C07" => vec![gs(Prof { section: 10, line: 3, ..BASE }, &[Out, Trace, Err]), gs(uni(Prof { section: 10, line: 2, rules: 0, depth: 3, ..BASE }), &[Out, Trace, Err]), Box::new(special::scale)],
        "C08" => vec![Box::new(special::chars), Box::new(special::literals)],
        "C09" => vec![Box::new(special::ints)],
        "C10" => vec![Box::new(special::bool_float)],
        "C11" => vec![gs(Prof { string: 10, ..BASE }, &[Out, Trace]), gs(uni(Prof { string: 10, ..BASE }), &[Out, Trace])],
        "C12" => vec![gs(Prof { map: 10, ..BASE }, &[Out, Calls]), gs(Prof { map: 8, alt: 4, rules: 2, coll: 1, ..BASE }, &[Out, Calls])],
        "C13" => vec![gs(uni(BASE), &[Loc, Trace]), gs(uni(Prof { line: 5, section: 5, prim: 3, ..BASE }), &[Loc]), gs(Prof { rep: 6, rules: 4, ..BASE }, &[Loc]), Box::new(special::scale), Box::new(special::literals)],
        "C14" => vec![gs(BASE, &[Err, Trace]), gs(Prof { line: 6, section: 4, alt: 4, prim: 3, ..BASE }, &[Err, Trace]), Box::new(special::reports)],
        "C15" => vec![gs(uni(Prof { line: 4, ..BASE }), &[Display]), Box::new(special::displays), Box::new(special::literals)],
        "C16" => vec![gs(Prof { rules: 10, ..BASE }, &[Out, Trace, Err]), gs(Prof { rules: 12, line: 4, section: 2, ..BASE }, &[Out, Trace, Err]), Box::new(special::scale), Box::new(special::sets)],
        "C17" => vec![gs(Prof { coll: 10, ..BASE }, &[Out, Trace, Calls]), Box::new(special::colls)],
        "C18" => vec![Box::new(special::shapes)],
        "C19" => vec![gs(BASE, &[Out, Err, Reuse]), gs(Prof { rules: 8, ..BASE }, &[Out, Err, Reuse]), Box::new(special::scale), Box::new(special::sets)],
        "C20" => vec![gs(Prof { line: 6, section: 3, ..BASE }, &[Aoc]), gs(uni(Prof { line: 6, ..BASE }), &[Aoc])],
        _ => panic!("unknown property {prop}"),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct Shared {
    stop: AtomicBool,
    fail: Mutex<Option<(u64, Fail)>>,
    cur: Vec<(AtomicU64, AtomicU64)>, // case index + 1, start ms
}

fn run_case(su: &[Suite], seed: u64, i: u64) -> Out {
    let mut rng = Rng::new(seed, i);
    let k = (i % su.len() as u64) as usize;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| su[k](&mut rng))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Fail { case: describe(su, seed, i), expected: "no panic".into(), actual: format!("panic: {m}") })
        }
    }
}
thread_local! { pub static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
fn describe(_su: &[Suite], seed: u64, i: u64) -> String { format!("case {i} of seed {seed}; {}", LAST.with(|l| l.borrow().clone())) }

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map_or(d, |s| s.parse().unwrap());
    let seed = num("--seed", 1);
    let cases = num("--cases", 20000);
    let secs = num("--secs", 60);
    let threads = num("--threads", 8) as usize;
    let hang_ms = num("--hang-ms", 20000);
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();

    if let Some(i) = get("--only") {
        let i: u64 = i.parse().unwrap();
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let su = suites(&prop);
            match run_case(&su, seed, i) {
                Ok(Some(x)) => println!("held: {}", x.sample),
                Ok(None) => println!("skipped"),
                Err(f) => { println!("FAILED\n{}\nexpected: {}\nactual:   {}", f.case, f.expected, f.actual); std::process::exit(3); }
            }
            std::process::exit(0);
        }).unwrap();
        while !h.is_finished() {
            std::thread::sleep(Duration::from_millis(20));
            let ms = t0.elapsed().as_millis() as u64;
            let m = if rss() > 6 << 30 { "memory use grows without bound".to_string() } else if ms > hang_ms { format!("no answer after {ms} ms") } else { continue };
            println!("FAILED\ncase {i} of seed {seed}\nexpected: an answer (the reference needs at most 30000 steps)\nactual:   {m}");
            std::process::exit(3);
        }
        h.join().unwrap();
        return;
    }

    let state = get("--state").map(|p| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p).unwrap());
    let state = Arc::new(state);
    let sh = Arc::new(Shared { stop: AtomicBool::new(false), fail: Mutex::new(None), cur: (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect() });
    let out_path = get("--out");
    let live = Arc::new(AtomicU64::new(threads as u64));
    let results = Arc::new(Mutex::new((0u64, 0u64, HashSet::<u64>::new(), Vec::<String>::new())));
    for t in 0..threads {
        let (sh, prop, state, live, results) = (sh.clone(), prop.clone(), state.clone(), live.clone(), results.clone());
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let su = suites(&prop);
            let (mut ev, mut skip, mut keys, mut samples) = (0u64, 0u64, HashSet::new(), vec![]);
            let mut i = t as u64;
            while i < cases && !sh.stop.load(Ordering::Relaxed) && t0.elapsed().as_secs() < secs {
                if let Some(f) = &*state { let _ = f.write_at(&(i + 1).to_le_bytes(), 8 * t as u64); }
                sh.cur[t].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                sh.cur[t].0.store(i + 1, Ordering::Release);
                match run_case(&su, seed, i) {
                    Ok(Some(x)) => {
                        ev += 1;
                        if x.nontrivial { keys.insert(x.key); if samples.len() < 2 && i > 50 { samples.push(x.sample.chars().take(400).collect::<String>()); } }
                    }
                    Ok(None) => skip += 1,
                    Err(f) => {
                        let mut g = sh.fail.lock().unwrap();
                        if g.as_ref().is_none_or(|x| i < x.0) { *g = Some((i, f)); }
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                }
                i += threads as u64;
            }
            sh.cur[t].0.store(0, Ordering::Release);
            if let Some(f) = &*state { let _ = f.write_at(&0u64.to_le_bytes(), 8 * t as u64); }
            let mut r = results.lock().unwrap();
            r.0 += ev; r.1 += skip; r.2.extend(keys);
            if r.3.len() < 6 { r.3.extend(samples); }
            live.fetch_sub(1, Ordering::SeqCst);
        }).unwrap();
    }
    let mut hang: Option<(u64, String)> = None;
    while live.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        let rss = rss();
        // patterns and texts are leaked: when they have filled this much, it is enough
        if rss > 4 << 30 { sh.stop.store(true, Ordering::Relaxed); }
        let worst = sh.cur.iter().filter_map(|c| { let i = c.0.load(Ordering::Acquire); if i > 0 { Some((now.saturating_sub(c.1.load(Ordering::Relaxed)), i - 1)) } else { None } }).max();
        if let Some((ms, i)) = worst {
            if rss > 6 << 30 { hang = Some((i, format!("memory use grows without bound (case running for {ms} ms)"))); break; }
            if ms > hang_ms { hang = Some((i, format!("no answer after {ms} ms"))); break; }
        }
        if sh.stop.load(Ordering::Relaxed) && live.load(Ordering::SeqCst) > 0 && now > 1000 * secs + 60000 { break; }
    }
    let mut fail = sh.fail.lock().unwrap().take();
    let stuck = hang.is_some() && fail.is_none();
    if let (Some((i, m)), true) = (hang, fail.is_none()) {
        fail = Some((i, Fail { case: format!("case {i} of seed {seed}"), expected: "an answer (the reference needs at most 30000 steps)".into(), actual: m }));
    }
    let r = results.lock().unwrap();
    let mut j = format!("{{\"evaluations\":{},\"skipped\":{},\"distinct_nontrivial\":{},\"seconds\":{:.2},\"samples\":[{}]", r.0, r.1, r.2.len(), t0.elapsed().as_secs_f64(), r.3.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    if let Some((i, f)) = &fail {
        if stuck { j += ",\"confirm\":true"; }
        j += &format!(",\"failure\":{{\"index\":{},\"case\":{},\"expected\":{},\"actual\":{}}}", i, esc(&f.case), esc(&f.expected.chars().take(3000).collect::<String>()), esc(&f.actual.chars().take(3000).collect::<String>()));
    }
    j += "}";
    match out_path { Some(p) => std::fs::write(p, j).unwrap(), None => println!("{j}") }
    std::process::exit(if fail.is_some() { 3 } else { 0 });
}
