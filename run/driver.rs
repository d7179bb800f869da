// Runs the woven text (the very file Verus verifies, compiled by Verus with its ghost
// code erased) next to the crate itself, on random patterns and texts.
#[verifier::external]
mod vx_driver {
    #[path = "@H@/pat.rs"]
    pub mod pat;
    #[path = "@H@/gen.rs"]
    pub mod gen;
    #[path = "@H@/refi.rs"]
    pub mod refi;
    /// `pat.rs`, over the woven functions.
    #[path = "@W@/wpat.rs"]
    pub mod wpat;
    #[path = "@R@/assume.rs"]
    pub mod assume;
    use gen::*;
    use pat::V;

    fn fail(case: &str, want: String, got: String) -> ! {
        println!("DIFFERENT\n{case}\nthe crate:      {want}\nthe woven text: {got}");
        std::process::exit(3)
    }

    pub fn main() {
        let dbg = std::env::var("VX_CASES").is_ok();
        let n: u64 = std::env::args().nth(1).map_or(20000, |s| s.parse().unwrap());
        let seed: u64 = std::env::args().nth(2).map_or(1, |s| s.parse().unwrap());
        assume::main();
        let (mut skipped, mut oks, mut errs, mut all) = (0u64, 0u64, 0u64, 0u64);
        for i in 0..n {
            let mut r = Rng::new(seed, i);
            let mut f = BASE.clone();
            f.depth = 1 + r.n(f.depth);
            match r.n(4) { 0 => f.rules = 6, 1 => f.line = 6, 2 => f.prim = 8, _ => {} }
            let d = f.depth;
            let mut g = G { r: &mut r, f, nrules: 0, ids: 0, big: 0 };
            let pt = g.pat(d);
            let s: &'static str = Box::leak(g.input(&pt).into_boxed_str());
            let case = format!("pattern {pt:?}\ninput {s:?}");
            // no left recursion, and nothing too long
            let st = *r.pick(&(0..=s.len()).filter(|k| s.is_char_boundary(*k)).collect::<Vec<_>>());
            let small = |st| refi::Ref { budget: 30000, depth: 0, max_depth: 120 }.trace(&pt, &[], s, st).is_ok();
            if !small(0) || !small(st) { skipped += 1; continue }
            if dbg { println!("{i}: {case}") }
            let p = pat::build(&pt, &[]);
            pat::CALLS.with(|c| c.set(0));
            let want = {
                use aoc_parse::Parser as _;
                p.parse(s)
            };
            let want = match want {
                Ok(v) => Ok((v, pat::CALLS.with(|c| c.get()))),
                Err(e) => Err((e.source.clone(), e.location, e.to_string())),
            };
            let w: &'static wpat::BoxP = Box::leak(Box::new(wpat::build(&pt, &[])));
            wpat::CALLS.with(|c| c.set(0));
            let got = match wpat::run(w, s) {
                Ok(v) => Ok((v, wpat::CALLS.with(|c| c.get()))),
                // the types of a message, where they are found in the woven text
                Err((a, b, m)) => Err((a, b, m.replace("run::BigUint", "num_bigint::biguint::BigUint").replace("run::BigInt", "num_bigint::bigint::BigInt"))),
            };
            if want != got { fail(&case, format!("{want:?}"), format!("{got:?}")) }
            if want.is_ok() { oks += 1 } else { errs += 1 }
            // every match, at some position
            let (a, b) = (matches(&p, s, st), wpat::matches(w, s, st));
            if a != b { fail(&format!("{case}\nall matches from {st}"), format!("{a:?}"), format!("{b:?}")) }
            all += a.len() as u64;
        }
        println!("{{\"cases\": {n}, \"skipped\": {skipped}, \"parsed\": {oks}, \"rejected\": {errs}, \"matches_compared\": {all}, \"assumed_contracts_evaluated\": {}}}", assume::COUNT.load(std::sync::atomic::Ordering::Relaxed));
    }

    fn matches(p: &pat::BoxP, s: &str, start: usize) -> Vec<(usize, V)> {
        use aoc_parse::{ParseContext, ParseIter as _, Parser as _};
        let mut ctx = ParseContext::new(s);
        let mut out = vec![];
        if let Ok(mut it) = p.parse_iter(&mut ctx, start) {
            loop {
                out.push((it.match_end(), it.convert().0));
                if out.len() > 40 || it.backtrack(&mut ctx).is_err() { break; }
            }
        }
        out
    }
}
fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(vx_driver::main).unwrap().join().unwrap() }
