#![recursion_limit = "1024"]
#![allow(warnings)]
use aoc_parse::{parser, prelude::*, Parser};
use std::fmt::Debug;

fn show<T: Debug>(r: Result<T, aoc_parse::ParseError>) -> String {
    match r { Ok(v) => format!("Ok({v:?})"), Err(e) => format!("Err at {}: {e}", e.location) }
}
fn same<P: Parser, Q: Parser>(i: usize, p: P, q: Q, inputs: &[&str]) where P::Output: Debug, Q::Output: Debug {
    for s in inputs {
        let (a, b) = (show(p.parse(s)), show(q.parse(s)));
        if a != b { println!("DIFFERENT {i} {s:?}\nexpected: {b}\nactual:   {a}"); std::process::exit(3); }
    }
}
