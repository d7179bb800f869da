//! `parser!` invocations against the parsers the documentation says they stand for.
//! One line per form: the macro, the equivalent built from functions, and inputs.
#![recursion_limit = "256"]
use aoc_parse::macros::{alt, empty, lines as mlines, map, opt, pair, plus, sequence, single_value, star, RuleParser, RuleSetBuilder};
use aoc_parse::{parser, prelude::*};
use std::fmt::Debug;

fn show<T: Debug>(r: Result<T, aoc_parse::ParseError>) -> String {
    match r { Ok(v) => format!("Ok({v:?})"), Err(e) => format!("Err at {}: {e}", e.location) }
}

const INPUTS: &[&str] = &[
    "", "1", "12", "1x2", "1x2x3", "1x2x3x4", "a", "ab", "abc", "aab", "aaa", "b", "ba", "bb", "a1", "a12", "1a", "x=1", "x=", "x=-5", "hello", "hello world",
    "<", ">", "<>", "<<>", "1,2", "1,2,3", "1,", ",1", "1 2", "(1)", "(a)", "()", "(())", "((a)b)", "(a(b)c)", "1+2", "1+2*3", "(1+2)*3", "a\n", "a\nb\n", "1\n2\n",
    "1\n\n2\n", "1 2\n3 4\n", "é", "true", "false", "-1", "+1", "999", "256", "a=1,b=2", "k:v", "ab=12\ncd=34\n", "up 1", "down 2", "N", "1 ft", "37 km", "-", "--", "a-b", "a-b-", "A", "AB", "x", "xx", "xy", "yx", "xyz",
    "1 2 3 4 5", "12345678", "[1][2]", "[]", "{1}", "q", "a b c", "1-2 3-4", "ab12", "a1b2", "A1B2C3",
];

fn main() {
    let mut n = 0u64;
    let mut forms = 0u64;
    let mut bad: Vec<String> = vec![];
    macro_rules! same {
        ([ $($m:tt)* ] $e:expr) => {{
            let (p, q) = (parser!($($m)*), $e);
            forms += 1;
            for s in INPUTS {
                n += 1;
                let (a, b) = (show(p.parse(s)), show(q.parse(s)));
                if a != b { bad.push(format!("parser!({}) on {s:?}\nexpected: {b}\nactual:   {a}", stringify!($($m)*))); }
            }
        }};
    }
    fn ty<P: Parser<Output = T>, T>(p: P) -> P { p }

    // literals, names, concatenation
    same!(["hello"] single_value("hello"));
    same!(['<'] single_value('<'));
    same!([u32] single_value(u32));
    same!([u64 "x" u64] single_value(sequence(u64, sequence("x", u64))));
    same!([u64 "x" u64 "x" u64] single_value(sequence(u64, sequence("x", sequence(u64, sequence("x", u64))))));
    same!([digit digit digit digit digit digit digit digit] single_value(sequence(sequence(sequence(digit, digit), sequence(digit, digit)), sequence(sequence(digit, digit), sequence(digit, digit)))));
    same!([u64 'x' u64 "x" u64] single_value(sequence(u64, sequence('x', sequence(u64, sequence("x", u64))))));
    same!(["x=" i32] single_value(sequence("x=", i32)));
    same!([alpha alpha] single_value(sequence(alpha, alpha)));
    const LIT: &str = "x=";
    same!([LIT i32] single_value(sequence("x=", i32)));
    let num = parser!(i32);
    same!([num "," num] single_value(sequence(i32, sequence(",", i32))));
    let pr = parser!(u8 "x" u8);
    same!([pr "x" u8] single_value(sequence(single_value(sequence(u8, sequence("x", u8))), sequence("x", u8))));
    // quantifiers
    same!(["a"*] single_value(star("a")));
    same!(["a"+] single_value(plus("a")));
    same!(["a"?] single_value(opt("a")));
    same!([alpha*] single_value(star(alpha)));
    same!([alpha+ digit?] single_value(sequence(plus(alpha), opt(digit))));
    same!(["x=" i32?] single_value(sequence("x=", opt(i32))));
    same!([digit* alpha* digit*] single_value(sequence(star(digit), sequence(star(alpha), star(digit)))));
    same!([("a" "b")*] single_value(star(single_value(sequence("a", "b")))));
    same!([(alpha digit)+] single_value(plus(single_value(sequence(alpha, digit)))));
    same!([(alpha digit?)*] single_value(star(single_value(sequence(alpha, opt(digit))))));
    same!([alpha? digit?] single_value(sequence(opt(alpha), opt(digit))));
    same!(["-"* alpha "-"?] single_value(sequence(star("-"), sequence(alpha, opt("-")))));
    // grouping
    same!([(u32)] single_value(single_value(u32)));
    same!([("x")] single_value(single_value("x")));
    same!([(digit digit) digit] single_value(sequence(single_value(sequence(digit, digit)), digit)));
    same!(["" digit "" (digit digit)] single_value(sequence(digit, single_value(sequence(digit, digit)))));
    same!([(digit digit) (digit digit)] single_value(sequence(single_value(sequence(digit, digit)), single_value(sequence(digit, digit)))));
    same!([("<") ">"] single_value(sequence(single_value("<"), ">")));
    // alternation
    same!([{"<" => 1, ">" => 2}] single_value(alt(map("<", |()| 1), map(">", |()| 2))));
    same!([{"<" => 1, ">" => 2,}] single_value(alt(map("<", |()| 1), map(">", |()| 2))));
    same!([{"a", "b"}] single_value(alt("a", "b")));
    same!([{alpha}] single_value(alpha));
    same!([{"a", "ab", "abc"}] single_value(alt(alt("a", "ab"), "abc")));
    same!([{"a" => 0, "aa" => 1, "aaa" => 2}] single_value(alt(alt(map("a", |_| 0), map("aa", |_| 1)), map("aaa", |_| 2))));
    same!([{"<" => -1, ">" => 1}+] single_value(plus(alt(map("<", |()| -1), map(">", |()| 1)))));
    same!([{"a" => 'x', alpha}* "b"] single_value(sequence(star(alt(map("a", |_| 'x'), alpha)), "b")));
    same!([{digit "x" digit, digit digit}] single_value(alt(sequence(digit, sequence("x", digit)), sequence(digit, digit))));
    same!([{"up " d:i32 => -d, "down " d:i32 => d}] single_value(alt(map(sequence("up ", i32), |d| -d), map(sequence("down ", i32), |d| d))));
    same!([{ i32 " ft" => 1, i32 " km" => 2 }] single_value(alt(map(sequence(i32, " ft"), |_| 1), map(sequence(i32, " km"), |_| 2))));
    // labels and mapping
    same!([x:i32 => x * 2] single_value(map(i32, |x| x * 2)));
    same!(["x=" v:i32 => v + 1] single_value(map(sequence("x=", i32), |v| v + 1)));
    same!([a:digit b:alpha => (b, a)] single_value(map(sequence(digit, alpha), |(a, b)| (b, a))));
    same!([a:alpha "=" n:u32 "," b:alpha "=" m:u32 => (n, b, m, a)] single_value(map(sequence(sequence(alpha, sequence("=", u32)), sequence(",", sequence(alpha, sequence("=", u32)))), |(a, n, b, m)| (n, b, m, a))));
    same!([a:digit digit b:digit => (a, b)] single_value(map(pair(digit, pair(digit, digit)), |(a, (_, b))| (a, b))));
    same!(["x" => 7] single_value(map("x", |()| 7)));
    same!(["" => 7] single_value(map(empty(), |()| 7)));
    same!([() "x"] single_value(sequence(single_value(empty()), "x")));
    same!([x:("a" "b") => x] single_value(map(single_value(sequence("a", "b")), |x| x)));
    same!([x:(digit digit) y:digit => (y, x)] single_value(map(sequence(single_value(sequence(digit, digit)), digit), |(x, y)| (y, x))));
    same!([xs:alpha* n:digit => (n, xs)] single_value(map(sequence(star(alpha), digit), |(xs, n)| (n, xs))));
    same!([x:alpha? "-" => x] single_value(map(sequence(opt(alpha), "-"), |x| x)));
    same!([s:string(alpha+) n:u32 => (n, s)] single_value(map(sequence(string(plus(alpha)), u32), |(s, n)| (n, s))));
    same!([(x:digit => x + 1) (y:digit => y + 2)] single_value(sequence(single_value(map(digit, |x| x + 1)), single_value(map(digit, |x| x + 2)))));
    same!([((x:digit => x + 1) "x")* => 3] single_value(map(star(single_value(sequence(single_value(map(digit, |x| x + 1)), "x"))), |_| 3)));
    same!([k:{"a" => 1, "b" => 2} v:digit => (v, k)] single_value(map(sequence(alt(map("a", |_| 1), map("b", |_| 2)), digit), |(k, v)| (v, k))));
    // calls
    same!([line(u32)] single_value(line(u32)));
    same!([lines(alpha)] single_value(mlines(alpha)));
    same!([lines(u32 " " u32)] single_value(mlines(sequence(u32, sequence(" ", u32)))));
    same!([lines(x:u32 => x + 1)] single_value(mlines(map(u32, |x| x + 1))));
    same!([section(lines(u32)) lines(u32)] single_value(sequence(section(mlines(u32)), mlines(u32))));
    same!([sections(lines(u32))] single_value(sections(mlines(u32))));
    same!([repeat_sep(u32, ",")] single_value(repeat_sep(u32, ",")));
    same!([repeat_sep(u32, ",",)] single_value(repeat_sep(u32, ",")));
    same!([repeat_sep(digit digit, "-" digit)] single_value(repeat_sep(sequence(digit, digit), sequence("-", digit))));
    same!([repeat_sep(u32 "-" u32, ' ')] single_value(repeat_sep(sequence(u32, sequence("-", u32)), ' ')));
    same!([string(alpha*)] single_value(string(star(alpha))));
    same!([string(alpha+)? digit*] single_value(sequence(opt(string(plus(alpha))), star(digit))));
    same!([char_of("<>-")*] single_value(star(char_of("<>-"))));
    same!([btree_map(lines(string(alpha+) "=" u32))] single_value(btree_map(mlines(sequence(string(plus(alpha)), sequence("=", u32))))));
    same!([btree_set(alpha+)] single_value(btree_set(plus(alpha))));
    same!([vec_deque(alpha+)] single_value(vec_deque(plus(alpha))));
    same!([lines({"a" => 1, "b" => 2}+)] single_value(mlines(plus(alt(map("a", |_| 1), map("b", |_| 2))))));
    same!(["(" repeat_sep({a:alpha => a, digit => '0'}, ",") ")"] single_value(sequence("(", sequence(repeat_sep(alt(map(alpha, |a| a), map(digit, |_| '0')), ","), ")"))));
    // rules
    #[derive(Debug, Clone, PartialEq)]
    enum T { C(char), L(Vec<T>) }
    let direct = || {
        let mut b = RuleSetBuilder::new();
        let item: RuleParser<T> = b.new_rule();
        let list: RuleParser<Vec<T>> = b.new_rule();
        b.assign_parser_for_rule(&item, alt(map(alpha, T::C), map(list, T::L)));
        b.assign_parser_for_rule(&list, sequence("(", sequence(star(item), ")")));
        single_value(b.build(plus(item)))
    };
    same!([rule item: T = { c:alpha => T::C(c), v:list => T::L(v) }; rule list: Vec<T> = "(" item* ")"; item+] direct());
    let arith = || {
        let mut b = RuleSetBuilder::new();
        let expr: RuleParser<u64> = b.new_rule();
        let term: RuleParser<u64> = b.new_rule();
        let fact: RuleParser<u64> = b.new_rule();
        b.assign_parser_for_rule(&expr, map(repeat_sep(term, "+"), |v: Vec<u64>| v.into_iter().sum::<u64>()));
        b.assign_parser_for_rule(&term, map(repeat_sep(fact, "*"), |v: Vec<u64>| v.into_iter().product::<u64>()));
        b.assign_parser_for_rule(&fact, alt(u64, sequence("(", sequence(expr, ")"))));
        single_value(b.build(expr))
    };
    same!([
        rule expr: u64 = v:repeat_sep(term, "+") => v.into_iter().sum::<core::primitive::u64>();
        rule term: u64 = v:repeat_sep(fact, "*") => v.into_iter().product::<core::primitive::u64>();
        rule fact: u64 = { u64, "(" expr ")" };
        expr
    ] arith());
    let word = || {
        let mut b = RuleSetBuilder::new();
        let w: RuleParser<String> = b.new_rule();
        b.assign_parser_for_rule(&w, string(plus(alpha)));
        single_value(b.build(sequence(w, sequence("=", sequence(u32, opt(w))))))
    };
    same!([rule w: String = string(alpha+); w "=" u32 w?] ty(word()));

    let mut j = format!("{{\"programs\":{forms},\"evaluations\":{n}");
    if let Some(b) = bad.first() { j += &format!(",\"failure\":{b:?}"); eprintln!("{b}"); }
    j += "}";
    println!("{j}");
    std::process::exit(if bad.is_empty() { 0 } else { 3 });
}
