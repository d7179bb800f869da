//! One function per rule of the `parser!` macro, with arbitrary sub-patterns (type
//! parameters). rustc expands them on every run; the expansion is woven into the
//! crate and `forms.vc` says what parser each form must be.
//! Names are stated with the same type where the type checker alone would otherwise
//! notice a mix-up, so that a mix-up is a failed obligation.
use aoc_parse::{parser, prelude::*, Parser};

fn form_one<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!(a); }
fn form_seq2<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(a b); }
fn form_seq3<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(a b c); }
fn form_seq5<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A, d: A, e: A) { let f = parser!(a b c d e); }
fn form_literals<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!("one" a 'c' "two"); }
fn form_star<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!(a*); }
fn form_plus<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!(a+); }
fn form_opt<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!(a?); }
fn form_quantified<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A, d: A) { let f = parser!(a* b+ c? d); }
fn form_group<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!((a b) c); }
fn form_group_quantified<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!("x" (b c)* (c a)+ (a a)?); }
fn form_call<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(repeat_sep(a, b)); }
fn form_call_seq<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(a repeat_sep(b c, a,) c); }
fn form_call_group<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(repeat_sep((a b)*, c?)+); }
fn form_line<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(line(a b)); }
fn form_lines<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(lines(a b) line(a)); }
fn form_sections<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(section(a) sections(line(b))); }
fn form_string<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(string(a b)); }
fn form_label_call<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(x:repeat_sep(a, b) y:line(b) => (y, x)); }
fn form_map<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!(a b => 7u8); }
fn form_map_one<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!(x:a => (x, 7u8)); }
fn form_map_first<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(x:a b c => x); }
fn form_map_middle<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(a x:b c => x); }
fn form_map_last<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(a b x:c => x); }
fn form_map_labels<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A, d: A) { let f = parser!(w:a x:b y:c z:d => (z, x, w, y)); }
fn form_map_literals<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!("p" x:a ',' y:b "q" => (y, x)); }
fn form_map_quantified<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(x:a* b+ y:c? => (y, x)); }
fn form_map_group<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(x:(a b) y:c => (y, x)); }
fn form_map_nested<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!((a b) (x:b c => x)*); }
fn form_alt2<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!({a, b}); }
fn form_alt3<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!({a, b, c,}); }
fn form_alt_one<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!({a}); }
fn form_alt_seq<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(a {b c, c b} b); }
fn form_alt_quantified<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!({a, b}* {b, a}+ {a, a}?); }
fn form_alt_map<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A) { let f = parser!({"x" a => 1u8, b => 2u8}); }
fn form_alt_label<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A, b: A, c: A) { let f = parser!(x:{a, b} y:c => (y, x)); }
fn form_rules1<T: Clone + 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy + 'static>(a: A) { let f = parser!(rule r: T = a; r); }
fn form_rules2<T: Clone + 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy + 'static, B: Parser<Output = T, RawOutput = (T,)> + Copy + 'static>(a: A, b: A, c: B) {
    let f = parser! { rule r: T = a; rule s: T = b; s r c };
}
fn form_rules_forward<T: Clone + 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy + 'static>(a: A) {
    let f = parser! { rule r: T = "[" s "]"; rule s: T = a; r s };
}
fn form_empty_group<T: 'static, A: Parser<Output = T, RawOutput = (T,)> + Copy>(a: A) { let f = parser!(() a); }
