#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, st, over, q, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
T = "the existing tests run a few dozen hand-picked patterns on short texts; "
p("C01", "A parse succeeds exactly when some way of matching consumes the whole text",
  "Parsing a text with a pattern returns Ok if and only if the pattern has some match that starts at the beginning and ends at the end of the text, however many shorter or earlier alternatives must be abandoned first; otherwise it returns an error. Among several complete matches, the value returned is the one of the first in the documented order of preference (leftmost alternative, longest repetition first). It is the same whether the value is requested converted or raw.",
  ["inputs", "programs"], "every pattern built from the library's combinators, every text",
  T + "the claim quantifies over all patterns and texts, including ones where the first complete match is the n-th candidate",
  ["src/traits.rs"], [("Parser::parse / parse_raw: loop over match_end and backtrack", "src/traits.rs"), ("Parser for &P forwards", "src/traits.rs")], obs=["Parser::parse", "Parser::parse_raw"])
p("C02", "Sequences try every combination of their parts' matches, in order",
  "A sequence of patterns matches at a position exactly where its first part matches there and the rest matches from the point where the first part ended; its matches come in lexicographic order of preference, and when the rest fails the first part is asked for its next match before the sequence gives up. No combination is skipped, repeated or reordered, and the converted value consists of the parts' values for that same combination, in order.",
  ["inputs", "programs"], "all pairs of patterns (including ones with several matches per position), all texts and start positions",
  T + "backtracking into an earlier part is exercised by only a handful of them",
  ["src/parsers/sequence.rs"], [("SequenceParser::parse_iter, first_tail_match, SequenceParseIter::backtrack / convert", "src/parsers/sequence.rs")])
p("C03", "Alternatives and optional patterns are tried in order and exhaustively",
  "An alternation offers all the matches of its first pattern in their order and then all those of the second, with nothing lost, duplicated or swapped, and the value says which side matched (or is the matching side's own value when both have one type). An optional pattern prefers the matches of its pattern, giving Some value, and then also matches the empty text, giving None. The empty pattern matches exactly once everywhere, with no text consumed.",
  ["inputs", "programs"], "all pairs of patterns, all texts and start positions",
  T + "they never force the switch from the first to the second alternative after several matches of the first",
  ["src/parsers/either.rs", "src/parsers/empty.rs"], [("EitherParser / EitherParseIter", "src/parsers/either.rs"), ("alt, opt, either", "src/parsers/either.rs"), ("EmptyParser", "src/parsers/empty.rs")])
p("C04", "Repetition is greedy, exhaustive under backtracking, and keeps its counts",
  "A repetition matches any number of copies of its pattern within its bounds (star: any, plus: at least one, repeat_sep: any number with the separator between every two copies and none at the ends), preferring more copies and earlier alternatives of each copy, and under backtracking offers every admissible list of copies once, in that order. The converted value is the list of exactly the copies' values in text order, with separators contributing nothing. Copies that match no text do not make the repetition run for ever or grow without bound.",
  ["inputs", "programs"], "all patterns and separators (including ones with several matches, and ones matching the empty text), all texts",
  T + "repetitions with ambiguous copies, ambiguous separators or empty matches are almost untested",
  ["src/parsers/repeat.rs"], [("RepeatParseIter::advance / next / backtrack / convert", "src/parsers/repeat.rs"), ("RepeatParser::check_repeat_count", "src/parsers/repeat.rs"), ("star, plus, repeat_sep, repeat", "src/parsers/repeat.rs")],
  state=[("pattern_iters / sep_iters", "stack of the current match of every copy and separator", "src/parsers/repeat.rs")])
p("C05", "Every parse terminates",
  "Parsing any finite text with any pattern that is not left-recursive returns after finitely many steps, including patterns that repeat something which can match the empty text, at every nesting depth.",
  ["inputs", "programs"], "all non-left-recursive patterns, all texts",
  "no test can show the absence of an endless search; the nested empty-repetition cases are not tested at all",
  ["src/traits.rs", "src/parsers/repeat.rs", "src/parsers/sequence.rs", "src/parsers/either.rs"], [("progress guard of repetition", "src/parsers/repeat.rs is_stuck"), ("search loops", "src/traits.rs, src/parsers/sequence.rs")])
p("C06", "line and lines respect line boundaries exactly",
  "A line pattern matches only when it starts at the beginning of a line, its inner pattern sees only that line's text without the newline, must match all of it, and the match ends after the newline (or at the end of the text, when the last line is unterminated and not empty). lines(p) matches a run of consecutive lines each fully matched by p, in order, never splitting or joining lines. Positions inside the line are preserved for errors.",
  ["inputs", "programs"], "all inner patterns, all texts (with and without final newline, empty lines, non-ASCII), all start positions",
  T + "line boundaries with empty, unterminated and multi-byte lines are sampled a few times",
  ["src/parsers/lines.rs", "src/context.rs"], [("Line::check_at_start / find_end / report_incomplete_match", "src/parsers/lines.rs"), ("match_fully, RegionParser", "src/parsers/lines.rs"), ("ParseContext::with_slice", "src/context.rs")])
p("C07", "section and sections split the text at blank lines exactly",
  "A section pattern matches only at the start of the text or just after a blank line, its inner pattern sees exactly the text up to the next blank line (keeping the newline that ends its last line) or up to the end of the text, must match all of it, and the match ends after that blank line. sections(p) matches consecutive sections each fully matched by p, in order. A section is never cut at a single newline and never runs across a blank line.",
  ["inputs", "programs"], "all inner patterns, all texts (blank lines at start, end, repeated), all start positions",
  T + "texts with leading, trailing or repeated blank lines are not covered",
  ["src/parsers/lines.rs", "src/context.rs"], [("Section::check_at_start / find_end / report_incomplete_match", "src/parsers/lines.rs"), ("match_fully, RegionParser", "src/parsers/lines.rs")])
p("C08", "Literals and character classes match exactly the text they stand for",
  "A string or character literal matches at a position exactly when the text there is that literal, byte for byte, and consumes just it. alpha, alnum, upper, lower and any_char match exactly one character of the documented Unicode class and yield it; digit, digit_bin and digit_hex match one ASCII digit of that base and yield its numeric value; char_of yields the index of the first listed character equal to the one matched. Multi-byte characters are consumed whole.",
  ["inputs"], "all characters, literals and option lists, at every position of every text",
  "the tests try a dozen characters out of 1.1 million and few literals",
  ["src/parsers/exact.rs", "src/parsers/chars.rs"], [("str / String / char as parsers", "src/parsers/exact.rs"), ("CharParser, CharOfParser, digit parsers", "src/parsers/chars.rs")])
p("C09", "Integer parsers accept exactly the numerals of their base and range",
  "An integer parser consumes the longest run of digits of its base at that position (an optional sign first for signed types, none for unsigned), yields exactly the integer written, and fails if the value does not fit the type. Decimal, binary and hexadecimal variants of every width, and the arbitrary-size ones, follow the same rule, with leading zeros allowed and hexadecimal digits in either case. It matches at most once per position and never part of a numeral.",
  ["inputs"], "all numerals of any length at any position, all 42 integer parsers",
  "range limits, signs and bases multiply to far more combinations than the two dozen tested",
  ["src/parsers/primitive.rs", "src/parsers/regex.rs"], [("from_str_parse_impl!, from_str_radix_parsers!, regexes!", "src/parsers/primitive.rs"), ("RegexParser::parse_iter", "src/parsers/regex.rs")])
p("C10", "bool and float parsers match exactly their documented formats with std's values",
  "bool matches exactly true or false at the position and yields that value. f32 and f64 match the longest prefix written in the standard float format (optional sign; digits with optional fraction, or a fraction alone; optional exponent; inf, infinity or nan in any case) and yield the value the standard library gives that text. Nothing else is matched, and each matches at most once per position.",
  ["inputs"], "all texts at all positions",
  "a dozen literals are tested; the format is an infinite language",
  ["src/parsers/primitive.rs", "src/parsers/regex.rs"], [("float_regex, bool_regex and their consts", "src/parsers/primitive.rs"), ("RegexParser::parse_iter", "src/parsers/regex.rs")])
p("C11", "string(p) yields exactly the text that p matched",
  "string(p) matches exactly where p matches, in the same order of preference, and its value is precisely the slice of the input that p's match covered, whatever p would have converted it to, without running p's conversions.",
  ["inputs", "programs"], "all inner patterns, all texts and positions, including after backtracking",
  T + "string() over patterns with several matches or non-ASCII text is not tested",
  ["src/parsers/string.rs"], [("StringParser / StringParseIter", "src/parsers/string.rs")])
p("C12", "Mappings run only on the accepted match, and see exactly its value",
  "User conversion code attached to a pattern runs only for the complete match that the parse returns: never for a failed parse, an abandoned alternative or a match given up by backtracking. It receives exactly the value its pattern produced for that match, once per occurrence in it, and its result is what appears in the parse result in that place.",
  ["inputs", "programs", "histories"], "all patterns with mappings anywhere, all texts, successful and failing",
  T + "none observes whether a mapping ran during an abandoned attempt",
  ["src/parsers/map.rs", "src/traits.rs"], [("MapParser / MapParseIter::convert", "src/parsers/map.rs"), ("deferred convert phase", "src/traits.rs")])
p("C13", "Parsing never panics, and error locations are valid positions of the parsed text",
  "Parsing any text (including empty, multi-byte and newline-only texts) with any pattern never panics, overflows or slices at an invalid offset. Every error it returns carries a location that lies within the parsed text on a character boundary, also when the failure happened inside a line or section.",
  ["inputs", "programs"], "all patterns, all texts",
  "the tests hardly use non-ASCII texts, and boundary slips only show on particular bytes at particular offsets",
  ["src/context.rs", "src/error.rs", "src/parsers/lines.rs", "src/parsers/chars.rs"], [("slicing at start / match_end", "src/parsers/*.rs"), ("ParseError::new asserts, adjust_location", "src/error.rs"), ("with_slice", "src/context.rs")])
p("C14", "A failed parse reports the failure that got furthest into the text",
  "When a parse fails, the error returned is one of the failures met during the search whose location is the furthest into the text, the first such when several share it, and no failure of the search lies beyond it. Leftover text after a complete match of the pattern counts as a failure at the point where it starts. Locations of failures inside a line or section are offsets in the whole text.",
  ["inputs", "programs", "histories"], "all patterns and texts for which the parse fails",
  T + "few of them check which of several competing errors is reported",
  ["src/context.rs", "src/error.rs", "src/traits.rs"], [("ParseContext::report keeps the foremost error", "src/context.rs"), ("with_slice re-bases inner errors", "src/context.rs"), ("error_extra for leftovers", "src/traits.rs")],
  state=[("foremost_error", "furthest failure so far", "src/context.rs")])
p("C15", "Errors display the right message, line and column",
  "A displayed error states its reason in words and then where it is: the 1-based line number counted by newlines before the location, and the 1-based column counted in characters from the start of that line, or that it is at the end of input when the location is the end of the text. The stated reason names what was expected or which text could not be converted.",
  ["inputs"], "all texts (multi-byte, many lines), all locations, all reasons",
  "a handful of messages are compared; none with multi-byte characters or a location on a newline",
  ["src/error.rs"], [("Display for ParseError and ParseErrorReason", "src/error.rs")])
p("C16", "Rule sets mean what their rules say, including recursion, and stay separate",
  "Inside a rule set, using a rule anywhere, including in itself or in rules defined later, matches exactly as if its pattern stood there, giving its value. Rule sets nested in, combined with or used alongside other rule sets, moved, or used repeatedly never confuse their rules with those of another set.",
  ["programs", "inputs"], "all non-left-recursive rule sets, nested and side by side, all texts",
  T + "a few small grammars; interplay of several rule sets is barely touched",
  ["src/parsers/rule_set.rs", "src/parsers/dynamic.rs", "src/context.rs"], [("RuleSetBuilder, RuleParser, RuleSetParser", "src/parsers/rule_set.rs"), ("DynParser", "src/parsers/dynamic.rs"), ("register_rule_set / fetch_parser_for_rule", "src/context.rs")],
  state=[("rule_sets", "map from rule-set identity to its parsers during a parse", "src/context.rs")])
p("C17", "Collection parsers hold exactly the items their pattern produced",
  "hash_set, btree_set, hash_map, btree_map and vec_deque match exactly where their inner pattern matches and yield the collection of the items of its list value: a set has exactly the distinct items, a map has each key with the value of its last occurrence, a deque keeps order and multiplicity.",
  ["inputs", "programs"], "all inner patterns yielding lists, all texts",
  "each collection is tested on one or two texts",
  ["src/parsers/collections.rs"], [("Collect mapping and its five constructors", "src/parsers/collections.rs")])
p("C18", "Values have the documented shape, and parser! means its combinators",
  "Patterns with no value contribute nothing to a sequence's value; one valued part gives that value itself; several give a flat tuple in order; groups in parentheses count as one part. The parser! notation (juxtaposition, * + ?, alternation in braces, name:pattern => expression, parenthesised groups, rule definitions) denotes exactly the combinators it is documented to stand for, with labels bound to the values of their own patterns.",
  ["programs", "inputs"], "all pattern notations within the documented arities, all texts",
  T + "the notation's forms combine in ways the tests sample thinly",
  ["src/types.rs", "src/macros.rs", "src/parsers/map.rs", "src/parsers/sequence.rs"], [("ParserOutput, RawOutputConcat", "src/types.rs"), ("parser! and its helper macro", "src/macros.rs"), ("single_value, skip, pair, sequence", "src/parsers")])
p("C19", "A parser keeps no state between parses",
  "The result of a parse depends only on the pattern and the text: repeating it, using the same parser for other texts in between (successful or failing), cloning or borrowing the parser, sharing it between larger patterns, or building an equal pattern anew never changes the result.",
  ["histories", "inputs", "programs"], "all sequences of parses with the same parser values",
  "tests use each parser once or twice on related texts",
  ["src/traits.rs", "src/context.rs", "src/parsers/rule_set.rs", "src/parsers/regex.rs"], [("all search state lives in the iterator and the per-parse context", "src/context.rs"), ("Clone impls", "src/parsers")])
p("C20", "aoc_parse supplies exactly one missing final newline",
  "The aoc_parse helper gives exactly the result of parsing the text itself when it ends with a newline, and of parsing the text with one newline appended otherwise (so the empty text becomes a single newline); success, value and failure are those of that parse, and nothing else about the text changes.",
  ["inputs", "programs"], "all texts, all patterns",
  "the helper has no test at all",
  ["src/util.rs"], [("aoc_parse", "src/util.rs")])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
BASE = " Assumed: models of std/regex/num, weave's rewriting rules (DESIGN.md). The random differential run only looks for concrete inputs and is labelled bounded."
NOTES = {
 "C01": "Postconditions of parse/parse_raw over the trace semantics, for every parser meeting the trait contract and every text.",
 "C02": "Sequence refines seq_tr; theorem_c02_order/sound/complete say what that is.",
 "C03": "Alternatives refine concatenation of traces; theorem_c03, _alt, _opt.",
 "C04": "Iterator-state invariant against a recursive repetition trace; theorem_c04_sound/complete say which lists are matched.",
 "C05": "Every loop and recursion has a discharged measure. Recursion through rule sets is assumed well-founded (not left-recursive).",
 "C06": "Closed-form line bounds; theorem_c06_region, theorem_c06_lines.",
 "C07": "Closed-form section bounds; theorem_c06_region, theorem_c06_lines (generic in the region).",
 "C08": "One match iff the text there is the literal or class member; Unicode class tables themselves are std's, uninterpreted.",
 "C09": "Regex literals are parsed by regex-syntax on every run and given a formal meaning; the digit-run characterisation is proved from it. FromStr/from_str_radix are assumed.",
 "C10": "As C09; the value of a float text is std's, uninterpreted.",
 "C11": "StringParser's trace is the inner trace with values replaced by text slices.",
 "C12": "Calling a mapper needs a permission that parse's precondition grants for the first full match only; ghost fuel counts the calls: parse makes exactly those of the accepted match.",
 "C13": "Every slice, index, arithmetic operation, unwrap and assert of the crate is a discharged obligation.",
 "C14": "The context is the fold of the errors met; parse's error is proved foremost.",
 "C15": "The written text equals the specified one as a term over format strings.",
 "C16": "Rule lookup and registration proved; that a grammar has traces satisfying its equations is required of the user (RuleParser::pwf).",
 "C17": "theorem_c17_*: the collection holds the items of the match; FromIterator's effect is assumed (axiom_collect_*).",
 "C18": "Value shapes proved for every arity; 40 forms of parser! proved from rustc's expansion for all sub-parsers; 78 concrete forms additionally run (bounded).",
 "C19": "All outcomes are functions of parser and text by contract; Clone impls proved. A failed obligation without a failing input is reported by the specific property.",
 "C20": "Value, success and error of aoc_parse are those of parse on the text with its newline.",
}
checks = []
for x in P:
    i = x["id"]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                   "technique": "contract-based deductive verification with Verus on the source woven from /repo (bounded differential search for failing inputs)",
                   "level": "proof", "level_note": NOTES[i] + BASE})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the harness uses only the public API and the verified text is extracted from /repo/src on every run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
