"""Which functions under contract decide which property (regular expressions on
the function keys weave emits), which message classes count, and which bounded
suite searches for a concrete failing input."""

NUM = r"(?:[ui](?:8|16|32|64|128|size))"
PROPS = {
 # id: (title, primary-function patterns)
 "C01": [r"trait Parser::parse$", r"trait Parser::parse_raw$", r"Parser for &::.*"],
 "C02": [r"ghost (theorem|lemma)_c02_?.*", r"\w+ for Sequence(Parser|ParseIter)::.*", r"first_tail_match$", r"sequence$", r"pair$", r"\w+ for (Concat|Pair)::.*", r"trait BinaryOp::.*"],
 "C03": [r"ghost (theorem|lemma)_c03_?.*", r"\w+ for Either(Parser|ParseIter)::.*", r"either$", r"alt$", r"opt$", r"\w+ for Empty(Parser|ParseIter)::.*", r"empty$"],
 "C04": [r"ghost (theorem|lemma)_c04_?.*", r".*Repeat(Parser|ParseIter)::.*", r"repeat$", r"star$", r"plus$", r"repeat_sep$"],
 "C05": [],
 "C06": [r"ghost (theorem|lemma)_c06_.*", r"Region for Line::.*", r"line$", r"lines$", r"match_fully$", r"\w+ for Region(Parser|ParseIter)::.*", r"trait Region::.*"],
 "C07": [r"ghost (theorem|lemma)_c06_.*", r"Region for Section::.*", r"section$", r"sections$", r"match_fully$", r"\w+ for Region(Parser|ParseIter)::.*", r"trait Region::.*"],
 "C08": [r"Parser for (str|char|String)::.*", r"\w+ for ExactParseIter::.*", r"\w+ for Char(Of)?Parser::.*", r"\w+ for CharParseIter::.*",
         r"(alpha|alnum|upper|lower|any_char|digit|digit_bin|digit_hex|char_of)$"],
 "C09": [NUM + r"(_bin|_hex)?$", r"big_u?int(_bin|_hex)?$", r"u?int(_bin|_hex)?_regex$", r"\w+ for RegexParser::.*", r"\w+ for BasicParseIter::.*"],
 "C10": [r"(bool|f32|f64)$", r"(bool|float)_regex$", r"\w+ for RegexParser::.*", r"\w+ for BasicParseIter::.*"],
 "C11": [r"string$", r"\w+ for String(Parser|ParseIter)::.*"],
 "C12": [r"\w+ for Map(Parser|ParseIter)::.*", r"(trait )?Mapping.*::.*", r"map$", r"skip$", r"single_value$"],
 "C13": [r"impl ParseContext::(new|source|report|error_.*|with_slice)$", r"impl ParseError::.*"],
 "C14": [r"impl ParseContext::(report|into_reported_error|error_.*|with_slice)$"],
 "C15": [r"Display for .*::fmt$", r"impl ParseError::.*"],
 "C16": [r".*Rule(Set)?(Builder|Parser)::.*", r".*Dyn(Parser|ParseIter)::.*", r".*MyDynParserTrait.*::.*", r"impl ParseContext::(register_rule_set|fetch_parser_for_rule)$"],
 "C17": [r"ghost theorem_c17_.*", r"Mapping for Collect::.*", r"(hash_map|hash_set|btree_map|btree_set|vec_deque)$"],
 "C18": [r".*RawOutputConcat.*::.*", r".*ParserOutput.*::.*", r"\w+ for (Skip|SingleValue|Concat|Pair)::.*", r"(skip|single_value|sequence|pair)$", r"form_\w+"],
 "C19": [r"Clone for .*::clone$", r"\w+ for .*Parser::parse_iter$"],
 "C20": [r"aoc_parse$"],
}
# Properties whose primary functions are shared with more specific ones raise an
# alarm without a failing input only for the functions above; C05 and C13 also
# for these classes of obligation anywhere in the crate.
CLASS_TERMINATION = [r"decreases not satisfied", r"termination"]
CLASS_PANIC = [r"arithmetic underflow/overflow", r"possible division by zero", r"index out of bounds"]
PANIC_CALLEES = ["vx_unreachable", "vx_assert", "vx_from", "vx_to", "vx_slice", "vec_index", "unwrap", "expect", "option.rs", "result.rs", "vec.rs", "slice.rs"]
# C19: the functional trace contracts make every run a function of (parser, text);
# a failure there without a failing input belongs to the specific property.
QUIET_WITHOUT_INPUT = {"C19"}
