// The contracts the proof assumes of std, the regex crate and num-bigint (contracts/00_prelude.vc), written out as
// programs over bytes and compared with what those functions do: every short text over a few characters
// of each encoded length, and every short numeral.
use crate::*;

pub static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

macro_rules! same {
    ($what:expr, $want:expr, $got:expr) => {{
        COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let (w, g) = (&$want, &$got);
        if w != g {
            println!("ASSUMPTION\n{}\nassumed: {w:?}\nactual:  {g:?}", $what);
            std::process::exit(4)
        }
    }};
}

fn at(s: &[u8], i: i64, p: &[u8]) -> bool {
    0 <= i && i as usize + p.len() <= s.len() && &s[i as usize..i as usize + p.len()] == p
}
fn bd(s: &[u8], i: usize) -> bool { i <= s.len() && (i == s.len() || s[i] & 0xC0 != 0x80) }

/// UTF-8 by its definition.
fn decode(s: &[u8]) -> Vec<u32> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let b = s[i] as u32;
        let (n, mut c) = if b < 0x80 { (1, b) } else if b < 0xE0 { (2, b & 0x1F) } else if b < 0xF0 { (3, b & 0xF) } else { (4, b & 7) };
        for k in 1..n { c = c << 6 | (s[i + k] as u32 & 0x3F) }
        out.push(c);
        i += n;
    }
    out
}
fn strings(alphabet: &[&str], most: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..most {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |a| format!("{s}{a}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn pat<P: VxPat + Copy>(s: &String, p: P, b: &[u8]) {
    let t = s.as_bytes();
    let n = t.len() as i64;
    let case = format!("text {s:?}, pattern {:?}", std::str::from_utf8(b));
    same!(format!("starts_with: {case}"), at(t, 0, b), s.vx_starts_with(p));
    same!(format!("ends_with: {case}"), at(t, n - b.len() as i64, b), s.vx_ends_with(p));
    let first = (0..=n).find(|i| at(t, *i, b)).map(|i| i as usize);
    let last = (0..=n).rev().find(|i| at(t, *i, b)).map(|i| i as usize);
    same!(format!("find: {case}"), first, s.vx_find(p));
    same!(format!("rfind: {case}"), last, s.vx_rfind(p));
    for i in first.iter().chain(&last) { same!(format!("boundaries: {case}"), (true, true), (bd(t, *i), bd(t, i + b.len()))) }
    same!(format!("contains: {case}"), first.is_some(), s.vx_contains(p));
    same!(format!("strip_prefix: {case}"), at(t, 0, b).then(|| &t[b.len()..]), s.vx_strip_prefix(p).map(|x| x.as_bytes()));
    same!(format!("strip_suffix: {case}"), at(t, n - b.len() as i64, b).then(|| &t[..t.len() - b.len()]), s.vx_strip_suffix(p).map(|x| x.as_bytes()));
}

/// The integer a numeral denotes: magnitude in decimal digits, and whether it is negative.
fn int_val(s: &str, radix: u32, signed: bool) -> Option<(Vec<u8>, bool)> {
    let (neg, d) = match s.as_bytes().first() {
        Some(b'+') => (false, &s[1..]),
        Some(b'-') if signed => (true, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() { return None }
    let mut v = vec![0u8]; // least significant first
    for c in d.chars() {
        let k = match c { '0'..='9' => c as u32 - '0' as u32, 'a'..='z' => c as u32 - 'a' as u32 + 10, 'A'..='Z' => c as u32 - 'A' as u32 + 10, _ => 99 };
        if k >= radix { return None }
        let mut carry = k;
        for x in v.iter_mut() { let y = *x as u32 * radix + carry; *x = (y % 10) as u8; carry = y / 10 }
        while carry > 0 { v.push((carry % 10) as u8); carry /= 10 }
        while v.len() > 1 && *v.last().unwrap() == 0 { v.pop(); }
    }
    v.reverse();
    let neg = neg && v != [0];
    Some((v, neg))
}
fn less(a: &(Vec<u8>, bool), b: &(Vec<u8>, bool)) -> bool {
    match (a.1, b.1) {
        (false, false) => (a.0.len(), &a.0) < (b.0.len(), &b.0),
        (true, true) => (b.0.len(), &b.0) < (a.0.len(), &a.0),
        (x, _) => x,
    }
}
fn text(v: &(Vec<u8>, bool)) -> String {
    format!("{}{}", if v.1 { "-" } else { "" }, v.0.iter().map(|d| (b'0' + d) as char).collect::<String>())
}
fn number<T: FromStr + VxRadix>(name: &str, s: &str, signed: bool, range: Option<(String, String)>, show: impl Fn(T) -> String) {
    let fits = |v: &(Vec<u8>, bool)| match &range {
        None => true,
        Some((lo, hi)) => !less(v, &int_val(lo, 10, true).unwrap()) && !less(&int_val(hi, 10, true).unwrap(), v),
    };
    let want = |radix| int_val(s, radix, signed).filter(|v| fits(v)).map(|v| text(&v));
    same!(format!("{name}::from_str({s:?})"), want(10), T::from_str(s).ok().map(&show));
    for radix in [2, 8, 10, 16, 36] {
        same!(format!("{name}::from_str_radix({s:?}, {radix})"), want(radix), T::vx_from_str_radix(s, radix).ok().map(&show));
    }
}

pub fn main() {
    let alphabet = ["a", "\n", "\r", "é", "€", "😂"];
    let (texts, pats) = (strings(&alphabet, 5), strings(&alphabet, 2));
    for s in &texts {
        let t = s.as_bytes();
        same!(format!("len of {s:?}"), t.len(), s.vx_len());
        same!(format!("chars().count() of {s:?}"), decode(t).len(), s.vx_chars_count());
        same!(format!("chars() of {s:?}"), decode(t), s.chars().map(|c| c as u32).collect::<Vec<_>>());
        for c in ['\n', 'a', '\r'] { same!(format!("count of {c:?} in {s:?}"), t.iter().filter(|b| **b == c as u8).count(), s.vx_count_char(c)) }
        for p in &pats {
            pat(s, p.as_str(), p.as_bytes());
            let mut c = p.chars();
            if let (Some(c), None) = (c.next(), c.next()) { pat(s, c, p.as_bytes()) }
        }
        for i in 0..=t.len() {
            same!(format!("is_char_boundary({i}) of {s:?}"), bd(t, i), s.is_char_boundary(i));
            if !bd(t, i) { continue }
            same!(format!("{s:?}[{i}..]"), &t[i..], s.vx_from(i).as_bytes());
            same!(format!("{s:?}[..{i}]"), &t[..i], s.vx_to(i).as_bytes());
            for j in (i..=t.len()).filter(|j| bd(t, *j)) { same!(format!("{s:?}[{i}..{j}]"), &t[i..j], s.vx_slice(i, j).as_bytes()) }
        }
        let mut x = s.clone();
        x.vx_push('é'); x.vx_push_str("a€");
        same!(format!("push, push_str on {s:?}"), [t, "éa€".as_bytes()].concat(), x.into_bytes());
    }
    // numerals: all the short ones, and those around the ends of each range
    let mut nums = strings(&["0", "1", "2", "9", "a", "F", "z", "+", "-", " ", "é", "٣"], 4);
    for base in ["127", "128", "129", "255", "256", "32767", "32768", "32769", "65535", "65536", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616",
        "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "170141183460469231731687303715884105729",
        "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "98765432109876543210987654321098765432109876543210",
        "7f", "80", "81", "ff", "100", "7FFF", "8000", "8001", "ffff", "10000", "7fffffff", "80000000", "80000001", "FFFFFFFF", "100000000",
        "7fffffffffffffff", "8000000000000000", "8000000000000001", "ffffffffffffffff", "10000000000000000",
        "7fffffffffffffffffffffffffffffff", "80000000000000000000000000000000", "80000000000000000000000000000001",
        "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "1111111", "10000000", "10000001", "11111111", "100000000"] {
        for sign in ["", "+", "-", "--", "+-"] { for zeros in ["", "0", "000000000000000000000000000000000000000000"] { nums.push(format!("{sign}{zeros}{base}")) } }
    }
    macro_rules! std_ints { ($($t:ident $signed:literal)*) => { $( for s in &nums {
        number::<$t>(stringify!($t), s, $signed, Some(($t::MIN.to_string(), $t::MAX.to_string())), |v| v.to_string())
    } )* } }
    std_ints!(u8 false u16 false u32 false u64 false u128 false usize false i8 true i16 true i32 true i64 true i128 true isize true);
    for s in &nums {
        number::<BigUint>("BigUint", s, false, None, |v| v.x.to_string());
        number::<BigInt>("BigInt", s, true, None, |v| v.x.to_string());
    }
    for s in strings(&["t", "r", "u", "e", "f", "a", "l", "s", "T", " "], 4).iter().map(|s| s.as_str()).chain(["true", "false", "False", "true ", " false", "falsey"]) {
        same!(format!("bool::from_str({s:?})"), match s { "true" => Some(true), "false" => Some(false), _ => None }, <bool as FromStr>::from_str(s).ok());
    }
    // the meaning of regex literals (rx_find of their syntax trees; proved there to be what is written here)
    let res: Vec<(&str, Box<dyn Fn(&[u8]) -> Option<usize>>)> = vec![
        (r"\A[0-9]+", Box::new(|t| int_find(t, 10, false))), (r"\A[+-]?[0-9]+", Box::new(|t| int_find(t, 10, true))),
        (r"\A[01]+", Box::new(|t| int_find(t, 2, false))), (r"\A[+-]?[01]+", Box::new(|t| int_find(t, 2, true))),
        (r"\A[0-9A-Fa-f]+", Box::new(|t| int_find(t, 16, false))), (r"\A[+-]?[0-9A-Fa-f]+", Box::new(|t| int_find(t, 16, true))),
        (r"\A(?:true|false)", Box::new(|t| if at(t, 0, b"true") { Some(4) } else if at(t, 0, b"false") { Some(5) } else { None })),
        (r"(?i)\A[+-]?(?:infinity|inf|nan|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:e[+-]?[0-9]+)?)", Box::new(float_find)),
    ];
    let mut texts = strings(&["0", "1", "9", "a", "F", "g", "+", "-", ".", "e", "E", "é", "٣"], 5);
    for a in ["true", "false", "tru", "truefalse", "True", "infinity", "inf", "Infinit", "INFINITY", "nAn", "na", "infinf", "ınf", "falſe"] {
        for sign in ["", "+", "-", " ", "+-"] { for end in ["", "y", "e1", ".5", " true"] { texts.push(format!("{sign}{a}{end}")) } }
    }
    for (lit, f) in &res {
        let re = Regex::new(lit).unwrap();
        for s in &texts {
            let got = re.vx_find(s).map(|m| (m.start(), m.end(), m.as_str().to_string()));
            same!(format!("{lit} on {s:?}"), f(s.as_bytes()).map(|e| (0, e, s[..e].to_string())), got);
        }
    }
    // what std collects (axiom_collect_*)
    let mut lists: Vec<Vec<(u8, u8)>> = vec![vec![]];
    for n in 0..4 { for l in lists.clone().into_iter().filter(|l| l.len() == n) { for k in 0..3 { for v in 0..2 { let mut l = l.clone(); l.push((k, v)); lists.push(l) } } } }
    for l in &lists {
        let keys: Vec<u8> = l.iter().map(|x| x.0).collect();
        let set: Vec<u8> = (0..3).filter(|k| keys.contains(k)).collect();
        let map: Vec<(u8, u8)> = set.iter().map(|k| *l.iter().rev().find(|x| x.0 == *k).unwrap()).collect();
        let c: VecDeque<(u8, u8)> = vx_collect(l.clone());
        same!(format!("VecDeque of {l:?}"), *l, c.into_iter().collect::<Vec<_>>());
        let c: HashSet<u8> = vx_collect(keys.clone());
        same!(format!("HashSet of {keys:?}"), (set.clone(), set.len()), ((0..9).filter(|k| c.contains(k)).collect::<Vec<u8>>(), c.len()));
        let c: BTreeSet<u8> = vx_collect(keys.clone());
        same!(format!("BTreeSet of {keys:?}"), set, c.into_iter().collect::<Vec<_>>());
        let c: HashMap<u8, u8> = vx_collect(l.clone());
        let mut h: Vec<_> = c.into_iter().collect();
        h.sort();
        same!(format!("HashMap of {l:?}"), map, h);
        let c: BTreeMap<u8, u8> = vx_collect(l.clone());
        same!(format!("BTreeMap of {l:?}"), map, c.into_iter().collect::<Vec<_>>());
    }
    // digits and encoded lengths: every character
    for c in (0..=0x10FFFF).filter_map(char::from_u32) {
        let u = c as u32;
        same!(format!("len_utf8 of {c:?}"), if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }, c.len_utf8());
        same!(format!("is_ascii_digit of {c:?}"), ('0'..='9').contains(&c), c.is_ascii_digit());
        for radix in [2, 10, 16] {
            let d = match c { '0'..='9' => u - 48, 'a'..='z' => u - 97 + 10, 'A'..='Z' => u - 65 + 10, _ => 99 };
            same!(format!("digits: {c:?}, {radix}"), (d < radix, (d < radix).then_some(d)), (c.is_digit(radix), c.to_digit(radix)));
        }
    }
}

fn digits(t: &[u8], i: usize, radix: u32) -> usize { i + t[i..].iter().take_while(|b| (**b as char).is_ascii() && (**b as char).is_digit(radix)).count() }
fn int_find(t: &[u8], radix: u32, signed: bool) -> Option<usize> {
    let i = (signed && !t.is_empty() && (t[0] == b'+' || t[0] == b'-')) as usize;
    let e = digits(t, i, radix);
    (e > i).then_some(e)
}
fn float_find(t: &[u8]) -> Option<usize> {
    let i = (!t.is_empty() && (t[0] == b'+' || t[0] == b'-')) as usize;
    for w in ["infinity", "inf", "nan"] {
        if t.len() >= i + w.len() && t[i..i + w.len()].eq_ignore_ascii_case(w.as_bytes()) { return Some(i + w.len()) }
    }
    let e = digits(t, i, 10);
    let mut end = if e > i {
        if e < t.len() && t[e] == b'.' { digits(t, e + 1, 10) } else { e }
    } else if i < t.len() && t[i] == b'.' && digits(t, i + 1, 10) > i + 1 { digits(t, i + 1, 10) } else { return None };
    if end < t.len() && (t[end] == b'e' || t[end] == b'E') {
        let k = end + 1 + (end + 1 < t.len() && (t[end + 1] == b'+' || t[end + 1] == b'-')) as usize;
        let x = digits(t, k, 10);
        if x > k { end = x }
    }
    Some(end)
}
