"""Random `parser!` programs: the text of the macro call, the combinator expression the documentation
says it stands for, and texts it might match.  Nothing here looks at /repo."""
import random

class G:
    def __init__(self, seed):
        self.r = random.Random(seed); self.labels = 0; self.rules = []

    def p(self, a, b): return self.r.randrange(b) < a
    def pick(self, l): return l[self.r.randrange(len(l))]

    # A term is a dict: m (macro text), c (combinator text), f (makes a sample), null (may match ""),
    # unit (its output is ()), bare (a name without quantifier), group (starts with a parenthesis).
    def term(self, m, c, f, null=False, unit=False, bare=False, group=False):
        return dict(m=m, c=c, f=f, null=null, unit=unit, bare=bare, group=group)

    def lit(self):
        s = self.pick(["x", "y", "-", "=", ", ", "ab", "<", "é", "", "(", "x", "-", "\n", "=>", ";", "\"", "rule"])
        if len(s) == 1 and self.p(1, 2):
            q = {"\n": "'\\n'", "\"": "'\"'"}.get(s, "'%s'" % s)
            return self.term(q, q, lambda: s, unit=True)
        q = '"%s"' % s.replace("\n", "\\n").replace('"', '\\"')
        return self.term(q, q, lambda: s, null=s == "", unit=True)

    def name(self):
        n, ss = self.pick([("digit", ["0", "7"]), ("alpha", ["a", "b"]), ("u8", ["1", "200"]), ("i32", ["-3", "14"]), ("upper", ["A"]), ("bool", ["true"]), ("digit_bin", ["1"]), ("num", ["5", "42"]), ("pr", ["1,2"])])
        return self.term(n, n, lambda: self.pick(ss), bare=True)

    def same(self):
        """The macro text of a comma-separated list, with or without a last comma."""
        return self.pick(["", ","])

    def seqs(self, parts):
        return "".join(f for f in parts)

    def base(self, d, guarded):
        k = self.r.randrange(12)
        if guarded and self.rules and self.p(1, 3):
            n = self.pick(self.rules)
            return self.term(n, n, lambda: self.pick(["x", "y1", "-a"]), bare=True)
        if d <= 0 or k <= 2: return self.name() if self.p(3, 5) else self.lit()
        if k <= 5:
            m, c, f, null, unit, _ = self.seq(d - 1, guarded)
            return self.term("(%s)" % m, "::aoc_parse::macros::single_value(%s)" % c, f, null, unit, group=True)
        if k <= 8: return self.alt(d - 1, guarded)
        return self.call(d - 1, guarded)

    def alt(self, d, guarded):
        arms = []; kind = self.r.randrange(4); n = 1 + self.r.randrange(4)
        for i in range(n):
            if kind == 0:
                t = self.lit(); arms.append((t["m"], t["c"], t["f"], t["null"]))
            elif kind == 1:
                t = self.lit(); x = self.pick(["digit", "digit_bin", "digit_hex"])
                if self.p(1, 2): arms.append((x, x, lambda: "1", False))
                elif self.p(1, 2): arms.append((t["m"] + " " + x, "::aoc_parse::macros::sequence(%s, %s)" % (t["c"], x), lambda t=t: t["f"]() + "1", False))
                else: arms.append((x + " " + t["m"], "::aoc_parse::macros::sequence(%s, %s)" % (x, t["c"]), lambda t=t: "0" + t["f"](), False))
            else:
                m, c, f, null, _, _ = self.seq(d, guarded, mapper="arm%d" % i)
                arms.append((m, c, f, null))
        c = arms[0][1]
        for a in arms[1:]: c = "::aoc_parse::macros::alt(%s, %s)" % (c, a[1])
        return self.term("{ %s%s }" % (", ".join(a[0] for a in arms), self.same()), c, lambda: self.pick(arms)[2](), any(a[3] for a in arms), kind == 0)

    def call(self, d, guarded):
        k = self.r.randrange(8)
        if k == 0: return self.term('char_of("abx1")', 'char_of("abx1")', lambda: self.pick("abx1"))
        m, c, f, null, unit, nv = self.seq(d, guarded)
        if not m: m, c, f, null, unit = "'z'", "'z'", lambda: "z", False, True
        if k <= 3: return self.term("string(%s%s)" % (m, self.same() if m else ""), "string(%s)" % c, f, null)
        if k == 4: return self.term("line(%s)" % m, "line(%s)" % c, lambda: f() + "\n", unit=unit)
        if k == 5: return self.term("lines(%s%s)" % (m, self.same() if m else ""), "lines(%s)" % c, lambda: "".join(f() + "\n" for _ in range(self.r.randrange(3))), True)
        if k == 6 and not null:
            x = self.pick(["alpha", "digit"])
            return self.term("btree_set(%s+)" % x, "btree_set(::aoc_parse::macros::plus(%s))" % x, lambda: self.pick(["ab", "1", "aa"]))
        s = self.pick(['","', "'-'", '"-" digit', 'alpha "-"'])
        cs = {'"-" digit': '::aoc_parse::macros::sequence("-", digit)', 'alpha "-"': '::aoc_parse::macros::sequence(alpha, "-")'}.get(s, s)
        sep = {'","': ",", "'-'": "-", '"-" digit': "-1", 'alpha "-"': "a-"}[s]
        return self.term("repeat_sep(%s, %s%s)" % (m, s, self.same()), "repeat_sep(%s, %s)" % (c, cs), lambda: sep.join(f() for _ in range(self.r.randrange(3))), True)

    def quant(self, t):
        k = self.r.randrange(9)
        if k > 2 or (t["null"] and k < 2): return t
        q, fn, cnt = [("*", "star", (0, 1, 2, 3)), ("+", "plus", (1, 2, 3)), ("?", "opt", (0, 1))][k]
        f = t["f"]
        return self.term(t["m"] + q, "::aoc_parse::macros::%s(%s)" % (fn, t["c"]), lambda: "".join(f() for _ in range(self.pick(cnt))), k != 1 or t["null"], group=t["group"])

    def seq(self, d, guarded, mapper=None, first=None):
        """(macro text, combinator text, sample, may match "", output is (), values)"""
        n = self.pick([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7]) if d > 0 else self.pick([1, 1, 2, 3])
        ts = [first] if first else []
        values = 0
        while len(ts) < n + (1 if first else 0):
            g = guarded or any(not t["null"] for t in ts)
            t = self.quant(self.base(d if n < 4 else d - 1, g))
            if ts and ts[-1]["bare"] and t["group"]: continue
            if values >= 6 and not t["unit"]: t = self.lit()
            if not t["unit"]: values += 1
            ts.append(t)
        mapped = mapper is not None or (ts and self.p(1, 4))
        labels = []
        if mapped or self.p(1, 12):
            for i in range(len(ts)):
                if self.p(3, 5):
                    self.labels += 1; labels.append(self.pick(["x%d", "v%d", "rule%d", "r_%d"]) % self.labels)
                else: labels.append(None)
            # (a name before a label is no call)
        else: labels = [None] * len(ts)
        return self.build(ts, labels, mapped, mapper)

    def build(self, ts, labels, mapped, mapper=None):
        values = sum(not t["unit"] for t in ts)
        m = " ".join((l + ":" if l else "") + t["m"] for l, t in zip(labels, ts))
        f = lambda: "".join(t["f"]() for t in ts)
        null = all(t["null"] for t in ts)
        if not mapped:
            c = "::aoc_parse::macros::empty()" if not ts else ts[-1]["c"]
            for t in reversed(ts[:-1]): c = "::aoc_parse::macros::sequence(%s, %s)" % (t["c"], c)
            return m, c, f, null, all(t["unit"] for t in ts), values
        tag = mapper or "m%d" % self.r.randrange(10)
        used = [l for l in labels if l]
        self.r.shuffle(used)
        e = 'format!("%s {:?}", (%s))' % (tag, "".join(l + ", " for l in used)) if used else '"%s".to_string()' % tag
        c = "::aoc_parse::macros::empty()" if not ts else ts[-1]["c"]; pat = "()" if not ts else labels[-1] or "_"
        for l, t in reversed(list(zip(labels, ts))[:-1]):
            c = "::aoc_parse::macros::pair(%s, %s)" % (t["c"], c); pat = "(%s, %s)" % (l or "_", pat)
        return (m + " => " + e).strip(), "::aoc_parse::macros::map(%s, |(%s)| %s)" % (c, pat, e), f, null, False, 1

    def program(self):
        self.labels = 0; self.rules = []
        d = 1 + self.r.randrange(3)
        if not self.p(1, 5):
            m, c, f, _, _, _ = self.seq(d, False)
            if not m: m, c, f = '"z"', '"z"', lambda: "z"
            return m, "::aoc_parse::macros::single_value(%s)" % c, f
        n = 1 + self.r.randrange(3)
        self.rules = ["ra", "rb", "rc"][:n]
        mt, news, defs = "", "", ""
        for i, x in enumerate(self.rules):
            l = self.term(*[('"x"', '"x"', lambda: "x"), ('"y" digit', None, lambda: "y1"), ("'-'", "'-'", lambda: "-")][self.pick([0, 2])], unit=True)
            m, c, _, _, _, _ = self.seq(d - 1, True, mapper=x, first=l)
            mt += "rule %s: String = %s; " % (x, m)
            news += "let %s: ::aoc_parse::macros::RuleParser<String> = builder.new_rule(); " % x
            defs += "builder.assign_parser_for_rule(&%s, %s); " % (x, c)
        m, c, f, _, _, _ = self.seq(d, True)
        if not m: m, c, f = "ra", "ra", lambda: "x"
        return mt + m, "::aoc_parse::macros::single_value({ let mut builder = ::aoc_parse::macros::RuleSetBuilder::new(); %s%sbuilder.build(%s) })" % (news, defs, c), f

    def inputs(self, f):
        out = ["", "x", "1"]
        for _ in range(10):
            s = f()[:24]; out.append(s)
            if s and self.p(1, 2):
                i = self.r.randrange(len(s)); out.append(s[:i] + self.pick(["", "x", "1", "a", "-", "\n", ","]) + s[i + self.r.randrange(2):])
        return list(dict.fromkeys(out))

def systematic(seed, pairs, triples):
    """Every simple sequence in every simple context (or `pairs` of them), and `triples` with two contexts."""
    g = G("sys%d" % seed)
    T = g.term
    MC = "::aoc_parse::macros::"
    alpha, digit = T("alpha", "alpha", lambda: g.pick("ab"), bare=True), T("digit", "digit", lambda: g.pick("17"), bare=True)
    lit = lambda s: T("'%s'" % s, "'%s'" % s, lambda: s, unit=True)
    word = T('"ab"', '"ab"', lambda: "ab", unit=True)
    def q(t, k):
        if not k: return t
        fn, cnt = {"*": ("star", (0, 1, 2)), "+": ("plus", (1, 2)), "?": ("opt", (0, 1))}[k]
        return T(t["m"] + k, MC + "%s(%s)" % (fn, t["c"]), lambda: "".join(t["f"]() for _ in range(g.pick(cnt))), k != "+" or t["null"], group=t["group"])
    # a sequence: (terms, labels, mapped)
    def text(s): return g.build(s[0], s[1], s[2], "m")
    def group(s):
        m, c, f, null, unit, _ = text(s); return T("(%s)" % m, MC + "single_value(%s)" % c, f, null, unit, group=True)
    def alt(ss, last):
        xs = [text(s) for s in ss]; c = xs[0][1]
        for x in xs[1:]: c = MC + "alt(%s, %s)" % (c, x[1])
        return T("{ %s%s }" % (", ".join(x[0] for x in xs), last), c, lambda: g.pick(xs)[2](), any(x[3] for x in xs), xs[0][4])
    def call(fn, args, last, null=False, wrap=lambda f: f()):
        xs = [text(s) for s in args]
        return T("%s(%s%s)" % (fn, ", ".join(x[0] for x in xs), last), "%s(%s)" % (fn, ", ".join(x[1] for x in xs)), lambda: wrap(xs[0][2]), null or xs[0][3], xs[0][4] and fn == "line")
    def S(*ts): return (list(ts), [None] * len(ts), False)
    def M(*lts): return ([t for _, t in lts], [l for l, _ in lts], True)
    rep = lambda f: ",".join(f() for _ in range(g.r.randrange(3)))
    simple = []
    for k in ("", "*", "+", "?"):
        simple += [S(q(alpha, k)), S(q(lit("x"), k)), S(q(word, k)), S(q(group(S(alpha, digit)), k)), S(q(group(S(lit("x"))), k)), S(q(alt([S(alpha), S(digit)], ""), k)), S(q(alt([S(lit("x")), S(word)], ","), k)),
                   S(q(call("string", [S(alpha, digit)], ""), k)), S(q(call("line", [S(alpha)], "", wrap=lambda f: f() + "\n"), k)), S(q(call("char_of", [S(T('"abx"', '"abx"', lambda: "a", unit=True))], ""), k)), S(q(group(M(("x1", alpha))), k)),
                   S(q(call("repeat_sep", [S(digit), S(lit(","))], "", True, rep), k) if k in ("", "?") else alpha), S(digit, q(alpha, k)), S(q(digit, k), alpha), S(q(lit("x"), k), alpha, lit("y"))]
    simple += [S(), S(alpha, digit), S(lit("x"), lit("y")), S(alpha, lit("x"), digit), S(lit("x"), alpha, lit("y"), digit), M(("x1", alpha)), M(("x1", alpha), (None, lit("x")), ("x2", digit)), M((None, lit("x"))), M(("x1", lit("x"))), M((None, alpha), ("x1", q(digit, "*"))), M(), M(("x1", q(group(S(alpha, digit)), "+")), ("x2", alpha)), S(alpha, alpha, digit, digit, alpha), M(*[("x%d" % i, alpha if i % 2 else digit) for i in range(8)]), M(*[("x%d" % i if i in (2, 5) else None, alpha if i % 2 else lit("x")) for i in range(8)])]
    # contexts: sequence -> sequence
    ctx = []
    for k in ("", "*", "+", "?"):
        ctx += [lambda s, k=k: S(q(group(s), k)), lambda s, k=k: S(digit, lit("-"), q(group(s), k)), lambda s, k=k: S(q(group(s), k), alpha), lambda s, k=k: S(q(alt([s, s], ""), k)),
                lambda s, k=k: M((None, lit("-")), ("x8", q(group(s), k)), ("x9", alpha)), lambda s, k=k: S(q(call("string", [s], ""), k)), lambda s, k=k: M(("x8", q(call("string", [s], ""), k)), (None, lit("-")))]
    def empties(s): return not text(s)[0]
    def plain(f): return lambda s: None if s[2] else f(s[0])
    ctx += [plain(lambda ts: S(lit("-"), *ts)), plain(lambda ts: S(*ts, lit("-"))), plain(lambda ts: S(lit("-"), *ts, lit(";"))), plain(lambda ts: S(digit, *ts, digit)), plain(lambda ts: M(*[("x%d" % i, t) for i, t in enumerate(ts)])), plain(lambda ts: M((None, lit("-")), *[(None, t) for t in ts])),
            lambda s: S(alt([s], "")), lambda s: S(alt([s], ",")), lambda s: S(alt([s, s], ",")), lambda s: S(alt([s, s, s], "")), lambda s: S(alt([s, s, s, s], ",")),
            lambda s: S(call("string", [s], ",")), lambda s: S(call("repeat_sep", [s, S(lit(","))], "", True, rep)), lambda s: S(call("repeat_sep", [s, S(lit(","))], ",", True, rep)), lambda s: S(call("repeat_sep", [S(digit), s], "", True)), lambda s: S(call("repeat_sep", [S(digit), s], ",", True)), lambda s: S(call("line", [s], "", wrap=lambda f: f() + "\n")), lambda s: S(call("lines", [s], "", True, lambda f: f() + "\n")), lambda s: S(digit, call("string", [s], ""), alpha)]
    def ok(s): return s is not None and not any(a["bare"] and b["group"] and not l for a, b, l in zip(s[0], s[0][1:], s[1][1:])) and all(t["m"][-3:] != "***" for t in s[0])
    def final(s):
        m, c, f, null, unit, _ = text(s)
        out = [(m, MC + "single_value(%s)" % c, f)]
        r = MC + "single_value({ let mut builder = " + MC + "RuleSetBuilder::new(); let ra: " + MC + "RuleParser<String> = builder.new_rule(); let rb: " + MC + "RuleParser<String> = builder.new_rule(); builder.assign_parser_for_rule(&ra, string(%s)); builder.assign_parser_for_rule(&rb, string(%s)); builder.build(%s) })"
        # as a rule's body, and as what follows the rules
        out.append(("rule ra: String = string(%s); rule rb: String = string('z'); ra rb?" % m, r % (c, "'z'", MC + "sequence(ra, %sopt(rb))" % MC), f))
        out.append(("rule ra: String = string('z'); rule rb: String = string(ra); %s" % m, r % ("'z'", "ra", c), f))
        return out if m and not m.startswith("=>") else out[1:2] if m else []
    one = [k(s) for k in ctx for s in simple if not empties(s)]
    one = [s for s in simple + one if ok(s)]
    g.r.shuffle(one)
    two = [k(s) for k, s in ((g.pick(ctx), g.pick(one)) for _ in range(triples)) if not empties(s)]
    out = {}
    for s in one[:pairs] + [s for s in two if ok(s)]:
        fs = final(s)
        for m, c, f in (fs[:1] if g.p(2, 3) else fs[1:]) or fs: out.setdefault(m, dict(macro=m, direct=c, inputs=None, f=f))
    out = [p for m, p in out.items() if len(m) <= 600]
    for p in out: p["inputs"] = g.inputs(p.pop("f"))
    return out

def programs(seed, n):
    """All simple sequences in all simple contexts, n // 3 with two contexts, and n random programs."""
    out = systematic(seed, 10 ** 9, n // 3)
    seen = set(p["macro"] for p in out)
    i = 0
    n += len(out)
    while len(out) < n:
        g = G("%d/%d" % (seed, i)); i += 1
        m, c, f = g.program()
        if m in seen or len(m) > 600: continue
        seen.add(m); out.append(dict(macro=m, direct=c, inputs=g.inputs(f)))
    return out

if __name__ == "__main__":
    import sys
    for p in programs(int(sys.argv[1]), int(sys.argv[2])): print(p["macro"], "\n    ", p["direct"].replace("::aoc_parse::macros::", ""), "\n    ", p["inputs"][:6])
