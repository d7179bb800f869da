"""gm.py DIR TARGET SEED N [MAX]: expand N random `parser!` programs with /repo's macro and compare each
expansion with the combinator expression it stands for; where they differ, compare what they do."""
import json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import gen

HEAD = '#![recursion_limit = "1024"]\nuse aoc_parse::{parser, prelude::*}; const num: u8 = 0; const pr: u8 = 0;\n'

class Expander:
    def __init__(self, d, target, repo):
        self.d = d; self.target = target
        for q, name in (("", "gmacro"), ("/run", "gmrun")):
            self.crate(d + q, name, repo)
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("aoc-parse-") or x.startswith("gm"): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)

    def crate(self, d, name, repo):
        os.makedirs(d + "/src", exist_ok=True)
        open(d + "/Cargo.toml", "w").write('[package]\nname = "' + name + '"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\naoc-parse = { path = "%s" }\n' % repo)
        open(d + "/Cargo.lock", "w").write(open(H + "/Cargo.lock").read().replace('"gmacro"', '"%s"' % name))

    def cargo(self, args, timeout, cwd=None):
        env = dict(os.environ, CARGO_TARGET_DIR=self.target, RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo"] + args, cwd=cwd or self.d, env=env, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr

    def lines(self, err, f):
        """The source lines errors are reported at."""
        return {int(x) for b in re.split(r"\n(?=error|warning)", err) if b.startswith("error") for x in re.findall(r"(?:-->|:::) src/%s:(\d+):" % f, b)[:1]}

def main():
    d, target, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    most = int(sys.argv[5]) if len(sys.argv) > 5 else 40
    res = {"ran": False, "why": "", "programs": 0, "differently_expanded": 0, "rejected": 0, "run": 0, "evaluations": 0}
    def end(): print(json.dumps(res, ensure_ascii=False)); sys.exit(0)
    x = Expander(d, target, os.environ.get("VP_REPO", "/repo"))
    ps = gen.programs(seed, n)
    rejected = []
    live = list(range(len(ps)))
    for attempt in range(4):
        with open(d + "/src/lib.rs", "w") as f:
            f.write(HEAD + "".join("fn m%d() { let f = parser!(%s); }\nfn e%d() { let f = %s; }\n" % (i, ps[i]["macro"], i, ps[i]["direct"]) for i in live))
        rc, o, e = x.cargo(["rustc", "--offline", "--lib", "--", "-Zunpretty=expanded", "--cap-lints", "allow"], 300)
        if rc == 0: break
        bad = {live[(l - 3) // 2] for l in x.lines(e, "lib.rs") if l >= 3 and (l - 3) // 2 < len(live)}
        if not bad: res["why"] = "rustc does not expand the programs: " + e[-600:]; end()
        rejected += sorted(bad); live = [i for i in live if i not in bad]
        if len(live) == 0: break
    else:
        res["why"] = "rustc does not expand the programs: " + e[-600:]
        if not rejected: end()
        o = ""; live = []
    fns = {}
    for f in re.split(r"\n(?=fn [me]\d+\(\))", o)[1:]:
        m = re.match(r"fn ([me]\d+)\(\)(.*)", f, re.S); fns[m[1]] = re.sub(r"\s+", "", m[2])
    differ = [i for i in live if fns.get("m%d" % i) != fns.get("e%d" % i)]
    if os.environ.get("GM_SHOW"):
        for i in differ: print(ps[i]["macro"], "\n   ", fns.get("m%d" % i), "\n   ", fns.get("e%d" % i))
    res.update(programs=len(live) + len(rejected), differently_expanded=len(differ), rejected=len(rejected))
    if os.environ.get("GM_RUN_ALL"): differ = live
    # the simplest of those that differ, and a few others
    by = sorted(differ, key=lambda i: len(ps[i]["macro"]))
    todo = by[:most // 2] + [by[len(by) * k // most] for k in range(most // 2, most) if by]
    todo = list(dict.fromkeys(todo + sorted(rejected, key=lambda i: len(ps[i]["macro"]))[:most // 2]))
    for attempt in range(6):
        if os.environ.get("GM_SHOW"): print(attempt, len(todo))
        if not todo: break
        with open(d + "/run/src/main.rs", "w") as f:
            src = open(H + "/run.rs").read(); base = src.count("\n")
            body = ""
            for i in todo:
                loc = "let num = u32; let pr = ::aoc_parse::macros::sequence(u8, ::aoc_parse::macros::sequence(\",\", u8));"
                body += "fn f%d() { %s let p =\nparser!(%s);\nlet q =\n%s;\nsame(%d, p, q, &[%s]); }\n" % (i, loc, ps[i]["macro"], ps[i]["direct"], i, ", ".join(rstr(s) for s in ps[i]["inputs"]))
            f.write(src + body + "fn main() {\n" + "".join("f%d();\n" % i for i in todo) + "}\n")
        rc, o, e = x.cargo(["build", "--offline", "--message-format", "short"], 500, d + "/run")
        if rc == 0:
            exe = os.path.join(target, "debug", "gmrun")
            r = subprocess.run([exe], capture_output=True, text=True, timeout=120)
            res["run"] = len(todo); res["evaluations"] = sum(len(ps[i]["inputs"]) for i in todo)
            if r.returncode:
                m = re.match(r"DIFFERENT (\d+) (.*)\nexpected: (.*)\nactual:   (.*)", r.stdout, re.S)
                if m: res["failure"] = {"case": "parser!(%s) on %s\ncompared with %s" % (ps[int(m[1])]["macro"], m[2], ps[int(m[1])]["direct"].replace("::aoc_parse::macros::", "")), "expected": m[3].strip(), "actual": m[4].strip()}
                else: res["why"] = "the programs end with status %s: %s" % (r.returncode, r.stderr[-400:])
            break
        ls = {int(l) - base for l in re.findall(r"^src/main\.rs:(\d+):\d+: error", e, re.M)}
        # five lines a program: .., the macro call, .., the combinators, ..
        hit = {}
        for l in ls:
            if 0 < l <= 5 * len(todo): hit.setdefault(todo[(l - 1) // 5], set()).add((l - 1) % 5)
        if not hit: res["why"] = "the programs do not build: " + e[-600:]; break
        bad = [i for i, s in sorted(hit.items(), key=lambda h: len(ps[h[0]]["macro"])) if 1 in s and 3 not in s]
        if bad and alone(x, d, ps[bad[0]]):
            i = bad[0]
            m = re.search(r"^src/main\.rs:%d:\d+: (error.*)$" % (base + 5 * todo.index(i) + 2), e, re.M)
            res["failure"] = {"case": "parser!(%s)" % ps[i]["macro"], "expected": "it compiles, as does " + ps[i]["direct"].replace("::aoc_parse::macros::", ""), "actual": "rustc: " + (m[1] if m else e[-400:])}
            break
        todo = [i for i in todo if i not in hit]
    res["ran"] = not res["why"] or "failure" in res
    end()

def alone(x, d, p):
    """Do the combinators of this program compile where the macro does not?"""
    src = open(H + "/run.rs").read()
    open(d + "/run/src/main.rs", "w").write(src + "fn main() { let num = u32; let pr = ::aoc_parse::macros::sequence(u8, ::aoc_parse::macros::sequence(\",\", u8)); let q = %s; same(0, &q, &q, &[\"\"]); }\n" % p["direct"])
    return x.cargo(["build", "--offline"], 300, d + "/run")[0] == 0

def rstr(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")

if __name__ == "__main__": main()
