#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current source.

1. weave extracts the crate's source, inserts the contracts of contracts/*.vc and
   Verus discharges (or fails) every obligation, function by function.
2. The bounded suite of the property runs the real crate against an independent
   reference interpreter: it looks for the concrete failing input behind a failed
   obligation, and stands in (labelled bounded) for what is trusted.
Exit 0: held.  Exit 1: a VIOLATION line was printed."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from props import *

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv: TIER = "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/opt/veriftools/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_BUILD_TARGET", None)
    e.update(kw)
    return e

def say(*a): print(*a, flush=True)

def run(cmd, timeout, cwd=VERIF, **kw):
    """-> (rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(**kw), start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace")

# ------------------------------------------------------------------ building

def build_weave():
    b = os.path.join(BUILD, "weave", "release", "weave")
    src = [os.path.join(VERIF, "tools/weave", f) for f in ("Cargo.toml", "Cargo.lock", *sorted("src/" + x for x in os.listdir(os.path.join(VERIF, "tools/weave/src"))))]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stamp = b + ".sha"
    if os.path.exists(b) and os.path.exists(stamp) and open(stamp).read() == h: return b
    rc, o, e = run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "tools/weave/Cargo.toml")], 400,
                   CARGO_TARGET_DIR=os.path.join(BUILD, "weave"))
    if rc != 0: raise RuntimeError("weave does not build: " + e[-2000:])
    open(stamp, "w").write(h)
    return b

def build_crate(name, target):
    """Build a harness crate against /repo's current source -> (binary or None, log)."""
    tdir = os.path.join(BUILD, target)
    fp = os.path.join(tdir, "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            # never trust time stamps for the crate under test
            if d.startswith("aoc-parse-") or d.startswith("vh-") or d.startswith("vm-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    rc, o, e = run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, name, "Cargo.toml")], 500,
                   CARGO_TARGET_DIR=tdir)
    b = os.path.join(tdir, "release", {"harness": "vh", "hmacro": "vm"}[name])
    return (b if rc == 0 and os.path.exists(b) else None), e

# ---------------------------------------------------------------- deduction

class Proof:
    """One run of weave + Verus."""
    def __init__(self):
        self.ok = False          # Verus produced a verdict for the crate
        self.why = ""            # why not
        self.verified = 0; self.errors = 0
        self.failed = {}         # function key -> [(message, text)]
        self.undecided = {}      # function key -> reason
        self.degraded = {}       # function key -> reason (body trusted on this run)
        self.map = {}; self.trusted = []; self.ms = 0; self.solver_ms = 0
        self.forms = {}; self.stderr = ""; self.breakdown = []; self.scan = {}; self.redo = {}; self.seeds = []

def split_diags(t):
    out = []
    for b in re.split(r"\n(?=(?:error|warning|note)(?:\[|:| ))", "\n" + t):
        b = b.strip("\n")
        if b.startswith("error"): out.append(b)
    return out

def key_of_line(lines, fns, l):
    best = None
    for f in fns:
        if f["start"] <= l <= f["end"] and (best is None or f["start"] >= best["start"]): best = f
    if best: return best["key"]
    name = None
    for k in range(min(l, len(lines)), 0, -1):
        t = lines[k - 1]
        if name is None:
            m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:proof |(?:open |closed )?spec |axiom |uninterp spec )fn (\w+)", t)
            if m:
                name = m[1]
                if not t.startswith(" "): return "ghost " + name
                continue
        m = re.match(r"(?:pub(?:\(\w+\))? )?trait (\w+)", t)
        if m and name: return "trait %s::%s" % (m[1], name)
        m = re.match(r"impl\b", t)
        if m and name:
            h = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", t)))
            m = re.match(r"impl\s*(?:(\w+) for )?&?(\w+)", h)
            if m: return ("%s for %s::%s" % (m[1], m[2], name)) if m[1] else "impl %s::%s" % (m[2], name)
            return "ghost " + name
    return "ghost " + (name or "?")

def prints(m, lines):
    """What each function's obligations are generated from -> ({function: hash of its text}, hash of all the rest)."""
    ls0 = [re.sub(r"/\*VXFN:[^*]*\*/", "", l).strip() for l in lines]
    lines = ["" if l.startswith("//") else l for l in ls0]
    h = lambda ls: hashlib.sha256("\n".join(l for l in ls if l).encode()).hexdigest()[:16]
    fns, rest, at = {}, [], 0
    for f in sorted(m["functions"], key=lambda f: f["start"]):
        if f["start"] - 1 < at: continue  # a function inside another one
        rest += lines[at:f["start"] - 1]; at = f["end"]
        fns[f["key"]] = h(lines[f["start"] - 1:at])
    return fns, h(rest + lines[at:])

def classify(pr, ds, m, lines, ext, base):
    """Attribute each diagnostic to the function it is about -> was the canary refuted?"""
    fns = m["functions"]
    keys = {f["key"] for f in fns}
    known = set(base["functions"]); unc0 = set(base["uncontracted"])
    helpers = {k for k in m["uncontracted"] if k not in unc0 and k not in known} | set(ext)
    hnames = {re.split(r"::| ", k)[-1] for k in helpers}
    lost = {}
    for a in m["lost_anchors"]:
        if a in base["lost_anchors"]: continue
        d, _, k = a.partition(" ")
        k = re.sub(r" \d+$", "", k)
        lost.setdefault(k, []).append(a)
    canary = False
    now, rest = prints(m, lines)
    same = {k for k in now if now[k] == base["prints"].get(k)} if rest == base["rest"] else None
    for d in ds:
        ls = [int(x) for x in re.findall(r"--> out\.rs:(\d+)", d)]
        alll = sorted(set(ls + [int(x) for x in re.findall(r"\n\s*(\d+) \|", d)]))
        head = d.split("\n")[0]
        if not ls: continue
        k = key_of_line(lines, fns, ls[0])
        # a failed trait/callee contract may be reported at the contract; take the implementing body
        cands = [key_of_line(lines, fns, l) for l in alll]
        if k == "ghost vx_canary": canary = True; continue
        who = [k]
        if head.startswith("error: postcondition") and (k.startswith("trait ") or k.startswith("ghost")):
            w2 = [c for c in cands if c != k and not c.startswith("ghost")]
            if w2: who = w2[:1]
        if re.search(r"rlimit|resource limit|timed? ?out", head, re.I):
            for w in who: pr.undecided.setdefault(w, head)
            continue
        for w in who:
            f = next((f for f in fns if f["key"] == w), None)
            body = "\n".join(lines[f["start"] - 1:f["end"]]) if f else ""
            reason = None
            if w in lost: reason = "its contract lost its anchor (%s)" % ", ".join(lost[w])
            elif f and w not in known: reason = "a function without a contract"
            elif m.get("loops", {}).get(w) != base.get("loops", {}).get(w):
                reason = "its loops are not those its invariants were written for (%s)" % m.get("loops", {}).get(w, "none")
            else:
                used = [n for n in hnames if re.search(r"\b%s\b" % re.escape(n), body)]
                inv = {c for c in cands + [w] if c in keys}
                if same is not None and inv <= same and (inv or w.startswith("ghost")):
                    # caller and callee are checked against contracts alone: these are, word for word,
                    # the obligations discharged on the tree the contracts were written for
                    reason = "the solver gave up on an obligation it discharges (nothing that the obligation depends on differs)"
                if used: reason = "it calls code without a contract (%s)" % ", ".join(used)
            if reason: pr.undecided.setdefault(w, reason + ": " + head)
            else: pr.failed.setdefault(w, []).append((head, d))
    return canary

def prove(prop, workdir):
    pr = Proof()
    base = json.load(open(os.path.join(VERIF, "tools/baseline.json")))
    try: weave = build_weave()
    except RuntimeError as ex:
        pr.why = str(ex); return pr
    ext = {}
    out = os.path.join(workdir, "out.rs"); mp = os.path.join(workdir, "map.json")
    rl = ["--rlimit", "60" if THOROUGH else "30"]
    for attempt in range(5):
        cmd = [weave, "--src", os.path.join(REPO, "src"), "--contracts", os.path.join(VERIF, "contracts"), "--out", out, "--map", mp]
        for k in ext: cmd += ["--external", k]
        rc, o, e = run(cmd, 60)
        if rc != 0:
            pr.why = "the extraction cannot read this source: " + (e or o)[-600:]; return pr
        m = json.load(open(mp)); fns = m["functions"]; lines = open(out).read().split("\n")
        keys = {f["key"] for f in fns}
        new = {k: why for k, why in m["problems"] if k in keys and k not in ext}
        if new and attempt < 4:
            for k, why in new.items(): ext[k] = "extraction: " + why
            continue
        if os.path.exists(os.path.join(workdir, "v.json")): os.remove(os.path.join(workdir, "v.json"))
        rc, o, e = run(["verus", "out.rs", "--triggers-mode", "silent", "--multiple-errors", "3", "--output-json", "--time-expanded", "--num-threads", "4"] + rl,
                       400, cwd=workdir)
        if rc is None:
            pr.why = "the verifier ran out of time"; return pr
        try: j = json.loads(o[o.index("{"):])
        except ValueError: j = {}
        vr = j.get("verification-results", {})
        ds = split_diags(e)
        pr.stderr = e
        if vr.get("encountered-vir-error") or "verified" not in vr or vr.get("encountered-error") and not vr.get("verified"):
            # something outside the verifier's language: give that function up, keep the rest
            add = {}
            for d in ds:
                for l in [int(x) for x in re.findall(r"--> out\.rs:(\d+)", d)][:1]:
                    k = key_of_line(lines, fns, l)
                    if k in keys and k not in ext: add[k] = d.split("\n")[0][:200]
            if add and attempt < 4:
                ext.update(add); continue
            pr.why = "the verifier does not accept this source: " + " / ".join(d.split("\n")[0] for d in ds[:4])[:500]
            return pr
        break
    pr.ok = True; pr.map = m; pr.degraded = ext
    pr.verified = vr["verified"]; pr.errors = vr["errors"]
    t = j.get("times-ms", {}); pr.ms = t.get("total", 0)
    try: pr.solver_ms = t["smt"]["total"] if isinstance(t["smt"].get("total"), (int, float)) else sum(x["time"] for x in t["smt"]["smt-run-module-times"])
    except Exception: pr.solver_ms = 0
    for mm in t.get("smt", {}).get("smt-run-module-times", []): pr.breakdown += mm.get("function-breakdown", [])
    canary = classify(pr, ds, m, lines, ext, base)
    for w in pr.undecided: pr.failed.pop(w, None)
    pr.redo = {"main": (workdir, rl, [], bad_fns(j))}
    if not canary:
        pr.ok = False; pr.why = "the vacuity guard verified: the axioms are inconsistent on this source"
        pr.failed = {}
    else: pr.errors -= 1
    if prop == "C18" and pr.ok: prove_forms(pr, workdir, weave, mp, ext, base, rl)
    # trusted inventory, straight from the text the verifier read
    txt = "\n".join(lines)
    pr.scan = {
        "external_body": len(re.findall(r"external_body\]", txt)),
        "axiom": sorted(set(re.findall(r"axiom fn (\w+)", txt))),
        "assume_specification": len(re.findall(r"assume_specification", txt)),
        "uninterpreted": sorted(set(re.findall(r"uninterp spec fn (\w+)", txt))),
        "assume_or_admit": len(re.findall(r"\b(?:assume|admit)\(", txt)),
    }
    return pr

def bad_fns(j):
    """The functions (as the verifier names them) with an undischarged obligation."""
    out = set()
    for mm in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        out |= {(f["function"], f.get("mode:")) for f in mm.get("function-breakdown", []) if not f.get("success", True)}
    return {f for f in out if not f[0].endswith("::vx_canary")}

def second_opinion(prop, pr):
    """Obligations the solver did not discharge, and for which no failing input was found,
    are given to it again with other random seeds: one run that discharges an obligation proves it."""
    for part, (cwd, rl, more, bad) in list(getattr(pr, "redo", {}).items()):
        n0 = len(bad)
        for seed in (7, 23):
            if not bad or time.time() - T0 > 450: break
            rc, o, e = run(["verus", "out.rs", "--triggers-mode", "silent", "--multiple-errors", "3", "--output-json", "--time-expanded", "--num-threads", "8",
                            "--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed] + more + rl, 200, cwd=cwd)
            try: j = json.loads(o[o.index("{"):]) if rc is not None else {}
            except ValueError: j = {}
            if "verified" not in j.get("verification-results", {}): break
            bad &= bad_fns(j); pr.seeds.append(seed)
        if n0 and not bad:
            ok = [k for k in list(pr.failed) + list(pr.undecided) if k.startswith("form_") == (part == "forms") and k not in pr.degraded]
            for k in ok: pr.failed.pop(k, None); pr.undecided.pop(k, None)
            pr.verified += n0; pr.errors -= n0

def prove_forms(pr, workdir, weave, mp, ext, base, rl):
    """The `parser!` macro: rustc expands the forms of forms/src/lib.rs with /repo's
    macro; each expansion must be the parser forms.vc says, for all sub-patterns."""
    fm = pr.forms = {"ran": False, "why": "", "verified": 0, "errors": 0}
    tdir = os.path.join(BUILD, "forms"); fp = os.path.join(tdir, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("aoc-parse-") or d.startswith("forms-"): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    rc, o, e = run(["cargo", "rustc", "--offline", "--manifest-path", os.path.join(VERIF, "forms/Cargo.toml"), "--", "-Zunpretty=expanded"], 200,
                   CARGO_TARGET_DIR=tdir, RUSTC_BOOTSTRAP="1")
    if rc != 0:
        fm["why"] = "rustc does not expand the forms: " + e[-500:]; return
    exp = os.path.join(workdir, "expanded.rs"); open(exp, "w").write(o)
    d2 = os.path.join(workdir, "forms"); os.makedirs(d2, exist_ok=True)
    out = os.path.join(d2, "out.rs"); mp = os.path.join(d2, "map.json")
    cmd = [weave, "--src", os.path.join(REPO, "src"), "--contracts", os.path.join(VERIF, "contracts"), "--more", os.path.join(VERIF, "forms/forms.vc"),
           "--forms", exp, "--out", out, "--map", mp]
    for k in ext: cmd += ["--external", k]
    rc, o, e = run(cmd, 60)
    if rc != 0:
        fm["why"] = "the extraction cannot read the expansion: " + (e or o)[-400:]; return
    m = json.load(open(mp)); lines = open(out).read().split("\n")
    rc, o, e = run(["verus", "out.rs", "--triggers-mode", "silent", "--multiple-errors", "3", "--output-json", "--time-expanded", "--num-threads", "4",
                    "--verify-only-module", "vx_forms"] + rl, 200, cwd=d2)
    try: j = json.loads(o[o.index("{"):]) if rc is not None else {}
    except ValueError: j = {}
    vr = j.get("verification-results", {}); ds = split_diags(e)
    if vr.get("encountered-vir-error") or "verified" not in vr or vr.get("encountered-error") and not vr.get("verified"):
        fm["why"] = "the expansions do not have the shape the contracts are written for: " + " / ".join(d.split("\n")[0] for d in ds[:3])[:400]; return
    fm["ran"] = True; fm["verified"] = vr["verified"]; fm["errors"] = vr["errors"]
    fm["forms"] = sorted(f["key"] for f in m["functions"] if f["key"].startswith("form_"))
    keep = {f["key"] for f in pr.map["functions"]}
    lost0 = m["lost_anchors"]; m["lost_anchors"] = [a for a in lost0 if re.search(r" form_\w+", a)]
    base = dict(base, functions=base["functions"] + fm["forms"])
    n0 = set(pr.failed)
    classify(pr, ds, m, lines, ext, base)
    pr.redo["forms"] = (d2, rl, ["--verify-only-module", "vx_forms"], bad_fns(j))
    for k in set(pr.failed) - n0:
        # only the forms are this run's business
        if not k.startswith("form_"): pr.failed.pop(k)
    for w in pr.undecided: pr.failed.pop(w, None)
    pr.verified += fm["verified"]; pr.errors += fm["errors"]
    pr.map["functions"] += [f for f in m["functions"] if f["key"] in fm["forms"]]

# ------------------------------------------------------------ bounded search

class Search:
    def __init__(self): self.ran = False; self.why = ""; self.res = {}; self.fail = None; self.cmds = []

def harness(prop, workdir, sr, cases, secs):
    b, log = build_crate("harness", "vh")
    if b is None:
        sr.why = "the harness does not build against this source: " + log[-800:]; return
    until = time.time() + secs; k = 0
    # in chunks: a process's memory use grows with the number of its cases
    while True:
        chunk = min(cases, 16_000_000); left = max(1, int(until - time.time()))
        one = Search(); harness1(b, prop, workdir, one, chunk, left, SEED + 1000003 * k)
        k += 1; cases -= chunk
        sr.cmds += one.cmds; sr.fail = one.fail
        if one.ran and not sr.ran: sr.ran = True; sr.res = one.res
        elif one.ran:
            for f in ("evaluations", "distinct_nontrivial", "skipped"): sr.res[f] = sr.res.get(f, 0) + one.res.get(f, 0)
        else: sr.why = sr.why or one.why
        if sr.fail or not one.ran or cases <= 0 or time.time() > until - 2: return

def harness1(b, prop, workdir, sr, cases, secs, seed):
    state = os.path.join(workdir, "state.bin"); outf = os.path.join(workdir, "h.json")
    if os.path.exists(outf): os.remove(outf)
    cmd = [b, prop, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--threads", "8", "--out", outf, "--state", state, "--hang-ms", "20000"]
    rc, o, e = run(cmd, secs + 120)
    sr.cmds.append(" ".join(cmd))
    replay = lambda i: " ".join(["cargo run --release --offline --manifest-path", os.path.join(VERIF, "harness/Cargo.toml"), "--", prop, "--seed", str(seed), "--only", str(i)])
    d = {}
    if rc in (0, 3):
        d = json.load(open(outf)) if os.path.exists(outf) else json.loads(o)
        sr.ran = True; sr.res = d
        if not d.get("confirm"):
            if d.get("failure"): sr.fail = dict(d["failure"], replay=replay(d["failure"].get("index")))
            return
    # crash, abort, kill, or no answer: which case was running?  (time and memory are shared
    # with all that runs here, so a case has failed only if it fails alone)
    idx = [d["failure"]["index"]] if d.get("failure") else []
    try:
        raw = open(state, "rb").read()
        idx += [int.from_bytes(raw[i:i + 8], "little") - 1 for i in range(0, len(raw), 8)]
    except OSError: pass
    for i in dict.fromkeys(x for x in idx if x >= 0):
        rc1, o1, e1 = run([b, prop, "--seed", str(seed), "--only", str(i), "--hang-ms", "30000"], 90)
        if rc1 != 0:
            m = re.search(r"FAILED\n(.*)\nexpected: (.*)\nactual:   (.*)", o1, re.S)
            sr.ran = True
            sr.fail = {"index": i, "case": "case %d of suite %s" % (i, prop), "expected": "the parser returns", "actual": "the process ended with status %s: %s" % (rc1, e1[-400:])}
            if m: sr.fail.update(case=m[1], expected=m[2], actual=m[3])
            sr.fail["replay"] = replay(i)
            return
    sr.why = "the harness ended with status %s and no case reproduces it: %s" % (rc, e[-400:])

def macros(workdir, sr):
    b, log = build_crate("hmacro", "vm")
    if b is None:
        # does the crate itself build?
        rc, o, e = run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "hmacro/Cargo.toml"), "-p", "aoc-parse"], 300, CARGO_TARGET_DIR=os.path.join(BUILD, "vm"))
        if rc == 0:
            sr.fail = {"case": "the 78 parser! forms of hmacro/src/main.rs", "expected": "they compile", "actual": "rustc rejects the expansion: " + log[-1500:],
                       "replay": "cargo build --offline --manifest-path " + os.path.join(VERIF, "hmacro/Cargo.toml")}
        else: sr.why = "the crate does not build: " + e[-400:]
        return
    rc, o, e = run([b], 120)
    try: d = json.loads(o)
    except ValueError: d = {}
    sr.macro = d
    f = d.get("failure")
    if isinstance(f, str): f = {"case": f}
    if rc == 3 and f: sr.fail = dict(f, replay="cargo run --release --offline --manifest-path " + os.path.join(VERIF, "hmacro/Cargo.toml"))
    elif rc != 0: sr.fail = {"case": "parser! forms of hmacro/src/main.rs", "expected": "exit 0", "actual": "status %s: %s" % (rc, (e or o)[-800:]), "replay": b}
    if not sr.fail: random_programs(workdir, sr)

def random_programs(workdir, sr):
    """Random `parser!` programs: each expansion against the combinators it stands for (gmacro/)."""
    d = os.path.join(workdir, "gm"); os.makedirs(d, exist_ok=True)
    n = 20000 if THOROUGH else 2000
    args = [sys.executable, os.path.join(VERIF, "gmacro", "gm.py"), d, os.path.join(BUILD, "gm"), str(SEED), str(n), "200" if THOROUGH else "60"]
    rc, o, e = run(args, 600 if THOROUGH else 300)
    try: r = json.loads(o.strip().splitlines()[-1])
    except (ValueError, IndexError): r = {"ran": False, "why": "status %s: %s" % (rc, (e or o)[-600:])}
    sr.random = {k: v for k, v in r.items() if k != "failure"}
    if r.get("failure"): sr.fail = dict(r["failure"], replay="mkdir -p /tmp/gm && python3 %s /tmp/gm /tmp/gm/target %d %d" % (os.path.join(VERIF, "gmacro", "gm.py"), SEED, n))

# --------------------------------------------------------------------- main

def owned(prop, key):
    return any(re.fullmatch(p, key) for p in PROPS[prop])

def relevant(prop, pr):
    """Failed obligations that decide this property."""
    out = []
    for k, ds in pr.failed.items():
        for head, text in ds:
            hit = owned(prop, k)
            # a failed obligation about how often conversion code is called
            if not hit and prop == "C12": hit = bool(re.search(r"\bvx_fuel\)?\.n [=><][^\n]*\n[^\n]*(failed|\^)", text))
            if not hit and prop == "C05": hit = any(re.search(c, head) for c in CLASS_TERMINATION)
            if not hit and prop == "C13":
                hit = any(re.search(c, head) for c in CLASS_PANIC) or ("precondition" in head and any(c in text for c in PANIC_CALLEES))
            if not hit and prop == "C01": hit = not any(owned(q, k) for q in PROPS if q != "C01") and not k.startswith("ghost")
            if hit: out.append((k, head, text))
    return out

def main():
    prop = sys.argv[1]
    if prop not in PROPS: say("unknown property", prop); sys.exit(2)
    os.makedirs(EVID, exist_ok=True); os.makedirs(BUILD, exist_ok=True)
    ev = os.path.join(EVID, prop + ".json")
    if os.path.exists(ev): os.remove(ev)
    workdir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(workdir, ignore_errors=True); os.makedirs(workdir)
    cases, secs = (200_000_000, 300) if THOROUGH else (6_000_000, 12)
    sr = Search(); srm = Search(); box = {}
    def guard(f, *a):
        try: f(*a)
        except Exception as ex: box["err"] = repr(ex)
    th = [threading.Thread(target=guard, args=(harness, prop, workdir, sr, cases, secs))]
    if prop == "C18": th.append(threading.Thread(target=guard, args=(macros, workdir, srm)))
    try:
        for t in th: t.start()
        try: pr = prove(prop, workdir)
        except Exception as ex: pr = Proof(); pr.why = "driver: " + repr(ex)
        for t in th: t.join()
        if box.get("err"):
            sr.why = sr.why or box["err"]; say("driver: " + box["err"])
        if pr.ok and not (sr.fail or srm.fail) and (relevant(prop, pr) or any(owned(prop, k) for k in pr.undecided if k not in pr.degraded)):
            second_opinion(prop, pr)
        if THOROUGH and pr.ok: cross_check(workdir, pr)
        sys.exit(report(prop, pr, sr, srm, ev))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

def cross_check(workdir, pr):
    """Bounded: the woven text, compiled with its ghost code erased, next to the crate (run/)."""
    import subprocess
    r = subprocess.run([sys.executable, os.path.join(VERIF, "run", "runwoven.py"), "600000", str(SEED)],
        env=dict(os.environ, VX_OUT=os.path.join(workdir, "runwoven")), capture_output=True, text=True)
    last = (r.stdout.strip().splitlines() or [""])[-1]
    if r.returncode == 0: pr.cross = dict(json.loads(last), ran=True, differences=0)
    elif r.returncode in (3, 4): pr.cross = {"ran": True, "differences": 1, "what": r.stdout[-3000:]}
    else: pr.cross = {"ran": False, "why": (r.stdout + r.stderr)[-1500:]}

def report(prop, pr, sr, srm, ev):
    rel = relevant(prop, pr) if pr.ok else []
    prim = [f for f in pr.map.get("functions", []) if owned(prop, f["key"])] if pr.ok else []
    fail = sr.fail or srm.fail
    viol = 0; lines = []
    known = load_known(prop)
    if fail:
        txt = json.dumps(fail, ensure_ascii=False)
        hit = [k for k in known if k and k in txt]
        if hit and not rel: lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0])); fail = None
    if fail or (rel and prop not in QUIET_WITHOUT_INPUT):
        viol = 1
        rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%d.txt" % (prop, int(time.time())))
        with open(rp, "w") as f:
            f.write("property %s\n" % prop)
            if fail:
                f.write("\n== failing input (replayed against the real crate)\n")
                for k, v in fail.items(): f.write("%s: %s\n" % (k, v))
            for k, head, text in rel:
                f.write("\n== failed obligation: %s\n%s\n\nverifier output (Verus on the woven text of %s):\n%s\n" % (k, head, REPO, text))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fail else " no-failing-input-found"))
    # ---- evidence
    degraded = (not pr.ok) or (prop == "C18" and not pr.forms.get("ran")) or any(owned(prop, k) for k in list(pr.degraded) + list(pr.undecided))
    untrusted = [f for f in prim if not f["trusted"] and f["key"] not in pr.degraded]
    cov = {
        "obligations": pr.verified + pr.errors, "discharged": pr.verified,
        "checker_cmd": "weave --src /repo/src --contracts /verif/contracts --out out.rs && verus out.rs --rlimit %s (Verus 0.2026.09.13, Z3 back end)" % (60 if THOROUGH else 30),
        "trusted_base": trusted_base(pr),
        "what_an_obligation_is": "the verification condition of one function (all its postconditions, callee preconditions, loop invariants, termination measures, arithmetic and slice bounds)",
        "primary_functions_under_contract": [f["key"] + (" (trusted)" if f["trusted"] else "") for f in prim],
        "primary_obligations": len(untrusted),
        "functions_under_contract": sum(1 for f in pr.map.get("functions", []) if f["contracted"]),
        "functions_woven": len(pr.map.get("functions", [])),
        "functions_without_contract": pr.map.get("uncontracted", []),
        "solver_seeds_tried_again": pr.seeds, "solver_ms": pr.solver_ms, "verifier_ms": pr.ms, "backend": "Verus/Z3",
        "failed_obligations": {k: [h for h, _ in v] for k, v in pr.failed.items()},
        "undecided_functions": pr.undecided, "functions_given_up_on_this_run": pr.degraded,
        "extraction_rules_applied": pr.map.get("rules", {}), "extraction_dropped": pr.map.get("drops", []),
        "lost_anchors": pr.map.get("lost_anchors", []),
        "proof_available": pr.ok, "proof_unavailable_because": pr.why,
        "extraction_cross_check": dict(getattr(pr, "cross", {"ran": False, "why": "thorough tier only"}), label="bounded: the woven text compiled and run next to the crate on random patterns and texts (run/); never counted as proved"),
        "bounded_search": {"ran": sr.ran, "why_not": sr.why, "commands": sr.cmds, "label": "bounded: never counted as proved"},
        "evaluations": sr.res.get("evaluations", 0), "distinct_nontrivial": sr.res.get("distinct_nontrivial", 0),
        "rule": "bounded part: random grammars and texts (harness/src/gen.rs) whose outcome on the real crate is compared with an independent reference interpreter (harness/src/refi.rs); non-trivial = the text is matched at least partly or an error past the start is produced, distinct by hash of grammar and text",
        "samples": sr.res.get("samples", []),
        "decided_by": "bounded search only on this run" if degraded else "proof, with the bounded search for the trusted parts",
    }
    if prop == "C18":
        cov["macro_forms_proved"] = pr.forms
        cov["macro_forms"] = getattr(srm, "macro", {})
        cov["random_macro_programs"] = dict(getattr(srm, "random", {"ran": False}), label="bounded: random parser! programs, their expansion by rustc compared with the documented combinators (gmacro/gen.py)")
        cov["programs"] = getattr(srm, "macro", {}).get("programs", 0) + cov["random_macro_programs"].get("programs", 0)
    json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
               "assumptions": ASSUMPTIONS + (["on this run the proof did not cover: " + (pr.why or ", ".join(list(pr.degraded) + list(pr.undecided)) or pr.forms.get("why", ""))] if degraded else []),
               "wall_s": round(time.time() - T0, 2), "violations": viol}, open(ev, "w"), indent=1, ensure_ascii=False)
    say("%s: %d/%d obligations discharged (%d of this property's own functions), solver %.1fs; bounded cases %d; %.0fs" % (
        prop, pr.verified, pr.verified + pr.errors, len(untrusted), pr.solver_ms / 1000, sr.res.get("evaluations", 0), time.time() - T0))
    if not pr.ok: say("proof unavailable on this source, bounded search decided: " + pr.why[:300])
    for k, v in list(pr.degraded.items()) + list(pr.undecided.items()): say("not decided by proof: %s: %s" % (k, v[:160]))
    if prop == "C18" and pr.ok and not pr.forms.get("ran"): say("macro forms not decided by proof: " + pr.forms.get("why", "")[:300])
    if not sr.ran: say("bounded search did not run: " + sr.why[:300])
    x = getattr(pr, "cross", {})
    if x.get("differences"): say("the woven text and the crate differ, or a function the proof trusts does not meet its assumed contract, so the proof above is not about this code:\n" + x["what"])
    elif x: say("extraction cross-check: " + ("%d cases, no difference" % x["cases"] if x["ran"] else "did not run: " + x["why"][:300]))
    for l in lines: say(l)
    return viol or (2 if x.get("differences") else 0)

def load_known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.*)$", l.strip())
            if m and m[1] == prop: out.append(m[2])
    return out

ASSUMPTIONS = [
    "Verus, Z3 and rustc are sound; weave's rewriting rules (DESIGN.md) preserve meaning",
    "contracts of std string, regex, HashMap, fmt and number conversion functions (contracts/00_prelude.vc) are assumed",
    "function pointers and closures stored in parsers are deterministic and do not panic on the values they are given",
    "heap allocation succeeds; recursion does not exhaust the stack",
]
def trusted_base(pr):
    s = pr.scan or {}
    return ["%d external_body declarations (std models and stand-ins)" % s.get("external_body", 0),
            "axioms: " + ", ".join(s.get("axiom", [])),
            "uninterpreted functions: " + ", ".join(s.get("uninterpreted", [])),
            "%d assume/admit statements" % s.get("assume_or_admit", 0),
            "functions of the crate whose body is trusted: " + (", ".join(f["key"] for f in pr.map.get("functions", []) if f["trusted"]) or "none"),
            "Verus 0.2026.09.13, Z3 4.x bundled, rustc front end, weave extraction"]

if __name__ == "__main__": main()
