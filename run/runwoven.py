#!/usr/bin/env python3
"""runwoven.py [CASES [SEED]]: compile the woven text with its ghost code erased and run it next to the crate."""
import glob, os, re, subprocess, sys
R = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(R)
TC = "1.98.1"

def wpat(text):
    """harness/src/pat.rs over the woven functions (constants are functions there, 'parse is a parameter)."""
    i, j = text.index("use aoc_parse::macros"), text.index("use std::cell::Cell;")
    text = text[:i] + "use super::pat::{V, Pat, Prim, Class};\nuse crate::*;\n" + text[j:]
    i, j = text.index("#[derive(Clone, Debug, PartialEq, Eq, Hash"), text.index("thread_local! { pub static CALLS")
    text = text[:i] + text[j:]
    i, j = text.index("thread_local! {\n    /// a parse to make"), text.index("pub fn bx<P")
    text = text[:i] + '''fn nested() {}
pub trait Er { fn pi(&'static self, c: &mut ParseContext<'static>, s: usize) -> std::result::Result<BoxIt, Reported>; }
impl<T> Er for T where T: Parser<'static, Output = V, RawOutput = (V,)>, T::Iter: 'static {
    fn pi(&'static self, c: &mut ParseContext<'static>, s: usize) -> std::result::Result<BoxIt, Reported> {
        Ok(BoxIt(Box::new(self.parse_iter(c, s)?)))
    }
}
pub trait ErIt {
    fn me(&self) -> usize;
    fn bt(&mut self, c: &mut ParseContext<'static>) -> std::result::Result<(), Reported>;
    fn cv(&self) -> (V,);
}
impl<I: ParseIter<'static, RawOutput = (V,)>> ErIt for I {
    fn me(&self) -> usize { self.match_end() }
    fn bt(&mut self, c: &mut ParseContext<'static>) -> std::result::Result<(), Reported> { self.backtrack(c) }
    fn cv(&self) -> (V,) { self.convert(Tracked::assume_new()) }
}
pub struct BoxP(Box<dyn Er>);
pub struct BoxIt(Box<dyn ErIt>);
impl ParseIter<'static> for BoxIt {
    type RawOutput = (V,);
    fn inv(&self, _: Seq<u8>, _: int) -> bool { unimplemented!() }
    fn needs(&self) -> Set<usize> { unimplemented!() }
    fn cur(&self) -> (int, Conv<(V,)>) { unimplemented!() }
    fn later(&self, _: Seq<u8>) -> Seq<Ev<(V,)>> { unimplemented!() }
    fn lemma_inv(&self, _: Seq<u8>, _: int) {}
    fn match_end(&self) -> usize { self.0.me() }
    fn backtrack(&mut self, c: &mut ParseContext<'static>) -> std::result::Result<(), Reported> { self.0.bt(c) }
    fn convert(&self, _f: Tracked<&mut VxFuel>) -> (V,) { self.0.cv() }
}
impl Parser<'static> for BoxP {
    type Output = V;
    type RawOutput = (V,);
    type Iter = BoxIt;
    fn pwf(&self) -> bool { unimplemented!() }
    fn needs(&self) -> Set<usize> { unimplemented!() }
    fn trace(&self, _: Seq<u8>, _: int) -> Seq<Ev<(V,)>> { unimplemented!() }
    fn lemma_trace(&self, _: Seq<u8>, _: int) {}
    fn parse_iter(&'static self, c: &mut ParseContext<'static>, s: usize) -> std::result::Result<BoxIt, Reported> { self.0.pi(c, s) }
}
pub fn run(p: &'static BoxP, s: &'static str) -> std::result::Result<V, (String, usize, String)> {
    p.parse(s).map_err(|e| { let mut f = VxFormatter { x: String::new() }; let _ = e.fmt(&mut f); (e.source, e.location, f.x) })
}
pub fn matches(p: &'static BoxP, s: &'static str, start: usize) -> Vec<(usize, V)> {
    let mut ctx = ParseContext::new(s);
    let mut out = vec![];
    if let Ok(mut it) = p.parse_iter(&mut ctx, start) {
        loop {
            out.push((it.match_end(), it.convert(Tracked::assume_new()).0));
            if out.len() > 40 || it.backtrack(&mut ctx).is_err() { break; }
        }
    }
    out
}

''' + text[j:]
    text = text.replace("P: Parser<Output = V, RawOutput = (V,)> + 'static", "P: Parser<'static, Output = V, RawOutput = (V,)> + 'static").replace("P::Iter", "P::Iter")
    text = text.replace("pub fn bx<P: Parser<'static, Output = V, RawOutput = (V,)> + 'static>(p: P)", "pub fn bx<P: Parser<'static, Output = V, RawOutput = (V,), Iter: 'static> + 'static>(p: P)")
    # constants
    prims = "u8 u64 usize i8 i32 i128 u8_bin u16_hex i8_hex i32_bin bool big_int big_uint".split()
    for c in prims: text = text.replace("prim!(%s)" % c, "prim!(%s())" % c)
    text = text.replace("map(f64,", "map(f64(),").replace("map(big_int,", "map(big_int(),").replace("map(big_uint,", "map(big_uint(),")
    text = text.replace("V::Prim(x.to_string())", "V::Prim(x.x.to_string())")
    for c in "alpha alnum upper lower any_char digit_bin digit_hex digit".split(): text = text.replace("map(%s," % c, "map(%s()," % c)
    return text

def main():
    out = os.environ.get("VX_OUT") or os.path.join(V, "build", "runwoven"); os.makedirs(out, exist_ok=True)
    sys.path.insert(0, V); argv = sys.argv; sys.argv = ["x"]
    import check
    sys.argv = argv
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(out, "t"), RUSTUP_TOOLCHAIN=TC)
    def sh(cmd, cwd=None):
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
        if r.returncode: sys.exit("%s\n%s%s" % (" ".join(cmd), r.stdout[-3000:], "\n".join(b for b in re.split(r"\n(?=error|warning)", r.stderr) if b.startswith("error"))[-6000:] or r.stderr[-4000:]))
        return r.stdout
    sh([check.build_weave(), "--src", os.path.join(check.REPO, "src"), "--contracts", V + "/contracts", "--out", out + "/out.rs", "--map", out + "/map.json"])
    sh(["cargo", "build", "--release", "--offline", "--manifest-path", R + "/Cargo.toml"])
    open(out + "/wpat.rs", "w").write(wpat(open(V + "/harness/src/pat.rs").read()))
    # gen.rs and pat.rs refer to each other as crate::pat
    for f in ("pat", "gen", "refi"):
        open(out + "/%s.rs" % f, "w").write(open(V + "/harness/src/%s.rs" % f).read().replace("crate::pat", "super::pat").replace("crate::gen", "super::gen"))
    t = open(out + "/out.rs").read()
    assert t.rstrip().endswith("fn main() {}")
    t = t.rstrip()[:-len("fn main() {}")]+ open(R + "/driver.rs").read().replace("@H@", out).replace("@W@", out).replace("@R@", R)
    open(out + "/run.rs", "w").write(t)
    deps = out + "/t/release/deps"
    ex = []
    for c in ("aoc_parse", "regex", "num_bigint", "num_traits"):
        l = sorted(glob.glob("%s/lib%s-*.rlib" % (deps, c)), key=os.path.getmtime)[-1]
        ex += ["--extern", "%s=%s" % (c, l)]
    sh(["verus", "--no-verify", "--compile", "run.rs", "-o", "run", "--cfg", "vx_run", "-O", "-C", "overflow-checks=on", "-L", "dependency=" + deps] + ex, cwd=out)
    r = subprocess.run([out + "/run"] + argv[1:], env=dict(env, RUST_MIN_STACK="268435456"))
    sys.exit(r.returncode)
if __name__ == "__main__": main()
