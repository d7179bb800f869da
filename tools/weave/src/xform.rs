use crate::{is_cfg_test, Global, SourceFile};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

pub struct Inl {
    pub params: Vec<(String, bool)>, // name, is &mut
    pub has_self: bool,
    pub text: String,
    pub block: Block,
    pub self_key: Option<String>,
    pub unconditional_tail: bool,
}

// ---------------------------------------------------------------- helpers

fn rng<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}

pub fn toks<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn words(s: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else if !cur.is_empty() {
            out.insert(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.insert(cur);
    }
    out
}

fn mentions(text: &str, names: &HashSet<String>) -> bool {
    let w = words(text);
    names.iter().any(|n| w.contains(n))
}

fn has_parse_lt(g: &Generics) -> bool {
    g.lifetimes().any(|l| l.lifetime.ident == "parse")
}

pub fn type_key(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(_) => "&".to_string(),
        Type::Tuple(t) => format!("({})", t.elems.len()),
        Type::Paren(p) => type_key(&p.elem),
        _ => toks(t),
    }
}

fn item_impl_key(i: &ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            let mut k = last.ident.to_string();
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                if let Some(GenericArgument::Type(Type::Tuple(t))) = a.args.first() {
                    if k == "RawOutputConcat" {
                        k = format!("{k}({})", t.elems.len());
                    }
                }
            }
            format!("{k} for {}", type_key(&i.self_ty))
        }
        None => format!("impl {}", type_key(&i.self_ty)),
    }
}

struct FindBareFn(bool);
impl<'a> Visit<'a> for FindBareFn {
    fn visit_type_bare_fn(&mut self, _: &'a TypeBareFn) {
        self.0 = true;
    }
    fn visit_type_path(&mut self, t: &'a TypePath) {
        if t.path.segments.last().map_or(false, |s| s.ident == "PhantomData") {
            return;
        }
        visit::visit_type_path(self, t);
    }
}
fn has_bare_fn(t: &Type) -> bool {
    let mut f = FindBareFn(false);
    f.visit_type(t);
    f.0
}

struct RetFinder {
    ret: bool,
    q: bool,
}
impl<'a> Visit<'a> for RetFinder {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// Names and facts needed before any item is rewritten.
pub fn collect(g: &mut Global, units: &[SourceFile]) {
    // 1. traits with generic associated types
    for u in units {
        for it in &u.items {
            if let Item::Trait(t) = it {
                g.trait_names.insert(t.ident.to_string());
                for ti in &t.items {
                    if let TraitItem::Type(ty) = ti {
                        if ty.generics.lifetimes().next().is_some() {
                            g.hoisted.insert(t.ident.to_string());
                            g.hoisted_traits.insert(t.ident.to_string());
                            g.gat_names.insert(ty.ident.to_string());
                        }
                    }
                }
                if g.side.get("hoist", &t.ident.to_string()).is_some() {
                    g.hoisted.insert(t.ident.to_string());
                    g.hoisted_traits.insert(t.ident.to_string());
                }
            }
        }
    }
    // 2. fixpoint over types
    loop {
        let mut changed = false;
        for u in units {
            for it in &u.items {
                let (name, gens, text) = match it {
                    Item::Struct(s) => (s.ident.to_string(), &s.generics, u.text[rng(s)].to_string()),
                    Item::Enum(s) => (s.ident.to_string(), &s.generics, u.text[rng(s)].to_string()),
                    Item::Type(s) => (s.ident.to_string(), &s.generics, u.text[rng(s)].to_string()),
                    Item::Trait(s) => {
                        let mut h = String::new();
                        for b in &s.supertraits {
                            h.push_str(&toks(b));
                            h.push(' ');
                        }
                        (s.ident.to_string(), &s.generics, h)
                    }
                    _ => continue,
                };
                // doc comments must not count
                let text: String = text
                    .lines()
                    .filter(|l| !l.trim_start().starts_with("//"))
                    .map(|l| format!("{l}\n"))
                    .collect();
                if has_parse_lt(gens) || g.hoisted.contains(&name) {
                    continue;
                }
                let mut names = g.hoisted.clone();
                names.remove(&name);
                if mentions(&text, &names) {
                    g.hoisted.insert(name);
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    for u in units {
        for it in &u.items {
            match it {
                Item::Struct(s) => {
                    g.native_lifetimes.insert(s.ident.to_string(), s.generics.lifetimes().count());
                    for f in &s.fields {
                        let Some(id) = &f.ident else { continue };
                        if let Type::BareFn(_) = &f.ty {
                            g.fnptr_fields
                                .entry(s.ident.to_string())
                                .or_default()
                                .insert(id.to_string(), toks(&f.ty));
                            g.fnptr_field_names.insert(id.to_string());
                        }
                        let t = toks(&f.ty);
                        if t.contains("dyn Any") {
                            g.any_fields.insert(id.to_string());
                        }
                        if t.contains("dyn ParseIter") {
                            g.dyn_iter_fields
                                .entry(s.ident.to_string())
                                .or_default()
                                .insert(id.to_string());
                        }
                    }
                }
                Item::Type(t) => {
                    g.native_lifetimes.insert(t.ident.to_string(), t.generics.lifetimes().count());
                    if has_bare_fn(&t.ty) {
                        let ps = t.generics.type_params().map(|p| p.ident.to_string()).collect();
                        g.fn_aliases.insert(t.ident.to_string(), (ps, u.text[rng(&*t.ty)].to_string()));
                    }
                }
                _ => {}
            }
        }
    }
    // aliases of aliases
    loop {
        let mut changed = false;
        for u in units {
            for it in &u.items {
                if let Item::Type(t) = it {
                    let n = t.ident.to_string();
                    if g.fn_aliases.contains_key(&n) {
                        continue;
                    }
                    let text = u.text[rng(&*t.ty)].to_string();
                    if g.fn_aliases.keys().any(|k| words(&text).contains(k)) {
                        let ps = t.generics.type_params().map(|p| p.ident.to_string()).collect();
                        g.fn_aliases.insert(n, (ps, text));
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    // 3. helpers without a contract: candidates for inlining
    let mut inl = HashMap::new();
    for u in units {
        for it in &u.items {
            match it {
                Item::Fn(f) => {
                    let key = f.sig.ident.to_string();
                    add_inl(g, &mut inl, u, key, &f.sig, &f.block, None);
                }
                Item::Impl(i) if i.trait_.is_none() => {
                    let ik = item_impl_key(i);
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            let key = format!("{ik}::{}", f.sig.ident);
                            add_inl(g, &mut inl, u, key, &f.sig, &f.block, Some(ik.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    g.inlinable = inl;
}

fn add_inl(g: &Global, inl: &mut HashMap<String, Inl>, u: &SourceFile, key: String, sig: &Signature, block: &Block, self_key: Option<String>) {
    if g.side.has("sig", &key) || g.side.has("external", &key) || g.side.has("drop", &key) || g.side.has("noinline", &key) {
        return;
    }
    if !sig.generics.params.is_empty() && sig.generics.type_params().next().is_some() {
        // type parameters cannot be substituted textually, only inferred
    }
    let mut params = vec![];
    let mut has_self = false;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(_) => has_self = true,
            FnArg::Typed(p) => match &*p.pat {
                Pat::Ident(i) => {
                    let is_mut = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
                    let m = if i.mutability.is_some() { "mut " } else { "" };
                    params.push((format!("{m}{}", i.ident), is_mut));
                }
                _ => return,
            },
        }
    }
    // recursion is not inlinable
    let body = toks(block);
    if words(&body).contains(&sig.ident.to_string()) {
        return;
    }
    inl.insert(
        key,
        Inl { params, has_self, text: u.text.clone(), block: block.clone(), self_key, unconditional_tail: true },
    );
}

// ---------------------------------------------------------------- edits

struct Edit {
    start: usize,
    end: usize,
    text: String,
    kind: u8, // 0 close, 1 open, 2 replace
    seq: usize,
}

pub struct Xf<'g> {
    g: &'g Global,
    src: String,
    edits: Vec<Edit>,
    seq: usize,
    item_key: String,
    self_name: String,
    fn_key: String,
    loops: usize,
    user_fns: Vec<String>,
    closures: usize,
    in_hoisted_trait: bool,
    assoc: HashMap<String, String>,
    expand_assoc: bool,
    const_fnptr: bool,
    ret_impl_fn: bool,
    tail_ranges: Vec<Range<usize>>,
    extend: HashSet<String>,
    range_lets: HashMap<String, (bool, bool)>,
    inl_depth: usize,
    in_type: usize,
    result_tail: HashSet<usize>,
    mut_self: bool,
    fn_generics: bool,
}

impl<'g> Xf<'g> {
    /// A closure whose body can be moved into a match arm: no early exit in it.
    fn plain_closure(e: Option<&Expr>) -> bool {
        match e {
            Some(Expr::Closure(c)) => {
                let mut rf = RetFinder { ret: false, q: false };
                rf.visit_expr(&c.body);
                !rf.ret && !rf.q && c.inputs.len() <= 1
            }
            _ => false,
        }
    }
    fn closure_pat(&self, c: &ExprClosure) -> String {
        match c.inputs.first() {
            Some(Pat::Type(t)) => self.text(rng(&*t.pat)),
            Some(p) => self.text(rng(p)),
            None => String::new(),
        }
    }
    fn looks_result(&self, e: &Expr) -> bool {
        matches!(e, Expr::MethodCall(m) if ["backtrack", "parse_iter", "parse", "parse_raw"].contains(&m.method.to_string().as_str()))
    }
    fn is_iter_chain(&self, e: &Expr) -> bool {
        matches!(e, Expr::MethodCall(m) if ["iter", "chars", "into_iter"].contains(&m.method.to_string().as_str()))
    }

    /// Is this index expression a range (a literal one, or a local bound to one)?
    fn is_range(&self, e: &Expr) -> bool {
        match e {
            Expr::Range(_) => true,
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.range_lets.contains_key(&i.to_string())),
            _ => false,
        }
    }

    fn new(g: &'g Global, src: &str) -> Self {
        Xf {
            g,
            src: src.to_string(),
            edits: vec![],
            seq: 0,
            item_key: String::new(),
            self_name: String::new(),
            fn_key: String::new(),
            loops: 0,
            user_fns: vec![],
            closures: 0,
            in_hoisted_trait: false,
            assoc: HashMap::new(),
            expand_assoc: false,
            const_fnptr: false,
            ret_impl_fn: false,
            tail_ranges: vec![],
            extend: HashSet::new(),
            range_lets: HashMap::new(),
            inl_depth: 0,
            in_type: 0,
            result_tail: HashSet::new(),
            mut_self: false,
            fn_generics: false,
        }
    }
    fn child(&self, src: &str) -> Xf<'g> {
        let mut x = Xf::new(self.g, src);
        x.item_key = self.item_key.clone();
        x.self_name = self.self_name.clone();
        x.fn_key = self.fn_key.clone();
        x.in_hoisted_trait = self.in_hoisted_trait;
        x.assoc = self.assoc.clone();
        x.expand_assoc = self.expand_assoc;
        x.const_fnptr = self.const_fnptr;
        x.ret_impl_fn = self.ret_impl_fn;
        x.extend = self.extend.clone();
        x.range_lets = self.range_lets.clone();
        x.mut_self = self.mut_self;
        x.inl_depth = self.inl_depth;
        x.loops = self.loops;
        x.user_fns = self.user_fns.clone();
        x.closures = self.closures;
        x
    }
    fn push(&mut self, start: usize, end: usize, text: String, kind: u8) {
        let seq = self.seq;
        self.seq += 1;
        self.edits.push(Edit { start, end, text, kind, seq });
    }
    fn open(&mut self, pos: usize, text: impl Into<String>) {
        self.push(pos, pos, text.into(), 1);
    }
    fn close(&mut self, pos: usize, text: impl Into<String>) {
        self.push(pos, pos, text.into(), 0);
    }
    fn repl(&mut self, r: Range<usize>, text: impl Into<String>) {
        self.push(r.start, r.end, text.into(), 2);
    }
    fn del(&mut self, r: Range<usize>) {
        self.repl(r, "");
    }
    fn text(&self, r: Range<usize>) -> String {
        self.src[r].to_string()
    }

    fn apply(&self, r: Range<usize>) -> String {
        let mut es: Vec<&Edit> = self
            .edits
            .iter()
            .filter(|e| e.start >= r.start && e.end <= r.end)
            .collect();
        es.sort_by(|a, b| {
            (a.start, a.kind).cmp(&(b.start, b.kind)).then_with(|| match a.kind {
                0 => b.seq.cmp(&a.seq),
                2 => (b.end - b.start).cmp(&(a.end - a.start)).then(a.seq.cmp(&b.seq)),
                _ => a.seq.cmp(&b.seq),
            })
        });
        let mut out = String::new();
        let mut pos = r.start;
        for e in es {
            if e.start < pos {
                // inside an already replaced range
                if e.start == e.end && e.start == pos {
                } else {
                    continue;
                }
            }
            out.push_str(&self.src[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end.max(pos);
        }
        out.push_str(&self.src[pos..r.end]);
        out
    }

    // render a node of the same source in a fresh visitor
    fn sub<F: FnOnce(&mut Xf<'g>)>(&self, r: Range<usize>, f: F) -> String {
        let mut x = self.child(&self.src);
        f(&mut x);
        x.apply(r)
    }

    fn render_type_text(&self, text: &str) -> String {
        match parse_str::<Type>(text) {
            Ok(t) => {
                let mut x = self.child(text);
                x.visit_type(&t);
                x.apply(0..text.len())
            }
            Err(_) => text.to_string(),
        }
    }

    fn strip_attrs(&mut self, attrs: &[Attribute]) {
        for a in attrs {
            self.del(rng(a));
        }
    }

    fn strip_vis(&mut self, v: &Visibility) {
        if !matches!(v, Visibility::Inherited) {
            self.del(rng(v));
        }
    }

    fn add_lifetime(&mut self, gens: &Generics, after: usize) {
        match &gens.lt_token {
            Some(lt) => {
                let p = rng(lt).end;
                if gens.params.is_empty() {
                    self.open(p, "'parse");
                } else {
                    self.open(p, "'parse, ");
                }
            }
            None => self.open(after, "<'parse>"),
        }
    }

    fn fnptr_text(&self, b: &TypeBareFn, as_impl: bool) -> String {
        let ret = match &b.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => {
                let t2 = (**t).clone();
                self.sub(rng(&**t), |x| x.visit_type(&t2))
            }
        };
        let args: Vec<String> = b
            .inputs
            .iter()
            .map(|a| {
                let ty = a.ty.clone();
                self.sub(rng(&a.ty), |x| x.visit_type(&ty))
            })
            .collect();
        if as_impl {
            return format!("impl Fn({}) -> {}", args.join(", "), ret);
        }
        match args.len() {
            0 => format!("VxFn0<{ret}>"),
            1 if args[0].replace(' ', "") == "&str" => format!("VxFnStr<{ret}>"),
            1 => format!("VxFn1<{}, {ret}>", args[0]),
            _ => {
                self.g.problem(&self.fn_key, "fn pointer with more than one parameter");
                "VxUnsupported".to_string()
            }
        }
    }

    // Path prefix stripping and lifetime hoisting for one path.
    fn do_path(&mut self, path: &Path, is_type: bool, is_trait: bool) {
        // strip crate::a::b::
        let n = path.segments.len();
        if n > 1 {
            let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
            let mut k = 0;
            while k < n - 1
                && (segs[k] == "crate" || segs[k] == "self" || segs[k] == "super" || self.g.modules.contains(&segs[k]))
            {
                k += 1;
            }
            if k > 0 {
                let start = path.leading_colon.map(|c| rng(&c).start).unwrap_or(rng(&path.segments[0].ident).start);
                let end = rng(&path.segments[k].ident).start;
                self.g.note("flatten module path");
                self.del(start..end);
            }
        }
        let last = path.segments.last().unwrap();
        let name = last.ident.to_string();
        // GAT arguments
        if self.g.gat_names.contains(&name) && n > 1 {
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                if a.args.len() == 1 && matches!(a.args.first(), Some(GenericArgument::Lifetime(_))) {
                    self.g.note("GAT argument dropped");
                    self.del(rng(a));
                }
            }
        }
        let self_scoped = n > 1 && path.segments[0].ident == "Self";
        if self.g.hoisted.contains(&name) && !self_scoped {
            let native = self.g.native_lifetimes.get(&name).copied().unwrap_or(0);
            match &last.arguments {
                PathArguments::AngleBracketed(a) => {
                    let lts = a.args.iter().filter(|x| matches!(x, GenericArgument::Lifetime(_))).count();
                    if !(native > 0 && lts == 0) {
                        self.g.note("lifetime hoisted");
                        self.open(rng(&a.lt_token).end, "'parse, ");
                    }
                }
                PathArguments::None => {
                    if is_trait || is_type {
                        self.g.note("lifetime hoisted");
                        self.close(rng(&last.ident).end, "<'parse>");
                    }
                }
                _ => {}
            }
        }
        for s in &path.segments {
            visit::visit_path_arguments(self, &s.arguments);
        }
    }

    fn loop_specs(&mut self, body: &Block) {
        let k = format!("{} {}", self.fn_key, self.loops);
        self.loops += 1;
        let b = rng(body);
        if let Some(s) = self.g.side.get("loop", &k) {
            let s = s.to_string();
            self.close(b.start, format!("\n{s}"));
        }
        if let Some(s) = self.g.side.get("loopbody", &k) {
            let s = s.to_string();
            self.open(b.start + 1, format!("\n{s}"));
        }
        if let Some(s) = self.g.side.get("loopend", &k) {
            let s = s.to_string();
            self.close(b.end - 1, format!("\n{s}"));
        }
    }

    /// `for PAT in EXPR BODY`
    fn for_loop(&mut self, f: &ExprForLoop) {
        self.g.note("for loop desugared");
        let r = rng(f);
        let body = rng(&f.body);
        let pat_text = self.text(rng(&*f.pat));
        let k = format!("{} {}", self.fn_key, self.loops);
        self.loops += 1;
        let spec = self.g.side.get("loop", &k).unwrap_or("").to_string();
        let lb = self.g.side.get("loopbody", &k).unwrap_or("").to_string();
        let le = self.g.side.get("loopend", &k).unwrap_or("").to_string();
        // the vector a collecting loop fills goes by the name `vx_v` in contracts
        let (spec, lb, le) = match Pushed::of(&f.body) {
            Some(v) => (alias(&spec, &v), alias(&lb, &v), alias(&le, &v)),
            None => (spec, lb, le),
        };
        // X.enumerate()
        let mut e: &Expr = &f.expr;
        let mut enumerate = false;
        if let Expr::MethodCall(m) = e {
            if m.method == "enumerate" {
                enumerate = true;
                e = &m.receiver;
            }
        }
        let (coll, by_index) = match e {
            Expr::MethodCall(m) if m.method == "iter" => (&*m.receiver, true),
            Expr::Reference(rf) => (&*rf.expr, true),
            _ => (e, false),
        };
        let coll_text = {
            let c = coll.clone();
            self.sub(rng(coll), |x| x.visit_expr(&c))
        };
        let mut inner = self.child(&self.src);
        inner.loops = self.loops;
        inner.closures = self.closures;
        for s in &f.body.stmts {
            inner.visit_stmt(s);
        }
        let body_text = inner.apply(body.start + 1..body.end - 1);
        self.loops = inner.loops;
        self.closures = inner.closures;
        let label = f.label.as_ref().map(|l| toks(l)).unwrap_or_default();
        let t = if by_index {
            let item = if enumerate { format!("(vx_i - 1, &{coll_text}[vx_i - 1])") } else { format!("&{coll_text}[vx_i - 1]") };
            format!(
                "{{ let mut vx_i: usize = 0;\n{label} while vx_i < {coll_text}.vx_len()\n{spec}\n{{ {lb}\nvx_i = vx_i + 1; let {pat_text} = {item};\n{body_text}\n{le} }} }}"
            )
        } else if enumerate {
            format!(
                "{{ let mut vx_it = {coll_text}; let mut vx_i: usize = 0;\n{label} loop\n{spec}\n{{ {lb}\nmatch vx_it.next() {{ None => {{ break; }} Some(vx_x) => {{ let {pat_text} = (vx_i, vx_x); vx_i = vx_inc(vx_i);\n{body_text}\n{le} }} }} }} }}"
            )
        } else {
            format!(
                "{{ let mut vx_it = {coll_text};\n{label} loop\n{spec}\n{{ {lb}\nmatch vx_it.next() {{ None => {{ break; }} Some({pat_text}) => {{\n{body_text}\n{le} }} }} }} }}"
            )
        };
        self.repl(r, t);
    }

    fn closure(&mut self, c: &ExprClosure) {
        let k = format!("{} {}", self.fn_key, self.closures);
        let idx = self.closures;
        self.closures += 1;
        let mut pre = String::new();
        for (i, p) in c.inputs.iter().enumerate() {
            let simple = match p {
                Pat::Ident(_) => true,
                Pat::Type(t) => matches!(&*t.pat, Pat::Ident(_)),
                _ => false,
            };
            if !simple {
                self.g.note("closure parameter pattern bound by let");
                let (pat, ty) = match p {
                    Pat::Type(t) => (self.text(rng(&*t.pat)), format!(": {}", self.text(rng(&*t.ty)))),
                    _ => (self.text(rng(p)), String::new()),
                };
                if pat != "_" {
                    pre.push_str(&format!("let {pat} = vx_p{idx}_{i}; "));
                }
                self.repl(rng(p), format!("vx_p{idx}_{i}{ty}"));
            }
        }
        if let Some(s) = self.g.side.get("closureparams", &k) {
            let s = s.trim().to_string();
            let a = rng(&c.or1_token).end;
            let b = rng(&c.or2_token).start;
            // keep the parameter names chosen by the source
            let mut names = vec![];
            for (i, p) in c.inputs.iter().enumerate() {
                names.push(match p {
                    Pat::Ident(id) => id.ident.to_string(),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(id) => id.ident.to_string(),
                        _ => format!("vx_p{idx}_{i}"),
                    },
                    _ => format!("vx_p{idx}_{i}"),
                });
            }
            let tys: Vec<&str> = s.split(';').map(|x| x.trim()).collect();
            let ps: Vec<String> = names.iter().zip(tys.iter()).map(|(n, t)| format!("{n}: {t}")).collect();
            self.edits.retain(|e| !(e.start >= a && e.end <= b && e.kind == 2));
            self.repl(a..b, ps.join(", "));
        }
        let mut spec = String::new();
        if let Some(s) = self.g.side.get("closure", &k) {
            spec = s.to_string();
            // parameters can be referred to as $0, $1 ...
            for (i, p) in c.inputs.iter().enumerate() {
                let n = match p {
                    Pat::Ident(id) => id.ident.to_string(),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(id) => id.ident.to_string(),
                        _ => format!("vx_p{idx}_{i}"),
                    },
                    _ => format!("vx_p{idx}_{i}"),
                };
                spec = spec.replace(&format!("${i}"), &n);
            }
        }
        let b = rng(&*c.body);
        let is_block = matches!(&*c.body, Expr::Block(bl) if bl.label.is_none());
        if !spec.is_empty() {
            if let ReturnType::Type(..) = &c.output {
                self.del(rng(&c.output));
            }
            self.open(b.start, format!(" {spec} "));
        }
        if !pre.is_empty() || (!spec.is_empty() && !is_block) {
            self.open(b.start, format!("{{ {pre}"));
            self.close(b.end, " }");
            self.visit_expr(&c.body);
        } else {
            self.visit_expr(&c.body);
        }
    }

    fn is_tail(&self, r: &Range<usize>) -> bool {
        self.tail_ranges.iter().any(|t| t == r)
    }

    // receiver known to be an Option?
    fn looks_option(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                matches!(
                    n.as_str(),
                    "as_ref" | "as_mut" | "first" | "last" | "get" | "get_mut" | "next" | "find" | "rfind" | "pop" | "checked_add" | "checked_sub" | "last_mut" | "ok" | "strip_prefix" | "strip_suffix" | "peek"
                )
            }
            Expr::Call(c) => toks(&c.func) == "Some",
            Expr::Paren(p) => self.looks_option(&p.expr),
            _ => false,
        }
    }

    fn fmt_macro(&mut self, mac: &Macro, base: &str, lead: Option<String>) -> Option<String> {
        // format!("lit", args...) (lead: the rendered first argument of write!)
        let args: Vec<Expr> = mac
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .ok()?
            .into_iter()
            .collect();
        let mut it = args.into_iter();
        let lead = match (lead, base) {
            (None, "write") => {
                let f = it.next()?;
                let r = rng(&f);
                Some(self.sub(r, |x| x.visit_expr(&f)))
            }
            (l, _) => l,
        };
        let lit = it.next()?;
        let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &lit else { return None };
        let mut pos_args: Vec<String> = vec![];
        let mut named: HashMap<String, String> = HashMap::new();
        for a in it {
            if let Expr::Assign(asg) = &a {
                let n = toks(&asg.left);
                let e = (*asg.right).clone();
                let t = self.sub(rng(&*asg.right), |x| x.visit_expr(&e));
                named.insert(n, t);
            } else {
                let r = rng(&a);
                pos_args.push(self.sub(r, |x| x.visit_expr(&a)));
            }
        }
        let text = s.value();
        let mut out = String::new();
        let mut out_args: Vec<String> = vec![];
        let mut next_pos = 0;
        let ch: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < ch.len() {
            if ch[i] == '{' && i + 1 < ch.len() && ch[i + 1] == '{' {
                out.push_str("{{");
                i += 2;
                continue;
            }
            if ch[i] == '}' && i + 1 < ch.len() && ch[i + 1] == '}' {
                out.push_str("}}");
                i += 2;
                continue;
            }
            if ch[i] == '{' {
                let mut j = i + 1;
                let mut spec = String::new();
                while j < ch.len() && ch[j] != '}' {
                    spec.push(ch[j]);
                    j += 1;
                }
                let (name, fm) = match spec.split_once(':') {
                    Some((n, f)) => (n.to_string(), format!(":{f}")),
                    None => (spec.clone(), String::new()),
                };
                let name = name.trim().to_string();
                if name.is_empty() {
                    out_args.push(pos_args.get(next_pos)?.clone());
                    next_pos += 1;
                } else if let Ok(k) = name.parse::<usize>() {
                    out_args.push(pos_args.get(k)?.clone());
                } else if let Some(t) = named.get(&name) {
                    out_args.push(t.clone());
                } else {
                    out_args.push(name);
                }
                out.push_str(&format!("{{{fm}}}"));
                i = j + 1;
                continue;
            }
            out.push(ch[i]);
            i += 1;
        }
        self.g.note("format macro made opaque");
        let lit_txt = format!("{out:?}");
        let n = out_args.len();
        let mut a: Vec<String> = vec![];
        if let Some(l) = lead {
            a.push(l);
        }
        a.push(lit_txt);
        for x in &out_args {
            a.push(format!("&({x})"));
        }
        Some(format!("vx_{base}{n}({})", a.join(", ")))
    }

    fn do_macro(&mut self, mac: &Macro, r: Range<usize>, stmt: bool) {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let semi = if stmt { ";" } else { "" };
        let parse_args = |mac: &Macro| -> Option<Vec<Expr>> {
            mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect())
        };
        let out: Option<String> = match name.as_str() {
            "assert" | "debug_assert" => parse_args(mac).and_then(|a| {
                let e = a.first()?.clone();
                let t = self.sub(rng(&e), |x| x.visit_expr(&e));
                self.g.note("assert! made a checked obligation");
                Some(format!("vx_assert({t})"))
            }),
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => parse_args(mac).and_then(|a| {
                let e = a.first()?.clone();
                let f = a.get(1)?.clone();
                let t = self.sub(rng(&e), |x| x.visit_expr(&e));
                let u = self.sub(rng(&f), |x| x.visit_expr(&f));
                let op = if name.ends_with("ne") { "!=" } else { "==" };
                self.g.note("assert! made a checked obligation");
                Some(format!("vx_assert(({t}) {op} ({u}))"))
            }),
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.g.note("panic! made a checked obligation");
                Some("vx_unreachable()".to_string())
            }
            "vec" => {
                // vec![a, b]: pushes, in order
                parse_args(mac).map(|a| {
                    if a.is_empty() { return "Vec::new()".to_string(); }
                    self.g.note("vec![..] made pushes");
                    let ts: Vec<String> = a.iter().map(|e| format!("vx_vv.push({});", self.sub(rng(e), |x| x.visit_expr(e)))).collect();
                    format!("{{ let mut vx_vv = Vec::new(); {} vx_vv }}", ts.join(" "))
                })
            }
            "format" => self.fmt_macro(mac, "format", None),
            "write" => self.fmt_macro(mac, "write", None),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(M(e, p, g))
                    }
                }
                mac.parse_body::<M>().ok().map(|m| {
                    let t = self.sub(rng(&m.0), |x| x.visit_expr(&m.0));
                    let gd = match &m.2 {
                        Some(e) => format!(" if {}", self.sub(rng(e), |x| x.visit_expr(e))),
                        None => String::new(),
                    };
                    let p = self.text(rng(&m.1));
                    format!("(match {t} {{ {p}{gd} => true, _ => false }})")
                })
            }
            "lazy_static" => {
                // static ref NAME: T = EXPR;
                struct L(Ident, Type, Expr);
                impl syn::parse::Parse for L {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let _ = i.call(Attribute::parse_outer)?;
                        let _: Token![static] = i.parse()?;
                        let _: Token![ref] = i.parse()?;
                        let n: Ident = i.parse()?;
                        let _: Token![:] = i.parse()?;
                        let t: Type = i.parse()?;
                        let _: Token![=] = i.parse()?;
                        let e: Expr = i.parse()?;
                        let _: Token![;] = i.parse()?;
                        Ok(L(n, t, e))
                    }
                }
                mac.parse_body::<L>().ok().map(|l| {
                    let t = self.sub(rng(&l.2), |x| x.visit_expr(&l.2));
                    self.g.note("lazy_static made a leaked value");
                    format!("let {} = vx_lazy({t});", l.0)
                })
            }
            _ => None,
        };
        match out {
            Some(t) => self.repl(r, format!("{t}{semi}")),
            None => {
                let k = self.fn_key.clone();
                self.g.problem(&k, &format!("macro {name}! not supported"));
            }
        }
    }

    /// Inline an uncontracted helper at a call.
    fn try_inline(&mut self, key: &str, args: &[&Expr], r: Range<usize>, under_try: bool) -> bool {
        if self.inl_depth > 4 {
            return false;
        }
        let g = self.g;
        let Some(inl) = g.inlinable.get(key) else { return false };
        if inl.params.len() != args.len() {
            return false;
        }
        let mut rf = RetFinder { ret: false, q: false };
        rf.visit_block(&inl.block);
        if (rf.ret || rf.q) && !(self.is_tail(&r) || (under_try && !rf.ret)) {
            return false;
        }
        let mut lets = String::new();
        for ((p, is_mut), a) in inl.params.iter().zip(args) {
            let simple = matches!(a, Expr::Path(pp) if pp.path.get_ident().is_some());
            let a2 = (*a).clone();
            let t = self.sub(rng(*a), |x| x.visit_expr(&a2));
            if simple && t.trim() == p {
                continue;
            }
            if *is_mut && simple {
                lets.push_str(&format!("let {p} = &mut *{t}; "));
            } else {
                lets.push_str(&format!("let {p} = {t}; "));
            }
        }
        let mut x = self.child(&inl.text);
        x.inl_depth += 1;
        if self.is_tail(&r) {
            x.mark_tail_block(&inl.block);
        }
        for s in &inl.block.stmts {
            x.visit_stmt(s);
        }
        let b = rng(&inl.block);
        let body = x.apply(b.start + 1..b.end - 1);
        self.loops = x.loops;
        self.closures = x.closures;
        g.note("uncontracted helper inlined");
        self.repl(r, format!("({{ {lets}{body} }})"));
        true
    }

    fn mark_tail_block(&mut self, b: &Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.mark_tail(e);
        }
    }
    fn mark_tail(&mut self, e: &Expr) {
        self.tail_ranges.push(rng(e));
        match e {
            Expr::Block(b) => self.mark_tail_block(&b.block),
            Expr::If(i) => {
                self.mark_tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.mark_tail(e);
                }
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    self.mark_tail(&a.body);
                }
            }
            Expr::Paren(p) => self.mark_tail(&p.expr),
            _ => {}
        }
    }

    // ------------------------------------------------------------ functions

    /// Rewrite one function (free, inherent, trait or impl).  `r` is the range
    /// of the whole function in the source.
    fn function(&mut self, attrs: &[Attribute], vis: Option<&Visibility>, sig: &Signature, block: Option<&Block>, r: Range<usize>, native_hoist: bool, add_parse: bool) {
        let key = self.fn_key.clone();
        self.loops = 0;
        self.closures = 0;
        if let Some(b) = block {
            let mut l = LoopKinds(vec![]);
            l.visit_block(b);
            if !l.0.is_empty() { self.g.loops.borrow_mut().insert(key.clone(), l.0); }
        }
        self.strip_attrs(attrs);
        if let Some(v) = vis {
            self.strip_vis(v);
        }
        if sig.constness.is_some() {
            self.del(rng(&sig.constness));
        }
        let at = match vis {
            Some(v) if !matches!(v, Visibility::Inherited) => rng(v).start,
            _ => rng(sig).start,
        };
        let line = self.src[..at].matches('\n').count() + 1;
        self.open(at, format!("/*VXFN:{key}|{line}*/ "));
        if let Some(a) = self.g.side.get("attr", &key) {
            let a = a.to_string();
            self.open(at, format!("{a} "));
        }
        let external = self.g.side.get("external", &key).is_some();
        if external {
            self.open(at, "#[verifier::external_body] ");
        }

        // generics
        let gens = &sig.generics;
        let native = has_parse_lt(gens);
        if native_hoist && native {
            // 'parse now belongs to the trait
            let ps: Vec<&GenericParam> = gens.params.iter().collect();
            if ps.len() == 1 {
                let a = rng(gens.lt_token.as_ref().unwrap()).start;
                let b = rng(gens.gt_token.as_ref().unwrap()).end;
                self.del(a..b);
            } else {
                for (i, p) in gens.params.iter().enumerate() {
                    if let GenericParam::Lifetime(l) = p {
                        if l.lifetime.ident == "parse" {
                            let s = rng(p).start;
                            let e = if i + 1 < ps.len() { rng(ps[i + 1]).start } else { rng(p).end };
                            self.del(s..e);
                        }
                    }
                }
            }
        } else if add_parse {
            self.add_lifetime(gens, rng(&sig.ident).end);
        }
        self.fn_generics = true;
        for p in &gens.params {
            self.visit_generic_param(p);
        }
        if let Some(w) = &gens.where_clause {
            self.visit_where_clause(w);
        }
        self.fn_generics = false;

        // conversion code is paid for with ghost fuel (C12)
        if FuelSites::takes_fuel(&key) {
            let e = rng(&sig.paren_token.span.close()).start;
            let sep = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
            self.close(e, format!("{sep}Tracked(vx_fuel): Tracked<&mut VxFuel>"));
        } else if let Some(b) = block {
            let mut v = FuelSites(false);
            v.visit_block(b);
            if v.0 && !self.g.side.get("entry", &key).map_or(false, |e| e.contains("vx_fuel")) {
                self.open(rng(b).start + 1, "\nlet tracked mut vx_fuel0 = vx_no_fuel(); let tracked vx_fuel = &mut vx_fuel0; ");
            }
        }
        self.user_fns = vec!["self".to_string()];
        if let (Some(b), true) = (block, key.starts_with("Mapping for ")) {
            for s in &b.stmts {
                if let Stmt::Local(l) = s { if let Pat::Ident(i) = &l.pat { self.user_fns.push(i.ident.to_string()); } }
            }
        }

        // `head`: proof directives that must come first in the body
        if let (Some(h), Some(b)) = (self.g.side.get("head", &key), block) {
            let h = h.to_string();
            self.open(rng(b).start + 1, format!("\n{h}"));
        }
        // receiver and reference parameters in hoisted traits
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(rc) => {
                    self.strip_attrs(&rc.attrs);
                    if self.in_hoisted_trait {
                        if let Some((amp, None)) = &rc.reference {
                            if rc.mutability.is_none() {
                                self.open(rng(amp).end, "'parse ");
                            }
                        }
                    }
                }
                FnArg::Typed(p) => {
                    // argument patterns
                    if !matches!(&*p.pat, Pat::Ident(_)) {
                        if !matches!(&*p.pat, Pat::Wild(_)) {
                            // fn f((a,b): (A,B)) -> fn f(vx_arg: (A,B)) { let (a,b) = vx_arg; }
                            let pt = self.text(rng(&*p.pat));
                            self.repl(rng(&*p.pat), "vx_arg");
                            if let Some(b) = block {
                                let bs = rng(b).start + 1;
                                self.open(bs, format!(" let {pt} = vx_arg; "));
                                self.g.note("parameter pattern bound by let");
                            }
                        }
                    } else if let Pat::Ident(i) = &*p.pat {
                        if i.mutability.is_some() {
                            // `mut` parameters: rebind
                            let m = rng(i.mutability.as_ref().unwrap());
                            self.del(m);
                            if let Some(b) = block {
                                let bs = rng(b).start + 1;
                                self.open(bs, format!(" let mut {0} = {0}; ", i.ident));
                                self.g.note("mut parameter bound by let");
                            }
                        }
                    }
                    let mut hoist_ref = false;
                    if self.in_hoisted_trait {
                        if let Type::Reference(rf) = &*p.ty {
                            if rf.lifetime.is_none() && rf.mutability.is_none() {
                                hoist_ref = true;
                                self.open(rng(&rf.and_token).end, "'parse ");
                            }
                        }
                    }
                    let _ = hoist_ref;
                    self.visit_type(&p.ty);
                }
            }
        }
        // `mut self`
        for a in &sig.inputs {
            if let FnArg::Receiver(rc) = a {
                if rc.reference.is_none() && rc.mutability.is_some() {
                    self.g.note("mut self bound by let");
                    self.del(rng(rc.mutability.as_ref().unwrap()));
                    if let Some(b) = block {
                        self.open(rng(b).start + 1, " let mut vx_self = self; ");
                        self.mut_self = true;
                    }
                }
            }
        }
        // return type
        let has_sig = self.g.side.has("sig", &key);
        let sig_text = self.g.side.get("sig", &key).unwrap_or("").to_string();
        let contracted = has_sig || external;
        let mut ret_ty = String::new();
        match &sig.output {
            ReturnType::Type(_, t) => {
                let tt = rng(&**t);
                let saved = (self.expand_assoc, self.ret_impl_fn);
                self.expand_assoc = true;
                self.ret_impl_fn = true;
                let t2 = (**t).clone();
                let txt = self.sub(tt.clone(), |x| x.visit_type(&t2));
                self.expand_assoc = saved.0;
                self.ret_impl_fn = saved.1;
                if !txt.contains("impl ") {
                    ret_ty = format!(": {txt}");
                }
                if has_sig && !sig_text.trim().is_empty() {
                    self.repl(tt, format!("(r: {txt})"));
                } else {
                    self.repl(tt, txt);
                }
            }
            ReturnType::Default => {}
        }
        match block {
            Some(b) => {
                let br = rng(b);
                if !sig_text.trim().is_empty() {
                    self.close(br.start, format!("\n{sig_text}"));
                }
                if external {
                    self.repl(br.clone(), "{ unimplemented!() }");
                } else {
                    if let Some(e) = self.g.side.get("entry", &key) {
                        let e = e.to_string();
                        self.open(br.start + 1, format!("\n{e}"));
                    }
                    if let Some(e) = self.g.side.get("extend", &key) {
                        self.extend = e.split_whitespace().map(|s| s.to_string()).collect();
                    }
                    self.mark_tail_block(b);
                    if !matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) {
                        if let Some(t) = self.g.side.get("tail", &key) {
                            let t = t.to_string();
                            self.close(br.end - 1, format!("\n{t}\n"));
                        }
                    }
                    for (i, s) in b.stmts.iter().enumerate() {
                        if i + 1 == b.stmts.len() {
                            if let Stmt::Expr(e, None) = s {
                                if let Some(t) = self.g.side.get("tail", &key) {
                                    let t = t.to_string();
                                    let p = rng(e).start;
                                    self.open(p, format!("{t}\n"));
                                }
                                if let Some(t) = self.g.side.get("bindtail", &key) {
                                    // let vx_r = TAIL; <proof>; vx_r
                                    let t = t.to_string();
                                    let p = rng(e);
                                    self.open(p.start, format!("let vx_r{ret_ty} = "));
                                    self.close(p.end, format!(";\n{t}\nvx_r"));
                                }
                            }
                        }
                        self.visit_stmt(s);
                    }
                    self.extend.clear();
                }
            }
            None => {
                if !sig_text.trim().is_empty() {
                    self.close(r.end - 1, format!("\n{sig_text}"));
                }
            }
        }
        self.mut_self = false;
        self.close(r.end, "/*VXEND*/");
        self.g.known_fns.borrow_mut().insert(key.clone());
        if !contracted {
            self.g.uncontracted.borrow_mut().insert(key);
        }
    }
}

impl<'g, 'ast> Visit<'ast> for Xf<'g> {
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        self.del(rng(a));
    }

    fn visit_type(&mut self, t: &'ast Type) {
        self.in_type += 1;
        match t {
            Type::BareFn(b) => {
                let txt = self.fnptr_text(b, self.ret_impl_fn);
                self.g.note("fn pointer type made opaque");
                self.repl(rng(t), txt);
            }
            Type::TraitObject(o) => {
                let txt = toks(o);
                let has_any = o.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(tb) if tb.path.segments.last().unwrap().ident == "Any"));
                if has_any {
                    self.g.note("dyn Any made opaque");
                    self.repl(rng(t), "VxAny");
                } else if txt.contains("ParseIter") {
                    // dyn ParseIter<'parse, RawOutput = (T,)> + 'x
                    let mut parts = vec![];
                    for b in &o.bounds {
                        match b {
                            TypeParamBound::Trait(tb) => {
                                let last = tb.path.segments.last().unwrap();
                                if last.ident == "ParseIter" {
                                    let mut lt = "'parse".to_string();
                                    let mut raw = "()".to_string();
                                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                                        for x in &a.args {
                                            match x {
                                                GenericArgument::Lifetime(l) => lt = toks(l),
                                                GenericArgument::AssocType(at) => {
                                                    let ty = at.ty.clone();
                                                    raw = self.sub(rng(&at.ty), |v| v.visit_type(&ty));
                                                }
                                                _ => {}
                                            }
                                        }
                                    }
                                    parts.push(format!("VxDyn<{lt}, {raw}>"));
                                } else {
                                    parts.push(toks(tb));
                                }
                            }
                            other => parts.push(toks(other)),
                        }
                    }
                    self.g.note("dyn ParseIter through forwarding trait");
                    self.repl(rng(t), format!("dyn {}", parts.join(" + ")));
                } else {
                    visit::visit_type(self, t);
                }
            }
            Type::Path(p) => {
                let last = p.path.segments.last().unwrap();
                let full = toks(t).replace(' ', "");
                if full == "Pin<Box<u8>>" {
                    self.g.note("Pin<Box<u8>> made opaque");
                    self.repl(rng(t), "VxPin");
                } else if full.starts_with("Box<dynAny") {
                    self.g.note("dyn Any made opaque");
                    self.repl(rng(t), "VxAny");
                } else if last.ident == "PhantomData" {
                    // PhantomData<fn() -> R> => PhantomData<R>
                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                        if let Some(GenericArgument::Type(Type::BareFn(b))) = a.args.first() {
                            if let ReturnType::Type(_, rt) = &b.output {
                                let rt2 = (**rt).clone();
                                let txt = self.sub(rng(&**rt), |x| x.visit_type(&rt2));
                                self.g.note("PhantomData<fn() -> T> to PhantomData<T>");
                                self.repl(rng(t), format!("PhantomData<{txt}>"));
                                self.in_type -= 1;
                                return;
                            }
                        }
                    }
                    visit::visit_type(self, t);
                } else if full == "std::fmt::Formatter<'_>" || full == "fmt::Formatter<'_>" || full == "Formatter<'_>" {
                    self.repl(rng(t), "VxFormatter");
                } else if full == "std::fmt::Result" || full == "fmt::Result" {
                    self.repl(rng(t), "Result<(), VxFmtError>");
                } else if self.expand_assoc && p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" && self.assoc.contains_key(&last.ident.to_string()) {
                    let txt = self.assoc[&last.ident.to_string()].clone();
                    self.g.note("Self::Assoc expanded in signature");
                    let txt = self.render_type_text(&txt);
                    self.repl(rng(t), txt);
                } else if self.ret_impl_fn && p.qself.is_none() && self.g.fn_aliases.contains_key(&last.ident.to_string()) {
                    // expand an alias that hides a fn pointer
                    let (ps, body) = self.g.fn_aliases[&last.ident.to_string()].clone();
                    let mut args = vec![];
                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                        for x in &a.args {
                            if let GenericArgument::Type(ty) = x {
                                args.push(self.text(rng(ty)));
                            }
                        }
                    }
                    let txt = subst_idents(&body, &ps, &args);
                    self.g.note("fn-pointer alias expanded to impl Fn");
                    let txt = self.render_type_text(&txt);
                    self.repl(rng(t), txt);
                } else {
                    visit::visit_type(self, t);
                }
            }
            _ => visit::visit_type(self, t),
        }
        self.in_type -= 1;
    }

    fn visit_type_path(&mut self, p: &'ast TypePath) {
        if let Some(q) = &p.qself {
            self.visit_type(&q.ty);
            // the trait part
            if q.position > 0 {
                let last = &p.path.segments[q.position - 1];
                let name = last.ident.to_string();
                if self.g.hoisted.contains(&name) {
                    match &last.arguments {
                        PathArguments::None => self.close(rng(&last.ident).end, "<'parse>"),
                        PathArguments::AngleBracketed(a) => self.open(rng(&a.lt_token).end, "'parse, "),
                        _ => {}
                    }
                }
                // strip module prefix
                if q.position > 1 {
                    let s = rng(&p.path.segments[0].ident).start;
                    let e = rng(&last.ident).start;
                    let first = p.path.segments[0].ident.to_string();
                    if first == "crate" || self.g.modules.contains(&first) {
                        self.del(s..e);
                    }
                }
            }
            let last = p.path.segments.last().unwrap();
            if self.g.gat_names.contains(&last.ident.to_string()) {
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    self.del(rng(a));
                    return;
                }
            }
            for s in &p.path.segments {
                visit::visit_path_arguments(self, &s.arguments);
            }
            return;
        }
        self.do_path(&p.path, true, false);
    }

    fn visit_trait_bound(&mut self, b: &'ast TraitBound) {
        if b.path.segments.last().map_or(false, |s| s.ident == "Any") {
            self.g.note("bound Any to 'static");
            self.repl(rng(b), "'static");
            return;
        }
        if self.fn_generics && b.path.segments.last().map_or(false, |s| s.ident == "Parser") {
            self.close(rng(b).end, " + 'parse");
        }
        self.do_path(&b.path, true, true);
    }

    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if self.mut_self && p.path.is_ident("self") {
            self.repl(rng(&p.path), "vx_self");
            return;
        }
        if let Some(q) = &p.qself {
            self.visit_type(&q.ty);
            if q.position > 0 {
                let last = &p.path.segments[q.position - 1];
                if self.g.hoisted.contains(&last.ident.to_string()) {
                    match &last.arguments {
                        PathArguments::None => self.close(rng(&last.ident).end, "<'parse>"),
                        PathArguments::AngleBracketed(a) => self.open(rng(&a.lt_token).end, "'parse, "),
                        _ => {}
                    }
                }
            }
            for s in &p.path.segments {
                visit::visit_path_arguments(self, &s.arguments);
            }
            return;
        }
        let t = toks(&p.path).replace(' ', "");
        if t.starts_with("any::type_name") || t.starts_with("std::any::type_name") || t.starts_with("type_name::<") {
            let last = p.path.segments.last().unwrap();
            let args = match &last.arguments {
                PathArguments::AngleBracketed(a) => self.text(rng(a)),
                _ => String::new(),
            };
            self.repl(rng(&p.path), format!("vx_type_name{args}"));
            return;
        }
        if let Some(last) = p.path.segments.last() {
            if last.ident == "from_str_radix" {
                self.g.note("std from_str_radix modelled");
                self.repl(rng(&last.ident), "vx_from_str_radix");
                return;
            }
        }
        if t == "Box::pin" {
            self.repl(rng(&p.path), "vx_pin");
            return;
        }
        self.do_path(&p.path, false, false);
    }

    fn visit_path(&mut self, p: &'ast Path) {
        self.do_path(p, false, false);
    }

    fn visit_expr(&mut self, e: &'ast Expr) {
        let r = rng(e);
        match e {
            Expr::Macro(m) => self.do_macro(&m.mac, r, false),
            Expr::Closure(c) => {
                if self.const_fnptr {
                    self.g.note("closure coerced to fn pointer wrapped");
                    self.open(r.start, "VxFn1::vx_new(");
                    let saved = self.const_fnptr;
                    self.const_fnptr = false;
                    self.close(r.end, ")");
                    self.closure(c);
                    self.const_fnptr = saved;
                } else {
                    self.closure(c)
                }
            }
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(w) => {
                self.visit_expr(&w.cond);
                self.loop_specs(&w.body);
                for s in &w.body.stmts {
                    self.visit_stmt(s);
                }
            }
            Expr::Loop(l) => {
                self.loop_specs(&l.body);
                for s in &l.body.stmts {
                    self.visit_stmt(s);
                }
            }
            Expr::Reference(rf) => {
                // &X[a..b]
                if let Expr::Index(ix) = &*rf.expr {
                    if self.is_range(&ix.index) {
                        if rf.mutability.is_none() {
                            self.del(rng(&rf.and_token));
                            self.visit_expr(&rf.expr);
                            return;
                        }
                    }
                }
                if let Expr::Path(p) = &*rf.expr {
                    if let Some(id) = p.path.get_ident() {
                        if self.extend.contains(&id.to_string()) && rf.mutability.is_none() {
                            self.g.note("local borrow extended");
                            self.open(r.start, "vx_extend(");
                            self.close(r.end, ")");
                            return;
                        }
                    }
                }
                // &*rule_parsers[i] with dyn Any
                let t = toks(&rf.expr);
                if t.starts_with("* rule_parsers [") {
                    if let Expr::Unary(u) = &*rf.expr {
                        self.del(rng(&u.op));
                        self.visit_expr(&u.expr);
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Index(ix) => {
                if let Expr::Path(p) = &*ix.index {
                    if let Some(id) = p.path.get_ident() {
                        if let Some((a, b)) = self.range_lets.get(&id.to_string()).cloned() {
                            // s[range] where `let range = a..b;`
                            self.g.note("str slice through checked wrapper");
                            self.visit_expr(&ix.expr);
                            let br = rng(&ix.bracket_token.span.open()).start..rng(&ix.bracket_token.span.close()).end;
                            let t = match (a, b) {
                                (true, true) => format!(".vx_slice({id}.start, {id}.end)"),
                                (true, false) => format!(".vx_from({id}.start)"),
                                (false, true) => format!(".vx_to({id}.end)"),
                                (false, false) => ".vx_full()".to_string(),
                            };
                            self.repl(br, t);
                            return;
                        }
                    }
                }
                if let Expr::Range(rg) = &*ix.index {
                    self.g.note("str slice through checked wrapper");
                    self.visit_expr(&ix.expr);
                    let br = rng(&ix.bracket_token.span.open()).start..rng(&ix.bracket_token.span.close()).end;
                    let incl = matches!(rg.limits, RangeLimits::Closed(_));
                    let m = match (&rg.start, &rg.end) {
                        (Some(_), Some(_)) => "vx_slice",
                        (Some(_), None) => "vx_from",
                        (None, Some(_)) => "vx_to",
                        (None, None) => "vx_full",
                    };
                    let m = if incl { format!("{m}_incl") } else { m.to_string() };
                    let a = |x: &mut Self, e: &Option<Box<Expr>>| -> String {
                        match e {
                            Some(e) => {
                                let e2 = (**e).clone();
                                x.sub(rng(&**e), |v| v.visit_expr(&e2))
                            }
                            None => String::new(),
                        }
                    };
                    let s = a(self, &rg.start);
                    let t = a(self, &rg.end);
                    let args = [s, t].iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(", ");
                    self.repl(br, format!(".{m}({args})"));
                    return;
                }
                visit::visit_expr(self, e);
            }
            Expr::Cast(c) => {
                // &self.id as &u8 as *const u8 as usize  (address of a pinned box)
                let t = toks(e);
                if t.ends_with("as * const u8 as usize") {
                    let mut inner: &Expr = &c.expr;
                    loop {
                        inner = match inner {
                            Expr::Cast(c) => &c.expr,
                            Expr::Reference(x) => &x.expr,
                            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => &u.expr,
                            Expr::Paren(p) => &p.expr,
                            _ => break,
                        };
                    }
                    self.g.note("address of pinned box modelled");
                    let x = inner.clone();
                    let txt = self.sub(rng(inner), |v| v.visit_expr(&x));
                    self.repl(r, format!("{txt}.vx_addr()"));
                    return;
                }
                visit::visit_expr(self, e);
            }
            Expr::Try(t) => {
                match &*t.expr {
                    Expr::MethodCall(m) => {
                        if let Expr::Path(p) = &*m.receiver {
                            if p.path.is_ident("self") {
                                let key = format!("impl {}::{}", self.self_name, m.method);
                                let args: Vec<&Expr> = m.args.iter().collect();
                                if self.try_inline(&key, &args, rng(&*t.expr), true) {
                                    return;
                                }
                            }
                        }
                    }
                    Expr::Call(c) => {
                        if let Expr::Path(p) = &*c.func {
                            let key = call_key(p, &self.self_name);
                            let args: Vec<&Expr> = c.args.iter().collect();
                            if self.try_inline(&key, &args, rng(&*t.expr), true) {
                                return;
                            }
                        }
                    }
                    _ => {}
                }
                visit::visit_expr(self, e);
            }
            Expr::Call(c) => {
                // f(x) on a user's conversion function
                let mut fun: &Expr = &c.func;
                loop {
                    match fun {
                        Expr::Paren(p) => fun = &p.expr,
                        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => fun = expr,
                        Expr::Reference(r) => fun = &r.expr,
                        _ => break,
                    }
                }
                if let (Expr::Path(p), 1) = (fun, c.args.len()) {
                    if p.path.get_ident().map_or(false, |i| self.user_fns.contains(&i.to_string())) {
                        self.g.note("call of a user function, paid with ghost fuel");
                        let f = toks(&p.path);
                        self.repl(r.start..rng(&c.args[0]).start, format!("vx_user_call({f}, "));
                        self.visit_expr(&c.args[0]);
                        self.repl(rng(&c.args[0]).end..r.end, ", Tracked(&mut *vx_fuel))");
                        return;
                    }
                }
                // ParseIter::convert(&it), Mapping::apply(&m, v)
                if let Expr::Path(p) = &*c.func {
                    if FuelSites::path_call(p, c.args.len()) {
                        self.fuel_arg(rng(&c.paren_token.span.close()).start, c.args.trailing_punct());
                    }
                }
                // (self.f)(args) on fn pointer fields
                if let Expr::Paren(p) = &*c.func {
                    if let Expr::Field(f) = &*p.expr {
                        if let Member::Named(n) = &f.member {
                            if self.g.fnptr_field_names.contains(&n.to_string()) {
                                self.g.note("fn pointer call");
                                let fr = rng(&*c.func);
                                let inner = self.text(rng(&*p.expr));
                                self.repl(fr.clone(), format!("{inner}.vx_call"));
                                for a in &c.args {
                                    self.visit_expr(a);
                                }
                                return;
                            }
                        }
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let key = call_key(p, &self.self_name);
                    let args: Vec<&Expr> = c.args.iter().collect();
                    if self.try_inline(&key, &args, r.clone(), false) {
                        return;
                    }
                    let n = p.path.segments.len();
                    if args.len() == 1 && toks(&p.path).replace(' ', "") == "String::from" {
                        // String::from(x)  =  x.to_string()   (x: &str, char or String)
                        self.open(r.start, "(");
                        self.del(r.start..rng(args[0]).start);
                        self.visit_expr(args[0]);
                        self.repl(rng(args[0]).end..r.end, ").to_string()");
                        return;
                    }
                    if let (1, Some(w)) = (args.len(), from_path(p)) {
                        self.g.note("From::from through trusted wrapper (the same relation as `?`)");
                        self.repl(r.start..rng(args[0]).start, format!("{w}("));
                        self.visit_expr(args[0]);
                        self.repl(rng(args[0]).end..r.end, ")");
                        return;
                    }
                    if args.len() == 1 && n >= 2 && p.path.segments[n - 1].ident == "from_iter" {
                        // C::from_iter(x)  =  x.into_iter().collect::<C>()
                        let ty = match &p.qself {
                            Some(q) => self.text(rng(&*q.ty)),
                            None => self.text(rng(&p.path.segments[0]).start..rng(&p.path.segments[n - 2]).end),
                        };
                        self.g.note("into_iter().collect() through trusted wrapper");
                        let x = args[0].clone();
                        let t = self.sub(rng(args[0]), |v| v.visit_expr(&x));
                        self.repl(r, format!("vx_collect::<_, {ty}>({t})"));
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Struct(s) => {
                let name = s.path.segments.last().unwrap().ident.to_string();
                let fp = self.g.fnptr_fields.get(&name).cloned().unwrap_or_default();
                self.do_path(&s.path, false, false);
                for f in &s.fields {
                    let Member::Named(n) = &f.member else { continue };
                    let is_fp = fp.get(&n.to_string());
                    let is_copy = {
                        let t = toks(&f.expr).replace(' ', "");
                        t == format!("self.{n}") || (f.colon_token.is_none())
                    };
                    if let (Some(tyt), false) = (is_fp, is_copy) {
                        self.g.note("fn pointer value wrapped");
                        let ty = tyt.replace(' ', "");
                        let w = if ty.starts_with("fn()") {
                            "VxFn0::vx_new("
                        } else if ty.starts_with("fn(&str)") {
                            "VxFnStr::vx_new("
                        } else {
                            "VxFn1::vx_new("
                        };
                        let er = rng(&f.expr);
                        self.open(er.start, w);
                        self.close(er.end, ")");
                        let saved = self.const_fnptr;
                        self.const_fnptr = false;
                        if let Expr::Closure(c) = &f.expr {
                            self.closure(c);
                        } else {
                            self.visit_expr(&f.expr);
                        }
                        self.const_fnptr = saved;
                    } else if f.colon_token.is_some() {
                        self.visit_expr(&f.expr);
                    }
                }
                if let Some(rest) = &s.rest {
                    self.visit_expr(rest);
                }
            }
            Expr::MethodCall(m) => self.method_call(e, m),
            Expr::Binary(b) => {
                if let (BinOp::AddAssign(_), Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) = (&b.op, &*b.right) {
                    self.visit_expr(&b.left);
                    self.repl(rng(&*b.left).end..rng(&*b.right).start, ".vx_push_str(");
                    self.close(r.end, ")");
                    return;
                }
                visit::visit_expr_binary(self, b);
            }
            _ => visit::visit_expr(self, e),
        }
    }

    fn visit_stmt(&mut self, s: &'ast Stmt) {
        match s {
            Stmt::Macro(m) => {
                let r = rng(&m.mac);
                self.strip_attrs(&m.attrs);
                let semi = m.semi_token.is_none();
                self.do_macro(&m.mac, r, semi && !matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "write" | "format"));
            }
            Stmt::Item(it) => {
                self.g.problem(&self.fn_key, "nested item");
                let _ = it;
            }
            Stmt::Local(l) => {
                let mut p = &l.pat;
                if let Pat::Type(t) = p {
                    p = &t.pat;
                }
                if let Pat::Ident(i) = p {
                    let n = i.ident.to_string();
                    self.range_lets.remove(&n);
                    if let Some(init) = &l.init {
                        if let Expr::Range(rg) = &*init.expr {
                            if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                                self.range_lets.insert(n, (rg.start.is_some(), rg.end.is_some()));
                            }
                        }
                    }
                }
                visit::visit_stmt(self, s);
            }
            _ => visit::visit_stmt(self, s),
        }
    }

    fn visit_pat(&mut self, p: &'ast Pat) {
        visit::visit_pat(self, p);
    }
}

fn call_key(p: &ExprPath, self_name: &str) -> String {
    let n = p.path.segments.len();
    let last = p.path.segments.last().unwrap().ident.to_string();
    if n >= 2 {
        let first = p.path.segments[n - 2].ident.to_string();
        if first == "Self" {
            return format!("impl {self_name}::{last}");
        }
        if first.chars().next().map_or(false, |c| c.is_uppercase()) {
            return format!("impl {first}::{last}");
        }
    }
    last
}

fn subst_idents(body: &str, ps: &[String], args: &[String]) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    let flush = |cur: &mut String, out: &mut String| {
        if !cur.is_empty() {
            match ps.iter().position(|p| p == cur) {
                Some(i) if i < args.len() => out.push_str(&args[i]),
                _ => out.push_str(cur),
            }
            cur.clear();
        }
    };
    for c in body.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            flush(&mut cur, &mut out);
            out.push(c);
        }
    }
    flush(&mut cur, &mut out);
    out
}

impl<'g> Xf<'g> {
    fn method_call(&mut self, e: &Expr, m: &ExprMethodCall) {
        let r = rng(e);
        let name = m.method.to_string();
        let nargs = m.args.len();
        let rec_end = rng(&*m.receiver).end;
        // inline uncontracted helper methods on self
        if let Expr::Path(p) = &*m.receiver {
            if p.path.is_ident("self") {
                let key = format!("impl {}::{}", self.self_name, name);
                let args: Vec<&Expr> = m.args.iter().collect();
                if self.try_inline(&key, &args, r.clone(), false) {
                    return;
                }
            }
            if let Some(id) = p.path.get_ident() {
                if self.extend.contains("*") && (name == "parse" || name == "parse_raw") {
                    self.g.note("local borrow extended");
                    self.open(r.start, "vx_extend(&");
                    self.close(rec_end, ")");
                    for a in &m.args {
                        self.open(rng(a).start, "vx_extend(");
                        self.visit_expr(a);
                        self.close(rng(a).end, ")");
                    }
                    return;
                }
                if self.extend.contains(&id.to_string()) && name != "push" && name != "ends_with" {
                    self.open(r.start, "vx_extend(&");
                    self.close(rec_end, ")");
                    for a in &m.args {
                        self.visit_expr(a);
                    }
                    return;
                }
            }
        }
        if let (Expr::Field(f), Some(Expr::Call(c))) = (&*m.receiver, m.args.first()) {
            if let Member::Named(n) = &f.member {
                if name == "push" && self.g.any_fields.contains(&n.to_string()) && toks(&c.func) == "Box :: new" {
                    self.g.note("boxing into dyn Any modelled");
                    self.repl(rng(&*c.func), "VxAny::vx_new");
                    self.visit_expr(&m.receiver);
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
            }
        }
        match (name.as_str(), nargs) {
            ("len", 0) => {
                self.repl(rng(&m.method), "vx_len");
                self.visit_expr(&m.receiver);
            }
            ("starts_with" | "ends_with" | "find" | "rfind" | "contains" | "push" | "push_str" | "strip_prefix" | "strip_suffix", 1)
                if !matches!(m.args.first(), Some(Expr::Closure(_)))
                    && !(name == "push" && !self.extend_push(m)) =>
            {
                self.g.note("str method through trusted wrapper");
                self.repl(rng(&m.method), format!("vx_{name}"));
                self.visit_expr(&m.receiver);
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            ("into", 0) => {
                self.g.note("From::from through trusted wrapper (the same relation as `?`)");
                self.open(r.start, "vx_into(");
                self.visit_expr(&m.receiver);
                self.repl(rec_end..r.end, ")");
            }
            ("map_err", 1) if matches!(m.args.first(), Some(Expr::Path(p)) if from_path(p).is_some()) => {
                let Some(Expr::Path(p)) = m.args.first() else { unreachable!() };
                self.g.note("From::from through trusted wrapper (the same relation as `?`)");
                self.open(r.start, "(match ");
                self.visit_expr(&m.receiver);
                self.repl(rec_end..r.end, format!(" {{ Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err({}(vx_e)) }})", from_path(p).unwrap()));
            }
            ("or_else" | "map" | "map_err" | "and_then", 1) if matches!(m.args.first(), Some(Expr::Closure(_))) => {
                let Some(Expr::Closure(c)) = m.args.first() else { unreachable!() };
                let mut rf = RetFinder { ret: false, q: false };
                rf.visit_expr(&c.body);
                if (rf.ret || rf.q) && !(self.is_tail(&r) && (name == "or_else" || name == "and_then")) {
                    self.g.problem(&self.fn_key, "closure with early exit outside tail position");
                }
                // iter().map(f) is handled by collect
                let opt = if name == "or_else" { c.inputs.is_empty() } else { self.looks_option(&m.receiver) };
                self.g.note("Result/Option combinator expanded to match");
                let pat = match c.inputs.first() {
                    Some(Pat::Type(t)) => self.text(rng(&*t.pat)),
                    Some(p) => self.text(rng(p)),
                    None => String::new(),
                };
                let b = rng(&*c.body);
                self.open(r.start, "(match ");
                self.visit_expr(&m.receiver);
                let (mid, end) = match (name.as_str(), opt) {
                    ("or_else", false) => (format!(" {{ Ok(vx_v) => Ok(vx_v), Err({pat}) => "), " })".to_string()),
                    ("or_else", true) => (" { Some(vx_v) => Some(vx_v), None => ".to_string(), " })".to_string()),
                    ("and_then", false) => (format!(" {{ Err(vx_e) => Err(vx_e), Ok({pat}) => "), " })".to_string()),
                    ("and_then", true) => (format!(" {{ None => None, Some({pat}) => "), " })".to_string()),
                    ("map_err", _) => (format!(" {{ Ok(vx_v) => Ok(vx_v), Err({pat}) => Err("), ") })".to_string()),
                    ("map", false) => (format!(" {{ Err(vx_e) => Err(vx_e), Ok({pat}) => Ok("), ") })".to_string()),
                    _ => (format!(" {{ None => None, Some({pat}) => Some("), ") })".to_string()),
                };
                self.repl(rec_end..b.start, mid);
                if self.is_tail(&r) {
                    self.mark_tail(&c.body);
                }
                self.visit_expr(&c.body);
                self.repl(b.end..r.end, end);
            }
            ("map_or", 2) if Self::plain_closure(m.args.iter().nth(1)) && !self.is_iter_chain(&m.receiver) => {
                // X.map_or(D, |p| B)  ->  match X { None => D, Some(p) => B }   (D is a path or a literal)
                let d = m.args.first().unwrap();
                let Some(Expr::Closure(c)) = m.args.iter().nth(1) else { unreachable!() };
                if !matches!(d, Expr::Lit(_) | Expr::Path(_) | Expr::Field(_)) {
                    self.g.problem(&self.fn_key, "map_or with a computed default");
                }
                self.g.note("Result/Option combinator expanded to match");
                let opt = self.looks_option(&m.receiver) || !self.looks_result(&m.receiver);
                let pat = self.closure_pat(c);
                let (dr, b) = (rng(d), rng(&*c.body));
                self.open(r.start, "(match ");
                self.visit_expr(&m.receiver);
                self.repl(rec_end..dr.start, if opt { " { None => " } else { " { Err(_) => " });
                self.visit_expr(d);
                self.repl(dr.end..b.start, if opt { format!(", Some({pat}) => ") } else { format!(", Ok({pat}) => ") });
                self.visit_expr(&c.body);
                self.repl(b.end..r.end, " })");
            }
            ("is_some_and" | "is_none_or" | "is_ok_and" | "unwrap_or_else" | "ok_or_else", 1)
                if Self::plain_closure(m.args.first()) =>
            {
                let Some(Expr::Closure(c)) = m.args.first() else { unreachable!() };
                self.g.note("Result/Option combinator expanded to match");
                let pat = self.closure_pat(c);
                let b = rng(&*c.body);
                self.open(r.start, "(match ");
                self.visit_expr(&m.receiver);
                let (mid, end) = match name.as_str() {
                    "is_some_and" => (format!(" {{ None => false, Some({pat}) => "), " })"),
                    "is_none_or" => (format!(" {{ None => true, Some({pat}) => "), " })"),
                    "is_ok_and" => (format!(" {{ Err(_) => false, Ok({pat}) => "), " })"),
                    "ok_or_else" => (" { Some(vx_v) => Ok(vx_v), None => Err(".to_string(), ") })"),
                    _ if c.inputs.is_empty() => (" { Some(vx_v) => vx_v, None => ".to_string(), " })"),
                    _ => (format!(" {{ Ok(vx_v) => vx_v, Err({pat}) => "), " })"),
                };
                self.repl(rec_end..b.start, mid);
                self.visit_expr(&c.body);
                self.repl(b.end..r.end, end);
            }
            ("collect", 0) => {
                // X.iter().map(|p| B).collect()  /  X.into_iter().collect()
                if let Expr::MethodCall(mm) = &*m.receiver {
                    if mm.method == "map" && mm.args.len() == 1 {
                        if let (Expr::MethodCall(mi), Some(Expr::Closure(c))) = (&*mm.receiver, mm.args.first()) {
                            if mi.method == "iter" && mi.args.is_empty() {
                                self.g.note("iter().map().collect() desugared to loop");
                                let coll = {
                                    let x = (*mi.receiver).clone();
                                    self.sub(rng(&*mi.receiver), |v| v.visit_expr(&x))
                                };
                                let k = format!("{} {}", self.fn_key, self.loops);
                                self.loops += 1;
                                let spec = self.g.side.get("loop", &k).unwrap_or("").to_string();
                                let lb = self.g.side.get("loopbody", &k).unwrap_or("").to_string();
                                let le = self.g.side.get("loopend", &k).unwrap_or("").to_string();
                                let pat = match c.inputs.first() {
                                    Some(Pat::Type(t)) => self.text(rng(&*t.pat)),
                                    Some(p) => self.text(rng(p)),
                                    None => "_".into(),
                                };
                                let b2 = (*c.body).clone();
                                let body = self.sub(rng(&*c.body), |v| v.visit_expr(&b2));
                                self.repl(r, format!(
                                    "{{ let mut vx_v = Vec::new(); let mut vx_i: usize = 0;\nwhile vx_i < {coll}.vx_len()\n{spec}\n{{ {lb}\nvx_i = vx_i + 1; let {pat} = &{coll}[vx_i - 1]; let vx_b = {body}; vx_v.push(vx_b);\n{le} }}\nvx_v }}"
                                ));
                                return;
                            }
                        }
                    }
                    if mm.method == "into_iter" && mm.args.is_empty() {
                        self.g.note("into_iter().collect() through trusted wrapper");
                        let x = (*mm.receiver).clone();
                        let t = self.sub(rng(&*mm.receiver), |v| v.visit_expr(&x));
                        self.repl(r, format!("vx_collect({t})"));
                        return;
                    }
                }
                self.g.problem(&self.fn_key, "collect() of an unrecognised iterator chain");
            }
            ("count", 0) => {
                // s.chars().count() / s.chars().filter(|c| P).count()
                if let Expr::MethodCall(mm) = &*m.receiver {
                    if mm.method == "chars" {
                        let x = (*mm.receiver).clone();
                        let t = self.sub(rng(&*mm.receiver), |v| v.visit_expr(&x));
                        self.g.note("chars().count() through trusted wrapper");
                        self.repl(r, format!("{t}.vx_chars_count()"));
                        return;
                    }
                    if mm.method == "matches" {
                        if let Some(Expr::Lit(ExprLit { lit: Lit::Char(ch), .. })) = mm.args.first() {
                            let ch = toks(ch);
                            let x = (*mm.receiver).clone();
                            let t = self.sub(rng(&*mm.receiver), |v| v.visit_expr(&x));
                            self.g.note("matches(char).count() through trusted wrapper");
                            self.repl(r, format!("{t}.vx_count_char({ch})"));
                            return;
                        }
                    }
                    if mm.method == "filter" {
                        if let (Expr::MethodCall(mc), Some(Expr::Closure(c))) = (&*mm.receiver, mm.args.first()) {
                            if mc.method == "chars" {
                                let x = (*mc.receiver).clone();
                                let t = self.sub(rng(&*mc.receiver), |v| v.visit_expr(&x));
                                let body = toks(&*c.body).replace(' ', "");
                                let p = c.inputs.first().map(|p| toks(p).replace(' ', "")).unwrap_or_default();
                                let pn = p.trim_start_matches('&').to_string();
                                let norm = body.replace(&format!("*{pn}=="), "_==").replace(&format!("{pn}=="), "_==");
                                if let Some(ch) = norm.strip_prefix("_==") {
                                    self.g.note("chars().filter(==).count() through trusted wrapper");
                                    self.repl(r, format!("{t}.vx_count_char({ch})"));
                                    return;
                                }
                            }
                        }
                    }
                }
                self.g.problem(&self.fn_key, "count() of an unrecognised iterator chain");
            }
            ("apply", 1) => {
                self.fuel_arg(rng(&m.paren_token.span.close()).start, m.args.trailing_punct() || m.args.is_empty());
                visit::visit_expr_method_call(self, m);
            }
            ("match_end" | "backtrack" | "convert", _) => {
                if name == "convert" && m.args.is_empty() { self.fuel_arg(rng(&m.paren_token.span.close()).start, true); }
                // dyn ParseIter fields
                if let Expr::Field(f) = &*m.receiver {
                    if let (Expr::Path(p), Member::Named(n)) = (&*f.base, &f.member) {
                        if p.path.is_ident("self")
                            && self.g.dyn_iter_fields.get(&self.self_name).map_or(false, |s| s.contains(&n.to_string()))
                        {
                            self.g.note("dyn ParseIter call forwarded");
                            self.repl(rng(&m.method), format!("d{name}"));
                        }
                    }
                }
                self.visit_expr(&m.receiver);
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            ("downcast_ref", 0) => {
                self.repl(rng(&m.method), "vx_downcast_ref");
                self.visit_expr(&m.receiver);
                if let Some(t) = &m.turbofish {
                    for a in &t.args {
                        visit::visit_generic_argument(self, a);
                    }
                }
            }
            _ => visit::visit_expr_method_call(self, m),
        }
    }
    fn fuel_arg(&mut self, at: usize, first: bool) {
        self.close(at, format!("{}Tracked(&mut *vx_fuel)", if first { "" } else { ", " }));
    }
    fn extend_push(&self, m: &ExprMethodCall) -> bool {
        // String::push(char) versus Vec::push
        matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. })))
    }
}

// -------------------------------------------------------------------- items

fn indent_body(s: &str) -> String {
    s.to_string()
}

pub fn item(g: &Global, u: &SourceFile, it: &Item) -> String {
    let mut x = Xf::new(g, &u.text);
    match it {
        Item::Use(_) | Item::ExternCrate(_) => String::new(),
        Item::Struct(s) => {
            if is_cfg_test(&s.attrs) {
                return String::new();
            }
            let key = s.ident.to_string();
            x.item_key = key.clone();
            if g.side.get("drop", &key).is_some() {
                g.drop_item(format!("{}: struct {key}: {}", u.path, g.side.get("drop", &key).unwrap().trim()));
                return String::new();
            }
            let derives = derive_filter(&s.attrs);
            let noderive = g.side.get("noderive", &key).is_some();
            x.strip_attrs(&s.attrs);
            x.strip_vis(&s.vis);
            let p = rng(&s.struct_token).start;
            for t in s.generics.type_params() {
                x.open(p, format!("#[verifier::reject_recursive_types({})] ", t.ident));
            }
            if let Some(a) = g.side.get("attr", &key) {
                x.open(p, a.to_string());
            }
            if !derives.is_empty() && !noderive {
                x.open(p, format!("#[derive({})] ", derives.join(", ")));
            }
            if g.hoisted.contains(&key) {
                x.add_lifetime(&s.generics, rng(&s.ident).end);
            }
            visit::visit_generics(&mut x, &s.generics);
            for f in &s.fields {
                x.strip_attrs(&f.attrs);
                x.strip_vis(&f.vis);
                x.visit_type(&f.ty);
            }
            x.apply(rng(s))
        }
        Item::Enum(s) => {
            if is_cfg_test(&s.attrs) {
                return String::new();
            }
            let key = s.ident.to_string();
            x.item_key = key.clone();
            let derives = derive_filter(&s.attrs);
            let noderive = g.side.get("noderive", &key).is_some();
            x.strip_attrs(&s.attrs);
            x.strip_vis(&s.vis);
            let p = rng(&s.enum_token).start;
            for t in s.generics.type_params() {
                x.open(p, format!("#[verifier::reject_recursive_types({})] ", t.ident));
            }
            if let Some(a) = g.side.get("attr", &key) {
                x.open(p, a.to_string());
            }
            if !derives.is_empty() && !noderive {
                x.open(p, format!("#[derive({})] ", derives.join(", ")));
            }
            if g.hoisted.contains(&key) {
                x.add_lifetime(&s.generics, rng(&s.ident).end);
            }
            visit::visit_generics(&mut x, &s.generics);
            for v in &s.variants {
                x.strip_attrs(&v.attrs);
                for f in &v.fields {
                    x.strip_attrs(&f.attrs);
                    x.visit_type(&f.ty);
                }
            }
            x.apply(rng(s))
        }
        Item::Type(t) => {
            let key = t.ident.to_string();
            if g.fn_aliases.contains_key(&key) {
                g.drop_item(format!("{}: type {key} (expanded at its uses)", u.path));
                return String::new();
            }
            x.strip_attrs(&t.attrs);
            x.strip_vis(&t.vis);
            if g.hoisted.contains(&key) {
                x.add_lifetime(&t.generics, rng(&t.ident).end);
            }
            visit::visit_generics(&mut x, &t.generics);
            x.visit_type(&t.ty);
            x.apply(rng(t))
        }
        Item::Const(c) => {
            let key = c.ident.to_string();
            if g.side.get("drop", &key).is_some() {
                g.drop_item(format!("{}: const {key}: {}", u.path, g.side.get("drop", &key).unwrap().trim()));
                return String::new();
            }
            x.fn_key = key.clone();
            x.item_key = key.clone();
            let ty = {
                let mut y = x.child(&u.text);
                y.visit_type(&c.ty);
                y.apply(rng(&*c.ty))
            };
            x.const_fnptr = has_bare_fn(&c.ty);
            x.visit_expr(&c.expr);
            let mut body = x.apply(rng(&*c.expr));
            if let Some(t) = g.side.get("bindtail", &key) {
                body = format!("let vx_r = {body};\n{t}\nvx_r");
            }
            g.note("const turned into fn");
            let line = u.text[..rng(&c.ident).start].matches('\n').count() + 1;
            let sig = g.side.get("sig", &key).unwrap_or("");
            if sig.trim().is_empty() {
                g.uncontracted.borrow_mut().insert(key.clone());
            }
            let attr = g.side.get("attr", &key).unwrap_or("");
            let entry = g.side.get("entry", &key).unwrap_or("");
            let gens = if words(&ty).contains("parse") { "<'parse>" } else { "" };
            format!("/*VXFN:{key}|{line}*/ {attr} fn {key}{gens}() -> (r: {ty})\n{sig}\n{{ {entry} {body} }}/*VXEND*/")
        }
        Item::Fn(f) => {
            if is_cfg_test(&f.attrs) {
                return String::new();
            }
            let key = f.sig.ident.to_string();
            if g.side.get("drop", &key).is_some() {
                g.drop_item(format!("{}: fn {key}: {}", u.path, g.side.get("drop", &key).unwrap().trim()));
                return String::new();
            }
            if g.inlinable.contains_key(&key) && words_all(g, &key) {
                g.drop_item(format!("{}: fn {key} (uncontracted helper, inlined at its calls)", u.path));
            }
            x.fn_key = key.clone();
            x.item_key = key;
            let add = !has_parse_lt(&f.sig.generics) && mentions(&strip_docs(&toks(&f.sig)), &g.hoisted);
            x.function(&f.attrs, Some(&f.vis), &f.sig, Some(&f.block), rng(f), false, add);
            x.apply(rng(f))
        }
        Item::Trait(t) => {
            let key = format!("trait {}", t.ident);
            x.item_key = key.clone();
            let name = t.ident.to_string();
            x.strip_attrs(&t.attrs);
            x.strip_vis(&t.vis);
            let hoisted = g.hoisted.contains(&name);
            x.in_hoisted_trait = hoisted;
            if hoisted && !has_parse_lt(&t.generics) {
                x.add_lifetime(&t.generics, rng(&t.ident).end);
            }
            if let Some(a) = g.side.get("attr", &key) {
                x.open(rng(&t.trait_token).start, a.to_string());
            }
            visit::visit_generics(&mut x, &t.generics);
            for b in &t.supertraits {
                x.visit_type_param_bound(b);
            }
            let bs = rng(&t.brace_token.span.open()).end;
            if let Some(s) = g.side.get("in", &key) {
                x.open(bs, format!("\n{s}"));
            }
            for ti in &t.items {
                match ti {
                    TraitItem::Type(ty) => {
                        x.strip_attrs(&ty.attrs);
                        if ty.generics.lt_token.is_some() {
                            let a = rng(ty.generics.lt_token.as_ref().unwrap()).start;
                            let b = rng(ty.generics.gt_token.as_ref().unwrap()).end;
                            x.del(a..b);
                            g.note("GAT hoisted to trait parameter");
                            if let Some(w) = &ty.generics.where_clause {
                                x.del(rng(w));
                            }
                        }
                        for b in &ty.bounds {
                            x.visit_type_param_bound(b);
                        }
                    }
                    TraitItem::Fn(f) => {
                        x.fn_key = format!("{key}::{}", f.sig.ident);
                        x.function(&f.attrs, None, &f.sig, f.default.as_ref(), rng(f), hoisted, false);
                    }
                    TraitItem::Const(_) | TraitItem::Macro(_) | _ => {}
                }
            }
            x.apply(rng(t))
        }
        Item::Impl(i) => {
            if is_cfg_test(&i.attrs) {
                return String::new();
            }
            let mut key = item_impl_key(i);
            if g.side.get("drop", &key).is_some() {
                g.drop_item(format!("{}: impl {key}: {}", u.path, g.side.get("drop", &key).unwrap().trim()));
                return String::new();
            }
            let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
            x.self_name = type_key(&i.self_ty);
            x.strip_attrs(&i.attrs);
            let mut inherent_display = false;
            if let Some((_, p, _)) = &i.trait_ {
                if tr.as_deref() == Some("Display") {
                    // contracts cannot be put on std's trait: verify as inherent method
                    inherent_display = true;
                    g.note("impl Display verified as inherent method");
                    let a = rng(p).start;
                    let b = rng(&*i.self_ty).start;
                    x.del(a..b);
                }
            }
            if inherent_display {
                key = format!("Display for {}", x.self_name);
            }
            x.item_key = key.clone();
            let hoisted = tr.as_ref().map_or(false, |t| g.hoisted.contains(t));
            x.in_hoisted_trait = hoisted;
            // header mentions
            let header = {
                let s = rng(i).start;
                let e = rng(&i.brace_token.span.open()).start;
                strip_docs(&u.text[s..e])
            };
            let native = has_parse_lt(&i.generics);
            let mut impl_has_parse = native;
            if !native && mentions(&header, &g.hoisted) {
                x.add_lifetime(&i.generics, rng(&i.impl_token).end);
                impl_has_parse = true;
            }
            if let Some(a) = g.side.get("attr", &key) {
                x.open(rng(&i.impl_token).start, a.to_string());
            }
            visit::visit_generics(&mut x, &i.generics);
            if !inherent_display {
                if let Some((_, p, _)) = &i.trait_ {
                    x.do_path(p, true, true);
                }
            }
            x.visit_type(&i.self_ty);
            // associated types
            let mut extra_where: Vec<String> = vec![];
            for ii in &i.items {
                if let ImplItem::Type(t) = ii {
                    x.assoc.insert(t.ident.to_string(), u.text[rng(&t.ty)].to_string());
                    if let Some(w) = &t.generics.where_clause {
                        for p in &w.predicates {
                            let s = toks(p);
                            if !s.starts_with("Self") {
                                extra_where.push(u.text[rng(p)].to_string());
                            }
                        }
                    }
                }
            }
            if let Some(s) = g.side.get("where", &key) {
                extra_where.push(s.trim().to_string());
            }
            let ob = rng(&i.brace_token.span.open());
            if !extra_where.is_empty() {
                let t = extra_where.join(", ");
                match &i.generics.where_clause {
                    Some(w) => {
                        let e = rng(w).end;
                        let trailing = w.predicates.trailing_punct() || w.predicates.is_empty();
                        x.close(e, format!("{} {t}", if trailing { "" } else { "," }));
                    }
                    None => x.close(ob.start, format!(" where {t} ")),
                }
            }
            if let Some(s) = g.side.get("in", &key) {
                x.open(ob.end, format!("\n{s}"));
            }
            if let Some(s) = gen_section(&key, i) {
                x.open(ob.end, format!("\n{s}"));
            }
            for ii in &i.items {
                match ii {
                    ImplItem::Type(t) => {
                        x.strip_attrs(&t.attrs);
                        if t.generics.lt_token.is_some() {
                            let a = rng(t.generics.lt_token.as_ref().unwrap()).start;
                            let b = rng(t.generics.gt_token.as_ref().unwrap()).end;
                            x.del(a..b);
                            if let Some(w) = &t.generics.where_clause {
                                x.del(rng(w));
                            }
                        }
                        let saved = x.expand_assoc;
                        x.expand_assoc = true;
                        x.visit_type(&t.ty);
                        x.expand_assoc = saved;
                    }
                    ImplItem::Fn(f) => {
                        x.fn_key = format!("{key}::{}", f.sig.ident);
                        if g.side.get("drop", &x.fn_key).is_some() {
                            g.drop_item(format!("{}: fn {}: {}", u.path, x.fn_key, g.side.get("drop", &x.fn_key).unwrap().trim()));
                            x.del(rng(f));
                            continue;
                        }
                        if is_cfg_test(&f.attrs) {
                            x.del(rng(f));
                            continue;
                        }
                        let add = !impl_has_parse
                            && !has_parse_lt(&f.sig.generics)
                            && mentions(&strip_docs(&toks(&f.sig)), &g.hoisted);
                        x.function(&f.attrs, Some(&f.vis), &f.sig, Some(&f.block), rng(f), hoisted, add);
                        if i.trait_.is_some() && !inherent_display {
                            // the contract of a trait method is the trait's
                            g.uncontracted.borrow_mut().remove(&x.fn_key);
                        }
                    }
                    _ => {}
                }
            }
            indent_body(&x.apply(rng(i)))
        }
        Item::Macro(_) => String::new(),
        Item::Static(s) => {
            g.problem(&s.ident.to_string(), "static item");
            String::new()
        }
        _ => String::new(),
    }
}

fn words_all(_g: &Global, _k: &str) -> bool {
    false
}

fn strip_docs(s: &str) -> String {
    s.lines()
        .filter(|l| !l.trim_start().starts_with("//"))
        .map(|l| format!("{l}\n"))
        .collect()
}

/// The `impl Display` that `#[derive(thiserror::Error)]` makes of `#[error("..")]` attributes.
pub fn thiserror_display(e: &ItemEnum) -> Option<String> {
    if is_cfg_test(&e.attrs) || !e.generics.params.is_empty() {
        return None;
    }
    let derives = e.attrs.iter().any(|a| {
        let mut hit = false;
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                hit |= m.path.segments.last().map_or(false, |s| s.ident == "Error");
                Ok(())
            });
        }
        hit
    });
    if !derives {
        return None;
    }
    let name = &e.ident;
    let mut arms = String::new();
    for v in &e.variants {
        let a = v.attrs.iter().find(|a| a.path().is_ident("error"))?;
        let lit: LitStr = a.parse_args().ok()?;
        let mut text = lit.value();
        let pat = match &v.fields {
            Fields::Unit => String::new(),
            Fields::Unnamed(fs) => {
                let n = fs.unnamed.len();
                for i in 0..n {
                    text = text.replace(&format!("{{{i}}}"), &format!("{{vx_{i}}}")).replace(&format!("{{{i}:"), &format!("{{vx_{i}:"));
                }
                format!("({})", (0..n).map(|i| format!("vx_{i}")).collect::<Vec<_>>().join(", "))
            }
            Fields::Named(fs) => format!("{{ {} }}", fs.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect::<Vec<_>>().join(", ")),
        };
        arms.push_str(&format!("            {name}::{}{pat} => write!(f, {text:?}),\n", v.ident));
    }
    Some(format!("impl std::fmt::Display for {name} {{\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{\n        match self {{\n{arms}        }}\n    }}\n}}\n"))
}

fn derive_filter(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for w in words(&l.tokens.to_string()) {
                    if w == "Clone" || w == "Copy" {
                        out.push(w);
                    }
                }
            }
        }
    }
    out.sort();
    out
}

/// Contracts whose text depends on the arity of a tuple impl only.
fn gen_section(key: &str, i: &ItemImpl) -> Option<String> {
    let arity = |t: &Type| match t {
        Type::Tuple(t) => Some(t.elems.len()),
        _ => None,
    };
    let tup = |fields: Vec<String>| -> String {
        match fields.len() {
            0 => "()".to_string(),
            1 => format!("({},)", fields[0]),
            _ => format!("({})", fields.join(", ")),
        }
    };
    if key.starts_with("RawOutputConcat") {
        let n = arity(&i.self_ty)?;
        let (_, p, _) = i.trait_.as_ref()?;
        let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments else { return None };
        let Some(GenericArgument::Type(t)) = a.args.first() else { return None };
        let m = arity(t)?;
        let mut f: Vec<String> = (0..n).map(|k| format!("self.{k}")).collect();
        f.extend((0..m).map(|k| format!("tail.{k}")));
        // element types, from the impl header
        let mut tys: Vec<String> = vec![];
        if let Type::Tuple(tt) = &*i.self_ty {
            tys.extend(tt.elems.iter().map(|e| toks(e)));
        }
        if let Type::Tuple(tt) = t {
            tys.extend(tt.elems.iter().map(|e| toks(e)));
        }
        let tail = toks(t);
        return Some(format!("spec fn cat(self, tail: {tail}) -> {} {{ {} }}\n", tup(tys), tup(f)));
    }
    if key.starts_with("ParserOutput for (") {
        let n = arity(&i.self_ty)?;
        let tys: Vec<String> = if let Type::Tuple(tt) = &*i.self_ty { tt.elems.iter().map(|e| toks(e)).collect() } else { vec![] };
        // documented: a singleton stands for its element, everything else for itself
        return Some(if n == 1 {
            format!("spec fn user(self) -> {} {{ self.0 }}\n", tys[0])
        } else {
            format!("spec fn user(self) -> {} {{ self }}\n", tup(tys))
        });
    }
    None
}

#[allow(dead_code)]
fn unused(_: BTreeMap<String, String>) {}

/// The kinds of the loops of a function, in order.
struct LoopKinds(Vec<&'static str>);
impl<'ast> Visit<'ast> for LoopKinds {
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) { self.0.push("loop"); visit::visit_expr_loop(self, e); }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.0.push(if matches!(*e.cond, Expr::Let(_)) { "while let" } else { "while" });
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) { self.0.push("for"); visit::visit_expr_for_loop(self, e); }
    fn visit_item(&mut self, _: &'ast Item) {}
}

/// Does this code run conversions?
struct FuelSites(bool);
impl FuelSites {
    fn takes_fuel(key: &str) -> bool {
        let Some((t, f)) = key.rsplit_once("::") else { return false };
        (f == "convert" && (t == "trait ParseIter" || t.starts_with("ParseIter for "))) || (f == "apply" && (t == "trait Mapping" || t.starts_with("Mapping for ")))
    }
    fn path_call(p: &ExprPath, args: usize) -> bool {
        let l = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        (l == "convert" && args == 1) || (l == "apply" && args == 2 && toks(p).contains("Mapping"))
    }
}
impl<'ast> Visit<'ast> for FuelSites {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if (m.method == "convert" && m.args.is_empty()) || (m.method == "apply" && m.args.len() == 1) { self.0 = true; }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { if Self::path_call(p, c.args.len()) { self.0 = true; } }
        visit::visit_expr_call(self, c);
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}

/// `T::from` (T a type parameter), `From::from`, `Into::into` as the trusted wrapper for them.
fn from_path(p: &ExprPath) -> Option<String> {
    if p.qself.is_some() || p.path.segments.len() < 2 {
        return None;
    }
    let n = p.path.segments.len();
    let (a, b) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string());
    if (a == "From" && b == "from") || (a == "Into" && b == "into") {
        return Some("vx_into".into());
    }
    (n == 2 && b == "from" && a.len() == 1 && a.chars().all(|c| c.is_uppercase())).then(|| format!("vx_from::<_, {a}>"))
}

/// The one vector a loop body pushes to.
struct Pushed(std::collections::BTreeSet<String>);
impl Pushed {
    fn of(b: &Block) -> Option<String> {
        let mut p = Pushed(Default::default());
        p.visit_block(b);
        if p.0.len() == 1 { p.0.into_iter().next() } else { None }
    }
}
impl<'ast> Visit<'ast> for Pushed {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if m.method == "push" {
            if let Expr::Path(p) = &*m.receiver { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } }
        }
        visit::visit_expr_method_call(self, m);
    }
}
fn alias(spec: &str, v: &str) -> String {
    let mut o = String::new();
    let b = spec.as_bytes();
    let mut i = 0;
    let w = |c: u8| c == b'_' || c.is_ascii_alphanumeric();
    while i < b.len() {
        if spec[i..].starts_with("vx_v") && (i == 0 || !w(b[i - 1])) && b.get(i + 4).map_or(true, |c| !w(*c)) {
            o.push_str(v);
            i += 4;
        } else {
            let c = spec[i..].chars().next().unwrap();
            o.push(c);
            i += c.len_utf8();
        }
    }
    o
}
