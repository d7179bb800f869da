//! weave: mechanically extract the real source of the crate under /repo/src,
//! apply the (documented, purely syntactic) rewriting rules that bring it into
//! the dialect Verus accepts, and insert the contracts kept in the side-car
//! files.  Executable text is never taken from anywhere but the repository.
mod macroexp;
mod rx;
mod xform;

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

#[derive(Default)]
pub struct Sidecar {
    pub sections: HashMap<(String, String), String>,
    pub order: Vec<(String, String)>,
    pub used: std::cell::RefCell<HashSet<(String, String)>>,
}

impl Sidecar {
    fn load(dir: &Path, more: Option<String>) -> Sidecar {
        let mut s = Sidecar::default();
        let mut files: Vec<PathBuf> = fs::read_dir(dir)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map_or(false, |e| e == "vc"))
            .collect();
        files.sort();
        if let Some(m) = more { files.push(PathBuf::from(m)); }
        for f in files {
            let text = fs::read_to_string(&f).unwrap();
            let mut cur: Option<(String, String)> = None;
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix("@@ ") {
                    let rest = rest.trim();
                    let (d, k) = rest.split_once(' ').unwrap_or((rest, ""));
                    let key = (d.to_string(), k.trim().to_string());
                    if !s.sections.contains_key(&key) {
                        s.order.push(key.clone());
                        s.sections.insert(key.clone(), String::new());
                    }
                    cur = Some(key);
                } else if line.starts_with("@#") {
                    // comment line of the side-car
                } else if let Some(k) = &cur {
                    let e = s.sections.get_mut(k).unwrap();
                    e.push_str(line);
                    e.push('\n');
                }
            }
        }
        s
    }
    pub fn get(&self, d: &str, k: &str) -> Option<&str> {
        let key = (d.to_string(), k.to_string());
        let r = self.sections.get(&key);
        if r.is_some() {
            self.used.borrow_mut().insert(key);
        }
        r.map(|s| s.as_str())
    }
    pub fn has(&self, d: &str, k: &str) -> bool {
        self.sections.contains_key(&(d.to_string(), k.to_string()))
    }
}

pub struct SourceFile {
    pub path: String,
    pub text: String,
    pub items: Vec<syn::Item>,
}

#[derive(Default)]
pub struct Global {
    pub side: Sidecar,
    /// names of items that get a leading 'parse generic parameter
    pub hoisted: HashSet<String>,
    pub hoisted_traits: HashSet<String>,
    pub gat_names: HashSet<String>,
    /// generics declared natively: item name -> number of lifetime params
    pub native_lifetimes: HashMap<String, usize>,
    /// (struct, field) -> fn pointer type text
    pub fnptr_fields: HashMap<String, BTreeMap<String, String>>,
    /// any field name that is a fn pointer
    pub fnptr_field_names: HashSet<String>,
    /// struct names having a `dyn ParseIter` field -> field names
    pub dyn_iter_fields: HashMap<String, HashSet<String>>,
    /// fields holding boxed `dyn Any` values
    pub any_fields: HashSet<String>,
    /// type aliases containing a bare fn
    pub fn_aliases: HashMap<String, (Vec<String>, String)>,
    pub modules: HashSet<String>,
    pub log: std::cell::RefCell<BTreeMap<String, usize>>,
    pub drops: std::cell::RefCell<Vec<String>>,
    pub problems: std::cell::RefCell<Vec<(String, String)>>,
    /// inherent fns without contracts, candidates for inlining: key -> index
    pub known_fns: std::cell::RefCell<BTreeSet<String>>,
    pub uncontracted: std::cell::RefCell<BTreeSet<String>>,
    pub loops: std::cell::RefCell<std::collections::BTreeMap<String, Vec<&'static str>>>,
    pub inlinable: HashMap<String, xform::Inl>,
    pub trait_names: HashSet<String>,
}

impl Global {
    pub fn note(&self, rule: &str) {
        *self.log.borrow_mut().entry(rule.to_string()).or_insert(0) += 1;
    }
    pub fn drop_item(&self, what: String) {
        self.drops.borrow_mut().push(what);
    }
    pub fn problem(&self, key: &str, what: &str) {
        self.problems.borrow_mut().push((key.to_string(), what.to_string()));
    }
}

pub fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let mut t = false;
            if let syn::Meta::List(l) = &a.meta {
                t = l.tokens.to_string().contains("test");
            }
            t
        }
    })
}

fn load_module(g: &mut Global, path: &Path, dir_for_children: &Path, rel: &str, out: &mut Vec<SourceFile>) {
    let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {e}", path.display()));
    let file = match syn::parse_file(&text) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("weave: cannot parse {}: {e}", path.display());
            std::process::exit(3);
        }
    };
    let mut children = vec![];
    for it in &file.items {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_cfg_test(&m.attrs) {
                children.push(m.ident.to_string());
            }
            g.modules.insert(m.ident.to_string());
        }
    }
    out.push(SourceFile { path: rel.to_string(), text, items: file.items });
    for c in children {
        let p1 = dir_for_children.join(format!("{c}.rs"));
        let p2 = dir_for_children.join(&c).join("mod.rs");
        let (p, r) = if p1.exists() { (p1.clone(), p1) } else { (p2.clone(), p2) };
        let rel = r.strip_prefix(Path::new(&std::env::var("WEAVE_SRC").unwrap())).unwrap().display().to_string();
        load_module(g, &p, &dir_for_children.join(&c), &rel, out);
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let src = PathBuf::from(get("--src").expect("--src"));
    let contracts = PathBuf::from(get("--contracts").expect("--contracts"));
    let out = PathBuf::from(get("--out").expect("--out"));
    let map = PathBuf::from(get("--map").expect("--map"));
    std::env::set_var("WEAVE_SRC", &src);

    let mut g = Global { side: Sidecar::load(&contracts, get("--more")), ..Default::default() };
    // functions the caller asks to trust (contract kept, body dropped)
    for (i, a) in args.iter().enumerate() {
        if a == "--external" {
            let k = ("external".to_string(), args[i + 1].clone());
            g.side.sections.entry(k).or_default();
        }
    }
    let mut files = vec![];
    load_module(&mut g, &src.join("lib.rs"), &src, "lib.rs", &mut files);

    // Flatten inline modules, expand item-position macros.
    let mut units: Vec<SourceFile> = vec![];
    let mut macros: HashMap<String, macroexp::MacroDef> = HashMap::new();
    let mut raw_macros: Vec<String> = vec![];
    fn flatten(g: &Global, f: SourceFile, units: &mut Vec<SourceFile>, macros: &mut HashMap<String, macroexp::MacroDef>, raw: &mut Vec<String>) {
        let mut plain = vec![];
        let mut extra: Vec<SourceFile> = vec![];
        for it in f.items {
            match it {
                syn::Item::Mod(m) => {
                    if is_cfg_test(&m.attrs) {
                        g.drop_item(format!("{}: mod {} (cfg(test))", f.path, m.ident));
                        continue;
                    }
                    if let Some((_, items)) = m.content {
                        extra.push(SourceFile { path: f.path.clone(), text: f.text.clone(), items });
                    }
                }
                syn::Item::Macro(m) => {
                    if is_cfg_test(&m.attrs) { continue; }
                    if m.mac.path.is_ident("macro_rules") {
                        let name = m.ident.as_ref().unwrap().to_string();
                        let exported = m.attrs.iter().any(|a| a.path().is_ident("macro_export"));
                        if exported {
                            let r = m.span().byte_range();
                            raw.push(f.text[r].to_string());
                            continue;
                        }
                        if let Some(d) = macroexp::parse_def(m.mac.tokens.clone()) {
                            macros.insert(name, d);
                        }
                    } else {
                        let name = m.mac.path.segments.last().unwrap().ident.to_string();
                        let ts = macros.get(&name).and_then(|d| macroexp::expand(d, m.mac.tokens.clone()));
                        match ts {
                            Some(ts) => {
                                g.note("expand item macro");
                                let text = format!("{}", ts);
                                match syn::parse_file(&text) {
                                    Ok(ff) => extra.push(SourceFile { path: f.path.clone(), text, items: ff.items }),
                                    Err(e) => g.problem(&name, &format!("macro expansion does not parse: {e}")),
                                }
                            }
                            None => g.problem(&name, "cannot expand item macro"),
                        }
                    }
                }
                other => {
                    if let syn::Item::Enum(e) = &other {
                        if let Some(text) = xform::thiserror_display(e) {
                            g.note("Display written out from #[error] attributes (what thiserror derives)");
                            if let Ok(ff) = syn::parse_file(&text) {
                                extra.push(SourceFile { path: f.path.clone(), text, items: ff.items });
                            }
                        }
                    }
                    plain.push(other)
                }
            }
        }
        units.push(SourceFile { path: f.path, text: f.text, items: plain });
        for e in extra {
            flatten(g, e, units, macros, raw);
        }
    }
    for f in files {
        flatten(&g, f, &mut units, &mut macros, &mut raw_macros);
    }

    xform::collect(&mut g, &units);

    // Expanded `parser!` forms: functions of another crate, woven into a module of their own.
    let mut forms = String::new();
    if let Some(f) = get("--forms") {
        let text = fs::read_to_string(&f).unwrap().replace("::aoc_parse::macros::", "").replace("::aoc_parse::", "");
        match syn::parse_file(&text) {
            Ok(ff) => {
                let u = SourceFile { path: "forms".into(), text, items: vec![] };
                for it in &ff.items {
                    if let syn::Item::Fn(_) = it {
                        forms.push_str(&xform::item(&g, &u, it));
                        forms.push_str("\n");
                    }
                }
            }
            Err(e) => g.problem("forms", &format!("the expansion does not parse: {e}")),
        }
    }

    let mut body = String::new();
    for u in &units {
        for it in &u.items {
            let t = xform::item(&g, u, it);
            if !t.trim().is_empty() {
                body.push_str(&t);
                body.push_str("\n\n");
            }
        }
    }

    let mut o = String::new();
    o.push_str("// Generated by weave from the repository's source. Do not edit.\n");
    o.push_str("#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_parens, unused_braces, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_macros, unused_lifetimes, unreachable_code, suspicious_double_ref_op, noop_method_call)]\n");
    for (d, k) in &g.side.order {
        if d == "prelude" {
            o.push_str(&format!("/*VXSEC:{k}*/\n"));
            o.push_str(g.side.get(d, k).unwrap());
        }
    }
    if g.side.has("use_macros", "") {
        for m in &raw_macros { o.push_str(m); o.push_str("\n"); }
    }
    o.push_str("\nverus! {\n");
    o.push_str(&body);
    for (d, k) in &g.side.order {
        if d == "append" {
            o.push_str(&format!("/*VXSEC:{k}*/\n"));
            o.push_str(g.side.get(d, k).unwrap());
        }
    }
    o.push_str("/*VXSEC:regex literals*/\n");
    o.push_str(&rx::section(&body));
    if !forms.is_empty() { o.push_str(&format!("\nmod vx_forms {{\nuse super::*;\n{forms}\n}}\n")); }
    o.push_str("\n} // verus!\nfn main() {}\n");
    fs::write(&out, &o).unwrap();

    // Function map.
    let mut j = String::from("{\n \"functions\": [\n");
    let mut first = true;
    let mut stack: Vec<(String, usize)> = vec![];
    let mut secs: Vec<(String, usize)> = vec![];
    for (ln, line) in o.lines().enumerate() {
        let mut rest = line;
        loop {
            let a = rest.find("/*VXFN:");
            let b = rest.find("/*VXEND*/");
            let c = rest.find("/*VXSEC:");
            let m = [a, b, c].iter().filter_map(|x| *x).min();
            let Some(m) = m else { break };
            if Some(m) == a {
                let e = rest[m..].find("*/").unwrap() + m;
                stack.push((rest[m + 7..e].to_string(), ln + 1));
                rest = &rest[e + 2..];
            } else if Some(m) == b {
                if let Some((k, s)) = stack.pop() {
                    if !first { j.push_str(",\n"); }
                    first = false;
                    let mut it = k.splitn(2, '|');
                    let key = it.next().unwrap();
                    let loc = it.next().unwrap_or("");
                    let trusted = g.side.has("external", key);
                    let contracted = !g.uncontracted.borrow().contains(key);
                    j.push_str(&format!("  {{\"key\": {}, \"at\": {}, \"start\": {}, \"end\": {}, \"trusted\": {}, \"contracted\": {}}}",
                        json_str(key), json_str(loc), s, ln + 1, trusted, contracted));
                }
                rest = &rest[m + 9..];
            } else {
                let e = rest[m..].find("*/").unwrap() + m;
                secs.push((rest[m + 8..e].to_string(), ln + 1));
                rest = &rest[e + 2..];
            }
        }
    }
    j.push_str("\n ],\n \"sections\": [");
    j.push_str(&secs.iter().map(|(k, l)| format!("{{\"name\": {}, \"line\": {}}}", json_str(k), l)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"rules\": {");
    j.push_str(&g.log.borrow().iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n \"drops\": [");
    j.push_str(&g.drops.borrow().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"problems\": [");
    j.push_str(&g.problems.borrow().iter().map(|(k, s)| format!("[{}, {}]", json_str(k), json_str(s))).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"uncontracted\": [");
    j.push_str(&g.uncontracted.borrow().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let used = g.side.used.borrow();
    let lost: Vec<String> = g.side.order.iter()
        .filter(|k| !used.contains(*k) && k.0 != "hoist" && k.0 != "external" && k.0 != "use_macros" && k.0 != "noinline")
        .map(|(d, k)| json_str(&format!("{d} {k}"))).collect();
    j.push_str("],\n \"loops\": {");
    j.push_str(&g.loops.borrow().iter().map(|(k, v)| format!("{}: {}", json_str(k), json_str(&v.join(", ")))).collect::<Vec<_>>().join(", "));
    j.push_str("},\n \"lost_anchors\": [");
    j.push_str(&lost.join(", "));
    j.push_str("]\n}\n");
    fs::write(&map, j).unwrap();
}
