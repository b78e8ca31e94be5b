//! Mechanical extraction of /repo's functions into Verus input.
//!
//! Every function named by a contract in `contracts/*.vc` is parsed from the current source and re-emitted with its
//! own body; the contract text is attached to it, to its loops and to its closures.  The desugarings applied to the
//! body are the ones in `transform.rs` (each one is listed in DESIGN.md).
mod fnlog;
mod overlay;
mod print;
mod transform;

use overlay::*;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::*;

pub struct Module {
    path: String, // "row::borrowed"
    items: Vec<Item>,
}

fn has_cfg(attrs: &[Attribute], enabled: &BTreeSet<String>) -> bool {
    // true if the item is to be dropped
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string();
            if s.contains("test") {
                return true;
            }
            if let Some(i) = s.find("feature = \"") {
                let f = &s[i + 11..];
                let f = &f[..f.find('"').unwrap()];
                if !enabled.contains(f) {
                    return true;
                }
            }
        }
    }
    false
}

fn load(dir: &Path, file: &Path, modpath: &str, out: &mut Vec<Module>, ov: &Overlay) {
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("cannot read {:?}: {}", file, e)));
    let f = syn::parse_file(&src).unwrap_or_else(|e| die(&format!("cannot parse {:?}: {}", file, e)));
    if has_cfg(&f.attrs, &ov.features) {
        return;
    }
    let mut items = Vec::new();
    for it in f.items {
        let attrs = item_attrs(&it);
        if has_cfg(attrs, &ov.features) {
            continue;
        }
        match it {
            Item::Mod(m) if m.content.is_none() => {
                let name = m.ident.to_string();
                let mp = if modpath.is_empty() { name.clone() } else { format!("{}::{}", modpath, name) };
                if ov.dropmods.contains(&mp) {
                    continue;
                }
                let base: PathBuf = if modpath.is_empty() {
                    dir.to_path_buf()
                } else {
                    dir.join(modpath.replace("::", "/"))
                };
                let a = base.join(format!("{}.rs", name));
                let b = base.join(&name).join("mod.rs");
                let p = if a.exists() { a } else { b };
                load(dir, &p, &mp, out, ov);
            }
            it => items.push(it),
        }
    }
    hoist(&mut items);
    out.push(Module { path: modpath.to_string(), items });
}

/// Moves the types (with their impls) and functions declared inside function bodies out to the module, unless the name is taken there
fn hoist(items: &mut Vec<Item>) {
    fn name(i: &Item) -> Option<String> {
        match i {
            Item::Struct(s) => Some(s.ident.to_string()),
            Item::Enum(s) => Some(s.ident.to_string()),
            Item::Fn(f) => Some(f.sig.ident.to_string()),
            _ => None,
        }
    }
    let mut taken: BTreeSet<String> = items.iter().filter_map(name).collect();
    let mut found: Vec<Item> = vec![];
    let mut take = |b: &mut Block| {
        let names: Vec<String> = b.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { name(i) } else { None }).collect();
        if names.iter().any(|n| taken.contains(n)) {
            return;
        }
        taken.extend(names);
        let mut rest = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(i @ (Item::Struct(_) | Item::Enum(_) | Item::Fn(_) | Item::Impl(_))) => found.push(i),
                s => rest.push(s),
            }
        }
        b.stmts = rest;
    };
    for i in items.iter_mut() {
        match i {
            Item::Fn(f) => take(&mut f.block),
            Item::Impl(im) => {
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        take(&mut f.block);
                    }
                }
            }
            _ => {}
        }
    }
    items.extend(found);
}

pub fn die(s: &str) -> ! {
    eprintln!("xlate: {}", s);
    std::process::exit(3)
}

fn item_attrs(it: &Item) -> &[Attribute] {
    match it {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}

/// A type or trait as text without lifetimes and spaces
fn norm(ts: TokenStream) -> String {
    let s = print::flat(ts);
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    let words: Vec<&str> = out.split_whitespace().collect();
    let mut r = String::new();
    for w in words {
        if r.ends_with(|c: char| c.is_alphanumeric() || c == '_') && w.starts_with(|c: char| c.is_alphanumeric() || c == '_') {
            r.push(' ');
        }
        r.push_str(w);
    }
    r = r.replace("<>", "").replace("<,", "<").replace("<_,", "<");
    r = r.replace("<_>", "");
    r
}

struct FnOut {
    key: String,
    line0: usize,
    line1: usize,
    contract: bool,
    trusted: bool,
    n_req: usize,
    n_ens: usize,
    n_inv: usize,
}

struct Ctx<'a> {
    ov: &'a Overlay,
    degrade: BTreeSet<String>,
    dropset: BTreeSet<String>,
    vacuity: bool,
    baseline: Option<serde_json::Value>,
    /// functions whose loops see what was known before them
    noiso: BTreeSet<String>,
    text: String,
    line: usize,
    outs: Vec<FnOut>,
    info: BTreeMap<String, serde_json::Value>,
    used: BTreeSet<String>,
    warnings: Vec<String>,
    all_fn_names: BTreeMap<String, Vec<String>>,
}

impl<'a> Ctx<'a> {
    fn emit(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.text.push_str(s);
    }

    /// A record with derived `Serialize` and `Deserialize` reads back what it writes: no two fields share a name, and a
    /// field which is left out stands for the value that is read when it is missing
    fn emit_serde(&mut self, key: &str, s: &ItemStruct) {
        let d: String = s.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string()).collect();
        if !d.contains("Serialize") || !d.contains("Deserialize") {
            return;
        }
        let k = format!("{}::derived_serde", key);
        self.info.insert(k.clone(), json!({"shape": [], "binders": [], "muts": 0, "calls": []}));
        if self.dropset.contains(&k) {
            return;
        }
        let mut unknown = None;
        let mut names: Vec<String> = vec![];
        let mut body = TokenStream::new();
        for f in s.fields.iter() {
            let Some(id) = &f.ident else { unknown = Some("unnamed field".to_string()); continue };
            let mut name = id.to_string();
            let (mut default, mut skip) = (false, None);
            for a in f.attrs.iter().filter(|a| a.path().is_ident("serde")) {
                let r = a.parse_nested_meta(|m| {
                    if m.path.is_ident("rename") {
                        name = m.value()?.parse::<LitStr>()?.value();
                    } else if m.path.is_ident("default") && !m.input.peek(Token![=]) {
                        default = true;
                    } else if m.path.is_ident("skip_serializing_if") {
                        skip = Some(m.value()?.parse::<LitStr>()?.value());
                    } else {
                        return Err(m.error("unknown"));
                    }
                    Ok(())
                });
                if r.is_err() {
                    unknown = Some(a.meta.to_token_stream().to_string());
                }
            }
            let mut t = f.ty.clone();
            transform::map_type(&mut t, &None);
            if let Some(p) = skip {
                let p: TokenStream = p.parse().unwrap_or_default();
                let option = matches!(&t, Type::Path(x) if x.path.segments.last().unwrap().ident == "Option");
                if default || option {
                    body.extend(quote!(assert forall|x: #t, r: bool| call_ensures(#p, (&x,), r) && r implies crate::vf::VfMissing::missing(&x) by { }));
                } else {
                    // what is left out could not be read back
                    body.extend(quote!(assert(forall|x: #t, r: bool| !(call_ensures(#p, (&x,), r) && r));));
                }
            }
            names.push(name);
        }
        for a in s.attrs.iter().filter(|a| a.path().is_ident("serde")) {
            let x = a.meta.to_token_stream().to_string();
            if !x.replace(' ', "").starts_with("serde(crate=") {
                unknown = Some(x);
            }
        }
        // names, as numbers in base 256
        let num = |x: &String| -> TokenStream {
            let mut t = quote!(0int);
            for b in x.bytes() {
                let l = proc_macro2::Literal::u8_unsuffixed(b);
                t = quote!((#t * 256 + #l));
            }
            t
        };
        for i in 0..names.len() {
            for j in 0..i {
                let (a, b) = (num(&names[i]), num(&names[j]));
                body.extend(quote!(assert(#a != #b);));
            }
        }
        if let Some(w) = unknown {
            self.warnings.push(format!("{}: serde attribute {}", k, w));
            body = quote!(assert(false););
        }
        let degraded = self.degrade.contains(&k);
        let ext = if degraded { quote!(#[verifier::external_body]) } else { quote!() };
        let vac = if self.vacuity { quote!(assert(false);) } else { quote!() };
        let id = quote::format_ident!("derived_serde_{}", s.ident);
        let line0 = self.line;
        let text = format!("// @@ {}\n{}\n", k, print::pretty(quote!(#ext pub proof fn #id() { #vac #body })));
        self.emit(&text);
        self.used.insert(k.clone());
        self.outs.push(FnOut { key: k, line0, line1: self.line, contract: true, trusted: degraded, n_req: 0, n_ens: 1, n_inv: 0 });
    }

    /// Emit one function; returns false if it is not to be emitted
    fn emit_fn(
        &mut self,
        key: &str,
        vis: TokenStream,
        sig: &Signature,
        block: &Block,
        self_ty: Option<TokenStream>,
        in_trait: bool,
    ) -> bool {
        let ov = self.ov;
        let mut block = block.clone();
        transform::local_macros(&mut block);
        transform::eta(&mut block);
        let block = &block;
        // Record the shape of the function
        let shape = transform::shape(sig, block);
        let calls = transform::called_names(block);
        self.info.insert(
            key.to_string(),
            json!({"shape": shape.skeleton, "binders": shape.binders, "muts": shape.muts, "calls": calls}),
        );
        if self.dropset.contains(key) || ov.drops.contains(key) {
            return false;
        }
        let fo_opt = ov.fns.get(key);
        let is_new = match &self.baseline {
            Some(b) => b.get(key).is_none(),
            None => false,
        };
        let empty = FnOverlay::default();
        let fo = match fo_opt {
            Some(f) => f,
            None => {
                if is_new && !in_trait {
                    &empty
                } else {
                    return false;
                }
            }
        };
        self.used.insert(key.to_string());
        // Positional renaming of overlay identifiers
        let mut renames: HashMap<String, String> = HashMap::new();
        if let Some(b) = &self.baseline {
            if let Some(e) = b.get(key) {
                let old: Vec<String> = e["binders"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                // names which are gone stand, in order, for the names which are new
                let uniq = |v: &[String], other: &[String]| -> Vec<String> {
                    let mut out: Vec<String> = vec![];
                    for x in v {
                        if !other.contains(x) && !out.contains(x) {
                            out.push(x.clone());
                        }
                    }
                    out
                };
                let (gone, new) = (uniq(&old, &shape.binders), uniq(&shape.binders, &old));
                if gone.len() == new.len() {
                    renames.extend(gone.into_iter().zip(new));
                }
            }
        }
        let toks = |s: &str| -> TokenStream {
            let ts: TokenStream = s.parse().unwrap_or_else(|e| die(&format!("{}: cannot tokenise {:?}: {}", key, s, e)));
            if renames.is_empty() {
                ts
            } else {
                print::rename(ts, &renames)
            }
        };
        let degraded = self.degrade.contains(key);
        let trusted = fo.trusted || degraded;

        let mut sig = sig.clone();
        transform::map_sig(&mut sig, fo, &self_ty);
        let mut inputs: Vec<TokenStream> = Vec::new();
        for (ai, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if matches!(*t.pat, Pat::Wild(_)) {
                    let nm = quote::format_ident!("vf_arg{}", ai);
                    t.pat = parse_quote!(#nm);
                }
            }
        }
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) => inputs.push(r.to_token_stream()),
                FnArg::Typed(t) => {
                    let name = match &*t.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => String::new(),
                    };
                    if let Some(ty) = fo.params.get(&name) {
                        let ty = toks(ty);
                        let pat = &t.pat;
                        inputs.push(quote!(#pat : #ty));
                    } else {
                        inputs.push(t.to_token_stream())
                    }
                }
            }
        }
        let ret = if let Some(r) = &fo.ret {
            let r = toks(r);
            quote!(-> (res: #r))
        } else {
            match &sig.output {
                ReturnType::Default => quote!(),
                ReturnType::Type(_, t) => quote!(-> (res: #t)),
            }
        };
        let spec = toks(&fo.spec);
        let mut attrs = toks(&fo.attrs);
        if self.noiso.contains(key) && !attrs.to_string().contains("loop_isolation") {
            attrs.extend(quote!(#[verifier::loop_isolation(false)]));
        }
        let name = match &fo.as_name {
            Some(n) => Ident::new(n, proc_macro2::Span::call_site()),
            None => transform::map_name(&sig.ident),
        };
        let generics = match &fo.generics {
            Some(g) => toks(g),
            None => sig.generics.to_token_stream(),
        };
        let wh = &sig.generics.where_clause;
        let unsafety = &sig.unsafety;
        let constness = &sig.constness;

        let body = if trusted {
            quote!({ unimplemented!() })
        } else {
            let mut t = transform::Tr::new(key, fo, &toks, self.vacuity && fo_opt.is_some());
            for a in &sig.inputs {
                if let FnArg::Typed(pt) = a {
                    if let (Pat::Ident(i), Type::Reference(r)) = (&*pt.pat, &*pt.ty) {
                        if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("str")) {
                            t.strs.insert(i.ident.to_string());
                        }
                    }
                }
            }
            let mut block = block.clone();
            let b = t.body(&mut block, !matches!(sig.output, ReturnType::Default) || fo.ret.is_some());
            // Proof text is attached to "call NAME", "let NAME", loop and closure number N: when the
            // function now has another number of those, it may sit in the wrong place
            let anchors = t.anchors();
            if let Some(o) = self.baseline.as_ref().and_then(|b| b.get(key)).and_then(|e| e.get("anchors")).and_then(|a| a.as_object()) {
                for (k, n) in &anchors {
                    if o.get(k).and_then(|x| x.as_u64()).map_or(false, |m| m != *n as u64) {
                        t.warnings.push(format!("number of {:?} changed", k));
                    }
                }
            }
            self.info.get_mut(key).unwrap()["anchors"] = json!(anchors);
            for w in t.warnings {
                self.warnings.push(format!("{}: {}", key, w));
            }
            b
        };
        let ext = if trusted { quote!(#[verifier::external_body]) } else { quote!() };
        let ts = quote!(#attrs #ext #vis #constness #unsafety fn #name #generics (#(#inputs),*) #ret #wh #spec #body);
        let line0 = self.line;
        let mut s = format!("// @@ {}\n", key);
        s.push_str(&print::pretty(ts));
        s.push('\n');
        self.emit(&s);
        let count = |s: &str| overlay::count_clauses(s);
        let (n_req, n_ens, _) = count(&fo.spec);
        let n_inv = fo.loops.values().map(|l| count(l).2).sum();
        self.outs.push(FnOut {
            key: key.to_string(),
            line0,
            line1: self.line,
            contract: fo_opt.is_some(),
            trusted,
            n_req,
            n_ens,
            n_inv,
        });
        true
    }
}

fn flatten_use(t: &UseTree, prefix: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            flatten_use(&p.tree, prefix, out);
            prefix.pop();
        }
        UseTree::Name(n) => {
            let mut v = prefix.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        UseTree::Rename(n) => {
            let mut v = prefix.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = prefix.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, prefix, out);
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> Option<String> {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned())
    };
    let src = PathBuf::from(get("--src").unwrap_or("/repo/src".into()));
    let contracts = PathBuf::from(get("--contracts").unwrap_or("/verif/contracts".into()));
    let out_rs = PathBuf::from(get("--out").unwrap_or("/tmp/out.rs".into()));
    let out_json = PathBuf::from(get("--map").unwrap_or("/tmp/out.json".into()));
    let noiso: BTreeSet<String> = get("--noiso").map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let degrade: BTreeSet<String> = get("--degrade").map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let dropset: BTreeSet<String> = get("--drop").map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let vacuity = args.iter().any(|a| a == "--vacuity");
    let baseline = get("--baseline").and_then(|p| std::fs::read_to_string(p).ok()).map(|s| serde_json::from_str(&s).unwrap());

    let ov = Overlay::load(&contracts);
    let mut mods = Vec::new();
    load(&src, &src.join("lib.rs"), "", &mut mods, &ov);
    fnlog::run(&mut mods.iter_mut().map(|m| &mut m.items).collect::<Vec<_>>());

    // Names of everything emitted, to filter `use`
    let mut names: BTreeSet<String> = BTreeSet::new();
    for m in &mods {
        for p in m.path.split("::") {
            names.insert(p.to_string());
        }
        for it in &m.items {
            match it {
                Item::Struct(s) if !ov.drops.contains(&format!("{}::{}", m.path, s.ident)) => {
                    names.insert(s.ident.to_string());
                }
                Item::Enum(s) if !ov.drops.contains(&format!("{}::{}", m.path, s.ident)) => {
                    names.insert(s.ident.to_string());
                }
                Item::Type(s) if !ov.drops.contains(&format!("{}::{}", m.path, s.ident)) => {
                    names.insert(s.ident.to_string());
                }
                Item::Fn(f) => {
                    let key = format!("{}::{}", m.path, f.sig.ident);
                    if ov.fns.contains_key(&key) {
                        names.insert(f.sig.ident.to_string());
                    }
                }
                Item::Const(c) => {
                    if !ov.drops.contains(&format!("{}::{}", m.path, c.ident)) {
                        names.insert(c.ident.to_string());
                    }
                }
                _ => {}
            }
        }
    }

    let mut cx = Ctx {
        ov: &ov,
        degrade,
        dropset,
        vacuity,
        baseline,
        noiso,
        text: String::new(),
        line: 1,
        outs: vec![],
        info: BTreeMap::new(),
        used: BTreeSet::new(),
        warnings: vec![],
        all_fn_names: BTreeMap::new(),
    };
    let _ = &cx.all_fn_names;
    cx.emit("// Generated by xlate from the current source tree. Do not edit.\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_unsafe, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_assignments, unused_labels, deprecated, unused_must_use)]\nuse vstd::prelude::*;\nverus! {\n");
    let shim = std::fs::read_to_string(contracts.join("shim.rs")).unwrap_or_else(|_| die("no shim.rs"));
    cx.emit("pub mod vf {\n");
    cx.emit(&shim);
    cx.emit("\n} // end of module\n");

    // module tree: emit nested
    fn emit_mod(cx: &mut Ctx, mods: &[Module], path: &str, names: &BTreeSet<String>) {
        let m = mods.iter().find(|m| m.path == path).unwrap();
        if !path.is_empty() {
            let last = path.rsplit("::").next().unwrap();
            cx.emit(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::vf::*;\n", last));
        }
        // children
        let depth = if path.is_empty() { 0 } else { path.matches("::").count() + 1 };
        let mut kids: Vec<&Module> = mods
            .iter()
            .filter(|k| !k.path.is_empty() && k.path.matches("::").count() == depth && (path.is_empty() || k.path.starts_with(&format!("{}::", path))))
            .collect();
        kids.sort_by(|a, b| a.path.cmp(&b.path));
        for k in kids {
            emit_mod(cx, mods, &k.path.clone(), names);
        }
        emit_items(cx, m, names);
        if let Some(txt) = cx.ov.mods.get(path) {
            let l = cx.line;
            cx.emit(&format!("// @@ {}::<ghost>\n", path));
            let t = txt.clone();
            cx.emit(&t);
            cx.emit("\n");
            let line1 = cx.line;
            cx.outs.push(FnOut { key: format!("{}::<ghost>", path), line0: l, line1, contract: false, trusted: false, n_req: 0, n_ens: 0, n_inv: 0 });
        }
        if !path.is_empty() {
            cx.emit("} // end of module\n");
        }
    }
    emit_mod(&mut cx, &mods, "", &names);
    cx.emit("fn main() {}\n} // verus!\n");

    let missing: Vec<&String> = ov.fns.keys().filter(|k| !cx.used.contains(*k) && !cx.dropset.contains(*k)).collect();
    let outs: Vec<_> = cx
        .outs
        .iter()
        .map(|o| json!({"key": o.key, "line0": o.line0, "line1": o.line1, "contract": o.contract, "trusted": o.trusted, "requires": o.n_req, "ensures": o.n_ens, "invariants": o.n_inv}))
        .collect();
    let j = json!({"fns": outs, "info": cx.info, "missing": missing, "warnings": cx.warnings,
        "trusted_by_overlay": ov.fns.iter().filter(|(_,f)| f.trusted).map(|(k,_)| k).collect::<Vec<_>>()});
    std::fs::write(&out_rs, &cx.text).unwrap();
    std::fs::write(&out_json, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn emit_items(cx: &mut Ctx, m: &Module, names: &BTreeSet<String>) {
    let mp = m.path.clone();
    let q = |n: &str| if mp.is_empty() { n.to_string() } else { format!("{}::{}", mp, n) };
    for it in &m.items {
        match it {
            Item::Use(u) => {
                let mut leaves = vec![];
                flatten_use(&u.tree, &mut vec![], &mut leaves);
                for (path, rename) in leaves {
                    let root = path[0].as_str();
                    let full = path.join("::");
                    if cx.ov.dropuses.iter().any(|d| full == *d || full.starts_with(&format!("{}::", d))) {
                        continue;
                    }
                    let mut full = full;
                    if full.starts_with("std::iter::") {
                        full = full.replace("std::iter::", "crate::vf::");
                    } else if root != "std" && root != "core" {
                        // crate-internal
                        let last = path.last().unwrap();
                        if last != "*" && !names.contains(last) {
                            continue;
                        }
                    }
                    let ren = rename.map(|r| format!(" as {}", r)).unwrap_or_default();
                    let vis = match &u.vis {
                        Visibility::Inherited => "",
                        _ => "pub ",
                    };
                    cx.emit(&format!("{}use {}{};\n", vis, full, ren));
                }
            }
            Item::Const(c) => {
                let key = q(&c.ident.to_string());
                if cx.ov.drops.contains(&key) {
                    continue;
                }
                if let Some(t) = cx.ov.types.get(&key) {
                    let t = t.clone();
                    cx.emit(&t);
                    continue;
                }
                let (n, mut t, e) = (&c.ident, (*c.ty).clone(), &c.expr);
                transform::static_refs(&mut t);
                let ts = quote!(pub const #n : #t = #e;);
                cx.emit(&print::pretty(ts));
            }
            Item::Type(t) => {
                let key = q(&t.ident.to_string());
                if cx.ov.drops.contains(&key) {
                    continue;
                }
                if let Some(t) = cx.ov.types.get(&key) {
                    let t = t.clone();
                    cx.emit(&t);
                    continue;
                }
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                cx.emit(&print::pretty(t.to_token_stream()));
            }
            Item::Struct(s) => {
                let key = q(&s.ident.to_string());
                if cx.ov.drops.contains(&key) {
                    continue;
                }
                if let Some(t) = cx.ov.types.get(&key) {
                    let t = t.clone();
                    cx.emit(&t);
                    continue;
                }
                let mut s = s.clone();
                cx.emit_serde(&key, &s);
                let der = derives(&s.attrs, cx.ov.derives.get(&key));
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                    f.attrs.clear();
                    transform::map_type(&mut f.ty, &None);
                }
                let si = structural(&der, &s.ident, &s.generics);
                let der = no_structural(der);
                let ts = quote!(#der #s #si);
                cx.emit(&print::pretty(ts));
            }
            Item::Enum(s) => {
                let key = q(&s.ident.to_string());
                if cx.ov.drops.contains(&key) {
                    continue;
                }
                if let Some(t) = cx.ov.types.get(&key) {
                    let t = t.clone();
                    cx.emit(&t);
                    continue;
                }
                let mut s = s.clone();
                let der = derives(&s.attrs, cx.ov.derives.get(&key));
                let ranks = derived_order(&s);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    v.discriminant = None;
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        transform::map_type(&mut f.ty, &None);
                    }
                }
                let si = structural(&der, &s.ident, &s.generics);
                let der = no_structural(der);
                let ts = quote!(#der #s #si);
                cx.emit(&print::pretty(ts));
                cx.emit(&ranks);
            }
            Item::Fn(f) => {
                let key = q(&f.sig.ident.to_string());
                cx.emit_fn(&key, quote!(pub), &f.sig, &f.block, None, false);
            }
            Item::Impl(im) => emit_impl(cx, im, &mp),
            _ => {}
        }
    }
}

/// `derive(Ord)` on a fieldless enum: its variants are ordered as they are declared
fn derived_order(e: &ItemEnum) -> String {
    let ord = e.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().replace(' ', "").split(|c: char| !c.is_alphanumeric()).any(|w| w == "Ord"));
    if !ord || e.variants.iter().any(|v| v.discriminant.is_some() || !v.fields.is_empty()) {
        return String::new();
    }
    let n = &e.ident;
    let arms: Vec<String> = e.variants.iter().enumerate().map(|(i, v)| format!("{}::{} => {}", n, v.ident, i)).collect();
    format!(
        "impl crate::vf::VfOrd for {n} {{ open spec fn rank(&self) -> int {{ match *self {{ {} }} }} }}\nimpl {n} {{\n#[verifier::external_body] pub fn cmp(&self, o: &{n}) -> (r: core::cmp::Ordering) ensures r == crate::vf::ordered(self.rank(), o.rank()) {{ unimplemented!() }}\n#[verifier::external_body] pub fn max(self, o: {n}) -> (r: {n}) ensures r == (if self.rank() > o.rank() {{ self }} else {{ o }}) {{ unimplemented!() }}\n#[verifier::external_body] pub fn min(self, o: {n}) -> (r: {n}) ensures r == (if o.rank() < self.rank() {{ o }} else {{ self }}) {{ unimplemented!() }}\n}}\n",
        arms.join(", ")
    )
}

/// `derive(Structural)` is emitted as an impl (the derive crashes Verus inside modules)
fn structural(der: &TokenStream, name: &Ident, g: &Generics) -> TokenStream {
    if !der.to_string().contains("Structural") {
        return quote!();
    }
    let (ig, tg, _) = g.split_for_impl();
    quote!(unsafe impl #ig Structural for #name #tg {})
}
fn no_structural(der: TokenStream) -> TokenStream {
    let s = der.to_string().replace(", Structural", "");
    s.parse().unwrap()
}

fn derives(attrs: &[Attribute], ovr: Option<&String>) -> TokenStream {
    if let Some(o) = ovr {
        let t: TokenStream = o.parse().unwrap();
        return if t.is_empty() { quote!() } else { quote!(#[derive(#t)]) };
    }
    let mut have = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                have.insert(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    let dbg = if have.contains("Debug") { quote!(Debug,) } else { quote!() };
    if have.contains("Copy") {
        if have.contains("PartialEq") {
            quote!(#[derive(#dbg Clone, Copy, PartialEq, Eq, Structural)])
        } else {
            quote!(#[derive(#dbg Clone, Copy)])
        }
    } else {
        quote!()
    }
}

fn emit_impl(cx: &mut Ctx, im: &ItemImpl, mp: &str) {
    let self_ty_s = norm(im.self_ty.to_token_stream());
    // strip generics for inherent impl keys: "AnnotBlock<A>" -> "AnnotBlock"
    let base = |s: &str| -> String {
        match s.find('<') {
            Some(i) => s[..i].to_string(),
            None => s.to_string(),
        }
    };
    let q = |n: &str| if mp.is_empty() { n.to_string() } else { format!("{}::{}", mp, n) };
    let mut impl_generics = im.generics.clone();
    let mut wh = impl_generics.where_clause.take();
    // what an impl of `Debug` asks of its parts is the shim's trait here
    if im.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "Debug") {
        struct B;
        impl syn::visit_mut::VisitMut for B {
            fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
                if b.path.segments.last().unwrap().ident == "Debug" { b.path = syn::parse_quote!(crate::vf::VfDebug); }
            }
        }
        if let Some(w) = &mut wh { syn::visit_mut::VisitMut::visit_where_clause_mut(&mut B, w); }
        syn::visit_mut::VisitMut::visit_generics_mut(&mut B, &mut impl_generics);
    }
    let st = &im.self_ty;
    let header = |generics: &Generics, tr: Option<TokenStream>| -> String {
        let ts = match tr {
            Some(t) => quote!(impl #generics #t for #st #wh),
            None => quote!(impl #generics #st #wh),
        };
        format!("{} {{\n", print::flat(ts))
    };
    let key_of = |f: &ImplItemFn| -> String {
        match &im.trait_ {
            None => q(&format!("{}::{}", base(&self_ty_s), f.sig.ident)),
            Some((_, p, _)) => {
                let t = norm(p.to_token_stream());
                q(&format!("<{} as {}>::{}", self_ty_s, t, f.sig.ident))
            }
        }
    };
    let fns: Vec<&ImplItemFn> = im
        .items
        .iter()
        .filter_map(|i| match i {
            ImplItem::Fn(f) if !has_cfg(&f.attrs, &cx.ov.features) => Some(f),
            _ => None,
        })
        .collect();
    match &im.trait_ {
        None => {
            cx.emit(&header(&impl_generics, None));
            for i in &im.items {
                if let ImplItem::Const(c) = i {
                    let key = q(&format!("{}::{}", base(&self_ty_s), c.ident));
                    if cx.ov.drops.contains(&key) {
                        continue;
                    }
                    let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                    let ts = quote!(pub const #n : #t = #e;);
                    cx.emit(&print::pretty(ts));
                }
            }
            for f in fns {
                let key = key_of(f);
                cx.emit_fn(&key, quote!(pub), &f.sig, &f.block, Some(st.to_token_stream()), false);
            }
            cx.emit("}\n");
        }
        Some((_, p, _)) => {
            let mut tr_fns = vec![];
            let mut inh = vec![];
            for f in fns {
                let key = key_of(f);
                match cx.ov.fns.get(&key) {
                    Some(o) if o.as_name.is_some() => inh.push(f),
                    Some(_) => tr_fns.push(f),
                    None => {
                        // record the shape anyway
                        cx.emit_fn(&key, quote!(), &f.sig, &f.block, None, true);
                    }
                }
            }
            if !tr_fns.is_empty() {
                cx.emit(&header(&impl_generics, Some(p.to_token_stream())));
                for i in &im.items {
                    if let ImplItem::Type(t) = i {
                        let (n, ty) = (&t.ident, &t.ty);
                        cx.emit(&print::pretty(quote!(type #n = #ty;)));
                    }
                }
                for f in tr_fns {
                    let key = key_of(f);
                    cx.emit_fn(&key, quote!(), &f.sig, &f.block, Some(st.to_token_stream()), true);
                }
                cx.emit("}\n");
            }
            if !inh.is_empty() {
                // `&RowBuf` etc. cannot carry inherent impls: those become free functions
                let item = im.items.iter().find_map(|i| match i {
                    ImplItem::Type(t) if t.ident == "Item" || t.ident == "Output" || t.ident == "Error" || t.ident == "Value" => Some(t.ty.clone()),
                    _ => None,
                });
                // `impl Trait for &T`, `fn f(self)` => `impl T`, `fn f(&self)`
                let by_ref = match &**st {
                    Type::Reference(r) => Some((r.elem.clone(), r.lifetime.clone())),
                    _ => None,
                };
                match &by_ref {
                    Some((e, _)) => cx.emit(&format!("{} {{\n", print::flat(quote!(impl #impl_generics #e #wh)))),
                    None => cx.emit(&header(&impl_generics, None)),
                }
                for f in inh {
                    let key = key_of(f);
                    let mut sig = f.sig.clone();
                    if let Some((_, l)) = &by_ref {
                        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
                            if r.reference.is_none() {
                                *r = parse_quote!(& #l self);
                            }
                        }
                    }
                    if let Some(ty) = &item {
                        transform::subst_assoc(&mut sig, ty);
                    }
                    cx.emit_fn(&key, quote!(pub), &sig, &f.block, Some(st.to_token_stream()), true);
                }
                cx.emit("}\n");
            }
        }
    }
}
