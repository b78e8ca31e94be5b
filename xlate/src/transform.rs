//! The desugarings applied to a function body.  Everything not mentioned here is re-emitted token for token.
use crate::overlay::FnOverlay;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// std methods redirected to the specified shim (same name, prefixed)
const RENAMED: &[&str] = &[
    "iter", "into_iter", "chars", "char_indices", "lines", "split", "rsplit", "drain", "extend", "get_unchecked", "sort_unstable",
    "as_bytes", "split_inclusive", "to_owned", "to_string", "abs", "checked_factorial", "to_vec", "extend_from_within", "values",
    "to_lowercase", "as_deref", "write_str", "write_char", "fmt", "as_ref", "as_str", "entry", "as_ptr",
];

pub fn map_name(i: &Ident) -> Ident {
    let s = i.to_string();
    if RENAMED.contains(&s.as_str()) {
        Ident::new(&format!("vf_{}", s), i.span())
    } else {
        i.clone()
    }
}

pub struct Shape {
    pub skeleton: Vec<String>,
    pub binders: Vec<String>,
    /// how many of them are mutable
    pub muts: usize,
}

/// Loop/closure skeleton and binder names, in source order
pub fn shape(sig: &Signature, block: &Block) -> Shape {
    struct V {
        sk: Vec<String>,
        b: Vec<String>,
        m: usize,
    }
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let s = p.ident.to_string();
            if !s.starts_with(|c: char| c.is_uppercase()) {
                self.b.push(s);
                self.m += p.mutability.is_some() as usize;
            }
            visit::visit_pat_ident(self, p);
        }
        fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
            self.sk.push("for".into());
            visit::visit_expr_for_loop(self, e);
        }
        fn visit_expr_while(&mut self, e: &'a ExprWhile) {
            self.sk.push(if matches!(&*e.cond, Expr::Let(_)) { "whilelet" } else { "while" }.into());
            visit::visit_expr_while(self, e);
        }
        fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
            self.sk.push("loop".into());
            visit::visit_expr_loop(self, e);
        }
        fn visit_expr_closure(&mut self, e: &'a ExprClosure) {
            self.sk.push(format!("closure{}", e.inputs.len()));
            visit::visit_expr_closure(self, e);
        }
    }
    let mut v = V { sk: vec![], b: vec![], m: 0 };
    for i in &sig.inputs {
        v.visit_fn_arg(i);
    }
    v.visit_block(block);
    Shape { skeleton: v.sk, binders: v.b, muts: v.m }
}

pub fn called_names(block: &Block) -> Vec<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
            self.0.insert(e.method.to_string());
            visit::visit_expr_method_call(self, e);
        }
        fn visit_path(&mut self, p: &'a Path) {
            if let Some(s) = p.segments.last() {
                self.0.insert(s.ident.to_string());
            }
            visit::visit_path(self, p);
        }
        /// Operators of which the verifier knows less than of `+`, `-` and comparisons
        fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
            let o = e.op.to_token_stream().to_string();
            if matches!(o.trim_end_matches('='), "&" | "|" | "^" | "<<" | ">>" | "*" | "/" | "%") {
                self.0.insert(format!("operator {}", o.trim_end_matches('=')));
            }
            visit::visit_expr_binary(self, e);
        }
        fn visit_expr_cast(&mut self, e: &'a ExprCast) {
            self.0.insert("operator as".into());
            visit::visit_expr_cast(self, e);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            self.0.insert(format!("{}!", m.path.segments.last().unwrap().ident));
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_block(block);
    v.0.into_iter().collect()
}

/// Local `macro_rules! m { () => { .. } }` are expanded where they are used
pub fn local_macros(block: &mut Block) {
    struct V(HashMap<String, TokenStream>);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let saved = self.0.clone();
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Item(Item::Macro(m)) if m.mac.path.is_ident("macro_rules") && m.ident.is_some() => {
                        if let Some(body) = nullary_rule(m.mac.tokens.clone()) {
                            self.0.insert(m.ident.as_ref().unwrap().to_string(), body);
                        } else {
                            out.push(Stmt::Item(Item::Macro(m)));
                        }
                    }
                    Stmt::Macro(m) if m.mac.tokens.is_empty() && m.mac.path.get_ident().map_or(false, |i| self.0.contains_key(&i.to_string())) => {
                        let body = &self.0[&m.mac.path.get_ident().unwrap().to_string()];
                        out.push(match syn::parse2::<Block>(quote!({ #body })) {
                            Ok(b) => Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), Some(Default::default())),
                            Err(_) => Stmt::Macro(m),
                        });
                    }
                    s => out.push(s),
                }
            }
            b.stmts = out;
            visit_mut::visit_block_mut(self, b);
            self.0 = saved;
        }
        fn visit_macro_mut(&mut self, _: &mut Macro) {}
    }
    V(HashMap::new()).visit_block_mut(block);
}
/// The body of `() => { .. }`, if that is the only rule
fn nullary_rule(ts: TokenStream) -> Option<TokenStream> {
    let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
    if v.len() < 4 || v.len() > 5 || v.get(4).map_or(false, |t| t.to_string() != ";") {
        return None;
    }
    match (&v[0], &v[1].to_string()[..], &v[2].to_string()[..], &v[3]) {
        (proc_macro2::TokenTree::Group(a), "=", ">", proc_macro2::TokenTree::Group(b)) if a.stream().is_empty() => Some(b.stream()),
        _ => None,
    }
}

/// `f(Constructor)` => `f(|x| Constructor(x))`, so that a contract can be attached
pub fn eta(block: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
            visit_mut::visit_expr_method_call_mut(self, m);
            let takes_fn = ["map", "map_err", "filter_map", "and_then", "map_or", "positions"].contains(&m.method.to_string().as_str());
            if takes_fn {
                if let Some(Expr::Path(p)) = m.args.last() {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last.starts_with(|c: char| c.is_uppercase()) || (last == "from" && p.path.segments[0].ident == "Self") {
                        let p = p.clone();
                        *m.args.last_mut().unwrap() = parse_quote!(|vf_x| #p(vf_x));
                    }
                }
            }
        }
        fn visit_macro_mut(&mut self, _: &mut Macro) {}
    }
    V.visit_block_mut(block);
}

// ---------------------------------------------------------------- signatures and types

struct TyMap {
    self_ty: Option<Type>,
}

fn iter_item(b: &Punctuated2) -> Option<Type> {
    for x in b {
        if let TypeParamBound::Trait(t) = x {
            let s = t.path.segments.last().unwrap();
            if s.ident == "Iterator" || s.ident == "IntoIterator" || s.ident == "DoubleEndedIterator" || s.ident == "ExactSizeIterator" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(at) = g {
                            if at.ident == "Item" {
                                return Some(at.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}
type Punctuated2 = punctuated::Punctuated<TypeParamBound, Token![+]>;

impl VisitMut for TyMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            if let Some(item) = iter_item(&it.bounds) {
                let mut item = item;
                self.visit_type_mut(&mut item);
                *t = parse_quote!(It<#item>);
                return;
            }
            // `impl AsRef<Row>` is only ever used to borrow a row
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    if tb.path.segments.last().unwrap().ident == "AsRef" {
                        *t = parse_quote!(&crate::row::borrowed::Row);
                        return;
                    }
                    if tb.path.segments.last().unwrap().ident == "Write" {
                        *t = parse_quote!(impl crate::vf::VfWrite);
                        return;
                    }
                    if tb.path.segments.last().unwrap().ident == "RangeBounds" {
                        *t = parse_quote!(impl crate::vf::VfRange);
                        return;
                    }
                }
            }
        }
        if let Type::Path(p) = t {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if s.starts_with("std::slice::Iter<") || s.starts_with("slice::Iter<") {
                let seg = p.path.segments.last().unwrap();
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    let lt = a.args.iter().find_map(|g| if let GenericArgument::Lifetime(l) = g { Some(l.clone()) } else { None });
                    let ty = a.args.iter().find_map(|g| if let GenericArgument::Type(l) = g { Some(l.clone()) } else { None });
                    if let Some(ty) = ty {
                        *t = parse_quote!(It<& #lt #ty>);
                        return;
                    }
                }
            }
            if s == "Formatter<'_>" || s == "std::fmt::Formatter<'_>" || s == "std::fmt::Formatter" || s == "Formatter" {
                *t = parse_quote!(crate::vf::Fmt);
                return;
            }
            if s == "std::fmt::Result" || s == "fmt::Result" {
                *t = parse_quote!(crate::vf::FmtResult);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

pub fn map_type(t: &mut Type, self_ty: &Option<TokenStream>) {
    TyMap { self_ty: self_ty.as_ref().map(|s| parse_quote!(#s)) }.visit_type_mut(t);
}

pub fn map_sig(sig: &mut Signature, fo: &FnOverlay, self_ty: &Option<TokenStream>) {
    let mut m = TyMap { self_ty: self_ty.as_ref().map(|s| parse_quote!(#s)) };
    let _ = &m.self_ty;
    // `T: AsRef<Row>` generics
    let _ = fo;
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            t.attrs.clear();
            m.visit_type_mut(&mut t.ty);
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        m.visit_type_mut(t);
    }
}

pub fn subst_assoc(sig: &mut Signature, ty: &Type) {
    struct V<'a>(&'a Type);
    impl<'a> VisitMut for V<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            let s = t.to_token_stream().to_string().replace(' ', "");
            if s == "Self::Item" || s == "Self::Output" || s == "Self::Error" || s == "Self::Value" {
                *t = self.0.clone();
                return;
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    V(ty).visit_signature_mut(sig);
}

// ---------------------------------------------------------------- bodies

pub struct Tr<'a> {
    #[allow(dead_code)]
    key: &'a str,
    fo: &'a FnOverlay,
    toks: &'a dyn Fn(&str) -> TokenStream,
    nloop: usize,
    nclos: usize,
    fresh: usize,
    call_count: HashMap<String, usize>,
    let_count: HashMap<String, usize>,
    pub warnings: Vec<String>,
    used_hints: BTreeSet<usize>,
    vacuity: bool,
    /// parameters of type &str
    pub strs: BTreeSet<String>,
    /// closure parameters in scope declared as references: name -> number of references
    refs: HashMap<String, usize>,
}

fn pat_has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_reference(&mut self, _: &'a PatReference) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

impl<'a> Tr<'a> {
    pub fn new(key: &'a str, fo: &'a FnOverlay, toks: &'a dyn Fn(&str) -> TokenStream, vacuity: bool) -> Self {
        Tr { key, fo, toks, nloop: 0, nclos: 0, fresh: 0, call_count: HashMap::new(), let_count: HashMap::new(), warnings: vec![], used_hints: BTreeSet::new(), vacuity, strs: BTreeSet::new(), refs: HashMap::new() }
    }
    fn t(&self, s: &str) -> TokenStream {
        (self.toks)(s)
    }
    /// How many references an operand still is (closure parameters only)
    fn ref_operand(&self, e: &Expr) -> usize {
        match e {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.refs.get(&i.to_string()).copied()).unwrap_or(0),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.ref_operand(&u.expr).saturating_sub(1),
            Expr::Paren(p) => self.ref_operand(&p.expr),
            _ => 0,
        }
    }
    fn hint(&mut self, w: &str) -> Option<TokenStream> {
        let mut out = TokenStream::new();
        let mut any = false;
        for (i, (k, b)) in self.fo.hints.iter().enumerate() {
            if k == w {
                self.used_hints.insert(i);
                any = true;
                out.extend((self.toks)(b));
            }
        }
        if any {
            Some(out)
        } else {
            None
        }
    }

    /// How often each place that proof text is attached to occurs in the function
    pub fn anchors(&self) -> BTreeMap<String, usize> {
        let mut m = BTreeMap::new();
        for (k, _) in &self.fo.hints {
            let w: Vec<&str> = k.split_whitespace().collect();
            let name = w.last().map_or("", |x| x.split('#').next().unwrap());
            if w.contains(&"call") {
                m.insert(format!("call {}", name), self.call_count.get(name).copied().unwrap_or(0));
            } else if w.contains(&"let") {
                m.insert(format!("let {}", name), self.let_count.get(name).copied().unwrap_or(0));
            } else if w.contains(&"return") {
                m.insert("return".into(), self.call_count.get("return ").copied().unwrap_or(0));
            } else if w.contains(&"loop") {
                m.insert("loop".into(), self.nloop);
            } else if w.contains(&"closure") {
                m.insert("closure".into(), self.nclos);
            }
        }
        if !self.fo.loops.is_empty() {
            m.insert("loop".into(), self.nloop);
        }
        if !self.fo.closures.is_empty() {
            m.insert("closure".into(), self.nclos);
        }
        m
    }

    pub fn body(&mut self, block: &mut Block, has_ret: bool) -> TokenStream {
        for (i, _) in self.fo.closures.iter() {
            let _ = i;
        }
        self.visit_block_mut(block);
        let start = self.hint("start").unwrap_or_default();
        let end = self.hint("end");
        let vac_s = if self.vacuity { quote!(proof { assert(false); }) } else { quote!() };
        // `hide(..)` has to stay the first statement of the body
        let (start, vac_s) = if start.to_string().trim_start().starts_with("hide") { (quote!(#start #vac_s), quote!()) } else { (start, vac_s) };
        let mut stmts: Vec<TokenStream> = block.stmts.iter().map(|s| s.to_token_stream()).collect();
        if let Some(e) = end {
            match block.stmts.last() {
                Some(Stmt::Expr(x, None)) if has_ret => {
                    stmts.pop();
                    let x = x.to_token_stream();
                    stmts.push(quote!(let res = #x; #e res));
                }
                Some(Stmt::Macro(x)) if has_ret && x.semi_token.is_none() => {
                    stmts.pop();
                    let x = x.to_token_stream();
                    stmts.push(quote!(let res = #x; #e res));
                }
                Some(Stmt::Expr(x, None)) => {
                    stmts.pop();
                    let x = x.to_token_stream();
                    stmts.push(quote!(#x; #e));
                }
                _ => stmts.push(e),
            }
        }
        for (i, (k, _)) in self.fo.hints.iter().enumerate() {
            if !self.used_hints.contains(&i) {
                self.warnings.push(format!("unused hint: {}", k));
            }
        }
        for k in self.fo.loops.keys() {
            if *k >= self.nloop {
                self.warnings.push(format!("unused loop contract {}", k));
            }
        }
        for k in self.fo.closures.keys() {
            if *k >= self.nclos {
                self.warnings.push(format!("unused closure contract {}", k));
            }
        }
        quote!({ #vac_s #start #(#stmts)* })
    }

    /// let-bindings equivalent to matching the irrefutable pattern `p` against place `e`
    fn bind(&mut self, p: &Pat, e: TokenStream) -> TokenStream {
        if !pat_has_ref(p) {
            return match p {
                Pat::Wild(_) => quote!(),
                Pat::Type(t) => {
                    let (a, b) = (&t.pat, &t.ty);
                    quote!(let #a : #b = #e;)
                }
                _ => quote!(let #p = #e;),
            };
        }
        match p {
            Pat::Reference(r) => self.bind(&r.pat, quote!((*#e))),
            Pat::Tuple(t) => {
                let mut out = TokenStream::new();
                for (i, q) in t.elems.iter().enumerate() {
                    let idx = Index::from(i);
                    out.extend(self.bind(q, quote!(#e.#idx)));
                }
                out
            }
            Pat::Paren(p) => self.bind(&p.pat, e),
            Pat::Type(t) => self.bind(&t.pat, e),
            _ => quote!(let #p = #e;),
        }
    }

    /// Replace reference patterns inside a refutable pattern by fresh names; returns (guards, lets)
    fn strip_refs(&mut self, p: &mut Pat, guards: &mut Vec<TokenStream>, lets: &mut Vec<TokenStream>) {
        match p {
            Pat::Reference(r) => {
                self.fresh += 1;
                let v = format_ident!("vf_r{}", self.fresh);
                match &*r.pat {
                    Pat::Lit(l) => {
                        let s = l.to_token_stream().to_string();
                        if s == "true" {
                            guards.push(quote!(*#v));
                        } else if s == "false" {
                            guards.push(quote!(!*#v));
                        } else {
                            guards.push(quote!(*#v == #l));
                        }
                    }
                    q => {
                        let b = self.bind(&q.clone(), quote!((*#v)));
                        lets.push(b);
                    }
                }
                *p = parse_quote!(#v);
            }
            Pat::Tuple(t) => {
                for q in t.elems.iter_mut() {
                    self.strip_refs(q, guards, lets);
                }
            }
            Pat::TupleStruct(t) => {
                for q in t.elems.iter_mut() {
                    self.strip_refs(q, guards, lets);
                }
            }
            Pat::Paren(q) => self.strip_refs(&mut q.pat, guards, lets),
            _ => {}
        }
    }

    fn loop_parts(&mut self, n: usize) -> (TokenStream, TokenStream, TokenStream, TokenStream, TokenStream) {
        let cl = self.fo.loops.get(&n).cloned().unwrap_or_default();
        let cl = self.t(&cl);
        let s = self.hint(&format!("loop {} start", n)).unwrap_or_default();
        let e = self.hint(&format!("loop {} end", n)).unwrap_or_default();
        let b = self.hint(&format!("loop {} before", n)).unwrap_or_default();
        let a = self.hint(&format!("loop {} after", n)).unwrap_or_default();
        (cl, s, e, b, a)
    }

    /// split a clause list "invariant A, decreases B" so that automatic invariants can be put in front
    fn with_auto(&self, cl: TokenStream, auto: TokenStream, dec: TokenStream) -> TokenStream {
        // sections
        let mut secs: Vec<(String, TokenStream)> = vec![];
        for t in cl {
            if let proc_macro2::TokenTree::Ident(i) = &t {
                let s = i.to_string();
                if ["invariant", "invariant_except_break", "ensures", "decreases"].contains(&s.as_str()) {
                    secs.push((s, TokenStream::new()));
                    continue;
                }
            }
            if let Some(l) = secs.last_mut() {
                l.1.extend(std::iter::once(t));
            }
        }
        let find = |n: &str| secs.iter().find(|s| s.0 == n).map(|s| s.1.clone()).unwrap_or_default();
        let inv = find("invariant");
        let ieb = find("invariant_except_break");
        let ens = find("ensures");
        let d = find("decreases");
        let mut out = TokenStream::new();
        if !ieb.is_empty() {
            out.extend(quote!(invariant_except_break #ieb));
        }
        if !auto.is_empty() || !inv.is_empty() {
            out.extend(quote!(invariant #auto #inv));
        }
        if !ens.is_empty() {
            out.extend(quote!(ensures #ens));
        }
        let d = if d.is_empty() { dec } else { d };
        if !d.is_empty() {
            out.extend(quote!(decreases #d));
        }
        out
    }

    fn block_inner(b: &Block) -> TokenStream {
        let s = &b.stmts;
        quote!(#(#s)*)
    }

    fn desugar_for(&mut self, e: &mut ExprForLoop) -> TokenStream {
        let n = self.nloop;
        self.nloop += 1;
        self.visit_expr_mut(&mut e.expr_placeholder());
        let it = format_ident!("it_{}", n);
        let xs = format_ident!("xs_{}", n);
        let k = format_ident!("k_{}", n);
        let i = format_ident!("i_{}", n);
        let label = &e.label.clone();
        // mutable iteration?
        let raw = (*e.expr).clone();
        let mut mut_target: Option<Expr> = None;
        let mut zip_with: Option<Expr> = None;
        match &raw {
            Expr::Reference(r) if r.mutability.is_some() => mut_target = Some((*r.expr).clone()),
            Expr::MethodCall(m) if m.method == "iter_mut" => mut_target = Some((*m.receiver).clone()),
            Expr::MethodCall(m) if m.method == "zip_eq" || m.method == "zip" => {
                if let Expr::MethodCall(m2) = &*m.receiver {
                    if m2.method == "iter_mut" && m.method == "zip_eq" {
                        mut_target = Some((*m2.receiver).clone());
                        zip_with = Some(m.args[0].clone());
                    }
                }
            }
            _ => {}
        }
        if let Some(mut t) = mut_target {
            self.visit_expr_mut(&mut t);
            if let Some(mut z) = zip_with {
                self.visit_expr_mut(&mut z);
                self.visit_block_mut(&mut e.body);
                let (cl, s, en, b, a) = self.loop_parts(n);
                let auto = quote!(0 <= #k <= #xs.len(), #i == #k, #it@ == #xs.skip(#k), #t@.len() == #xs.len(),);
                let cl = self.with_auto(cl, auto, quote!(#xs.len() - #k));
                let inner = Self::block_inner(&e.body);
                let (p1, p2) = match &*e.pat {
                    Pat::Tuple(tp) if tp.elems.len() == 2 => (tp.elems[0].clone(), tp.elems[1].clone()),
                    _ => {
                        self.warnings.push("unsupported pattern in mutable zip loop".into());
                        return quote!(compile_error!("unsupported"));
                    }
                };
                let x = format_ident!("x_{}", n);
                let b2 = self.bind(&p2, quote!(#x));
                return quote!({
                    let mut #it = vf_into_it(#z);
                    let ghost #xs = #it@;
                    let ghost mut #k: int = 0;
                    let mut #i: usize = 0;
                    vf_zip_eq_check(#t.len(), &#it);
                    #b
                    #label while #it.vf_has_next() #cl {
                        let #x = #it.vf_next();
                        proof { #k = #k + 1; assert(#it@ =~= #xs.skip(#k)); assert(#x == #xs[#k - 1]); }
                        let #p1 = &mut #t[#i];
                        #i = #i + 1;
                        #b2
                        #s
                        #inner
                        #en
                    }
                    #a
                });
            }
            self.visit_block_mut(&mut e.body);
            let (cl, s, en, b, a) = self.loop_parts(n);
            let auto = quote!(0 <= #i <= #t@.len(), #k == #i,);
            let cl = self.with_auto(cl, auto, quote!(#t@.len() - #i));
            let inner = Self::block_inner(&e.body);
            let p = &e.pat;
            return quote!({
                let ghost mut #k: int = 0;
                let mut #i: usize = 0;
                #b
                #label while #i < #t.len() #cl {
                    let #p = &mut #t[#i];
                    #i = #i + 1;
                    proof { #k = #k + 1; }
                    #s
                    #inner
                    #en
                }
                #a
            });
        }
        let mut ex = (*e.expr).clone();
        self.visit_expr_mut(&mut ex);
        self.visit_block_mut(&mut e.body);
        let (cl, s, en, b, a) = self.loop_parts(n);
        let auto = quote!(0 <= #k <= #xs.len(), #it@ == #xs.skip(#k),);
        let cl = self.with_auto(cl, auto, quote!(#xs.len() - #k));
        let inner = Self::block_inner(&e.body);
        let x = format_ident!("x_{}", n);
        let bnd = self.bind(&e.pat.clone(), quote!(#x));
        quote!({
            let mut #it = vf_into_it(#ex);
            let ghost #xs = #it@;
            let ghost mut #k: int = 0;
            proof { assert(#it@ =~= #xs.skip(0)); }
            #b
            #label while #it.vf_has_next() #cl {
                let #x = #it.vf_next();
                proof { #k = #k + 1; assert(#it@ =~= #xs.skip(#k)); assert(#x == #xs[#k - 1]); }
                #bnd
                #s
                #inner
                #en
            }
            #a
        })
    }

    fn rewrite_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || -> Vec<Expr> {
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default()
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let mut a = args();
                if a.is_empty() {
                    return None;
                }
                let mut c = a.remove(0);
                self.visit_expr_mut(&mut c);
                Some(Expr::Verbatim(quote!(vf_assert(#c))))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let mut a = args();
                if a.len() < 2 {
                    return None;
                }
                let mut l = a.remove(0);
                let mut r = a.remove(0);
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                if name.ends_with("eq") {
                    Some(Expr::Verbatim(quote!(vf_assert((#l) == (#r)))))
                } else {
                    Some(Expr::Verbatim(quote!(vf_assert((#l) != (#r)))))
                }
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(Expr::Verbatim(quote!(vf_panic()))),
            "matches" => {
                // matches!(e, pat [if g])
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                match m.parse_body::<M>() {
                    Ok(M(mut e, p, g)) => {
                        self.visit_expr_mut(&mut e);
                        let g = g.map(|mut g| {
                            self.visit_expr_mut(&mut g);
                            quote!(if #g)
                        });
                        Some(Expr::Verbatim(quote!((match #e { #p #g => true, _ => false }))))
                    }
                    Err(_) => None,
                }
            }
            "vec" => {
                let ts = m.tokens.clone();
                if let Ok(r) = syn::parse2::<ExprRepeat>(quote!([#ts])) {
                    let (mut a, mut b) = (*r.expr, *r.len);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    return Some(Expr::Verbatim(quote!(vf_vec_repeat(#a, #b))));
                }
                let a: Vec<Expr> = args()
                    .into_iter()
                    .map(|mut e| {
                        self.visit_expr_mut(&mut e);
                        e
                    })
                    .collect();
                Some(Expr::Verbatim(quote!(vec![#(#a),*])))
            }
            "write" => {
                // write!(f, "lit {} lit", args..)  =>  sequence of writes
                let a = args();
                if a.len() < 2 {
                    return None;
                }
                let f = a[0].clone();
                let fmt = match &a[1] {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                    _ => return None,
                };
                let mut rest: Vec<Expr> = a[2..].to_vec();
                for r in rest.iter_mut() {
                    self.visit_expr_mut(r);
                }
                let pieces = fmt_pieces(&fmt)?;
                let f: TokenStream = match &f {
                    Expr::Path(p) => p.to_token_stream(),
                    o => o.to_token_stream(),
                };
                let mut ops: Vec<TokenStream> = vec![];
                let mut ai = 0;
                for p in pieces {
                    match p {
                        Piece::Lit(l) => ops.push(quote!(vf_fmt_lit(#f, #l))),
                        Piece::Arg(n, dbg) => {
                            let e = Self::fmt_arg(n, &rest, &mut ai)?;
                            ops.push(if dbg { quote!(vf_fmt_dbg(&(#e), #f)) } else { quote!(vf_fmt_arg(&(#e), #f)) });
                        }
                    }
                }
                if ops.is_empty() {
                    return Some(Expr::Verbatim(quote!(vf_fmt_ok())));
                }
                let last = ops.pop().unwrap();
                Some(Expr::Verbatim(quote!({ #(#ops?;)* #last })))
            }
            "stringify" => {
                let t = m.tokens.to_string();
                Some(parse_quote!(#t))
            }
            "format" => {
                let a = args();
                let fmt = match a.get(0) {
                    Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
                    _ => return None,
                };
                let mut rest: Vec<Expr> = a[1..].to_vec();
                for r in rest.iter_mut() {
                    self.visit_expr_mut(r);
                }
                let pieces = fmt_pieces(&fmt)?;
                let mut ops: Vec<TokenStream> = vec![];
                let mut ai = 0;
                for p in pieces {
                    match p {
                        Piece::Lit(l) => ops.push(quote!(vf_str_push_lit(&mut vf_s, #l);)),
                        Piece::Arg(n, dbg) => {
                            let e = Self::fmt_arg(n, &rest, &mut ai)?;
                            ops.push(if dbg { quote!(vf_str_push_dbg(&mut vf_s, &(#e));) } else { quote!(vf_str_push_arg(&mut vf_s, &(#e));) });
                        }
                    }
                }
                Some(Expr::Verbatim(quote!({ let mut vf_s = vf_string_new(); #(#ops)* vf_s })))
            }
            _ => None,
        }
    }

    /// The argument a piece of a format string stands for
    fn fmt_arg(name: Option<String>, rest: &[Expr], ai: &mut usize) -> Option<Expr> {
        match name {
            None => {
                *ai += 1;
                rest.get(*ai - 1).cloned()
            }
            Some(n) => {
                let i = format_ident!("{}", n);
                // `name = value` arguments aren't handled
                if rest.iter().any(|e| matches!(e, Expr::Assign(_))) { return None; }
                Some(parse_quote!(#i))
            }
        }
    }

    fn direct_calls(s: &Stmt) -> Vec<String> {
        struct V(Vec<String>);
        impl<'a> Visit<'a> for V {
            fn visit_block(&mut self, _: &'a Block) {}
            fn visit_expr_match(&mut self, e: &'a ExprMatch) {
                self.visit_expr(&e.expr);
            }
            fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
                visit::visit_expr_method_call(self, e);
                self.0.push(e.method.to_string());
            }
            fn visit_expr_call(&mut self, e: &'a ExprCall) {
                visit::visit_expr_call(self, e);
                if let Expr::Path(p) = &*e.func {
                    self.0.push(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            fn visit_expr_unsafe(&mut self, e: &'a ExprUnsafe) {
                for s in &e.block.stmts {
                    self.visit_stmt(s);
                }
            }
        }
        let mut v = V(vec![]);
        v.visit_stmt(s);
        v.0
    }
}

/// The pieces of a format string: text, or an argument (its name, if written inline; whether its debug text is wanted)
enum Piece { Lit(String), Arg(Option<String>, bool) }
fn fmt_pieces(fmt: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut it = fmt.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                cur.push('{');
            }
            '{' => {
                let mut spec = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => spec.push(c),
                    }
                }
                let (name, dbg) = match spec.strip_suffix(":?") { Some(n) => (n, true), None => (spec.as_str(), false) };
                if !cur.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut cur)));
                }
                let id = name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_ascii_digit());
                if !id { return None; }
                out.push(Piece::Arg(if name.is_empty() { None } else { Some(name.to_string()) }, dbg));
            }
            '}' => {
                if it.peek() == Some(&'}') {
                    it.next();
                }
                cur.push('}');
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(Piece::Lit(cur));
    }
    Some(out)
}

trait Placeholder {
    fn expr_placeholder(&self) -> Expr;
}
impl Placeholder for ExprForLoop {
    fn expr_placeholder(&self) -> Expr {
        Expr::Verbatim(quote!(()))
    }
}

impl<'a> VisitMut for Tr<'a> {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            if let Stmt::Item(Item::Use(_)) = &s {
                out.push(s);
                continue;
            }
            // anchors, computed on the original statement
            let mut before: Vec<TokenStream> = vec![];
            let mut after: Vec<TokenStream> = vec![];
            let mut seen = BTreeSet::new();
            for c in Self::direct_calls(&s) {
                if !seen.insert(c.clone()) {
                    continue;
                }
                let n = {
                    let e = self.call_count.entry(c.clone()).or_insert(0);
                    *e += 1;
                    *e - 1
                };
                for suffix in if n == 0 { vec![String::new(), "#0".into()] } else { vec![format!("#{}", n)] } {
                    if let Some(h) = self.hint(&format!("before call {}{}", c, suffix)) {
                        before.push(h);
                    }
                    if let Some(h) = self.hint(&format!("after call {}{}", c, suffix)) {
                        after.push(h);
                    }
                }
                if let Some(h) = self.hint(&format!("after each call {}", c)) {
                    after.push(h);
                }
                if let Some(h) = self.hint(&format!("before each call {}", c)) {
                    before.push(h);
                }
            }
            if let Stmt::Local(l) = &s {
                let p = match &l.pat {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                if let Pat::Ident(i) = &p {
                    let nm = i.ident.to_string();
                    let n = {
                        let e = self.let_count.entry(nm.clone()).or_insert(0);
                        *e += 1;
                        *e - 1
                    };
                    let suf = if n == 0 { String::new() } else { format!("#{}", n) };
                    if let Some(h) = self.hint(&format!("after let {}{}", nm, suf)) {
                        after.push(h);
                    }
                    if let Some(h) = self.hint(&format!("before let {}{}", nm, suf)) {
                        before.push(h);
                    }
                }
            }
            // macros in statement position
            if let Stmt::Macro(m) = &s {
                if let Some(e) = self.rewrite_macro(&m.mac) {
                    s = Stmt::Expr(e, m.semi_token);
                }
            } else {
                self.visit_stmt_mut(&mut s);
            }
            for h in before {
                out.push(Stmt::Expr(Expr::Verbatim(h), None));
            }
            let is_tail_block = matches!(&s, Stmt::Expr(_, None));
            if !after.is_empty() && is_tail_block {
                // hint after a value-less tail statement
                if let Stmt::Expr(e, semi) = &mut s {
                    let _ = e;
                    *semi = Some(Default::default());
                }
            }
            out.push(s);
            for h in after {
                out.push(Stmt::Expr(Expr::Verbatim(h), None));
            }
        }
        b.stmts = out;
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        map_type(t, &None);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        // std::iter::X => vf::X
        let s = p.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = s.strip_prefix("std::iter::") {
            if !r.contains('<') {
                let id = Ident::new(r, Span::call_site());
                *p = parse_quote!(crate::vf::#id);
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let mut f2 = f.clone();
                let ts = self.desugar_for(&mut f2);
                *e = Expr::Verbatim(ts);
            }
            Expr::While(w) => {
                let n = self.nloop;
                self.nloop += 1;
                let label = w.label.clone();
                if let Expr::Let(l) = &*w.cond {
                    let mut ex = (*l.expr).clone();
                    let mut pat = (*l.pat).clone();
                    self.visit_expr_mut(&mut ex);
                    self.visit_block_mut(&mut w.body);
                    let (cl, s, en, b, a) = self.loop_parts(n);
                    let mut g = vec![];
                    let mut lets = vec![];
                    self.strip_refs(&mut pat, &mut g, &mut lets);
                    let guard = if g.is_empty() { quote!() } else { quote!(if #(#g)&&*) };
                    let inner = Self::block_inner(&w.body);
                    let top = self.hint(&format!("loop {} top", n)).unwrap_or_default();
                    let brk = self.hint(&format!("loop {} break", n)).unwrap_or_default();
                    *e = Expr::Verbatim(quote!({ #b #label loop #cl { #top match #ex { #pat #guard => { #(#lets)* #s #inner #en } _ => { #brk break; } } } #a }));
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let (cl, s, en, b, a) = self.loop_parts(n);
                    let c = &w.cond;
                    let inner = Self::block_inner(&w.body);
                    *e = Expr::Verbatim(quote!({ #b #label while #c #cl { #s #inner #en } #a }));
                }
            }
            Expr::Loop(l) => {
                let n = self.nloop;
                self.nloop += 1;
                let label = l.label.clone();
                self.visit_block_mut(&mut l.body);
                let (cl, s, en, b, _a) = self.loop_parts(n);
                let inner = Self::block_inner(&l.body);
                *e = if b.is_empty() { Expr::Verbatim(quote!(#label loop #cl { #s #inner #en })) } else { Expr::Verbatim(quote!({ #b #label loop #cl { #s #inner #en } })) };
            }
            Expr::Closure(c) => {
                let n = self.nclos;
                self.nclos += 1;
                let header = self.fo.closures.get(&n).cloned();
                // parameters
                let mut lets = TokenStream::new();
                let ins: Vec<Pat> = c.inputs.iter().cloned().collect();
                let saved = self.refs.clone();
                if let Some(h) = &header {
                    let (params, _) = split_bars(self.t(h));
                    for (nm, ty, p) in params_refs(params).into_iter().zip(ins.iter()).map(|((n, t), p)| (n, t, p)) {
                        if matches!(p, Pat::Ident(pi) if pi.ident == nm) {
                            self.refs.insert(nm, ty);
                        }
                    }
                }
                self.visit_expr_mut(&mut c.body);
                self.refs = saved;
                let body = &c.body;
                let mv = &c.capture;
                match header {
                    Some(h) => {
                        // header: |a: T, b: U| -> (r: R) requires .. ensures ..
                        let ts = self.t(&h);
                        let (params, rest) = split_bars(ts);
                        let names: Vec<Ident> = param_names(params.clone());
                        if names.len() != ins.len() {
                            self.warnings.push(format!("closure {} arity", n));
                        }
                        for (i, p) in ins.iter().enumerate() {
                            if let Some(nm) = names.get(i) {
                                let same = matches!(p, Pat::Ident(pi) if pi.ident == *nm && pi.mutability.is_none());
                                if !same {
                                    let b = self.bind(p, nm.to_token_stream());
                                    lets.extend(b);
                                }
                            }
                        }
                        let st = self.hint(&format!("closure {} start", n)).unwrap_or_default();
                        let en = self.hint(&format!("closure {} end", n));
                        let rest_empty = rest.is_empty();
                        match en {
                            Some(en) => *e = Expr::Verbatim(quote!(#mv |#params| #rest { #lets #st let res = #body; #en res })),
                            None if rest_empty => *e = Expr::Verbatim(quote!(#mv |#params| { #lets #st #body })),
                            None => *e = Expr::Verbatim(quote!(#mv |#params| #rest { #lets #st #body })),
                        }
                    }
                    None => {
                        let mut ps = vec![];
                        for (i, p) in ins.iter().enumerate() {
                            match p {
                                Pat::Ident(_) | Pat::Type(_) => ps.push(p.to_token_stream()),
                                _ => {
                                    let nm = format_ident!("vf_p{}", i);
                                    let b = self.bind(p, nm.to_token_stream());
                                    lets.extend(b);
                                    ps.push(nm.to_token_stream());
                                }
                            }
                        }
                        let out = &c.output;
                        *e = Expr::Verbatim(quote!(#mv |#(#ps),*| #out { #lets #body }));
                    }
                }
            }
            Expr::Try(t) if self.fo.opts.contains("try_from") => {
                self.visit_expr_mut(&mut t.expr);
                let x = &t.expr;
                *e = Expr::Verbatim(quote!((match #x { Ok(vf_ok) => vf_ok, Err(vf_er) => return Err(core::convert::From::from(vf_er)) })));
            }
            Expr::Return(r) => {
                let n = {
                    let e = self.call_count.entry("return ".into()).or_insert(0);
                    *e += 1;
                    *e - 1
                };
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                if let Some(h) = self.hint(&format!("before return {}", n)) {
                    let x = r.clone();
                    *e = Expr::Verbatim(quote!({ #h #x }));
                }
            }
            Expr::Macro(m) => {
                if let Some(x) = self.rewrite_macro(&m.mac.clone()) {
                    *e = x;
                }
            }
            // `o.or_else(|| body)` on an option, as the match it stands for (closures that capture `&mut` places are not supported)
            Expr::MethodCall(m) if m.method == "or_else" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty() && !has_exit(&c.body)) => {
                self.visit_expr_mut(&mut m.receiver);
                let mut body = match &m.args[0] { Expr::Closure(c) => (*c.body).clone(), _ => unreachable!() };
                self.nclos += 1;
                self.visit_expr_mut(&mut body);
                let r = &m.receiver;
                *e = Expr::Verbatim(quote!((match #r { Some(vf_some) => Some(vf_some), None => #body })));
            }
            // `map.entry(k).or_insert_with(f)`, as one call
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "or_insert_with" | "or_insert" | "or_default")
                && matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "entry" && r.args.len() == 1) =>
            {
                let (mut map, mut key) = match &*m.receiver { Expr::MethodCall(r) => ((*r.receiver).clone(), r.args[0].clone()), _ => unreachable!() };
                self.visit_expr_mut(&mut map);
                self.visit_expr_mut(&mut key);
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                let f = Ident::new(&format!("vf_entry_{}", m.method), m.method.span());
                *e = Expr::Verbatim(quote!(#map.#f(#key #(, #args)*)));
            }
            Expr::MethodCall(m) => {
                let on_range = match &*m.receiver {
                    Expr::Paren(p) => matches!(&*p.expr, Expr::Range(_)),
                    _ => false,
                } && !matches!(m.method.to_string().as_str(), "contains" | "len" | "is_empty" | "clone" | "start" | "end" | "start_bound" | "end_bound");
                self.visit_expr_mut(&mut m.receiver);
                if on_range {
                    let r = &m.receiver;
                    m.receiver = Box::new(Expr::Verbatim(quote!(crate::vf::vf_into_it(#r))));
                }
                if let Some(t) = &mut m.turbofish {
                    visit_mut::visit_angle_bracketed_generic_arguments_mut(self, t);
                }
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                // lengths of strings
                if m.method == "len" || m.method == "is_empty" {
                    if let Expr::Path(p) = &*m.receiver {
                        if p.path.get_ident().map_or(false, |i| self.strs.contains(&i.to_string())) {
                            m.method = Ident::new(&format!("vf_str_{}", m.method), m.method.span());
                        }
                    }
                }
                // `s.contains('c')`: searching a string for a character
                if m.method == "contains" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) {
                    m.method = Ident::new("vf_contains_char", m.method.span());
                }
                m.method = map_name(&m.method);
                // `@opt into_as NAME`: `x.into()` is `x.NAME()`
                if let (Some(o), true) = (self.fo.opts.iter().find_map(|o| o.strip_prefix("into_as ")), m.method == "into") {
                    m.method = format_ident!("{}", o);
                }
                if m.method == "cloned" && self.fo.opts.contains("generic_cloned") {
                    m.method = Ident::new("vf_cloned_gen", m.method.span());
                }
                m.turbofish = if m.method == "tuple_windows" { None } else { m.turbofish.take() };
            }
            // a raw pointer seen as one to another type
            Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(p) if p.mutability.is_none()) => {
                self.visit_expr_mut(&mut c.expr);
                let (x, t) = (&c.expr, match &*c.ty { Type::Ptr(p) => p.elem.clone(), _ => unreachable!() });
                *e = parse_quote!(vf_ptr_cast::<#t>(#x));
            }
            Expr::Binary(b) if self.ref_operand(&b.left) > 0 || self.ref_operand(&b.right) > 0 => {
                // arithmetic on references to machine integers
                let arith = matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_));
                let (l, r) = (self.ref_operand(&b.left), self.ref_operand(&b.right));
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                if arith {
                    for _ in 0..l { let x = &b.left; b.left = Box::new(parse_quote!(*#x)); }
                    for _ in 0..r { let x = &b.right; b.right = Box::new(parse_quote!(*#x)); }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Mul(_)) && self.fo.opts.contains("mul_method") => {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                *e = Expr::Verbatim(quote!((#l).mul(#r)));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)) => {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                let f = if matches!(b.op, BinOp::BitAndAssign(_)) { quote!(vf_and) } else { quote!(vf_or) };
                *e = Expr::Verbatim(quote!(#l = crate::vf::VfBits::#f(#l, #r)));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_)) => {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                let f = if matches!(b.op, BinOp::BitAnd(_)) { quote!(vf_and) } else { quote!(vf_or) };
                *e = Expr::Verbatim(quote!(crate::vf::VfBits::#f(#l, #r)));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && self.fo.opts.contains("text_eq") => {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                let not = if matches!(b.op, BinOp::Ne(_)) { quote!(!) } else { quote!() };
                *e = Expr::Verbatim(quote!((#not crate::vf::vf_text_eq(&(#l), &(#r)))));
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) && self.fo.opts.contains("not_method") => {
                self.visit_expr_mut(&mut u.expr);
                let x = &u.expr;
                *e = Expr::Verbatim(quote!((#x).not()));
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                // `match s { "lit" => .. }` on strings
                let str_match = m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(ExprLit { lit: Lit::Str(_), .. })));
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.visit_expr_mut(&mut a.body);
                    if pat_has_ref(&a.pat) {
                        let mut g = vec![];
                        let mut lets = vec![];
                        self.strip_refs(&mut a.pat, &mut g, &mut lets);
                        if !g.is_empty() {
                            let old = a.guard.take().map(|(_, g)| quote!(&& (#g)));
                            let ge: Expr = Expr::Verbatim(quote!(#(#g)&&* #old));
                            a.guard = Some((Default::default(), Box::new(ge)));
                        }
                        if !lets.is_empty() {
                            let b = &a.body;
                            a.body = Box::new(Expr::Verbatim(quote!({ #(#lets)* #b })));
                        }
                    }
                }
                if str_match {
                    let scrut = &m.expr;
                    let mut ts = TokenStream::new();
                    let mut first = true;
                    for a in &m.arms {
                        let b = &a.body;
                        let mut pats = vec![];
                        match &a.pat {
                            Pat::Or(o) => pats.extend(o.cases.iter().cloned()),
                            p => pats.push(p.clone()),
                        }
                        let els = if first { quote!() } else { quote!(else) };
                        first = false;
                        if pats.iter().any(|p| matches!(p, Pat::Wild(_))) {
                            ts.extend(quote!(#els { #b }));
                        } else {
                            let c: Vec<_> = pats.iter().map(|p| quote!(vf_str_eq(vf_m, #p))).collect();
                            ts.extend(quote!(#els if #(#c)||* { #b }));
                        }
                    }
                    *e = Expr::Verbatim(quote!({ let vf_m = #scrut; #ts }));
                }
            }
            Expr::If(i) => {
                let pat_ref = matches!(&*i.cond, Expr::Let(l) if pat_has_ref(&l.pat));
                if pat_ref {
                    if let Expr::Let(l) = &*i.cond {
                        let mut l = l.clone();
                        self.visit_expr_mut(&mut l.expr);
                        self.visit_block_mut(&mut i.then_branch);
                        let mut els = i.else_branch.clone().map(|x| x.1);
                        if let Some(x) = &mut els {
                            self.visit_expr_mut(x);
                        }
                        let mut g = vec![];
                        let mut lets = vec![];
                        self.strip_refs(&mut l.pat, &mut g, &mut lets);
                        let guard = if g.is_empty() { quote!() } else { quote!(if #(#g)&&*) };
                        let inner = Self::block_inner(&i.then_branch);
                        let (p, ex) = (&l.pat, &l.expr);
                        let els = els.map(|x| quote!(#x)).unwrap_or(quote!({}));
                        *e = Expr::Verbatim(quote!(match #ex { #p #guard => { #(#lets)* #inner } _ => #els }));
                        return;
                    }
                }
                visit_mut::visit_expr_if_mut(self, i);
            }
            Expr::Call(c) => {
                // `<path>::extend(..)` style paths keep their names, except renamed free functions
                visit_mut::visit_expr_call_mut(self, c);
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    // `@opt from_as NAME`: `T::from` is `T::NAME`
                    if let (Some(o), true) = (self.fo.opts.iter().find_map(|o| o.strip_prefix("from_as ")), segs.len() >= 2 && segs.last().unwrap() == "from") {
                        let mut p = p.clone();
                        p.path.segments.last_mut().unwrap().ident = format_ident!("{}", o);
                        let a = &c.args;
                        *e = parse_quote!(#p(#a));
                    } else if segs.len() >= 2 && segs[segs.len() - 2] == "cmp" && (segs[segs.len() - 1] == "min" || segs[segs.len() - 1] == "max") {
                        let (f, a) = (format_ident!("vf_{}", segs[segs.len() - 1]), &c.args);
                        *e = parse_quote!(crate::vf::#f(#a));
                    } else if segs.len() >= 2 && segs[segs.len() - 2] == "Display" && segs[segs.len() - 1] == "fmt" {
                        let a = &c.args;
                        *e = parse_quote!(crate::vf::VfShow::vf_fmt(#a));
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Whether an expression can leave the function (or loop) around it
fn has_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn split_bars(ts: TokenStream) -> (TokenStream, TokenStream) {
    let mut p = TokenStream::new();
    let mut r = TokenStream::new();
    let mut st = 0;
    for t in ts {
        if st < 2 {
            if let proc_macro2::TokenTree::Punct(q) = &t {
                if q.as_char() == '|' {
                    st += 1;
                    continue;
                }
            }
        }
        if st < 2 {
            p.extend(std::iter::once(t));
        } else {
            r.extend(std::iter::once(t));
        }
    }
    (p, r)
}

fn param_names(ts: TokenStream) -> Vec<Ident> {
    let mut out = vec![];
    let v: Vec<_> = ts.into_iter().collect();
    let mut depth = 0i32;
    let mut expect = true;
    for t in v {
        match &t {
            proc_macro2::TokenTree::Ident(i) if expect => {
                if i != "mut" {
                    out.push(i.clone());
                    expect = false;
                }
            }
            proc_macro2::TokenTree::Punct(p) => match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => expect = true,
                _ => {}
            },
            _ => {}
        }
    }
    out
}

/// `&T` in the type of a constant is `&'static T`
pub fn static_refs(t: &mut syn::Type) {
    struct V;
    impl syn::visit_mut::VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            if r.lifetime.is_none() {
                r.lifetime = Some(syn::Lifetime::new("'static", proc_macro2::Span::call_site()));
            }
            syn::visit_mut::visit_type_reference_mut(self, r);
        }
    }
    syn::visit_mut::VisitMut::visit_type_mut(&mut V, t);
}

/// Closure header parameters: name and number of leading references to a machine integer
fn params_refs(ts: TokenStream) -> Vec<(String, usize)> {
    use syn::parse::Parser;
    let p = punctuated::Punctuated::<FnArg, Token![,]>::parse_terminated;
    match p.parse2(ts) {
        Ok(l) => l
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => {
                    let n = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() };
                    let mut k = 0;
                    let mut ty = &*t.ty;
                    while let Type::Reference(r) = ty { k += 1; ty = &r.elem; }
                    let int = matches!(ty, Type::Path(p) if ["usize", "isize", "u8", "u32", "u64"].iter().any(|x| p.path.is_ident(x)));
                    Some((n, if int { k } else { 0 }))
                }
                _ => None,
            })
            .collect(),
        Err(_) => vec![],
    }
}
