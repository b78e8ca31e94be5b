//! Callbacks which only report: a function with a parameter `f: impl FnMut(T)` (no result) which it does nothing with
//! but call, and callers which pass it a closure. The calls are recorded in a list, and the closure's body is run over
//! that list when the function returns. The borrow checker guarantees that nothing the closure changes is looked at by
//! the function, so this differs only in when the body runs.
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// The position (after self) and argument type of such a parameter
fn param(sig: &Signature) -> Option<(usize, usize, Ident, Type)> {
    let mut n = 0;
    for (at, i) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(t) = i {
            if let (Pat::Ident(p), Type::ImplTrait(it)) = (&*t.pat, &*t.ty) {
                for b in &it.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        let s = tb.path.segments.last().unwrap();
                        if s.ident == "FnMut" {
                            if let PathArguments::Parenthesized(a) = &s.arguments {
                                if a.inputs.len() == 1 && matches!(a.output, ReturnType::Default) {
                                    return Some((at, n, p.ident.clone(), a.inputs[0].clone()));
                                }
                            }
                        }
                    }
                }
            }
            n += 1;
        }
    }
    None
}

struct Def<'a>(&'a Ident, bool);
impl<'a> VisitMut for Def<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) && c.args.len() == 1 {
                let mut a = c.args[0].clone();
                self.visit_expr_mut(&mut a);
                let f = self.0;
                *e = parse_quote!(#f.push(#a));
                return;
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.0) {
                self.1 = false;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Use<'a>(&'a BTreeMap<String, (usize, Type)>);
impl<'a> VisitMut for Use<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (name, args) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), &mut m.args),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => (p.path.segments.last().unwrap().ident.to_string(), &mut c.args),
                _ => return,
            },
            _ => return,
        };
        if let Some((k, t)) = self.0.get(&name) {
            if let Some(Expr::Closure(c)) = args.iter().nth(*k).cloned() {
                if c.inputs.len() == 1 {
                    args[*k] = parse_quote!(&mut vf_log);
                    let (p, b) = (&c.inputs[0], &c.body);
                    let call = e.clone();
                    *e = parse_quote!({ let mut vf_log = Vec::<#t>::new(); let vf_res = #call; for #p in vf_log { #b; } vf_res });
                }
            }
        }
    }
}

fn each_fn(items: &mut [Item], f: &mut dyn FnMut(&mut Signature, &mut Block)) {
    for i in items {
        match i {
            Item::Fn(x) => f(&mut x.sig, &mut x.block),
            Item::Impl(x) => {
                for y in x.items.iter_mut() {
                    if let ImplItem::Fn(y) = y {
                        f(&mut y.sig, &mut y.block);
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn run(items: &mut [&mut Vec<Item>]) {
    let mut found = BTreeMap::new();
    for l in items.iter_mut() {
        each_fn(l, &mut |sig, block| {
            if let Some((at, n, id, t)) = param(sig) {
                let mut d = Def(&id, true);
                let mut b = block.clone();
                d.visit_block_mut(&mut b);
                // every mention was a call (the calls now mention it once each as a receiver)
                let mut calls = Count(&id, 0, 0);
                calls.visit_block_mut(&mut b);
                if calls.0 == &id && calls.1 == calls.2 {
                    *block = b;
                    sig.inputs[at] = parse_quote!(#id: &mut Vec<#t>);
                    found.insert(sig.ident.to_string(), (n, t));
                }
            }
        });
    }
    for l in items.iter_mut() {
        each_fn(l, &mut |_, block| Use(&found).visit_block_mut(block));
    }
}

struct Count<'a>(&'a Ident, usize, usize);
impl<'a> VisitMut for Count<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Path(p) if p.path.is_ident(self.0) => self.1 += 1,
            Expr::MethodCall(m) if m.method == "push" && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(self.0)) => self.2 += 1,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
