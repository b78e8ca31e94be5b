use proc_macro2::*;
use std::collections::HashMap;

pub fn flat(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, false, 0);
    s.trim().to_string()
}
pub fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, true, 0);
    s.push('\n');
    s
}
fn nl(s: &mut String, depth: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') {
        s.push('\n');
    }
    for _ in 0..depth {
        s.push_str("  ");
    }
}
fn go(ts: TokenStream, s: &mut String, pretty: bool, depth: usize) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Parenthesis || g.delimiter() == Delimiter::Bracket {
                    // no space before call parens is only cosmetic
                    if s.ends_with(' ') && s.len() >= 2 {
                        let p = s.as_bytes()[s.len() - 2];
                        if p.is_ascii_alphanumeric() || p == b'_' {
                            let w: String = s.trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<Vec<_>>().into_iter().rev().collect();
                            if !["in", "return", "if", "while", "match", "let", "mut", "ref", "else", "requires", "ensures", "invariant", "decreases", "as", "for"].contains(&w.as_str()) {
                                s.pop();
                            }
                        }
                    }
                }
                s.push_str(o);
                let brace = g.delimiter() == Delimiter::Brace;
                if brace && pretty {
                    nl(s, depth + 1);
                }
                go(g.stream(), s, pretty, if brace { depth + 1 } else { depth });
                if brace && pretty {
                    nl(s, depth);
                } else {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                }
                s.push_str(c);
                s.push(' ');
                if brace && pretty {
                    nl(s, depth);
                }
                joint = false;
            }
            TokenTree::Ident(i) => {
                s.push_str(&i.to_string());
                s.push(' ');
                joint = false;
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
                joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if (c == '.' || c == ',' || c == ';' || c == ':' || c == '?') && s.ends_with(' ') && !joint {
                    s.pop();
                }
                if (c == '~' && s.ends_with("= ")) || (c == '=' && s.ends_with("=~ ")) {
                    s.pop();
                }
                if c == '.' {
                    // avoid gluing a method call to a newline after a brace
                }
                s.push(c);
                joint = p.spacing() == Spacing::Joint;
                if c == ';' && pretty {
                    nl(s, depth);
                } else if !joint && c != '.' && c != '&' && c != '\'' {
                    s.push(' ');
                }
            }
        }
    }
}

pub fn rename(ts: TokenStream, m: &HashMap<String, String>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), rename(g.stream(), m));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            TokenTree::Ident(id) => {
                let prev_dot = i > 0 && matches!(&v[i-1], TokenTree::Punct(p) if p.as_char()=='.');
                // `.` of `..` is not a field access
                let prev_dot = prev_dot && !(i > 1 && matches!(&v[i-2], TokenTree::Punct(p) if p.as_char()=='.' && p.spacing()==Spacing::Joint));
                let next_colon = matches!(v.get(i+1), Some(TokenTree::Punct(p)) if p.as_char()==':');
                if !prev_dot && !next_colon {
                    if let Some(n) = m.get(&id.to_string()) {
                        out.push(TokenTree::Ident(Ident::new(n, id.span())));
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            t => out.push(t.clone()),
        }
    }
    out.into_iter().collect()
}
