//! Reads `rustc -Zunpretty=expanded` output and prints, for every top-level
//! `mod NAME { .. }`, one line `NAME<TAB>canonical token text`.
//!
//! Canonical form: redundant parentheses do not count (every compound
//! expression is parenthesised explicitly after dropping the written ones), a
//! `usize` suffix does not count, and string literals that start with `§`
//! (stringified code) are compared token by token, not by layout.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::io::{Read, Write};
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Item, Lit, LitInt, LitStr, Stmt};

fn toks(ts: TokenStream, out: &mut String) {
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("( ", ") "),
                    proc_macro2::Delimiter::Brace => ("{ ", "} "),
                    proc_macro2::Delimiter::Bracket => ("[ ", "] "),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push_str(a);
                toks(g.stream(), out);
                out.push_str(b);
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}

struct Canon;

fn hoist(e: &mut Expr) -> Vec<syn::Attribute> {
    match e {
        Expr::Paren(p) => {
            let mut a = std::mem::take(&mut p.attrs);
            a.extend(hoist(&mut p.expr));
            a
        }
        Expr::Call(x) => std::mem::take(&mut x.attrs),
        Expr::MethodCall(x) => std::mem::take(&mut x.attrs),
        Expr::Unary(x) => std::mem::take(&mut x.attrs),
        Expr::Reference(x) => std::mem::take(&mut x.attrs),
        Expr::Block(x) => std::mem::take(&mut x.attrs),
        Expr::If(x) => std::mem::take(&mut x.attrs),
        Expr::Match(x) => std::mem::take(&mut x.attrs),
        Expr::Closure(x) => std::mem::take(&mut x.attrs),
        Expr::Try(x) => std::mem::take(&mut x.attrs),
        Expr::Macro(x) => std::mem::take(&mut x.attrs),
        Expr::Await(x) => std::mem::take(&mut x.attrs),
        Expr::Field(x) => std::mem::take(&mut x.attrs),
        Expr::Array(x) => std::mem::take(&mut x.attrs),
        Expr::Tuple(x) => std::mem::take(&mut x.attrs),
        Expr::Struct(x) => std::mem::take(&mut x.attrs),
        Expr::Path(x) => std::mem::take(&mut x.attrs),
        _ => vec![],
    }
}

/// after its attributes moved away: one pair of parentheses around a compound receiver, none around an atom
fn settle(e: &mut Expr) {
    let mut x = std::mem::replace(e, Expr::Verbatim(TokenStream::new()));
    while let Expr::Paren(p) = x {
        if !p.attrs.is_empty() {
            x = Expr::Paren(p);
            break;
        }
        x = *p.expr;
    }
    *e = if is_atom(&x) || matches!(x, Expr::Paren(_)) {
        x
    } else {
        Expr::Paren(syn::ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) })
    };
}

fn is_atom(e: &Expr) -> bool {
    matches!(
        e,
        Expr::Path(_) | Expr::Lit(_) | Expr::Block(_) | Expr::Tuple(_) | Expr::Array(_) | Expr::Macro(_)
    )
}

impl VisitMut for Canon {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            match e {
                Expr::Paren(p) if p.attrs.is_empty() => {
                    let inner = std::mem::replace(&mut *p.expr, Expr::Verbatim(TokenStream::new()));
                    *e = inner;
                }
                Expr::Group(p) if p.attrs.is_empty() => {
                    let inner = std::mem::replace(&mut *p.expr, Expr::Verbatim(TokenStream::new()));
                    *e = inner;
                }
                _ => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Struct(s) => {
                if s.rest.is_none() {
                    s.fields.pop_punct();
                    s.dot2_token = None;
                }
            }
            Expr::Call(c) => {
                c.args.pop_punct();
            }
            Expr::MethodCall(c) => {
                c.args.pop_punct();
                // an attribute on the receiver of a whole call chain reads as one on the chain
                let inner = hoist(&mut c.receiver);
                settle(&mut c.receiver);
                if !inner.is_empty() {
                    let own = std::mem::take(&mut c.attrs);
                    c.attrs = inner.into_iter().chain(own).collect();
                }
            }
            Expr::Await(c) => {
                let inner = hoist(&mut c.base);
                settle(&mut c.base);
                c.attrs = inner.into_iter().chain(std::mem::take(&mut c.attrs)).collect();
            }
            Expr::Field(c) => {
                let inner = hoist(&mut c.base);
                settle(&mut c.base);
                c.attrs = inner.into_iter().chain(std::mem::take(&mut c.attrs)).collect();
            }
            Expr::Array(c) => {
                c.elems.pop_punct();
            }
            Expr::Tuple(c) if c.elems.len() > 1 => {
                c.elems.pop_punct();
            }
            Expr::Closure(c) => {
                c.inputs.pop_punct();
            }
            _ => {}
        }
        if !is_atom(e) {
            let inner = std::mem::replace(e, Expr::Verbatim(TokenStream::new()));
            *e = Expr::Paren(syn::ExprParen {
                attrs: vec![],
                paren_token: Default::default(),
                expr: Box::new(inner),
            });
        }
    }
    fn visit_lit_mut(&mut self, l: &mut Lit) {
        match l {
            Lit::Int(i) if i.suffix() == "usize" => {
                *l = Lit::Int(LitInt::new(i.base10_digits(), i.span()));
            }
            Lit::Str(s) => {
                let v = s.value();
                if let Some(rest) = v.strip_prefix('§') {
                    let mut o = String::from("§");
                    match rest.parse::<TokenStream>() {
                        Ok(ts) => {
                            // code hooq may have written: the same canonical form as real code
                            let ts = match syn::parse2::<Frags>(ts.clone()) {
                                Ok(f) => f.0,
                                Err(_) => ts,
                            };
                            toks(ts, &mut o)
                        }
                        Err(_) => o.push_str(rest),
                    }
                    *l = Lit::Str(LitStr::new(&o, s.span()));
                }
            }
            _ => {}
        }
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        // `let expr = ::std::string::ToString::to_string("code");` of a bindings table
        if let syn::Pat::Ident(p) = &l.pat {
            if p.ident == "expr" {
                if let Some(init) = &mut l.init {
                    if let Expr::Call(c) = &mut *init.expr {
                        if c.func.to_token_stream().to_string().replace(' ', "") == "::std::string::ToString::to_string" {
                            if let Some(Expr::Lit(x)) = c.args.first_mut() {
                                mark(&mut x.lit);
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if let syn::Member::Named(n) = &f.member {
            if n == "source_str" {
                if let Expr::Lit(x) = &mut f.expr {
                    mark(&mut x.lit);
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if let Ok(f) = syn::parse2::<Frags>(m.tokens.clone()) {
            m.tokens = f.0;
        }
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        visit_mut::visit_arm_mut(self, a);
        a.comma = Some(Default::default());
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// says that a literal is stringified code
fn mark(l: &mut Lit) {
    if let Lit::Str(s) = l {
        if !s.value().starts_with('§') {
            *l = Lit::Str(LitStr::new(&format!("§{}", s.value()), s.span()));
        }
    }
}

/// a list of Rust fragments separated by `,` or `;`, canonicalised
struct Frags(TokenStream);

impl syn::parse::Parse for Frags {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        use syn::parse::discouraged::Speculative;
        let mut out = TokenStream::new();
        while !input.is_empty() {
            let end = |f: syn::parse::ParseStream| f.is_empty() || f.peek(syn::Token![,]) || f.peek(syn::Token![;]);
            let f = input.fork();
            if let Ok(mut file) = f.parse::<syn::File>() {
                if f.is_empty() && !file.items.is_empty() {
                    input.advance_to(&f);
                    Canon.visit_file_mut(&mut file);
                    file.to_tokens(&mut out);
                    break;
                }
            }
            let f = input.fork();
            if let Ok(mut e) = f.parse::<Expr>() {
                if end(&f) {
                    input.advance_to(&f);
                    Canon.visit_expr_mut(&mut e);
                    e.to_tokens(&mut out);
                    sep(input, &mut out)?;
                    continue;
                }
            }
            let f = input.fork();
            if let Ok(mut e) = f.parse::<Item>() {
                if end(&f) {
                    input.advance_to(&f);
                    Canon.visit_item_mut(&mut e);
                    e.to_tokens(&mut out);
                    sep(input, &mut out)?;
                    continue;
                }
            }
            let mut s: Stmt = input.parse()?;
            if !end(input) {
                return Err(input.error("no separator"));
            }
            Canon.visit_stmt_mut(&mut s);
            s.to_tokens(&mut out);
            sep(input, &mut out)?;
        }
        Ok(Frags(out))
    }
}

fn sep(input: syn::parse::ParseStream, out: &mut TokenStream) -> syn::Result<()> {
    if input.peek(syn::Token![,]) {
        input.parse::<syn::Token![,]>()?.to_tokens(out);
    } else if input.peek(syn::Token![;]) {
        input.parse::<syn::Token![;]>()?.to_tokens(out);
    }
    Ok(())
}

fn main() {
    let mut src = String::new();
    let path = std::env::args().nth(1).expect("path");
    std::fs::File::open(path).unwrap().read_to_string(&mut src).unwrap();
    let mut file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            let s = e.span().start();
            eprintln!("canon: cannot parse expanded output at {}:{}: {e}", s.line, s.column);
            std::process::exit(3);
        }
    };
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for item in file.items.iter_mut() {
        if let Item::Mod(m) = item {
            let name = m.ident.to_string();
            let b = name.as_bytes();
            if b.len() < 2 || !(b[0] == b'c' || b[0] == b'e') || !b[1].is_ascii_digit() {
                continue;
            }
            let mut text = String::new();
            if let Some((_, items)) = &mut m.content {
                for it in items.iter_mut() {
                    if let Item::Use(_) = it {
                        // `use` lines are compared too, they matter for trait_use
                    }
                    Canon.visit_item_mut(it);
                    toks(it.to_token_stream(), &mut text);
                    text.push('\u{1}');
                }
            }
            let text = text.replace('\n', "\\n").replace('\t', "\\t");
            writeln!(out, "{name}\t{text}").unwrap();
        }
    }
}
