//! Token printer: newline placement, template text insertion, line map.
use crate::FnSpec;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeSet;

pub struct Printer<'a> {
    fs: &'a FnSpec,
    out: String,
    line: usize,
    map: Vec<(usize, usize)>,
    used_loops: BTreeSet<usize>,
    used_at: BTreeSet<String>,
    indent: usize,
    pub ret_ty: Option<syn::Type>,
}

impl<'a> Printer<'a> {
    pub fn new(fs: &'a FnSpec, _fired: &()) -> Self {
        Printer { fs, out: String::new(), line: 0, map: vec![], used_loops: Default::default(), used_at: Default::default(), indent: 0, ret_ty: None }
    }
    fn nl(&mut self) {
        self.out.push('\n');
        self.line += 1;
        for _ in 0..self.indent {
            self.out.push_str("    ");
        }
    }
    fn raw(&mut self, s: &str) {
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    pub fn block(&mut self, b: syn::Block, probe: bool) {
        let mut b = b;
        // tail handling
        let has_tail_at = self.fs.at.iter().any(|(k, _)| k == "tail") || probe;
        if has_tail_at {
            let tail = match b.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => Some(e.clone()),
                _ => None,
            };
            if let Some(e) = tail {
                b.stmts.pop();
                match &self.ret_ty {
                    Some(t) => b.stmts.push(syn::parse_quote!(let __ret: #t = #e;)),
                    None => b.stmts.push(syn::parse_quote!(let __ret = #e;)),
                }
                b.stmts.push(syn::parse_quote!(__vat!{tail};));
                if probe {
                    b.stmts.push(syn::parse_quote!(__vprobe!{};));
                }
                b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(__ret), None));
            } else {
                b.stmts.push(syn::parse_quote!(__vat!{tail};));
                if probe {
                    b.stmts.push(syn::parse_quote!(__vprobe!{};));
                }
            }
        }
        self.raw("{");
        self.indent += 1;
        self.nl();
        self.emit_at("start");
        let mut ts = TokenStream::new();
        for s in &b.stmts {
            s.to_tokens(&mut ts);
        }
        self.tokens(ts);
        self.indent -= 1;
        self.nl();
        self.raw("}");
    }
    fn emit_at(&mut self, key: &str) {
        let v: Vec<String> = self.fs.at.iter().filter(|(k, _)| k == key).map(|(_, t)| t.clone()).collect();
        if !v.is_empty() {
            self.used_at.insert(key.to_string());
        }
        for t in v {
            self.nl();
            self.raw(&t);
        }
    }
    fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut prev_joint = true;
        while i < v.len() {
            // marker: __vat ! {key} ;
            if let TokenTree::Ident(id) = &v[i] {
                let s = id.to_string();
                if s == "__vat" || s == "__vprobe" {
                    if let (Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                        if s == "__vprobe" {
                            self.raw("proof { assert(false); }");
                        } else {
                            let key = g.stream().to_string();
                            let key = key.trim_matches('"').to_string();
                            self.emit_at(&key);
                        }
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        self.nl();
                        prev_joint = true;
                        continue;
                    }
                }
            }
            let t = &v[i];
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if g.delimiter() == Delimiter::Brace {
                        // loop marker?
                        let mut rest = inner.clone();
                        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(n))) = (inner.first(), inner.get(2)) {
                            if id == "__vloop" {
                                let n: usize = n.stream().to_string().parse().unwrap();
                                if let Some(t) = self.fs.loops.get(&n) {
                                    let t = t.clone();
                                    self.used_loops.insert(n);
                                    self.nl();
                                    self.raw(&t);
                                }
                                rest = inner[4..].to_vec();
                            }
                        }
                        if !prev_joint {
                            self.out.push(' ');
                        }
                        self.raw(o);
                        if !rest.is_empty() {
                            self.indent += 1;
                            self.nl();
                            self.tokens(rest.into_iter().collect());
                            self.indent -= 1;
                            self.nl();
                        }
                        self.raw(c);
                        // newline after a block unless followed by `else`, `.`, `)`, `,`, `;`, `?`
                        let follow = v.get(i + 1);
                        let stay = match follow {
                            None => true,
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Ident(id)) => id == "else",
                            _ => false,
                        };
                        if !stay {
                            self.nl();
                            prev_joint = true;
                        } else {
                            prev_joint = false;
                        }
                    } else {
                        self.raw(o);
                        self.tokens(g.stream());
                        self.raw(c);
                        prev_joint = false;
                    }
                }
                TokenTree::Punct(p) => {
                    let sp = p.span().start();
                    if sp.line > 1 {
                        self.map.push((self.line, sp.line));
                    }
                    let c = p.as_char();
                    if !prev_joint && !matches!(c, ',' | ';' | '.' | '?') {
                        self.out.push(' ');
                    }
                    self.out.push(c);
                    if c == ';' {
                        if i + 1 < v.len() {
                            self.nl();
                        }
                        prev_joint = true;
                    } else if c == ',' {
                        self.out.push(' ');
                        prev_joint = true;
                    } else {
                        prev_joint = p.spacing() == Spacing::Joint || matches!(c, '.' | '!' | '&' | '\'') || c == ':' ;
                        if c == '>' || c == '<' { prev_joint = p.spacing() == Spacing::Joint || c == '<'; }
                    }
                }
                TokenTree::Ident(id) => {
                    let sp = id.span().start();
                    if sp.line > 1 {
                        self.map.push((self.line, sp.line));
                    }
                    if !prev_joint {
                        self.out.push(' ');
                    }
                    self.out.push_str(&id.to_string());
                    prev_joint = false;
                }
                TokenTree::Literal(l) => {
                    if !prev_joint {
                        self.out.push(' ');
                    }
                    self.out.push_str(&l.to_string());
                    prev_joint = false;
                }
            }
            i += 1;
        }
    }
    pub fn finish(self) -> (String, Vec<(usize, usize)>, Vec<String>) {
        let mut missing = vec![];
        for n in self.fs.loops.keys() {
            if !self.used_loops.contains(n) {
                missing.push(format!("loop {}", n));
            }
        }
        for (k, _) in &self.fs.at {
            if !self.used_at.contains(k) {
                missing.push(format!("position `{}`", k));
            }
        }
        let mut m = self.map;
        m.dedup();
        (self.out, m, missing)
    }
}
