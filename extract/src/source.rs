use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};

pub struct SourceFile {
    pub ast: syn::File,
}

/// A function found in the source, with the impl context it came from.
pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub line: usize,
    /// generic parameter renaming context: impl generics
    pub impl_generics: Option<syn::Generics>,
    pub self_ty: Option<syn::Type>,
}

fn ws(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if !c.is_whitespace() {
            o.push(c);
        }
    }
    o
}

struct Ren(HashMap<String, String>);
impl VisitMut for Ren {
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = proc_macro2::Ident::new(n, i.span());
        }
    }
    fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
        l.ident = proc_macro2::Ident::new("_l", l.ident.span());
    }
}

/// Key of an impl block: `Type` or `Trait for Type`, with generics renamed positionally.
fn impl_key(i: &syn::ItemImpl) -> String {
    let mut m = HashMap::new();
    let mut k = 0;
    for g in &i.generics.params {
        if let syn::GenericParam::Type(t) = g {
            m.insert(t.ident.to_string(), format!("_{}", k));
            k += 1;
        }
    }
    let mut ty = (*i.self_ty).clone();
    let mut r = Ren(m);
    r.visit_type_mut(&mut ty);
    let mut s = String::new();
    if let Some((_, tr, _)) = &i.trait_ {
        let mut tr = tr.clone();
        r.visit_path_mut(&mut tr);
        s.push_str(&ws(&tr.to_token_stream().to_string()));
        s.push_str(" for ");
    }
    s.push_str(&ws(&ty.to_token_stream().to_string()));
    s.replace("'_l", "").replace("<,", "<")
}

fn test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = ws(&a.to_token_stream().to_string());
        s == "#[cfg(test)]" || s == "#[test]" || s == "#[cfg(not(feature=\"multicore\"))]"
    })
}

fn line_of<T: syn::spanned::Spanned>(t: &T) -> usize {
    t.span().start().line
}

impl SourceFile {
    pub fn load(repo: &str, f: &str) -> Result<SourceFile, String> {
        let p = format!("{}/{}", repo, f);
        let t = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: {}: {}", p, e))?;
        let ast = syn::parse_file(&t).map_err(|e| format!("{}: parse error {}", p, e))?;
        Ok(SourceFile { ast })
    }

    /// the items of the file, those of its modules, then those inside its functions' bodies
    fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
        Self::flat_items(items, out);
        for k in 0..out.len() {
            if let syn::Item::Fn(f) = out[k] {
                if !test_cfg(&f.attrs) {
                    for s in &f.block.stmts {
                        if let syn::Stmt::Item(i) = s {
                            if !matches!(i, syn::Item::Fn(_)) {
                                out.push(i);
                            }
                        }
                    }
                }
            }
        }
    }
    fn flat_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
        for i in items {
            match i {
                syn::Item::Mod(m) => {
                    if test_cfg(&m.attrs) {
                        continue;
                    }
                    if let Some((_, it)) = &m.content {
                        Self::flat_items(it, out);
                    }
                }
                _ => out.push(i),
            }
        }
    }

    /// item as text, made pub, attributes and docs dropped
    pub fn item(&self, p: &str) -> Result<(String, usize), String> {
        let (kind, name) = p.split_once(' ').ok_or("bad item path")?;
        let mut v = vec![];
        Self::all_items(&self.ast.items, &mut v);
        for it in v {
            match (kind, it) {
                ("struct", syn::Item::Struct(s)) if s.ident == name => {
                    let mut s = s.clone();
                    let l = line_of(&s.ident);
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = syn::parse_quote!(pub);
                    }
                    return Ok((s.to_token_stream().to_string(), l));
                }
                ("enum", syn::Item::Enum(s)) if s.ident == name => {
                    let mut s = s.clone();
                    let l = line_of(&s.ident);
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                        }
                    }
                    return Ok((s.to_token_stream().to_string(), l));
                }
                ("const", syn::Item::Const(s)) if s.ident == name => {
                    let mut s = s.clone();
                    let l = line_of(&s.ident);
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    return Ok((s.to_token_stream().to_string(), l));
                }
                // the initializer expression of a const, alone
                ("constval", syn::Item::Const(s)) if s.ident == name => {
                    return Ok((s.expr.to_token_stream().to_string(), line_of(&s.ident)));
                }
                _ => {}
            }
        }
        Err(format!("lost anchor: {} not found", p))
    }

    /// PATH grammar: seg (" >> " seg)*; first segment `fn name`, `Type::name` or
    /// `<Trait for Type>::name`; following segments are nested fn items `name`
    /// or closures bound to a local, `|name|`.
    pub fn function(&self, path: &str) -> Result<Found, String> {
        let mut segs = path.split(" >> ");
        let first = segs.next().unwrap().trim();
        let mut v = vec![];
        Self::all_items(&self.ast.items, &mut v);
        let mut cur: Option<Found> = None;
        if let Some(n) = first.strip_prefix("fn ") {
            for it in &v {
                if let syn::Item::Fn(f) = it {
                    if f.sig.ident == n.trim() && !test_cfg(&f.attrs) {
                        cur = Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), line: line_of(&f.sig.ident), impl_generics: None, self_ty: None });
                        break;
                    }
                }
            }
        } else {
            let (ik, name) = if let Some(r) = first.strip_prefix('<') {
                let pos = r.rfind(">::").ok_or("bad path")?;
                (norm_key(&r[..pos]), r[pos + 3..].to_string())
            } else {
                let (a, b) = first.rsplit_once("::").ok_or("bad path")?;
                (norm_key(a), b.to_string())
            };
            'o: for it in &v {
                match it {
                    syn::Item::Impl(im) => {
                        if test_cfg(&im.attrs) {
                            continue;
                        }
                        let k = impl_key(im);
                        let bare = !first.starts_with('<');
                        let matches = if bare {
                            // inherent impl: compare the base identifier only
                            im.trait_.is_none() && k.split('<').next() == ik.split('<').next()
                        } else {
                            norm_key(&k) == ik
                        };
                        if matches {
                            for x in &im.items {
                                if let syn::ImplItem::Fn(f) = x {
                                    if f.sig.ident == name && !test_cfg(&f.attrs) {
                                        cur = Some(Found { sig: f.sig.clone(), block: f.block.clone(), line: line_of(&f.sig.ident),
                                            impl_generics: Some(im.generics.clone()), self_ty: Some((*im.self_ty).clone()) });
                                        break 'o;
                                    }
                                }
                            }
                        }
                    }
                    syn::Item::Trait(tr) => {
                        if ik == format!("trait{}", tr.ident) {
                            for x in &tr.items {
                                if let syn::TraitItem::Fn(f) = x {
                                    if f.sig.ident == name {
                                        if let Some(b) = &f.default {
                                            cur = Some(Found { sig: f.sig.clone(), block: b.clone(), line: line_of(&f.sig.ident), impl_generics: None, self_ty: None });
                                            break 'o;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut cur = cur.ok_or(format!("lost anchor: function {} not found", path))?;
        for s in segs {
            let s = s.trim();
            let mut finder = NestedFind { name: s.trim_matches('|').to_string(), closure: s.starts_with('|'), found: None };
            finder.visit_block_mut(&mut cur.block);
            let f = finder.found.ok_or(format!("lost anchor: nested function {} not found", path))?;
            cur = Found { impl_generics: cur.impl_generics.clone(), self_ty: cur.self_ty.clone(), ..f };
        }
        Ok(cur)
    }
}

pub fn norm_key(s: &str) -> String {
    // `A for B` keeps the separator; whitespace dropped elsewhere
    if let Some((a, b)) = s.split_once(" for ") {
        format!("{} for {}", ws(a), ws(b))
    } else {
        ws(s)
    }
}

struct NestedFind {
    name: String,
    closure: bool,
    found: Option<Found>,
}
impl VisitMut for NestedFind {
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        if !self.closure && f.sig.ident == self.name && self.found.is_none() {
            self.found = Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), line: line_of(&f.sig.ident), impl_generics: None, self_ty: None });
        }
        visit_mut::visit_item_fn_mut(self, f);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if self.closure && self.found.is_none() {
            if let syn::Pat::Ident(pi) = &l.pat {
                if pi.ident == self.name {
                    if let Some(init) = &l.init {
                        if let syn::Expr::Closure(c) = &*init.expr {
                            let name = &pi.ident;
                            let inputs = c.inputs.iter().map(|p| match p {
                                syn::Pat::Type(t) => t.to_token_stream(),
                                p => quote::quote!(#p: _),
                            });
                            let out = &c.output;
                            let sig: syn::Signature = syn::parse_quote!(fn #name(#(#inputs),*) #out);
                            let body = &c.body;
                            let block: syn::Block = match &**body {
                                syn::Expr::Block(b) => b.block.clone(),
                                e => syn::parse_quote!({ #e }),
                            };
                            self.found = Some(Found { sig, block, line: line_of(&pi.ident), impl_generics: None, self_ty: None });
                        }
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
}
