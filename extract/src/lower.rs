//! AST desugarings (see DESIGN.md, "What the extraction drops").
use crate::source::Found;
use crate::FnSpec;
use proc_macro2::{Ident, Span};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt, Token};

pub struct Lowered {
    pub sig: String,
    pub body: Option<Block>,
    pub fired: (),
}

fn ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

const ASSOC_CONSTS: &[&str] = &[
    "ONE", "ZERO", "CAPACITY", "NUM_BITS", "ROOT_OF_UNITY", "MULTIPLICATIVE_GENERATOR", "S", "DELTA", "TWO_INV",
];

#[derive(Clone, Debug)]
enum ParamKind {
    Cs,               // by-value or &mut CS
    Multi(String),    // MultiEq<..> type text
    Witness(String),  // FnOnce() -> Result<..>
    Lc(String),       // FnOnce(LC) -> LC
    Drop,             // annotation
    Slice(String),    // IntoIterator<Item=&X>
    Plain,
}

struct Generic {
    name: String,
    bounds: Vec<String>,
    fn_in: Option<Vec<String>>,
    fn_out: Option<String>,
    root: Option<String>,
    is_cs: bool,
    into_iter_item: Option<String>,
}

fn collect_generics(g: &syn::Generics) -> BTreeMap<String, Generic> {
    let mut m: BTreeMap<String, Generic> = BTreeMap::new();
    let mut add = |name: String, bounds: &Punctuated<syn::TypeParamBound, Token![+]>| {
        let e = m.entry(name.clone()).or_insert(Generic {
            name, bounds: vec![], fn_in: None, fn_out: None, root: None, is_cs: false, into_iter_item: None });
        for b in bounds {
            let s = ws(&toks(b));
            if let syn::TypeParamBound::Trait(tb) = b {
                let seg = tb.path.segments.last().unwrap();
                if seg.ident == "FnOnce" || seg.ident == "Fn" || seg.ident == "FnMut" {
                    if let syn::PathArguments::Parenthesized(p) = &seg.arguments {
                        e.fn_in = Some(p.inputs.iter().map(|t| toks(t)).collect());
                        e.fn_out = Some(match &p.output {
                            syn::ReturnType::Default => "()".into(),
                            syn::ReturnType::Type(_, t) => toks(t),
                        });
                    }
                } else if seg.ident == "ConstraintSystem" {
                    e.is_cs = true;
                    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                        for x in &a.args {
                            if let syn::GenericArgument::AssocType(at) = x {
                                if at.ident == "Root" {
                                    e.root = Some(toks(&at.ty));
                                }
                            }
                        }
                    }
                } else if seg.ident == "IntoIterator" {
                    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                        for x in &a.args {
                            if let syn::GenericArgument::AssocType(at) = x {
                                if at.ident == "Item" {
                                    let t = match &at.ty {
                                        syn::Type::Reference(r) => toks(&r.elem),
                                        t => toks(t),
                                    };
                                    e.into_iter_item = Some(t);
                                }
                            }
                        }
                    }
                }
            }
            e.bounds.push(s);
        }
    };
    for p in &g.params {
        if let syn::GenericParam::Type(t) = p {
            add(t.ident.to_string(), &t.bounds);
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                add(ws(&toks(&t.bounded_ty)), &t.bounds);
            }
        }
    }
    m
}

pub fn lower_fn(f: Found, fs: &FnSpec, stub: bool) -> Result<Lowered, String> {
    let gens = if fs.opt("raw") { Default::default() } else { collect_generics(&f.sig.generics) };
    // kinds of generics
    let mut dropped: BTreeSet<String> = BTreeSet::new();
    let strings: BTreeSet<String> = gens.values().filter(|g| g.bounds.iter().any(|b| b.starts_with("Into<String>"))).map(|g| g.name.clone()).collect();
    let kind_of = |ty: &str| -> ParamKind {
        if let Some(g) = gens.get(ty) {
            if g.is_cs {
                if let Some(r) = &g.root {
                    return ParamKind::Multi(r.clone());
                }
                return ParamKind::Cs;
            }
            if let (Some(i), Some(o)) = (&g.fn_in, &g.fn_out) {
                if i.is_empty() {
                    if strings.contains(&ws(o)) || ws(o) == "String" {
                        return ParamKind::Drop;
                    }
                    return ParamKind::Witness(o.clone());
                }
                if i.len() == 1 && ws(&i[0]).starts_with("LinearCombination<") {
                    return ParamKind::Lc(o.clone());
                }
            }
            if let Some(t) = &g.into_iter_item {
                return ParamKind::Slice(t.clone());
            }
        }
        ParamKind::Plain
    };
    let mut lo = Lower {
        fs,
        loopno: 0,
        errs: vec![],
        fresh: 0,
        witness_params: BTreeSet::new(),
        lc_params: BTreeSet::new(),
        slice_params: BTreeSet::new(),
        meq: 0,
        closure_subst: HashMap::new(),
        ret_ty: match &f.sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => ws(&toks(t)) },
    };
    let mut pre: Vec<Stmt> = vec![];
    let mut params_out: Vec<String> = vec![];
    let mut renames: HashMap<String, String> = HashMap::new();
    let mut pidx = 0;
    let mut anon = 0;
    let mut self_mut_val = false;
    for a in &f.sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                if r.reference.is_some() {
                    params_out.push(if r.mutability.is_some() { "&mut self".into() } else { "&self".into() });
                } else {
                    if r.mutability.is_some() {
                        self_mut_val = true;
                    }
                    params_out.push("self".into());
                }
            }
            syn::FnArg::Typed(t) => {
                let (inner, is_mut_ref) = match &*t.ty {
                    syn::Type::Reference(r) if r.mutability.is_some() => (ws(&toks(&r.elem)), true),
                    t => (ws(&toks(t)), false),
                };
                let kind = kind_of(&inner);
                let mut ty = toks(&t.ty);
                match &kind {
                    ParamKind::Drop => {
                        dropped.insert(inner.clone());
                        continue;
                    }
                    ParamKind::Cs => ty = format!("&mut {}", inner),
                    ParamKind::Multi(m) => {
                        dropped.insert(inner.clone());
                        ty = format!("&mut {}", m);
                    }
                    ParamKind::Witness(o) => {
                        dropped.insert(inner.clone());
                        ty = format!("Option<{}>", o);
                    }
                    ParamKind::Lc(o) => {
                        dropped.insert(inner.clone());
                        ty = o.clone();
                    }
                    ParamKind::Slice(t) => {
                        dropped.insert(inner.clone());
                        ty = format!("&[{}]", t);
                    }
                    ParamKind::Plain => {}
                }
                let _ = is_mut_ref;
                let name: String;
                let mut is_mut = false;
                match &*t.pat {
                    Pat::Ident(pi) => {
                        name = pi.ident.to_string();
                        is_mut = pi.mutability.is_some();
                    }
                    Pat::Wild(_) => {
                        name = format!("_p{}", anon);
                        anon += 1;
                    }
                    p => {
                        name = format!("__p{}", pidx);
                        let n = id(&name);
                        let (p2, d) = lo.strip_pat(p.clone(), false);
                        if !d.is_empty() {
                            return Err("deref pattern in parameter".into());
                        }
                        pre.push(parse_quote!(let #p2 = #n;));
                    }
                }
                let tname = match &fs.params {
                    Some(v) => v.get(pidx).cloned().ok_or(format!("lost anchor: parameter count of {}", fs.path))?,
                    None => name.clone(),
                };
                if tname != name {
                    renames.insert(name.clone(), tname.clone());
                }
                match &kind {
                    ParamKind::Witness(_) => {
                        lo.witness_params.insert(name.clone());
                    }
                    ParamKind::Lc(_) => {
                        lo.lc_params.insert(name.clone());
                    }
                    ParamKind::Slice(_) => {
                        lo.slice_params.insert(name.clone());
                    }
                    ParamKind::Cs | ParamKind::Multi(_) => {}
                    ParamKind::Plain => {
                        if is_mut {
                            let n = id(&name);
                            pre.push(parse_quote!(let mut #n = #n;));
                        }
                    }
                    ParamKind::Drop => {}
                }
                params_out.push(format!("{}: {}", tname, ty));
                pidx += 1;
            }
        }
    }
    if let Some(v) = &fs.params {
        if v.len() != pidx {
            return Err(format!("lost anchor: parameter count of {}: template {}, source {}", fs.path, v.len(), pidx));
        }
    }
    for s in &strings {
        dropped.insert(s.clone());
    }
    // type generics
    let mut gparams: Vec<String> = vec![];
    for p in &f.sig.generics.params {
        match p {
            syn::GenericParam::Type(t) => {
                if !dropped.contains(&t.ident.to_string()) {
                    let b = toks(&t.bounds).replace("PrimeFieldBits", "PrimeField");
                    if b.is_empty() {
                        gparams.push(t.ident.to_string());
                    } else {
                        gparams.push(format!("{}: {}", t.ident, b));
                    }
                }
            }
            p => gparams.push(toks(p)),
        }
    }
    let mut wh: Vec<String> = vec![];
    if let Some(w) = &f.sig.generics.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                let n = ws(&toks(&t.bounded_ty));
                if dropped.contains(&n) {
                    continue;
                }
                if ws(&toks(p)).contains("PrimeFieldBits") {
                    // the bit view is part of the PrimeField contract of the prelude
                    if !gens.contains_key(&n) || !f.sig.generics.params.iter().any(|g| matches!(g, syn::GenericParam::Type(t) if t.ident == n.as_str())) {
                        continue;
                    }
                    wh.push(toks(p).replace("PrimeFieldBits", "PrimeField"));
                    continue;
                }
                wh.push(toks(p));
            }
        }
    }
    let sig;
    if let Some(s) = &fs.sig {
        // signature given by the template: the source signature must be the recorded one
        let got = ws(&toks(&f.sig));
        match &fs.srcsig {
            Some(x) if ws(x) == got => {}
            Some(x) => return Err(format!("lost anchor: signature of {} changed\n  recorded: {}\n  source:   {}", fs.path, ws(x), got)),
            None => return Err(format!("template needs `//@ srcsig {}`", toks(&f.sig))),
        }
        sig = s.trim_end().to_string();
    } else {
        let name = fs.name.clone().unwrap_or(f.sig.ident.to_string());
        let ret = match &f.sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => match &fs.ret {
                Some(r) => format!(" -> ({}: {})", r, toks(t)),
                None => format!(" -> {}", toks(t)),
            },
        };
        let vis = if fs.opt("novis") || fs.path.starts_with('<') || fs.path.starts_with("trait") { "" } else { "pub " };
        sig = format!("{}fn {}{}({}){}{}", vis, name,
            if gparams.is_empty() { String::new() } else { format!("<{}>", gparams.join(", ")) },
            params_out.join(", "), ret,
            if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) });
    }
    let mut sig = sig;
    for (a, b) in &fs.subst {
        sig = sig.replace(a.as_str(), b);
    }
    if stub {
        return Ok(Lowered { sig, body: None, fired: () });
    }
    let mut block = f.block;
    for s in pre.into_iter().rev() {
        block.stmts.insert(0, s);
    }
    if self_mut_val {
        SelfRename.visit_block_mut(&mut block);
        block.stmts.insert(0, parse_quote!(let mut self_ = self;));
    }
    if !renames.is_empty() {
        Renamer(&renames).visit_block_mut(&mut block);
    }
    for (a, b) in &renames {
        for set in [&mut lo.witness_params, &mut lo.lc_params, &mut lo.slice_params] {
            if set.remove(a) {
                set.insert(b.clone());
            }
        }
    }
    lo.macros(&mut block);
    lo.visit_block_mut(&mut block);
    if !lo.errs.is_empty() {
        return Err(format!("unsupported construct: {}", lo.errs.join("; ")));
    }
    // statement anchors: at before "text" / after "text"
    place_text_anchors(&mut block, fs);
    if !fs.subst.is_empty() {
        let mut t = toks(&block);
        for (a, b) in &fs.subst {
            t = t.replace(&crate::normalize_ws(a), b);
        }
        // keep spans when nothing changed
        if t != toks(&block) {
            block = syn::parse_str(&t).map_err(|e| format!("subst: {}", e))?;
        }
    }
    Ok(Lowered { sig, body: Some(block), fired: () })
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("self_", i.span());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let t: proc_macro2::TokenStream = m.tokens.clone().into_iter().map(|t| match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(Ident::new("self_", i.span())),
            t => t,
        }).collect();
        m.tokens = t;
    }
}

struct Renamer<'a>(&'a HashMap<String, String>);
impl<'a> Renamer<'a> {
    fn r(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn ts(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        t.into_iter().map(|t| match t {
            proc_macro2::TokenTree::Ident(mut i) => { self.r(&mut i); proc_macro2::TokenTree::Ident(i) }
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), self.ts(g.stream()));
                n.set_span(g.span());
                proc_macro2::TokenTree::Group(n)
            }
            t => t,
        }).collect()
    }
}
impl<'a> VisitMut for Renamer<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.segments.len() == 1 && p.qself.is_none() {
            self.r(&mut p.path.segments[0].ident);
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        self.r(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        f.colon_token.get_or_insert_with(Default::default);
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.ts(m.tokens.clone());
    }
}

fn place_text_anchors(b: &mut Block, fs: &FnSpec) {
    struct V<'a> {
        keys: Vec<(String, bool, String)>,
        _p: &'a (),
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            for s in b.stmts.drain(..) {
                // only the statement's own head counts: skip a block statement that merely contains it deeper
                let t = ws(&toks(&s));
                let mut after = vec![];
                for (needle, is_before, key) in &self.keys {
                    if t.starts_with(needle.as_str()) {
                        let k = proc_macro2::Literal::string(key);
                        let m: Stmt = parse_quote!(__vat!{#k};);
                        if *is_before {
                            out.push(m);
                        } else {
                            after.push(m);
                        }
                    }
                }
                out.push(s);
                out.extend(after);
            }
            b.stmts = out;
        }
    }
    let mut keys = vec![];
    for (k, _) in &fs.at {
        for (p, before) in [("before ", true), ("after ", false)] {
            if let Some(n) = k.strip_prefix(p) {
                if n.starts_with('`') {
                    keys.push((ws(n.trim_matches('`')), before, k.clone()));
                }
            }
        }
    }
    if keys.is_empty() {
        return;
    }
    V { keys, _p: &() }.visit_block_mut(b);
}

struct Lower<'a> {
    fs: &'a FnSpec,
    loopno: usize,
    errs: Vec<String>,
    fresh: usize,
    witness_params: BTreeSet<String>,
    lc_params: BTreeSet<String>,
    slice_params: BTreeSet<String>,
    meq: usize,
    closure_subst: HashMap<String, String>,
    ret_ty: String,
}

enum SliceMode {
    Ref,
    Mut,
    Own,
}

/// A random-access stream: `len` elements, element k given by `at(k)`.
struct Stream {
    binds: Vec<Stmt>,
    native: Option<(Expr, Expr)>, // lo, hi: index variable ranges over the source range itself
    len: Expr,
    at: Box<dyn Fn(&Expr) -> Expr>,
    infinite: bool,
}

impl<'a> Lower<'a> {
    fn e(&mut self, s: impl Into<String>) {
        self.errs.push(s.into());
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        id(&format!("__{}{}", p, self.fresh - 1))
    }

    // ---- macros ---------------------------------------------------------
    fn macros(&mut self, b: &mut Block) {
        struct M<'b>(&'b mut Vec<String>, bool);
        impl<'b> M<'b> {
            fn conv(&mut self, m: &syn::Macro) -> Option<Expr> {
                let n = m.path.segments.last().unwrap().ident.to_string();
                let args = || Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone());
                match n.as_str() {
                    "assert" | "debug_assert" => {
                        let a = args().ok()?;
                        let c = a.first()?;
                        Some(parse_quote!(rt_assert(#c)))
                    }
                    "assert_eq" | "debug_assert_eq" => {
                        let a = args().ok()?;
                        let (x, y) = (a.get(0)?, a.get(1)?);
                        Some(parse_quote!(rt_assert(#x == #y)))
                    }
                    "assert_ne" => {
                        let a = args().ok()?;
                        let (x, y) = (a.get(0)?, a.get(1)?);
                        Some(parse_quote!(rt_assert(#x != #y)))
                    }
                    "vec" => {
                        if let Ok(r) = syn::parse2::<RepeatArgs>(m.tokens.clone()) {
                            let (x, k) = (r.0, r.1);
                            return Some(parse_quote!(vec_from_elem(#x, #k)));
                        }
                        let a = args().ok()?;
                        if a.is_empty() {
                            return Some(parse_quote!(Vec::new()));
                        }
                        let mut st: Vec<Stmt> = vec![parse_quote!(let mut __v = Vec::new();)];
                        // evaluate in order, then push
                        for x in a.iter() {
                            st.push(parse_quote!(__v.push(#x);));
                        }
                        Some(parse_quote!({ #(#st)* __v }))
                    }
                    "matches" => {
                        let p = syn::parse2::<MatchesArgs>(m.tokens.clone()).ok()?;
                        let (e, pt) = (p.0, p.1);
                        Some(parse_quote!(match #e { #pt => true, _ => false }))
                    }
                    "format" => Some(parse_quote!(fmt_string())),
                    "panic" | "unreachable" => Some(parse_quote!(rt_panic())),
                    "__vat" | "__vloop" => None,
                    _ => {
                        self.0.push(format!("macro {}!", n));
                        None
                    }
                }
            }
        }
        impl<'b> VisitMut for M<'b> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut out = vec![];
                for s in b.stmts.drain(..) {
                    match s {
                        Stmt::Item(syn::Item::Fn(_)) | Stmt::Item(syn::Item::Use(_)) | Stmt::Item(syn::Item::Enum(_)) | Stmt::Item(syn::Item::Struct(_)) | Stmt::Item(syn::Item::Impl(_)) => {}
                        Stmt::Item(i) => {
                            self.0.push(format!("nested item {}", toks(&i).chars().take(40).collect::<String>()));
                        }
                        Stmt::Macro(m) => match self.conv(&m.mac) {
                            Some(e) => out.push(Stmt::Expr(e, m.semi_token)),
                            None => out.push(Stmt::Macro(m)),
                        },
                        Stmt::Local(mut l) => {
                            l.attrs.clear();
                            out.push(Stmt::Local(l));
                        }
                        s => out.push(s),
                    }
                }
                b.stmts = out;
                visit_mut::visit_block_mut(self, b);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Macro(m) = e {
                    if let Some(x) = self.conv(&m.mac) {
                        *e = x;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut errs = vec![];
        M(&mut errs, true).visit_block_mut(b);
        self.errs.extend(errs);
    }

    // ---- patterns -------------------------------------------------------
    /// Strip reference patterns; returns identifiers bound by copy under `&`.
    fn strip_pat(&mut self, p: Pat, under: bool) -> (Pat, Vec<Ident>) {
        let mut d = vec![];
        let q = self.strip(p, under, &mut d);
        let mut seen = BTreeSet::new();
        d.retain(|i| seen.insert(i.to_string()));
        (q, d)
    }
    fn strip(&mut self, p: Pat, under: bool, d: &mut Vec<Ident>) -> Pat {
        match p {
            Pat::Reference(r) => self.strip(*r.pat, true, d),
            Pat::Ident(mut pi) => {
                let upper = pi.ident.to_string().chars().next().unwrap().is_uppercase();
                if upper && pi.subpat.is_none() {
                    return Pat::Ident(pi);
                }
                if under {
                    if pi.by_ref.is_some() {
                        pi.by_ref = None;
                        pi.mutability = None;
                    } else if pi.subpat.is_none() {
                        d.push(pi.ident.clone());
                    }
                }
                if let Some((at, sp)) = pi.subpat.take() {
                    let s = self.strip(*sp, false, d);
                    pi.subpat = Some((at, Box::new(s)));
                }
                Pat::Ident(pi)
            }
            Pat::Tuple(mut t) => {
                t.elems = t.elems.into_iter().map(|x| self.strip(x, under, d)).collect();
                Pat::Tuple(t)
            }
            Pat::TupleStruct(mut t) => {
                t.elems = t.elems.into_iter().map(|x| self.strip(x, under, d)).collect();
                Pat::TupleStruct(t)
            }
            Pat::Struct(mut t) => {
                for f in t.fields.iter_mut() {
                    let x = (*f.pat).clone();
                    f.pat = Box::new(self.strip(x, under, d));
                }
                Pat::Struct(t)
            }
            Pat::Or(mut o) => {
                let mut sets: Vec<BTreeSet<String>> = vec![];
                let mut all = vec![];
                o.cases = o.cases.into_iter().map(|x| {
                    let mut dd = vec![];
                    let r = self.strip(x, under, &mut dd);
                    sets.push(dd.iter().map(|i| i.to_string()).collect());
                    all.extend(dd);
                    r
                }).collect();
                if sets.windows(2).any(|w| w[0] != w[1]) {
                    self.e("or-pattern binds by copy in only some alternatives");
                }
                d.extend(all);
                Pat::Or(o)
            }
            Pat::Paren(p) => self.strip(*p.pat, under, d),
            Pat::Type(mut t) => {
                t.pat = Box::new(self.strip(*t.pat, under, d));
                Pat::Type(t)
            }
            p => p,
        }
    }
    /// `let PAT = E;` with by-copy bindings under `&` dereferenced afterwards
    fn let_stmts(&mut self, p: Pat, e: Expr) -> Vec<Stmt> {
        // a reference pattern at the top: `let &x = e` / closure |&v|
        if let Pat::Reference(r) = &p {
            if let Pat::Ident(pi) = &*r.pat {
                if pi.by_ref.is_none() {
                    let i = &pi.ident;
                    let m = &pi.mutability;
                    return vec![parse_quote!(let #m #i = *(#e);)];
                }
            }
        }
        if let Pat::Wild(_) = &p {
            return vec![parse_quote!(let _ = #e;)];
        }
        let (p2, d) = self.strip_pat(p, false);
        let mut v: Vec<Stmt> = vec![parse_quote!(let #p2 = #e;)];
        for i in d {
            v.push(parse_quote!(let #i = *#i;));
        }
        v
    }

    /// variables captured by the local closure `name` (option `capture=name:a,b`)
    fn captures(&self, name: &str) -> Option<Vec<String>> {
        let p = format!("capture={}:", name);
        self.fs.opts.iter().find_map(|o| o.strip_prefix(&p).map(|r| r.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()))
    }
    // ---- streams --------------------------------------------------------
    fn is_place(e: &Expr) -> bool {
        match e {
            Expr::Path(_) => true,
            Expr::Field(f) => Self::is_place(&f.base),
            Expr::Index(i) => Self::is_place(&i.expr) && matches!(&*i.index, Expr::Lit(_) | Expr::Path(_)),
            Expr::Paren(p) => Self::is_place(&p.expr),
            Expr::Reference(r) => Self::is_place(&r.expr),
            Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && Self::is_place(&u.expr),
            _ => false,
        }
    }
    fn strip_ref(e: &Expr) -> Expr {
        match e {
            Expr::Reference(r) => Self::strip_ref(&r.expr),
            Expr::Paren(p) => Self::strip_ref(&p.expr),
            e => e.clone(),
        }
    }
    fn slice_stream(&mut self, e: &Expr, mode: SliceMode, n: &str) -> Stream {
        let mut binds = vec![];
        let mut base = Self::strip_ref(e);
        if !Self::is_place(&base) {
            self.visit_expr_mut(&mut base);
            let s = id(&format!("__s{}", n));
            // a range of a slice is a place: borrow it
            let isref = matches!(e, Expr::Reference(_)) || matches!(&base, Expr::Index(i) if matches!(&*i.index, Expr::Range(_)));
            match (&mode, isref) {
                (SliceMode::Mut, true) => binds.push(parse_quote!(let #s = &mut #base;)),
                (_, true) => binds.push(parse_quote!(let #s = &#base;)),
                _ => binds.push(parse_quote!(let #s = #base;)),
            }
            base = parse_quote!(#s);
        }
        let b = base.clone();
        let len: Expr = parse_quote!(#b.len());
        let at: Box<dyn Fn(&Expr) -> Expr> = match mode {
            SliceMode::Ref => Box::new(move |k| parse_quote!(&#b[#k])),
            SliceMode::Mut => Box::new(move |k| parse_quote!(&mut #b[#k])),
            SliceMode::Own => Box::new(move |k| parse_quote!(vtake_elem(&#b, #k))),
        };
        Stream { binds, native: None, len, at, infinite: false }
    }
    fn indexed(s: Stream) -> Stream {
        if let Some((lo, hi)) = s.native {
            let at = s.at;
            let lo2 = lo.clone();
            let zero = toks(&lo) == "0";
            Stream {
                binds: s.binds,
                native: None,
                len: if zero { parse_quote!(range_len(0, #hi)) } else { parse_quote!(range_len(#lo, #hi)) },
                at: Box::new(move |k| if zero { at(k) } else { let e: Expr = parse_quote!((#lo2 + #k)); at(&e) }),
                infinite: false,
            }
        } else {
            s
        }
    }
    /// Is this expression (syntactically) an iterator pipeline?
    fn looks_like_stream(e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => Self::looks_like_stream(&p.expr),
            Expr::Range(r) => r.start.is_some() && r.end.is_some(),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" if m.args.is_empty() => true,
                    "chunks" | "chunks_mut" if m.args.len() == 1 => true,
                    "enumerate" | "rev" | "cloned" | "copied" | "by_vals" | "by_refs" | "cycle" | "skip" | "take" | "zip" | "chain" | "map" | "filter" | "flat_map" | "into_par_iter" | "step_by" => {
                        Self::looks_like_stream(&m.receiver)
                    }
                    _ => false,
                }
            }
            Expr::Call(c) => ws(&toks(&c.func)) == "Iterator::zip",
            _ => false,
        }
    }
    fn stream(&mut self, e: &Expr, n: &str, hint: Option<&str>) -> Option<Stream> {
        match e {
            Expr::Paren(p) => self.stream(&p.expr, n, hint),
            Expr::Range(r) => {
                let (mut lo, mut hi) = ((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone());
                self.visit_expr_mut(&mut lo);
                self.visit_expr_mut(&mut hi);
                if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                    hi = parse_quote!((#hi + 1));
                }
                let mut binds = vec![];
                if !matches!(hi, Expr::Lit(_)) {
                    let h = id(&format!("__h{}", n));
                    binds.push(parse_quote!(let #h = #hi;));
                    hi = parse_quote!(#h);
                }
                Some(Stream { binds, native: Some((lo, hi)), len: parse_quote!(0), at: Box::new(|k| k.clone()), infinite: false })
            }
            Expr::Call(c) if ws(&toks(&c.func)) == "Iterator::zip" => {
                let a = self.stream(&c.args[0], &format!("{}a", n), hint)?;
                let b = self.stream(&c.args[1], &format!("{}b", n), hint)?;
                Some(Self::zip(a, b))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    // the positions of a density map, by value, possibly without end
                    "iter" if self.fs.opt("qdensity") && matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "as_ref" && r.args.is_empty()) => {
                        let q = id(&format!("__s{}", n));
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        Some(Stream { binds: vec![parse_quote!(let #q = #r;)], native: None, len: parse_quote!(#q.query_len()), infinite: false,
                            at: Box::new(move |k| parse_quote!(#q.query_at(#k))) })
                    }
                    // `x.as_ref()` iterated by reference
                    "as_ref" if m.args.is_empty() => {
                        let q = id(&format!("__s{}", n));
                        let mut r = e.clone();
                        visit_mut::visit_expr_mut(self, &mut r);
                        let mut s = self.slice_stream(&parse_quote!(#q), SliceMode::Ref, n);
                        s.binds.insert(0, parse_quote!(let #q = #r;));
                        Some(s)
                    }
                    "iter" => Some(self.slice_stream(&m.receiver, SliceMode::Ref, n)),
                    "iter_mut" => Some(self.slice_stream(&m.receiver, SliceMode::Mut, n)),
                    "into_iter" | "into_par_iter" => {
                        if Self::looks_like_stream(&m.receiver) {
                            return self.stream(&m.receiver, n, hint);
                        }
                        if let Expr::Call(c) = &*m.receiver {
                            if ws(&toks(&c.func)) == "Some" {
                                let x = c.args[0].clone();
                                return Some(Stream { binds: vec![], native: None, len: parse_quote!(1), at: Box::new(move |_| x.clone()), infinite: false });
                            }
                        }
                        if let Expr::Path(p) = &*m.receiver {
                            if self.slice_params.contains(&ws(&toks(p))) {
                                return Some(self.slice_stream(&m.receiver, SliceMode::Ref, n));
                            }
                        }
                        Some(self.slice_stream(&m.receiver, SliceMode::Own, n))
                    }
                    "cycle" => {
                        // only a one-element source
                        if let Expr::MethodCall(r) = &*m.receiver {
                            if r.method == "into_iter" {
                                if let Expr::Call(c) = &*r.receiver {
                                    if ws(&toks(&c.func)) == "Some" {
                                        let x = c.args[0].clone();
                                        return Some(Stream { binds: vec![], native: None, len: parse_quote!(0), at: Box::new(move |_| x.clone()), infinite: true });
                                    }
                                }
                            }
                        }
                        None
                    }
                    "chunks" | "chunks_mut" => {
                        let mut k = m.args[0].clone();
                        self.visit_expr_mut(&mut k);
                        let mutable = name == "chunks_mut";
                        let mut base = Self::strip_ref(&m.receiver);
                        let mut binds: Vec<Stmt> = vec![];
                        if !Self::is_place(&base) {
                            self.visit_expr_mut(&mut base);
                            let s = id(&format!("__s{}", n));
                            binds.push(parse_quote!(let #s = #base;));
                            base = parse_quote!(#s);
                        }
                        let c = id(&format!("__c{}", n));
                        binds.push(parse_quote!(let #c = #k;));
                        let b = base.clone();
                        let b2 = base;
                        Some(Stream {
                            binds, native: None, len: parse_quote!(chunks_count(#b.len(), #c)),
                            at: Box::new(move |k| if mutable { parse_quote!(chunk_at_mut(&mut #b2, #c, #k)) } else { parse_quote!(chunk_at(&#b2, #c, #k)) }),
                            infinite: false,
                        })
                    }
                    "enumerate" => {
                        let s = Self::indexed(self.stream(&m.receiver, n, hint)?);
                        let at = s.at;
                        Some(Stream { binds: s.binds, native: None, len: s.len, at: Box::new(move |k| { let x = at(k); parse_quote!((#k, #x)) }), infinite: s.infinite })
                    }
                    "rev" => {
                        let s = self.stream(&m.receiver, n, hint)?;
                        if s.infinite {
                            return None;
                        }
                        if let Some((lo, hi)) = s.native.clone() {
                            let at = s.at;
                            let (l2, h2) = (lo.clone(), hi.clone());
                            let zero = toks(&lo) == "0";
                            return Some(Stream { binds: s.binds, native: Some((lo, hi)), len: s.len,
                                at: Box::new(move |k| { let e: Expr = if zero { parse_quote!((#h2 - 1 - #k)) } else { parse_quote!((#h2 - 1 - (#k - #l2))) }; at(&e) }), infinite: false });
                        }
                        let (at, len) = (s.at, s.len.clone());
                        Some(Stream { binds: s.binds, native: None, len: s.len, at: Box::new(move |k| { let e: Expr = parse_quote!(#len - 1 - #k); at(&e) }), infinite: false })
                    }
                    "step_by" => {
                        let mut k = m.args[0].clone();
                        self.visit_expr_mut(&mut k);
                        let mut s = self.stream(&m.receiver, n, hint)?;
                        let c = id(&format!("__step{}", n));
                        s.binds.push(parse_quote!(let #c: usize = #k;));
                        let at = s.at;
                        match s.native {
                            Some((lo, hi)) => Some(Stream { binds: s.binds, native: None, len: parse_quote!(steps_count((#lo) as usize, (#hi) as usize, #c)), infinite: false,
                                at: Box::new(move |k| { let e: Expr = parse_quote!(((#lo) as usize + #k * #c)); at(&e) }) }),
                            None => { let l = s.len; Some(Stream { binds: s.binds, native: None, len: parse_quote!(steps_count(0, #l, #c)), infinite: false,
                                at: Box::new(move |k| { let e: Expr = parse_quote!((#k * #c)); at(&e) }) }) }
                        }
                    }
                    "cloned" | "copied" => {
                        let s = self.stream(&m.receiver, n, hint)?;
                        let at = s.at;
                        Some(Stream { at: Box::new(move |k| { let x = at(k); match &x {
                            Expr::Reference(r) => { let i = &r.expr; parse_quote!(#i.clone()) }
                            x => parse_quote!((#x).clone()) } }), ..s })
                    }
                    "by_vals" => {
                        let s = self.stream(&m.receiver, n, hint)?;
                        let at = s.at;
                        Some(Stream { at: Box::new(move |k| { let x = at(k); match &x {
                            Expr::Reference(r) => (*r.expr).clone(),
                            x => parse_quote!(*(#x)) } }), ..s })
                    }
                    "by_refs" => self.stream(&m.receiver, n, hint),
                    "skip" | "take" => {
                        let mut a = m.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        let s = Self::indexed(self.stream(&m.receiver, n, hint)?);
                        let (at, len) = (s.at, s.len);
                        if name == "skip" {
                            let a2 = a.clone();
                            Some(Stream { binds: s.binds, native: None, len: parse_quote!(sat_sub(#len, #a)), infinite: s.infinite,
                                at: Box::new(move |k| { let e: Expr = parse_quote!((#k + #a2)); at(&e) }) })
                        } else {
                            let l: Expr = if s.infinite { a } else { parse_quote!(usize_min(#len, #a)) };
                            Some(Stream { binds: s.binds, native: None, len: l, infinite: false, at })
                        }
                    }
                    "zip" => {
                        let a = self.stream(&m.receiver, &format!("{}a", n), hint)?;
                        let arg = m.args[0].clone();
                        let b = if Self::looks_like_stream(&arg) { self.stream(&arg, &format!("{}b", n), hint)? } else { self.slice_stream(&arg, SliceMode::Ref, &format!("{}b", n)) };
                        Some(Self::zip(a, b))
                    }
                    "chain" => {
                        let a = Self::indexed(self.stream(&m.receiver, &format!("{}a", n), hint)?);
                        let arg = m.args[0].clone();
                        let b = if Self::looks_like_stream(&arg) {
                            Self::indexed(self.stream(&arg, &format!("{}b", n), hint)?)
                        } else if let Expr::Call(c) = &arg {
                            if ws(&toks(&c.func)) == "Some" {
                                let x = c.args[0].clone();
                                let x: Expr = if matches!(x, Expr::Path(_)) { parse_quote!(vtake_one(&#x)) } else { x };
                                Stream { binds: vec![], native: None, len: parse_quote!(1), at: Box::new(move |_| x.clone()), infinite: false }
                            } else {
                                return None;
                            }
                        } else {
                            self.slice_stream(&arg, SliceMode::Ref, &format!("{}b", n))
                        };
                        let mut binds = a.binds;
                        binds.extend(b.binds);
                        let (la, lb) = (a.len.clone(), b.len);
                        let (aa, ab) = (a.at, b.at);
                        let la2 = la.clone();
                        Some(Stream { binds, native: None, infinite: b.infinite,
                            len: parse_quote!(#la + #lb),
                            at: Box::new(move |k| { let x = aa(k); let kk: Expr = parse_quote!((#k - #la2)); let y = ab(&kk);
                                parse_quote!(if #k < #la2 { #x } else { #y }) }) })
                    }
                    "map" => {
                        let s = self.stream(&m.receiver, n, hint)?;
                        let f = m.args[0].clone();
                        let at = s.at;
                        let (pat, body) = match self.closure_parts(&f) {
                            Some(x) => x,
                            None => {
                                // path function
                                return Some(Stream { at: Box::new(move |k| { let x = at(k); parse_quote!(#f(#x)) }), ..s });
                            }
                        };
                        // body is lowered by the sink (it may contain loops): mark it
                        Some(Stream { at: Box::new(move |k| { let x = at(k); parse_quote!(__vbeta(#x, |#pat| #body)) }), ..s })
                    }
                    _ => None,
                }
            }
            e if hint.is_some() => {
                let mode = match hint.unwrap() {
                    "mut" => SliceMode::Mut,
                    "own" => SliceMode::Own,
                    _ => if let Expr::Reference(r) = e { if r.mutability.is_some() { SliceMode::Mut } else { SliceMode::Ref } } else { SliceMode::Ref },
                };
                Some(self.slice_stream(e, mode, n))
            }
            _ => None,
        }
    }
    fn zip(a: Stream, b: Stream) -> Stream {
        let (a, b) = (Self::indexed(a), Self::indexed(b));
        let mut binds = a.binds;
        binds.extend(b.binds);
        let (la, lb) = (a.len, b.len);
        let (aa, ab) = (a.at, b.at);
        let len = if a.infinite { lb } else if b.infinite { la } else { parse_quote!(usize_min(#la, #lb)) };
        Stream { binds, native: None, infinite: a.infinite && b.infinite, len, at: Box::new(move |k| { let x = aa(k); let y = ab(k); parse_quote!((#x, #y)) }) }
    }
    fn closure_parts(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = f {
            if c.inputs.len() == 1 {
                return Some((c.inputs[0].clone(), (*c.body).clone()));
            }
        }
        None
    }
    /// let-bind the element expression to the pattern, expanding `__vbeta`
    fn bind_elem(&mut self, pat: Pat, e: Expr) -> Vec<Stmt> {
        let (mut st, x) = self.elem(e);
        st.extend(self.let_stmts(pat, x));
        st
    }
    /// expand an element expression: statements + value
    fn elem(&mut self, e: Expr) -> (Vec<Stmt>, Expr) {
        if let Expr::Call(c) = &e {
            if ws(&toks(&c.func)) == "__vbeta" {
                let x = c.args[0].clone();
                if let Expr::Closure(cl) = &c.args[1] {
                    let mut st = self.bind_elem(cl.inputs[0].clone(), x);
                    match &*cl.body {
                        Expr::Block(b) if b.label.is_none() => {
                            let mut blk = b.block.clone();
                            match blk.stmts.pop() {
                                Some(Stmt::Expr(t, None)) => {
                                    st.extend(blk.stmts);
                                    return (st, t);
                                }
                                Some(s) => {
                                    blk.stmts.push(s);
                                    st.extend(blk.stmts);
                                    return (st, parse_quote!(()));
                                }
                                None => return (st, parse_quote!(())),
                            }
                        }
                        b => return (st, b.clone()),
                    }
                }
            }
        }
        if let Expr::Tuple(t) = &e {
            // tuples of elements (zip/enumerate over mapped streams)
            let mut st = vec![];
            let mut t2 = t.clone();
            for x in t2.elems.iter_mut() {
                let (s, v) = self.elem(x.clone());
                if !s.is_empty() {
                    let f = self.fresh("t");
                    st.push(parse_quote!(let #f = { #(#s)* #v };));
                    *x = parse_quote!(#f);
                }
            }
            return (st, Expr::Tuple(t2));
        }
        (vec![], e)
    }

    /// Build the loop over a stream; `body` receives the element.
    fn drive(&mut self, n: usize, s: Stream, init: Vec<Stmt>, body: impl FnOnce(&mut Self, Expr) -> Vec<Stmt>, extra_cond: Option<Expr>) -> Vec<Stmt> {
        let i = id(&format!("__i{}", n));
        let k = id(&format!("__k{}", n));
        let nn = id(&format!("__n{}", n));
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        let mut out = s.binds;
        out.extend(init);
        if s.infinite {
            self.e("unbounded iterator");
        }
        match &s.native {
            Some((lo, hi)) => {
                out.push(parse_quote!(let mut #i = #lo;));
                out.push(parse_quote!(let #nn = #hi;));
            }
            None => {
                let len = &s.len;
                out.push(parse_quote!(let mut #i: usize = 0;));
                out.push(parse_quote!(let #nn: usize = #len;));
            }
        }
        let ke: Expr = parse_quote!(#k);
        let el = (s.at)(&ke);
        let mut b = body(self, el);
        let mut cond: Expr = parse_quote!(#i < #nn);
        if let Some(c) = extra_cond {
            cond = parse_quote!(#cond && #c);
        }
        let (bl, ls, le, al) = (format!("before_loop {}", n), format!("loopstart {}", n), format!("loopend {}", n), format!("after_loop {}", n));
        let mut stmts: Vec<Stmt> = vec![
            parse_quote!(__vloop!(#lit);),
            parse_quote!(let #k = #i;),
            parse_quote!(#i = #i + 1;),
            parse_quote!(__vat!{#ls};),
        ];
        stmts.append(&mut b);
        stmts.push(parse_quote!(__vat!{#le};));
        out.push(parse_quote!(__vat!{#bl};));
        out.push(Stmt::Expr(parse_quote!(while #cond { #(#stmts)* }), None));
        out.push(parse_quote!(__vat!{#al};));
        out
    }
    fn visit_stmts(&mut self, st: Vec<Stmt>) -> Vec<Stmt> {
        let mut b: Block = parse_quote!({ #(#st)* });
        self.visit_block_mut(&mut b);
        b.stmts
    }
    fn new_loop(&mut self) -> usize {
        self.loopno += 1;
        self.loopno - 1
    }

    /// terminal operations on a pipeline
    fn sink(&mut self, e: &Expr) -> Option<Expr> {
        // collect()? on results
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &*t.expr {
                if m.method == "collect" && Self::looks_like_stream(&m.receiver) {
                    let tf = m.turbofish.as_ref().map(|t| ws(&toks(t))).unwrap_or_default();
                    let _ = tf;
                    let n = self.new_loop();
                    return self.collect(n, &m.receiver, true);
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "extend" && m.args.len() == 1 && Self::looks_like_stream(&m.args[0]) {
                let n = self.new_loop();
                let v = m.receiver.clone();
                let c = self.collect(n, &m.args[0].clone(), false)?;
                return Some(parse_quote!(vappend(&mut #v, #c)));
            }
            if !Self::looks_like_stream(&m.receiver) {
                return None;
            }
            let name = m.method.to_string();
            match name.as_str() {
                "collect" => {
                    let n = self.new_loop();
                    return self.collect(n, &m.receiver, false);
                }
                "fold" => {
                    let n = self.new_loop();
                    let mut init = m.args[0].clone();
                    self.visit_expr_mut(&mut init);
                    let s = self.stream(&m.receiver, &n.to_string(), None)?;
                    let c = match &m.args[1] { Expr::Closure(c) if c.inputs.len() == 2 => c.clone(), _ => return None };
                    let acc = id(&format!("__acc{}", n));
                    let ini: Stmt = parse_quote!(let mut #acc = #init;);
                    let st = self.drive(n, s, vec![ini], |me, el| {
                        let mut st = me.let_stmts(c.inputs[0].clone(), parse_quote!(#acc));
                        st.extend(me.bind_elem(c.inputs[1].clone(), el));
                        let b = &c.body;
                        st.push(parse_quote!(#acc = #b;));
                        me.visit_stmts(st)
                    }, None);
                    return Some(parse_quote!({ #(#st)* #acc }));
                }
                "any" | "all" => {
                    let n = self.new_loop();
                    let s = self.stream(&m.receiver, &n.to_string(), None)?;
                    let c = match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => c.clone(), _ => return None };
                    let acc = id(&format!("__acc{}", n));
                    let any = name == "any";
                    let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                    let ini: Stmt = parse_quote!(let mut #acc = #init;);
                    let cond: Expr = if any { parse_quote!(!#acc) } else { parse_quote!(#acc) };
                    let st = self.drive(n, s, vec![ini], |me, el| {
                        let mut st = me.bind_elem(c.inputs[0].clone(), el);
                        let b = &c.body;
                        st.push(parse_quote!(#acc = #b;));
                        me.visit_stmts(st)
                    }, Some(cond));
                    return Some(parse_quote!({ #(#st)* #acc }));
                }
                "sum" => {
                    let n = self.new_loop();
                    let s = self.stream(&m.receiver, &n.to_string(), None)?;
                    let acc = id(&format!("__acc{}", n));
                    let ini: Stmt = parse_quote!(let mut #acc = vsum_zero(););
                    let st = self.drive(n, s, vec![ini], |me, el| {
                        let (mut st, v) = me.elem(el);
                        if me.fs.opt("gops") { st.push(parse_quote!(#acc = vsum_add(#acc, #v);)); } else { st.push(parse_quote!(#acc = #acc + #v;)); }
                        me.visit_stmts(st)
                    }, None);
                    return Some(parse_quote!({ #(#st)* #acc }));
                }
                "try_fold" => {
                    // on success paths only: acc = f(acc, x)?
                    let n = self.new_loop();
                    let mut init = m.args[0].clone();
                    self.visit_expr_mut(&mut init);
                    let s = self.stream(&m.receiver, &n.to_string(), None)?;
                    let c = match &m.args[1] { Expr::Closure(c) if c.inputs.len() == 2 => c.clone(), _ => return None };
                    let acc = id(&format!("__acc{}", n));
                    let ini: Stmt = parse_quote!(let mut #acc = #init;);
                    let st = self.drive(n, s, vec![ini], |me, el| {
                        let mut st = me.let_stmts(c.inputs[0].clone(), parse_quote!(#acc));
                        st.extend(me.bind_elem(c.inputs[1].clone(), el));
                        let b = &c.body;
                        st.push(parse_quote!(#acc = match #b { Ok(__x) => __x, Err(__e) => return Err(__e) };));
                        me.visit_stmts(st)
                    }, None);
                    return Some(parse_quote!({ #(#st)* Ok(#acc) }));
                }
                _ => return None,
            }
        }
        None
    }
    fn collect(&mut self, n: usize, recv: &Expr, tr: bool) -> Option<Expr> {
        let out = id(&format!("__out{}", n));
        let ini: Stmt = parse_quote!(let mut #out = Vec::new(););
        let st = self.collect_into(n, recv, tr, &out, vec![ini])?;
        Some(parse_quote!({ #(#st)* #out }))
    }
    fn collect_into(&mut self, n: usize, recv: &Expr, tr: bool, out: &Ident, init: Vec<Stmt>) -> Option<Vec<Stmt>> {
        // adaptors after a flat_map (map/enumerate ...) are not handled
        if let Expr::MethodCall(m) = recv {
            if m.method == "flat_map" {
                let (pat, body) = self.closure_parts(&m.args[0])?;
                let s = self.stream(&m.receiver, &n.to_string(), None)?;
                let out = out.clone();
                let mut fail = false;
                let st = self.drive(n, s, init, |me, el| {
                    let mut st = me.bind_elem(pat, el);
                    if Self::looks_like_stream(&body) {
                        let k = me.new_loop();
                        let st2 = me.visit_stmts(std::mem::take(&mut st));
                        match me.collect_into(k, &body, false, &out, vec![]) {
                            Some(x) => {
                                let mut r = st2;
                                r.extend(x);
                                r
                            }
                            None => { fail = true; vec![] }
                        }
                    } else {
                        st.push(parse_quote!(vappend(&mut #out, #body);));
                        me.visit_stmts(st)
                    }
                }, None);
                if fail { return None; }
                return Some(st);
            }
        }
        if let Expr::MethodCall(m) = recv {
            if m.method == "filter" && m.args.len() == 1 {
                let (pat, body) = self.closure_parts(&m.args[0])?;
                let s = self.stream(&m.receiver, &n.to_string(), None)?;
                let out = out.clone();
                let x = id(&format!("__f{}", n));
                return Some(self.drive(n, s, init, |me, el| {
                    let (mut st, v) = me.elem(el);
                    st.push(parse_quote!(let #x = #v;));
                    st.push(parse_quote!(if { let #pat = &#x; #body } { #out.push(#x); }));
                    me.visit_stmts(st)
                }, None));
            }
        }
        let s = self.stream(recv, &n.to_string(), None)?;
        let out = out.clone();
        Some(self.drive(n, s, init, |me, el| {
            let (mut st, v) = me.elem(el);
            if tr {
                // Ok(x) needs no `?`
                let mut done = false;
                if let Expr::Call(c) = &v {
                    if ws(&toks(&c.func)) == "Ok" {
                        let x = &c.args[0];
                        st.push(parse_quote!(let __v = #x;));
                        done = true;
                    }
                }
                if !done {
                    st.push(parse_quote!(let __v = (#v)?;));
                }
                st.push(parse_quote!(#out.push(__v);));
            } else {
                st.push(parse_quote!(let __v = #v;));
                st.push(parse_quote!(#out.push(__v);));
            }
            me.visit_stmts(st)
        }, None))
    }

    // ---- witness closures: A-normal form of `?` --------------------------
    fn find_try(e: &mut Expr, fresh: &mut dyn FnMut() -> Ident, out: &mut Vec<(Ident, Expr)>, errs: &mut Vec<String>) {
        struct T<'b> {
            fresh: &'b mut dyn FnMut() -> Ident,
            out: &'b mut Vec<(Ident, Expr)>,
            errs: &'b mut Vec<String>,
        }
        impl<'b> VisitMut for T<'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Closure(_) => return,
                    Expr::If(i) => {
                        self.visit_expr_mut(&mut i.cond);
                        if has_try_block(&i.then_branch) || i.else_branch.as_ref().map_or(false, |x| has_try(&x.1)) {
                            self.errs.push("`?` inside a non-tail branch of a witness closure".into());
                        }
                        return;
                    }
                    Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_) => {
                        if has_try(e) {
                            self.errs.push("`?` inside nested control flow of a witness closure".into());
                        }
                        return;
                    }
                    Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) => {
                        self.visit_expr_mut(&mut b.left);
                        if has_try(&b.right) {
                            self.errs.push("`?` in a short-circuit operand".into());
                        }
                        return;
                    }
                    Expr::Return(_) => {
                        self.errs.push("return in a witness closure".into());
                    }
                    _ => {}
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Try(t) = e {
                    let i = (self.fresh)();
                    self.out.push((i.clone(), (*t.expr).clone()));
                    *e = parse_quote!(#i);
                }
            }
        }
        T { fresh, out, errs }.visit_expr_mut(e);
    }
    fn anf_expr(&mut self, e: Expr) -> Expr {
        // tail position
        match e {
            Expr::Block(b) if b.label.is_none() => self.anf_block(b.block),
            Expr::Paren(p) => self.anf_expr(*p.expr),
            Expr::If(mut i) if has_try(&Expr::If(i.clone())) => {
                let mut tries = vec![];
                let mut c = (*i.cond).clone();
                self.tries(&mut c, &mut tries);
                i.cond = Box::new(c);
                let tb = self.anf_block(i.then_branch.clone());
                i.then_branch = parse_quote!({ #tb });
                if let Some((el, x)) = i.else_branch.take() {
                    let x2 = self.anf_expr(*x);
                    i.else_branch = Some((el, Box::new(parse_quote!({ #x2 }))));
                }
                self.wrap(tries, Expr::If(i))
            }
            Expr::Match(mut m) if has_try(&Expr::Match(m.clone())) => {
                let mut tries = vec![];
                let mut c = (*m.expr).clone();
                self.tries(&mut c, &mut tries);
                m.expr = Box::new(c);
                for a in m.arms.iter_mut() {
                    let x = self.anf_expr((*a.body).clone());
                    a.body = Box::new(x);
                }
                self.wrap(tries, Expr::Match(m))
            }
            mut e => {
                let mut tries = vec![];
                self.tries(&mut e, &mut tries);
                self.wrap(tries, e)
            }
        }
    }
    fn tries(&mut self, e: &mut Expr, out: &mut Vec<(Ident, Expr)>) {
        let mut cnt = self.fresh;
        let mut errs = vec![];
        {
            let mut f = || {
                cnt += 1;
                id(&format!("__q{}", cnt - 1))
            };
            Self::find_try(e, &mut f, out, &mut errs);
        }
        self.fresh = cnt;
        self.errs.extend(errs);
    }
    fn wrap(&mut self, tries: Vec<(Ident, Expr)>, e: Expr) -> Expr {
        let mut r = e;
        for (i, t) in tries.into_iter().rev() {
            r = parse_quote!(match #t { Err(__e) => Err(__e), Ok(#i) => { #r } });
        }
        r
    }
    fn anf_block(&mut self, b: Block) -> Expr {
        self.anf_stmts(b.stmts)
    }
    fn anf_stmts(&mut self, st: Vec<Stmt>) -> Expr {
        let mut pre: Vec<Stmt> = vec![];
        let n = st.len();
        for (k, s) in st.iter().enumerate() {
            match s {
                Stmt::Expr(e, None) if k + 1 == n => {
                    let t = self.anf_expr(e.clone());
                    return parse_quote!({ #(#pre)* #t });
                }
                Stmt::Local(l) => {
                    let mut l = l.clone();
                    let mut tries = vec![];
                    if let Some(i) = l.init.as_mut() {
                        let mut x = (*i.expr).clone();
                        self.tries(&mut x, &mut tries);
                        i.expr = Box::new(x);
                    }
                    if tries.is_empty() {
                        pre.push(Stmt::Local(l));
                    } else {
                        let rest = self.anf_stmts(st[k + 1..].to_vec());
                        let inner = self.wrap(tries, parse_quote!({ #l #rest }));
                        return parse_quote!({ #(#pre)* #inner });
                    }
                }
                Stmt::Expr(e, semi) => {
                    let mut x = e.clone();
                    let mut tries = vec![];
                    self.tries(&mut x, &mut tries);
                    let s2 = Stmt::Expr(x, *semi);
                    if tries.is_empty() {
                        pre.push(s2);
                    } else {
                        let rest = self.anf_stmts(st[k + 1..].to_vec());
                        let inner = self.wrap(tries, parse_quote!({ #s2 #rest }));
                        return parse_quote!({ #(#pre)* #inner });
                    }
                }
                s => pre.push(s.clone()),
            }
        }
        parse_quote!({ #(#pre)* })
    }
    fn witness(&mut self, c: &syn::ExprClosure, cs: &Expr) -> Expr {
        let body = self.anf_expr((*c.body).clone());
        parse_quote!(if #cs.calls_witness() { Some(#body) } else { None })
    }
    /// strip namespace()/&mut/get_root() from a constraint-system expression
    fn cs_place(e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.method == "namespace" || m.method == "get_root" => Self::cs_place(&m.receiver).or_else(|| Some((*m.receiver).clone())),
            Expr::Reference(r) if r.mutability.is_some() => Self::cs_place(&r.expr).or_else(|| match &*r.expr { Expr::Path(p) if ws(&toks(p)) == "cs" => Some((*r.expr).clone()), _ => None }),
            Expr::Path(p) if ws(&toks(p)) == "cs" => Some(e.clone()),
            Expr::Paren(p) => Self::cs_place(&p.expr),
            _ => None,
        }
    }
    fn lc_closure(&mut self, e: &Expr) -> Expr {
        if let Expr::Closure(c) = e {
            let b = &c.body;
            if c.inputs.len() == 1 {
                return match &c.inputs[0] {
                    Pat::Wild(_) => (**b).clone(),
                    p => parse_quote!({ let #p = LinearCombination::zero(); #b }),
                };
            }
        }
        e.clone()
    }
}

fn has_try(e: &Expr) -> bool {
    struct H(bool);
    impl<'x> syn::visit::Visit<'x> for H {
        fn visit_expr_try(&mut self, _: &'x syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'x syn::ExprClosure) {}
    }
    let mut h = H(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
fn has_try_block(b: &Block) -> bool {
    has_try(&parse_quote!(#b))
}

struct RepeatArgs(Expr, Expr);
impl syn::parse::Parse for RepeatArgs {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let a = i.parse()?;
        i.parse::<Token![;]>()?;
        Ok(RepeatArgs(a, i.parse()?))
    }
}
struct MatchesArgs(Expr, Pat);
impl syn::parse::Parse for MatchesArgs {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let a = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        Ok(MatchesArgs(a, p))
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // MultiEq locals: own the borrowed system, hand it back at end of scope
        if let Some(k) = b.stmts.iter().position(|s| match s {
            Stmt::Local(l) => l.init.as_ref().map_or(false, |i| ws(&toks(&i.expr)).starts_with("MultiEq::new(")),
            _ => false,
        }) {
            let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
            let l = match b.stmts.pop() { Some(Stmt::Local(l)) => l, _ => unreachable!() };
            let name = match &l.pat { Pat::Ident(p) => p.ident.clone(), _ => id("cs") };
            let arg = match &*l.init.unwrap().expr { Expr::Call(c) => c.args[0].clone(), _ => { self.e("MultiEq::new"); parse_quote!(cs) } };
            let outer = Self::cs_place(&arg).unwrap_or(arg);
            let m = id(&format!("__meq{}", self.meq));
            let r = id(&format!("__meqr{}", self.meq));
            self.meq += 1;
            b.stmts.push(parse_quote!(let mut #m = MultiEq::new(cs_take(#outer));));
            let has_tail = matches!(rest.last(), Some(Stmt::Expr(_, None)));
            if has_tail {
                b.stmts.push(parse_quote!(let #r = { let #name = &mut #m; #(#rest)* };));
                b.stmts.push(parse_quote!(#m.drop_();));
                b.stmts.push(parse_quote!(cs_put(#outer, #m);));
                b.stmts.push(Stmt::Expr(parse_quote!(#r), None));
            } else {
                b.stmts.push(Stmt::Expr(parse_quote!({ let #name = &mut #m; #(#rest)* }), None));
                b.stmts.push(parse_quote!(#m.drop_();));
                b.stmts.push(parse_quote!(cs_put(#outer, #m);));
            }
        }
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                // a closure bound to a local and extracted on its own
                Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if self.captures(&p.ident.to_string()).is_some()) && matches!(l.init.as_ref().map(|i| &*i.expr), Some(Expr::Closure(_))) => {}
                Stmt::Local(mut l) => {
                    // `let cs = cs.namespace(..)`: reborrow
                    if let Some(i) = l.init.as_mut() {
                        let plain = match &*i.expr { Expr::Reference(r) if r.mutability.is_some() && !self.fs.opt("raw") => (*r.expr).clone(), x => x.clone() };
                        if let Expr::MethodCall(m) = &plain {
                            if m.method == "namespace" {
                                let r = Self::cs_place(&m.receiver).unwrap_or((*m.receiver).clone());
                                i.expr = Box::new(parse_quote!(&mut *#r));
                                if let Pat::Ident(p) = &mut l.pat {
                                    p.mutability = None;
                                }
                                out.push(Stmt::Local(l));
                                continue;
                            }
                        }
                        let mut e = (*i.expr).clone();
                        self.visit_expr_mut(&mut e);
                        i.expr = Box::new(e);
                        if let Some((_, d)) = i.diverge.as_mut() {
                            self.visit_expr_mut(d);
                        }
                    }
                    let pat = l.pat.clone();
                    let ty_ann = matches!(pat, Pat::Type(_));
                    if let (Some(i), false, true) = (&l.init, ty_ann, l.init.as_ref().map_or(true, |i| i.diverge.is_none())) {
                        let e = (*i.expr).clone();
                        if matches!(pat, Pat::Ident(_)) {
                            out.push(Stmt::Local(l));
                        } else {
                            out.extend(self.let_stmts(pat, e));
                        }
                    } else {
                        out.push(Stmt::Local(l));
                    }
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    // flatten loop blocks produced by lowering of `for`
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Macro(m) => out.push(Stmt::Macro(m)),
                Stmt::Item(i) => out.push(Stmt::Item(i)),
            }
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let (p, d) = self.strip_pat(a.pat.clone(), false);
        a.pat = p;
        if !d.is_empty() {
            if a.guard.is_some() {
                self.e("guard on an arm binding by copy");
            }
            let b = &a.body;
            a.body = Box::new(parse_quote!({ #(let #d = *#d;)* #b }));
        }
        if let Some((_, g)) = a.guard.as_mut() {
            self.visit_expr_mut(g);
        }
        self.visit_expr_mut(&mut a.body);
    }

    fn visit_expr_let_mut(&mut self, l: &mut syn::ExprLet) {
        let (p, d) = self.strip_pat((*l.pat).clone(), false);
        if !d.is_empty() {
            self.e("if-let binding by copy under &");
        }
        l.pat = Box::new(p);
        self.visit_expr_mut(&mut l.expr);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // worker.scope(n, |scope, chunk| body)
        if let Expr::MethodCall(m) = e {
            if m.method == "scope" && m.args.len() == 2 {
                if let Expr::Closure(c) = &m.args[1] {
                    let mut n = m.args[0].clone();
                    self.visit_expr_mut(&mut n);
                    let w = &m.receiver;
                    let body = &c.body;
                    let st: Vec<Stmt> = match &c.inputs[1] {
                        Pat::Wild(_) => vec![],
                        p => vec![parse_quote!(let #p = #w.scope_chunk(#n);)],
                    };
                    let mut x: Expr = parse_quote!({ #(#st)* #body });
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
            }
            if m.method == "compute" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let body = &c.body;
                    let mut w = (*m.receiver).clone();
                    self.visit_expr_mut(&mut w);
                    let mut b = (**body).clone();
                    self.visit_expr_mut(&mut b);
                    let r = self.fresh("c");
                    *e = parse_quote!({ let #r = #b; #w.computed(#r) });
                    return;
                }
            }
            if m.method == "spawn" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let body = &c.body;
                    let mut x: Expr = match &**body { Expr::Block(_) => (**body).clone(), b => parse_quote!({ #b; }) };
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
            }
        }
        // constraint system calls
        if self.fs.opt("raw") {
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match (name.as_str(), m.args.len()) {
                ("namespace", 1) => {
                    let mut r = Self::cs_place(&m.receiver).unwrap_or((*m.receiver).clone());
                    if !matches!(r, Expr::Path(_)) {
                        self.visit_expr_mut(&mut r);
                    }
                    *e = r;
                    return;
                }
                ("get_root", 0) if !self.fs.opt("keep_root") => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = r;
                    return;
                }
                ("alloc", 2) | ("alloc_input", 2) => {
                    let mut recv = Self::cs_place(&m.receiver).unwrap_or((*m.receiver).clone());
                    self.visit_expr_mut(&mut recv);
                    let meth = &m.method;
                    if let Expr::Closure(c) = &m.args[1] {
                        let c = c.clone();
                        let w = self.witness(&c, &recv);
                        let v = self.fresh("w");
                        let mut x: Expr = parse_quote!({ let #v = #w; #recv.#meth(#v) });
                        // visit inner parts (patterns, maps) without re-entering alloc
                        if let Expr::Block(b) = &mut x {
                            if let Stmt::Local(l) = &mut b.block.stmts[0] {
                                self.visit_expr_mut(&mut l.init.as_mut().unwrap().expr);
                            }
                        }
                        *e = x;
                    } else {
                        let f = m.args[1].clone();
                        *e = parse_quote!(#recv.#meth(#f));
                    }
                    return;
                }
                ("enforce", 4) => {
                    let mut recv = Self::cs_place(&m.receiver).unwrap_or((*m.receiver).clone());
                    self.visit_expr_mut(&mut recv);
                    let mut a = vec![];
                    for k in 1..4 {
                        let mut x = self.lc_closure(&m.args[k]);
                        self.visit_expr_mut(&mut x);
                        a.push(x);
                    }
                    let (x, y, z) = (&a[0], &a[1], &a[2]);
                    *e = parse_quote!(#recv.enforce(#x, #y, #z));
                    return;
                }
                _ => {}
            }
        }
        if let Expr::Call(c) = e {
            if let Some(cap) = self.captures(&ws(&toks(&c.func))) {
                for x in cap {
                    let x: Expr = syn::parse_str(&x).unwrap();
                    c.args.push(x);
                }
            }
        }
        if let Expr::Call(c) = e {
            let fname = ws(&toks(&c.func));
            // LC-typed parameter applied to zero()
            if self.lc_params.contains(&fname) && c.args.len() == 1 {
                *e = (*c.func).clone();
                return;
            }
            if self.witness_params.contains(&fname) && c.args.is_empty() {
                let f = &c.func;
                *e = parse_quote!(#f.unwrap());
                return;
            }
            // calls taking a witness closure
            if let Some(pos) = c.args.iter().position(|a| matches!(a, Expr::Closure(cl) if cl.inputs.is_empty())) {
                let cs = Self::cs_place(&c.args[0]);
                match cs {
                    None => self.e("witness closure without a constraint system argument"),
                    Some(cs) => {
                        if let Expr::Closure(cl) = c.args[pos].clone() {
                            let mut w = self.witness(&cl, &cs);
                            self.visit_expr_mut(&mut w);
                            let v = self.fresh("w");
                            let mut c2 = c.clone();
                            c2.args[pos] = parse_quote!(#v);
                            let mut x = Expr::Call(c2);
                            self.visit_expr_mut(&mut x);
                            *e = parse_quote!({ let #v = #w; #x });
                            return;
                        }
                    }
                }
            }
            // pipelines passed where a slice parameter is expected
            for a in c.args.iter_mut() {
                if !self.fs.opt("rawiter") && Self::looks_like_stream(a) && !matches!(a, Expr::Range(_)) {
                    let n = self.new_loop();
                    let x = match self.collect(n, &a.clone(), false) {
                        Some(x) => x,
                        None => { self.e(format!("iterator pipeline {}", toks(a))); continue; }
                    };
                    *a = parse_quote!(vcollect_refs(#x));
                }
            }
            // drop turbofish containing `_`
            if let Expr::Path(p) = &mut *c.func {
                for s in p.path.segments.iter_mut() {
                    if let syn::PathArguments::AngleBracketed(ab) = &s.arguments {
                        if ws(&toks(ab)).contains(",_") || ws(&toks(ab)).contains(",CS") {
                            s.arguments = syn::PathArguments::None;
                        }
                    }
                }
            }
            // `&mut cs` -> `cs` in call arguments
            for a in c.args.iter_mut() {
                if let Some(p) = Self::cs_place(a) {
                    *a = p;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Some(p) = Self::cs_place(a) {
                    *a = p;
                }
            }
        }
        // pipelines with a terminal operation
        if let Some(x) = self.sink(e) {
            *e = x;
            return;
        }
        match e {
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    self.e("labelled loop");
                }
                let n = self.new_loop();
                let hint = self.fs.optval(&format!("iter{}", n)).unwrap_or("ref".into());
                let s = self.stream(&f.expr, &n.to_string(), Some(&hint));
                let s = match s {
                    Some(s) => s,
                    None => {
                        self.e(format!("loop over {}", toks(&f.expr)));
                        return;
                    }
                };
                let pat = (*f.pat).clone();
                let body = f.body.clone();
                let st = self.drive(n, s, vec![], |me, el| {
                    let mut st = me.bind_elem(pat, el);
                    st = me.visit_stmts(st);
                    let mut b = body;
                    me.visit_block_mut(&mut b);
                    // a trailing unit expression needs a semicolon before markers
                    if let Some(Stmt::Expr(x, None)) = b.stmts.last().cloned() {
                        b.stmts.pop();
                        b.stmts.push(Stmt::Expr(x, Some(Default::default())));
                    }
                    st.extend(b.stmts);
                    st
                }, None);
                *e = parse_quote!({ #(#st)* });
                return;
            }
            // lowered already
            Expr::While(w) if matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vloop")) => return,
            Expr::While(w) => {
                let n = self.new_loop();
                let lit = proc_macro2::Literal::usize_unsuffixed(n);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (bl, ls, le, al) = (format!("before_loop {}", n), format!("loopstart {}", n), format!("loopend {}", n), format!("after_loop {}", n));
                if let Some(Stmt::Expr(x, None)) = w.body.stmts.last().cloned() {
                    w.body.stmts.pop();
                    w.body.stmts.push(Stmt::Expr(x, Some(Default::default())));
                }
                w.body.stmts.insert(0, parse_quote!(__vat!{#ls};));
                w.body.stmts.insert(0, parse_quote!(__vloop!(#lit);));
                w.body.stmts.push(parse_quote!(__vat!{#le};));
                let w2 = w.clone();
                *e = parse_quote!({ __vat!{#bl}; #w2 __vat!{#al}; });
                return;
            }
            Expr::Loop(w) => {
                let n = self.new_loop();
                let lit = proc_macro2::Literal::usize_unsuffixed(n);
                self.visit_block_mut(&mut w.body);
                // `break v`: the value travels in a local
                struct B(Ident, bool);
                impl VisitMut for B {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        match e {
                            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => return,
                            Expr::Break(b) if b.expr.is_some() && b.label.is_none() => {
                                let (v, x) = (self.0.clone(), b.expr.clone().unwrap());
                                self.1 = true;
                                *e = parse_quote!({ #v = Some(#x); break; });
                            }
                            _ => visit_mut::visit_expr_mut(self, e),
                        }
                    }
                }
                let mut b = B(id(&format!("__b{}", n)), false);
                b.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_quote!(__vloop!(#lit);));
                if b.1 {
                    let v = b.0;
                    let w2 = w.clone();
                    let l: Stmt = Stmt::Expr(Expr::Loop(w2), Some(Default::default()));
                    *e = parse_quote!({ let mut #v = None; #l #v.unwrap() });
                }
                return;
            }
            // conversions between group types
            Expr::MethodCall(m) if self.fs.opt("gops") && m.method == "into" && m.args.is_empty() => {
                m.method = id("conv");
                self.visit_expr_mut(e);
                return;
            }
            Expr::Call(c) if self.fs.opt("gops") && c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() >= 2 && p.path.segments.last().unwrap().ident == "from") => {
                if let Expr::Path(p) = &mut *c.func { p.path.segments.last_mut().unwrap().ident = id("from_aff"); }
                self.visit_expr_mut(e);
                return;
            }
            // operator traits called by name
            Expr::Call(c) if self.fs.opt("gops") && c.args.len() == 2 && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && ["AddAssign", "SubAssign", "MulAssign"].contains(&p.path.segments[0].ident.to_string().as_str())) => {
                let nm = if let Expr::Path(p) = &*c.func { id(&format!("g{}", p.path.segments[1].ident)) } else { unreachable!() };
                let mut recv = c.args[0].clone();
                if let Expr::Reference(r) = &recv { if r.mutability.is_some() { recv = (*r.expr).clone(); } }
                let arg = c.args[1].clone();
                *e = parse_quote!((#recv).#nm(#arg));
                self.visit_expr_mut(e);
                return;
            }
            // Option/Result map with a closure
            Expr::MethodCall(m) if (m.method == "map" || m.method == "and_then") && m.args.len() == 1 && !Self::looks_like_stream(&m.receiver) => {
                let is_res = self.fs.opt("resmap") || matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "get" && r.args.is_empty());
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let map = m.method == "map";
                match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let v = self.fresh("o");
                        let mut st = self.let_stmts(c.inputs[0].clone(), parse_quote!(#v));
                        let b = (*c.body).clone();
                        st.push(Stmt::Expr(b, None));
                        let mut blk: Expr = parse_quote!({ #(#st)* });
                        self.visit_expr_mut(&mut blk);
                        *e = match (is_res, map) {
                            (false, true) => parse_quote!(match #r { Some(#v) => Some(#blk), None => None }),
                            (false, false) => parse_quote!(match #r { Some(#v) => #blk, None => None }),
                            (true, true) => parse_quote!(match #r { Ok(#v) => Ok(#blk), Err(__e) => Err(__e) }),
                            (true, false) => parse_quote!(match #r { Ok(#v) => #blk, Err(__e) => Err(__e) }),
                        };
                        return;
                    }
                    Expr::Path(p) => {
                        let v = self.fresh("o");
                        *e = if is_res { parse_quote!(match #r { Ok(#v) => Ok(#p(#v)), Err(__e) => Err(__e) }) } else { parse_quote!(match #r { Some(#v) => Some(#p(#v)), None => None }) };
                        return;
                    }
                    _ => {}
                }
            }
            Expr::MethodCall(m) if m.method == "expect" && m.args.len() == 1 => {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = parse_quote!(#r.unwrap());
                return;
            }
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => {
                if let Some(t) = self.fs.optval("into") {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let t: syn::Path = syn::parse_str(&t).unwrap();
                    *e = parse_quote!(#t::from(#r));
                    return;
                }
            }
            _ => {}
        }
        // a reverse bit iterator kept as an object
        if let Expr::MethodCall(m) = e {
            if m.method == "rev" && Self::looks_like_stream(&m.receiver) {
                let mut r: &Expr = &m.receiver;
                let mut ok = true;
                while let Expr::MethodCall(x) = r {
                    match x.method.to_string().as_str() {
                        "by_vals" | "by_refs" => r = &x.receiver,
                        "iter" => { r = &x.receiver; break; }
                        _ => { ok = false; break; }
                    }
                }
                if ok {
                    let mut b = r.clone();
                    self.visit_expr_mut(&mut b);
                    *e = parse_quote!(rev_bits(&#b));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order
        match e {
            Expr::Path(p) if p.path.segments.len() >= 2 && p.qself.is_none() => {
                let last = p.path.segments.last().unwrap().ident.to_string();
                if ASSOC_CONSTS.contains(&last.as_str()) {
                    let p2 = p.clone();
                    *e = parse_quote!(#p2());
                }
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) && !matches!(&*u.expr, Expr::Lit(_)) => {
                let x = &u.expr;
                *e = parse_quote!((#x).neg());
            }
            Expr::Binary(b) => {
                let lit = |x: &Expr| -> bool {
                    match x { Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_)), Expr::Binary(_) => false, _ => false }
                };
                let (l, r) = (b.left.clone(), b.right.clone());
                // `x + &y`: the verifier cannot resolve the operator impls that carry a lifetime
                let mut rr = &*r;
                while let Expr::Paren(p) = rr { rr = &p.expr; }
                if matches!(rr, Expr::Reference(_)) || matches!(rr, Expr::Tuple(t) if t.elems.iter().any(|x| matches!(x, Expr::Reference(_)))) {
                    match b.op {
                        syn::BinOp::Add(_) => { *e = parse_quote!((#l).add(#r)); return; }
                        syn::BinOp::Sub(_) => { *e = parse_quote!((#l).sub(#r)); return; }
                        _ => {}
                    }
                }
                // index arithmetic the lowering itself generates is not the group's
                let generated = { let t = quote!(#l #r).to_string(); t.contains("__k") && !t.contains('{') };
                if self.fs.opt("gops") && !lit(&l) && !lit(&r) && !generated {
                    match b.op {
                        syn::BinOp::Add(_) => { *e = parse_quote!((#l).gadd(#r)); return; }
                        syn::BinOp::Sub(_) => { *e = parse_quote!((#l).gsub(#r)); return; }
                        syn::BinOp::Mul(_) => { *e = parse_quote!((#l).gmul(#r)); return; }
                        syn::BinOp::AddAssign(_) => { *e = parse_quote!((#l).gadd_assign(#r)); return; }
                        syn::BinOp::SubAssign(_) => { *e = parse_quote!((#l).gsub_assign(#r)); return; }
                        syn::BinOp::MulAssign(_) => { *e = parse_quote!((#l).gmul_assign(#r)); return; }
                        _ => {}
                    }
                }
                let f = |n: &str| { let n = id(n); let x: Expr = parse_quote!(#n(#l, #r)); x };
                if self.fs.opt("boolops") && !lit(&l) && !lit(&r) {
                    match b.op {
                        syn::BinOp::BitAnd(_) => *e = f("bool_and"),
                        syn::BinOp::BitOr(_) => *e = f("bool_or"),
                        _ => {}
                    }
                } else if self.fs.opt("refeq") {
                    match b.op {
                        syn::BinOp::Eq(_) => *e = parse_quote!(same(&(#l), &(#r))),
                        syn::BinOp::Ne(_) => *e = parse_quote!(!same(&(#l), &(#r))),
                        _ => {}
                    }
                } else if self.fs.opt("fieldops") {
                    match b.op {
                        syn::BinOp::Eq(_) => *e = f("feq"),
                        syn::BinOp::Ne(_) => *e = f("fne"),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        if let Expr::Binary(b) = e {
            let (l, r) = (b.left.clone(), b.right.clone());
            let is_lit = matches!(&*r, Expr::Lit(x) if matches!(x.lit, syn::Lit::Int(_)));
            if self.fs.opt("boolassign") && !is_lit {
                match b.op {
                    syn::BinOp::BitAndAssign(_) => *e = parse_quote!(#l = bool_and(#l, #r)),
                    syn::BinOp::BitOrAssign(_) => *e = parse_quote!(#l = bool_or(#l, #r)),
                    _ => {}
                }
            }
        }
    }
}
#[allow(dead_code)]
fn unused(l: &mut Lower) {
    l.closure_subst.clear();
    l.ret_ty.clear();
    let _ = quote!();
}
