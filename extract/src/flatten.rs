//! A lowered loop statement `{ counters; while .. }` is spliced into the statements around it, so that
//! ghost variables introduced before the loop are in scope after it. Counter names are unique.
use syn::visit_mut::{self, VisitMut};
use std::collections::BTreeSet;
use syn::{Block, Expr, Stmt};

fn idents(s: &Stmt) -> BTreeSet<String> {
    fn go(t: proc_macro2::TokenStream, o: &mut BTreeSet<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), o),
                _ => {}
            }
        }
    }
    let mut o = BTreeSet::new();
    go(quote::ToTokens::to_token_stream(s), &mut o);
    o
}
fn bound(p: &syn::Pat) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}
pub struct Flatten;
fn is_loop_block(b: &Block) -> bool {
    b.stmts.iter().any(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__vat") && m.mac.tokens.to_string().contains("before_loop")))
        && matches!(b.stmts.last(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vat"))
}
impl VisitMut for Flatten {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        let rest: Vec<BTreeSet<String>> = b.stmts.iter().map(idents).collect();
        for (k, s) in b.stmts.drain(..).enumerate() {
            match s {
                Stmt::Expr(Expr::Block(x), _) if x.label.is_none() && x.attrs.is_empty() && is_loop_block(&x.block)
                    // a variable of the source the block declares must not capture a later use
                    && !x.block.stmts.iter().any(|s| matches!(s, Stmt::Local(l) if bound(&l.pat).iter().any(|n| !n.starts_with("__") && rest[k + 1..].iter().any(|r| r.contains(n))))) => out.extend(x.block.stmts),
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
}
