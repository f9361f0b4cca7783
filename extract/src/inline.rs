//! Call-site inlining of a helper that takes closures (option `inline=PATH`): the tail call
//! `Self::helper(args, |x| ..)` becomes the helper's body with its closure parameters replaced by
//! the closures and applied. Only in tail position, where `?` and `return` keep their meaning.
use crate::source::Found;
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

fn ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn strip_mut(e: &Expr) -> String {
    match e {
        Expr::Reference(r) if r.mutability.is_some() => ws(&r.expr.to_token_stream().to_string()),
        e => ws(&e.to_token_stream().to_string()),
    }
}
struct Beta(HashMap<String, syn::ExprClosure>, Vec<String>);
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Some(cl) = self.0.get(&ws(&c.func.to_token_stream().to_string())) {
                if cl.inputs.len() != c.args.len() {
                    self.1.push("closure arity".into());
                    return;
                }
                let (mut pats, mut vals): (Vec<Pat>, Vec<Expr>) = (vec![], vec![]);
                for (p, a) in cl.inputs.iter().zip(&c.args) {
                    let pn = ws(&p.to_token_stream().to_string());
                    if pn == strip_mut(a) { continue; }
                    pats.push(p.clone());
                    vals.push(a.clone());
                }
                let b = &cl.body;
                *e = match pats.len() {
                    0 => parse_quote!({ #b }),
                    1 => { let (p, v) = (&pats[0], &vals[0]); parse_quote!({ let #p = #v; #b }) }
                    _ => parse_quote!({ let (#(#pats),*) = (#(#vals),*); #b }),
                };
            }
        }
    }
}
pub fn inline(block: &mut Block, path: &str, callee: Found) -> Result<(), String> {
    let name = path.rsplit("::").next().unwrap().trim().to_string();
    let tail = match block.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => e,
        _ => return Err(format!("lost anchor: tail call of {}", name)),
    };
    let c = match tail {
        Expr::Call(c) if ws(&c.func.to_token_stream().to_string()).rsplit("::").next() == Some(&name) => c.clone(),
        _ => return Err(format!("lost anchor: tail call of {}", name)),
    };
    if callee.sig.inputs.len() != c.args.len() {
        return Err(format!("arity of {}", name));
    }
    let mut beta = Beta(HashMap::new(), vec![]);
    let mut st: Vec<Stmt> = vec![];
    for (p, a) in callee.sig.inputs.iter().zip(&c.args) {
        let p = match p { syn::FnArg::Typed(t) => (*t.pat).clone(), _ => return Err("inlining a method".into()) };
        let pn = match &p { Pat::Ident(i) => i.ident.to_string(), _ => return Err("inlining with a pattern parameter".into()) };
        if let Expr::Closure(cl) = a {
            beta.0.insert(pn, cl.clone());
        } else if pn != strip_mut(a) {
            st.push(parse_quote!(let #p = #a;));
        }
    }
    let mut b = callee.block;
    beta.visit_block_mut(&mut b);
    if let Some(e) = beta.1.first() { return Err(format!("inlining {}: {}", name, e)); }
    st.extend(b.stmts);
    block.stmts.pop();
    block.stmts.extend(st);
    Ok(())
}
