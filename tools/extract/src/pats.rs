//! `&x` inside a pattern: Verus has no such patterns, so the place is bound and read right after.
use quote::format_ident;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Refs(Vec<Ident>);
impl VisitMut for Refs {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                if r.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase()) {
                    let id = i.ident.clone();
                    let n = format_ident!("{}__r", id);
                    self.0.push(id);
                    *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: n, subpat: None });
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}

fn take(p: &mut Pat) -> Vec<Stmt> {
    let mut r = Refs(vec![]);
    r.visit_pat_mut(p);
    r.0.iter()
        .map(|i| {
            let n = format_ident!("{}__r", i);
            parse_quote!(let #i = *#n;)
        })
        .collect()
}

fn front(b: &mut Block, s: Vec<Stmt>) {
    b.stmts.splice(0..0, s);
}

pub struct Pats;
impl VisitMut for Pats {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let l = if let Stmt::Local(l) = &mut s { take(&mut l.pat) } else { vec![] };
            out.push(s);
            out.extend(l);
        }
        b.stmts = out;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if a.guard.is_none() {
            let l = take(&mut a.pat);
            if !l.is_empty() {
                let body = &a.body;
                a.body = parse_quote!({ #(#l)* #body });
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::If(i) => {
                if let Expr::Let(c) = &mut *i.cond {
                    let l = take(&mut c.pat);
                    front(&mut i.then_branch, l);
                }
            }
            Expr::While(i) => {
                if let Expr::Let(c) = &mut *i.cond {
                    let l = take(&mut c.pat);
                    front(&mut i.body, l);
                }
            }
            Expr::ForLoop(f) => {
                let l = take(&mut f.pat);
                front(&mut f.body, l);
            }
            _ => {}
        }
    }
}

/// `SRC.map(|p| BODY).collect()` into a Result, as the value of the function or under `?`: a loop that leaves at the first error
pub struct Collect {
    pub ok: bool, // the function returns a Result
}
struct Leaves(bool);
impl<'a> syn::visit::Visit<'a> for Leaves {
    fn visit_expr(&mut self, e: &'a Expr) {
        if matches!(e, Expr::Try(_) | Expr::Return(_)) {
            self.0 = true;
        }
        syn::visit::visit_expr(self, e);
    }
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        e => e,
    }
}
impl Collect {
    fn result(e: &Expr, ask: bool, tail: bool) -> Option<Expr> {
        let Expr::MethodCall(c) = e else { return None };
        if c.method != "collect" {
            return None;
        }
        match &c.turbofish {
            Some(t) => {
                let s = quote::ToTokens::to_token_stream(t).to_string();
                if !s.split_whitespace().any(|w| w == "Result") {
                    return None;
                }
            }
            None if !ask => return None,
            None => {}
        }
        let Expr::MethodCall(m) = &*c.receiver else { return None };
        if m.method != "map" || m.args.len() != 1 {
            return None;
        }
        let src = match unparen(&m.receiver) {
            Expr::MethodCall(i) if i.method == "into_iter" => (*i.receiver).clone(),
            r @ Expr::Range(_) => r.clone(),
            _ => return None,
        };
        let (p, b): (Pat, Expr) = match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut l = Leaves(false);
                syn::visit::Visit::visit_expr(&mut l, &c.body);
                if l.0 {
                    return None;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = match &*c.body {
                    Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => match &b.block.stmts[0] {
                        Stmt::Expr(e, None) => e.clone(),
                        _ => (*c.body).clone(),
                    },
                    b => b.clone(),
                };
                (p, b)
            }
            f @ Expr::Path(_) => (parse_quote!(x__), parse_quote!(#f(x__))),
            _ => return None,
        };
        let (err, end): (Expr, Expr) = if tail { (parse_quote!(e__), parse_quote!(Ok(out__))) } else { (parse_quote!(From::from(e__)), parse_quote!(out__)) };
        Some(parse_quote!({ let mut out__ = Vec::new(); for #p in #src { match #b { Ok(v__) => out__.push(v__), Err(e__) => return Err(#err), } } #end }))
    }
    pub fn tail(b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            if let Some(x) = Self::result(e, true, true) {
                let Expr::Block(x) = x else { unreachable!() };
                b.stmts.pop();
                b.stmts.extend(x.block.stmts);
            }
        }
    }
}
impl VisitMut for Collect {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let (true, Expr::Try(t)) = (self.ok, &*e) {
            if let Some(x) = Self::result(&t.expr, true, false) {
                *e = x;
            }
        }
    }
}
