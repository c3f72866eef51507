//! Functions that no contract names (helpers introduced after the contracts were written) are expanded at
//! their call sites, so that what they do is verified as part of their callers. A call `f(a, b)` becomes
//!     { let f_a = a; let f_b = b; let x: X = f_a; let y = f_b; BODY }
//! where BODY is the helper's own body with its early returns turned into branches: what follows a
//! statement that may return is moved into the branches that do not. A helper with a loop that returns,
//! a recursive one, or one with a construct not listed here is left alone (its callers are then undecided).
use crate::tx::{has_fn_param, pname, result_args};
use crate::{ident_str, type_last, Module};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    module: Vec<String>,
    self_ty: Option<String>,
    sig: Signature,
    block: Block,
}

/// expands the helpers; the keys of those that were
pub fn run(mods: &mut [Module], contracted: &dyn Fn(&str) -> bool) -> BTreeSet<String> {
    let mut all: BTreeMap<String, Vec<Helper>> = BTreeMap::new();
    for m in mods.iter() {
        for it in &m.items {
            match it {
                Item::Fn(f) => all.entry(ident_str(&f.sig.ident)).or_default().push(Helper { module: m.path.clone(), self_ty: None, sig: f.sig.clone(), block: (*f.block).clone() }),
                Item::Impl(im) if im.trait_.is_none() => {
                    let Some(t) = type_last(&im.self_ty) else { continue };
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            all.entry(format!("{t}::{}", ident_str(&f.sig.ident))).or_default().push(Helper { module: m.path.clone(), self_ty: Some(t.clone()), sig: f.sig.clone(), block: f.block.clone() });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut helpers: BTreeMap<String, Helper> = BTreeMap::new();
    for (k, v) in &all {
        if v.len() == 1 && !contracted(k) && has_fn_param(&v[0].sig).is_none() && v[0].sig.asyncness.is_none() && v[0].sig.unsafety.is_none() {
            helpers.insert(k.clone(), v[0].clone());
        }
    }
    let mut done = BTreeSet::new();
    // helpers that call helpers: expand the inner ones first, as far as that goes
    for _ in 0..3 {
        let names: Vec<String> = helpers.keys().cloned().collect();
        for k in names {
            let mut h = helpers[&k].clone();
            let mut v = Inl { helpers: &helpers, here: k.clone(), module: h.module.clone(), self_ty: h.self_ty.clone(), done: &mut done, n: 0 };
            v.visit_block_mut(&mut h.block);
            helpers.insert(k, h);
        }
    }
    for m in mods.iter_mut() {
        let path = m.path.clone();
        for it in m.items.iter_mut() {
            match it {
                Item::Fn(f) => {
                    let k = ident_str(&f.sig.ident);
                    let mut v = Inl { helpers: &helpers, here: k, module: path.clone(), self_ty: None, done: &mut done, n: 0 };
                    v.visit_block_mut(&mut f.block);
                }
                Item::Impl(im) => {
                    let Some(t) = type_last(&im.self_ty) else { continue };
                    for ii in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = ii {
                            let k = format!("{t}::{}", ident_str(&f.sig.ident));
                            let mut v = Inl { helpers: &helpers, here: k, module: path.clone(), self_ty: Some(t.clone()), done: &mut done, n: 0 };
                            v.visit_block_mut(&mut f.block);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    done
}

struct Inl<'a> {
    helpers: &'a BTreeMap<String, Helper>,
    here: String,
    module: Vec<String>,
    self_ty: Option<String>,
    done: &'a mut BTreeSet<String>,
    n: usize,
}

impl Inl<'_> {
    fn key(&self, f: &Expr) -> Option<String> {
        let Expr::Path(p) = f else { return None };
        let s: Vec<String> = p.path.segments.iter().map(|s| ident_str(&s.ident)).collect();
        let l = s.last()?.clone();
        let k = if s.len() >= 2 && s[s.len() - 2].chars().next()?.is_uppercase() {
            let t = if s[s.len() - 2] == "Self" { self.self_ty.clone()? } else { s[s.len() - 2].clone() };
            format!("{t}::{l}")
        } else {
            l
        };
        (k != self.here && self.helpers.contains_key(&k)).then_some(k)
    }
}

impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let r = match e {
            Expr::Call(c) => self.key(&c.func).map(|k| (k, c.args.iter().cloned().collect::<Vec<_>>())),
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                let k = self.self_ty.as_ref().map(|t| format!("{t}::{}", ident_str(&m.method)));
                k.filter(|k| *k != self.here && self.helpers.contains_key(k)).map(|k| {
                    let mut a = vec![(*m.receiver).clone()];
                    a.extend(m.args.iter().cloned());
                    (k, a)
                })
            }
            _ => None,
        };
        if let Some((k, args)) = r {
            let h = self.helpers[&k].clone();
            self.n += 1;
            if let Some(x) = expand(&h, args, &self.module, self.self_ty.as_deref(), self.n) {
                self.done.insert(k);
                *e = x;
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn expand(h: &Helper, args: Vec<Expr>, _module: &[String], caller: Option<&str>, n: usize) -> Option<Expr> {
    if args.len() != h.sig.inputs.len() {
        return None;
    }
    let generics: BTreeSet<String> = h.sig.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
    let generic = |t: &Type| t.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| generics.contains(w) || w == "impl");
    let ret: Option<Type> = match &h.sig.output {
        ReturnType::Type(_, t) => Some((**t).clone()),
        _ => None,
    };
    // `?`
    let mut block = h.block.clone();
    let opt = matches!(&ret, Some(Type::Path(p)) if p.path.segments.last().unwrap().ident == "Option");
    let res = ret.as_ref().map(|t| result_args(t).is_some() || type_last(t).as_deref() == Some("Result")).unwrap_or(false);
    let mut q = Question { opt, res, ok: true };
    q.visit_block_mut(&mut block);
    if !q.ok {
        return None;
    }
    let mut b = Bad(false);
    b.visit_block(&block);
    if b.0 {
        return None;
    }
    let mut k = Cps { left: 48, fresh: n * 100 };
    let mut stmts = k.stmts(block.stmts)?;
    // parameters
    let mut outer: Vec<Stmt> = vec![];
    let mut inner: Vec<Stmt> = vec![];
    for (i, (p, a)) in h.sig.inputs.iter().zip(args).enumerate() {
        match p {
            FnArg::Receiver(_) => {
                if !matches!(&a, Expr::Path(p) if p.path.is_ident("self")) || caller != h.self_ty.as_deref() {
                    return None;
                }
            }
            FnArg::Typed(t) => {
                let pat = &t.pat;
                let same = matches!((&**pat, &a), (Pat::Ident(pi), Expr::Path(ap)) if pi.mutability.is_none() && ap.path.get_ident().map(|x| x == &pi.ident).unwrap_or(false));
                if same {
                    continue;
                }
                if place(pat, &t.ty, &a, &h.sig, i, &mut stmts) {
                    continue;
                }
                let f = format_ident!("in{}__{}", n, i);
                let arg: Expr = match &*t.ty {
                    Type::Reference(r) if r.mutability.is_some() && matches!(&a, Expr::Path(_)) => parse_quote!(&mut *#a),
                    _ => a,
                };
                outer.push(parse_quote!(let #f = #arg;));
                let mut ty = (*t.ty).clone();
                NoLife.visit_type_mut(&mut ty);
                if generic(&ty) {
                    inner.push(parse_quote!(let #pat = #f;));
                } else {
                    inner.push(parse_quote!(let #pat: #ty = #f;));
                }
            }
        }
    }
    let mut e: Expr = match &ret {
        Some(t) if !generic(t) => {
            let mut t = t.clone();
            NoLife.visit_type_mut(&mut t);
            parse_quote!({ #(#outer)* #(#inner)* let r__: #t = { #(#stmts)* }; r__ })
        }
        _ => parse_quote!({ #(#outer)* #(#inner)* #(#stmts)* }),
    };
    if let Some(t) = &h.self_ty {
        SelfTy(format_ident!("{}", t)).visit_expr_mut(&mut e);
    }
    Some(e)
}

/// `f(&mut x)` or `f(x)` with `p: &mut T`: the body speaks of `x` itself instead of a `p` that borrows it
fn place(pat: &Pat, ty: &Type, a: &Expr, sig: &Signature, i: usize, stmts: &mut Vec<Stmt>) -> bool {
    let Pat::Ident(pi) = pat else { return false };
    if !matches!(ty, Type::Reference(r) if r.mutability.is_some()) || pi.mutability.is_some() || pi.by_ref.is_some() {
        return false;
    }
    let (x, owned) = match a {
        Expr::Path(p) => (p.path.get_ident(), false),
        Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
            Expr::Path(p) => (p.path.get_ident(), true),
            _ => (None, false),
        },
        _ => (None, false),
    };
    let Some(x) = x.cloned() else { return false };
    let p = pi.ident.clone();
    if x == "self" || p == "self" {
        return false;
    }
    struct Names(BTreeSet<String>);
    impl<'a> Visit<'a> for Names {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(pname(&p.ident));
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = Names(BTreeSet::new());
    for (j, q) in sig.inputs.iter().enumerate() {
        if let (true, FnArg::Typed(t)) = (j != i, q) {
            v.visit_pat(&t.pat);
        }
    }
    for s in stmts.iter() {
        v.visit_stmt(s);
    }
    if v.0.contains(&pname(&x)) || v.0.contains(&pname(&p)) {
        return false;
    }
    struct Put {
        p: Ident,
        x: Ident,
        owned: bool,
        ok: bool,
    }
    impl Put {
        fn is(&self, e: &Expr) -> bool {
            matches!(e, Expr::Path(q) if q.path.is_ident(&self.p))
        }
    }
    impl VisitMut for Put {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let x = self.x.clone();
            match e {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => {
                    *e = if self.owned { parse_quote!(#x) } else { parse_quote!(*#x) };
                    return;
                }
                Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr)) => {
                    *e = if self.owned { parse_quote!(&mut #x) } else { parse_quote!(&mut *#x) };
                    return;
                }
                Expr::Field(f) if self.is(&f.base) => {
                    f.base = Box::new(parse_quote!(#x));
                    return;
                }
                Expr::MethodCall(m) if self.is(&m.receiver) => {
                    if ["take", "bytes", "chain", "by_ref"].contains(&m.method.to_string().as_str()) {
                        self.ok = false;
                    }
                    m.receiver = Box::new(parse_quote!(#x));
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                Expr::Path(_) if self.is(e) => {
                    *e = if self.owned { parse_quote!(&mut #x) } else { parse_quote!(&mut *#x) };
                    return;
                }
                Expr::Macro(m) => {
                    if mentions(m.mac.tokens.clone(), &BTreeSet::from([self.p.to_string()])) {
                        self.ok = false;
                    }
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut put = Put { p, x, owned, ok: true };
    let mut new = stmts.clone();
    for s in new.iter_mut() {
        put.visit_stmt_mut(s);
    }
    if put.ok {
        *stmts = new;
    }
    put.ok
}

struct NoLife;
impl VisitMut for NoLife {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.as_ref().map(|l| l.ident != "static").unwrap_or(false) {
            r.lifetime = None;
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
}
struct SelfTy(Ident);
impl VisitMut for SelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" {
                s.ident = self.0.clone();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `x?` as a match with an early return
struct Question {
    opt: bool,
    res: bool,
    ok: bool,
}
impl VisitMut for Question {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            if self.res {
                // fused with a map_err, so that one match is left
                if let Expr::MethodCall(m) = &**x {
                    if m.method == "map_err" && m.args.len() == 1 {
                        let (r, f) = (&m.receiver, &m.args[0]);
                        match f {
                            Expr::Path(_) => {
                                *e = parse_quote!(match #r { Ok(v__) => v__, Err(e__) => return Err(From::from(#f(e__))) });
                                return;
                            }
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let p = match &c.inputs[0] {
                                    Pat::Type(t) => (*t.pat).clone(),
                                    p => p.clone(),
                                };
                                let b = &c.body;
                                *e = parse_quote!(match #r { Ok(v__) => v__, Err(#p) => return Err(From::from(#b)) });
                                return;
                            }
                            _ => {}
                        }
                    }
                }
                *e = parse_quote!(match #x { Ok(v__) => v__, Err(e__) => return Err(From::from(e__)) });
            } else if self.opt {
                *e = parse_quote!(match #x { Some(v__) => v__, None => return None });
            } else {
                self.ok = false;
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// constructs that keep a helper from being expanded
struct Bad(bool);
impl<'a> Visit<'a> for Bad {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if has_ret(e) => self.0 = true,
            Expr::Unsafe(_) | Expr::Async(_) | Expr::Await(_) | Expr::TryBlock(_) | Expr::Yield(_) => self.0 = true,
            Expr::Macro(m) => {
                let s = m.mac.tokens.to_string();
                if s.split(|c: char| !c.is_alphanumeric()).any(|w| w == "return") || s.contains('?') {
                    self.0 = true;
                }
            }
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {
        self.0 = true;
    }
}

struct Ret(bool);
impl<'a> Visit<'a> for Ret {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) => self.0 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_ret(e: &Expr) -> bool {
    let mut r = Ret(false);
    r.visit_expr(e);
    r.0
}
fn stmt_has_ret(s: &Stmt) -> bool {
    let mut r = Ret(false);
    r.visit_stmt(s);
    r.0
}
fn pat_idents(p: &Pat) -> BTreeSet<String> {
    struct P(BTreeSet<String>);
    impl<'a> Visit<'a> for P {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(pname(&p.ident));
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = P(BTreeSet::new());
    v.visit_pat(p);
    v.0
}
fn mentions(ts: proc_macro2::TokenStream, names: &BTreeSet<String>) -> bool {
    ts.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| names.contains(w) && w != "v__" && w != "e__")
}
/// may be evaluated after `sub` as well as before it
fn early(e: &Expr, sub: &Expr) -> bool {
    let names = e.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
    matches!(e, Expr::Lit(_)) || (simple(e) && !mentions(sub.to_token_stream(), &names))
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => simple(&p.expr),
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Unary(u) => simple(&u.expr),
        _ => false,
    }
}

/// what happens with the value of an expression
#[derive(Clone)]
enum K {
    Tail,
    Let(Local, Vec<Stmt>),
    Drop(Vec<Stmt>),
}

struct Cps {
    left: usize,
    fresh: usize,
}
impl Cps {
    fn var(&mut self) -> Ident {
        self.fresh += 1;
        format_ident!("h{}__", self.fresh)
    }
    fn stmts(&mut self, v: Vec<Stmt>) -> Option<Vec<Stmt>> {
        let mut out = vec![];
        let mut it = v.into_iter();
        while let Some(s) = it.next() {
            if !stmt_has_ret(&s) {
                out.push(s);
                continue;
            }
            let rest: Vec<Stmt> = it.collect();
            let more = match s {
                Stmt::Expr(e, semi) => {
                    let k = if semi.is_none() && rest.is_empty() { K::Tail } else { K::Drop(rest) };
                    self.expr(e, k)?
                }
                Stmt::Local(mut l) => {
                    let init = l.init.take()?;
                    match init.diverge {
                        Some((_, d)) => {
                            if has_ret(&init.expr) {
                                return None;
                            }
                            if mentions(quote!(#(#rest)*), &BTreeSet::new()) {
                                return None;
                            }
                            let rest = self.stmts(rest)?;
                            let d = match *d {
                                Expr::Block(b) => self.stmts(b.block.stmts)?,
                                x => self.expr(x, K::Tail)?,
                            };
                            let (p, x) = (&l.pat, &init.expr);
                            let m: Expr = parse_quote!(match #x { #p => { #(#rest)* } _ => { #(#d)* } });
                            vec![Stmt::Expr(m, None)]
                        }
                        None => {
                            let e = (*init.expr).clone();
                            l.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(parse_quote!(())), diverge: None });
                            self.expr(e, K::Let(l, rest))?
                        }
                    }
                }
                _ => return None,
            };
            out.extend(more);
            return Some(out);
        }
        Some(out)
    }
    /// the value `e` (free of returns) goes to k
    fn give(&mut self, e: Expr, k: K) -> Option<Vec<Stmt>> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        match k {
            K::Tail => Some(vec![Stmt::Expr(e, None)]),
            K::Drop(rest) => {
                let mut v = vec![parse_quote!(#e;)];
                v.extend(self.stmts(rest)?);
                Some(v)
            }
            K::Let(mut l, rest) => {
                l.init.as_mut().unwrap().expr = Box::new(e);
                let mut v = vec![Stmt::Local(l)];
                v.extend(self.stmts(rest)?);
                Some(v)
            }
        }
    }
    fn rest_tokens(k: &K) -> proc_macro2::TokenStream {
        match k {
            K::Tail => quote!(),
            K::Let(_, r) | K::Drop(r) => quote!(#(#r)*),
        }
    }
    fn block(&mut self, b: Block, k: K) -> Option<Vec<Stmt>> {
        let mut names = BTreeSet::new();
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                names.extend(pat_idents(&l.pat));
            }
        }
        if mentions(Self::rest_tokens(&k), &names) {
            return None;
        }
        let mut st = b.stmts;
        let last = match st.pop() {
            Some(Stmt::Expr(e, None)) => e,
            Some(s) => {
                st.push(s);
                parse_quote!(())
            }
            None => parse_quote!(()),
        };
        // the statements before, then the value
        let mut v = st;
        match k {
            K::Tail => {
                if !(matches!(&last, Expr::Tuple(t) if t.elems.is_empty()) && diverges(v.last())) {
                    v.push(Stmt::Expr(last, None));
                }
                self.stmts(v)
            }
            K::Drop(rest) => {
                if diverges(v.last()) {
                    return self.stmts(v);
                }
                v.push(parse_quote!(#last;));
                v.extend(rest);
                self.stmts(v)
            }
            K::Let(mut l, rest) => {
                if diverges(v.last()) {
                    return self.stmts(v);
                }
                l.init.as_mut().unwrap().expr = Box::new(last);
                v.push(Stmt::Local(l));
                v.extend(rest);
                self.stmts(v)
            }
        }
    }
    fn hoist(&mut self, sub: Expr, k: K, build: impl FnOnce(Expr) -> Expr) -> Option<Vec<Stmt>> {
        let t = self.var();
        let e = build(parse_quote!(#t));
        let l: Stmt = parse_quote!(let #t = (););
        let Stmt::Local(l) = l else { return None };
        let rest = match k {
            K::Tail => vec![Stmt::Expr(e, None)],
            K::Drop(r) => std::iter::once(parse_quote!(#e;)).chain(r).collect(),
            K::Let(mut l2, r) => {
                l2.init.as_mut().unwrap().expr = Box::new(e);
                std::iter::once(Stmt::Local(l2)).chain(r).collect()
            }
        };
        self.expr(sub, K::Let(l, rest))
    }
    fn expr(&mut self, e: Expr, k: K) -> Option<Vec<Stmt>> {
        if !has_ret(&e) {
            return self.give(e, k);
        }
        match e {
            Expr::Return(r) => {
                let x: Expr = r.expr.map(|x| *x).unwrap_or(parse_quote!(()));
                self.expr(x, K::Tail)
            }
            Expr::Paren(p) => self.expr(*p.expr, k),
            Expr::Block(b) if b.label.is_none() => self.block(b.block, k),
            Expr::If(i) => {
                if matches!(&*i.cond, Expr::Let(_)) || !has_ret(&i.cond) {
                    if has_ret(&i.cond) {
                        return None;
                    }
                    if let Expr::Let(l) = &*i.cond {
                        if mentions(Self::rest_tokens(&k), &pat_idents(&l.pat)) {
                            return None;
                        }
                    }
                    let a = self.block(i.then_branch, k.clone())?;
                    let b = match i.else_branch {
                        Some((_, x)) => self.expr(*x, k)?,
                        None => self.give(parse_quote!(()), k)?,
                    };
                    let c = i.cond;
                    let n: Expr = parse_quote!(if #c { #(#a)* } else { #(#b)* });
                    return Some(vec![Stmt::Expr(n, None)]);
                }
                let c = (*i.cond).clone();
                self.hoist(c, k, move |t| {
                    let mut i = i;
                    i.cond = Box::new(t);
                    Expr::If(i)
                })
            }
            Expr::Match(m) => {
                if has_ret(&m.expr) {
                    let x = (*m.expr).clone();
                    return self.hoist(x, k, move |t| {
                        let mut m = m;
                        m.expr = Box::new(t);
                        Expr::Match(m)
                    });
                }
                let rt = Self::rest_tokens(&k);
                let mut arms: Vec<proc_macro2::TokenStream> = vec![];
                for a in m.arms {
                    if a.guard.as_ref().map(|g| has_ret(&g.1)).unwrap_or(false) || mentions(rt.clone(), &pat_idents(&a.pat)) {
                        return None;
                    }
                    let b = self.expr(*a.body, k.clone())?;
                    let p = &a.pat;
                    let g = a.guard.as_ref().map(|g| {
                        let x = &g.1;
                        quote!(if #x)
                    });
                    arms.push(quote!(#p #g => { #(#b)* }));
                }
                let x = &m.expr;
                let n: Expr = parse_quote!(match #x { #(#arms)* });
                Some(vec![Stmt::Expr(n, None)])
            }
            Expr::Call(c) => {
                let i = c.args.iter().position(has_ret)?;
                if has_ret(&c.func) || !c.args.iter().take(i).all(|a| early(a, &c.args[i])) {
                    return None;
                }
                let sub = c.args[i].clone();
                self.hoist(sub, k, move |t| {
                    let mut c = c;
                    c.args[i] = t;
                    Expr::Call(c)
                })
            }
            Expr::MethodCall(m) => {
                if has_ret(&m.receiver) {
                    let sub = (*m.receiver).clone();
                    return self.hoist(sub, k, move |t| {
                        let mut m = m;
                        m.receiver = Box::new(t);
                        Expr::MethodCall(m)
                    });
                }
                let i = m.args.iter().position(has_ret)?;
                if !early(&m.receiver, &m.args[i]) || !m.args.iter().take(i).all(|a| early(a, &m.args[i])) {
                    return None;
                }
                let sub = m.args[i].clone();
                self.hoist(sub, k, move |t| {
                    let mut m = m;
                    m.args[i] = t;
                    Expr::MethodCall(m)
                })
            }
            Expr::Struct(s) => {
                let i = s.fields.iter().position(|f| has_ret(&f.expr))?;
                if !s.fields.iter().take(i).all(|f| early(&f.expr, &s.fields[i].expr)) {
                    return None;
                }
                let sub = s.fields[i].expr.clone();
                self.hoist(sub, k, move |t| {
                    let mut s = s;
                    s.fields[i].expr = t;
                    s.fields[i].colon_token = Some(Default::default());
                    Expr::Struct(s)
                })
            }
            Expr::Tuple(c) => {
                let i = c.elems.iter().position(has_ret)?;
                if !c.elems.iter().take(i).all(|a| early(a, &c.elems[i])) {
                    return None;
                }
                let sub = c.elems[i].clone();
                self.hoist(sub, k, move |t| {
                    let mut c = c;
                    c.elems[i] = t;
                    Expr::Tuple(c)
                })
            }
            Expr::Unary(u) => {
                let sub = (*u.expr).clone();
                self.hoist(sub, k, move |t| {
                    let mut u = u;
                    u.expr = Box::new(t);
                    Expr::Unary(u)
                })
            }
            Expr::Field(u) => {
                let sub = (*u.base).clone();
                self.hoist(sub, k, move |t| {
                    let mut u = u;
                    u.base = Box::new(t);
                    Expr::Field(u)
                })
            }
            Expr::Cast(u) => {
                let sub = (*u.expr).clone();
                self.hoist(sub, k, move |t| {
                    let mut u = u;
                    u.expr = Box::new(t);
                    Expr::Cast(u)
                })
            }
            Expr::Assign(a) => {
                if has_ret(&a.left) {
                    return None;
                }
                let sub = (*a.right).clone();
                self.hoist(sub, k, move |t| {
                    let mut a = a;
                    a.right = Box::new(t);
                    Expr::Assign(a)
                })
            }
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && has_ret(&b.right) {
                    return None;
                }
                if has_ret(&b.left) {
                    let sub = (*b.left).clone();
                    return self.hoist(sub, k, move |t| {
                        let mut b = b;
                        b.left = Box::new(t);
                        Expr::Binary(b)
                    });
                }
                if !early(&b.left, &b.right) {
                    return None;
                }
                let sub = (*b.right).clone();
                self.hoist(sub, k, move |t| {
                    let mut b = b;
                    b.right = Box::new(t);
                    Expr::Binary(b)
                })
            }
            _ => None,
        }
    }
}
fn diverges(s: Option<&Stmt>) -> bool {
    matches!(s, Some(Stmt::Expr(Expr::Return(_), _)))
}
