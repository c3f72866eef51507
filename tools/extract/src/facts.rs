//! Ghost help that follows the shape of the code rather than of the contract: bit facts about the
//! bytes a function inspects, and the values of the counters of `while` and `loop` loops. Everything
//! added here is an assertion or an invariant the verifier has to prove; nothing is assumed.
use crate::tx::const_eval;
use crate::Global;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Bool,
    Lit,
    Int(u32, bool),
}
type V = (T, i128);

fn int_type(t: &Type) -> Option<T> {
    Some(match t.to_token_stream().to_string().as_str() {
        "u8" => T::Int(8, false),
        "u16" => T::Int(16, false),
        "u32" => T::Int(32, false),
        "u64" | "usize" => T::Int(64, false),
        "i8" => T::Int(8, true),
        "i16" => T::Int(16, true),
        "i32" => T::Int(32, true),
        "i64" => T::Int(64, true),
        _ => return None,
    })
}
fn tname(t: T) -> &'static str {
    match t {
        T::Int(8, false) => "u8",
        T::Int(16, false) => "u16",
        T::Int(32, false) => "u32",
        T::Int(64, false) => "u64",
        T::Int(8, true) => "i8",
        T::Int(16, true) => "i16",
        T::Int(32, true) => "i32",
        T::Int(64, true) => "i64",
        _ => "u8",
    }
}
fn wrap(t: T, v: i128) -> i128 {
    match t {
        T::Int(b, s) => {
            let m = v & ((1i128 << b) - 1);
            if s && m >> (b - 1) & 1 == 1 {
                m - (1i128 << b)
            } else {
                m
            }
        }
        _ => v,
    }
}
fn unify(a: T, b: T) -> Option<T> {
    match (a, b) {
        (T::Lit, x) | (x, T::Lit) => Some(x),
        (x, y) if x == y => Some(x),
        _ => None,
    }
}

struct Env<'a> {
    g: &'a Global,
    x: String,
    lets: BTreeMap<String, Expr>,
}

/// the value of `e` when the byte is `v`; `None` when it depends on anything else
fn eval(en: &Env, e: &Expr, v: i128) -> Option<V> {
    match e {
        Expr::Paren(p) => eval(en, &p.expr, v),
        Expr::Group(p) => eval(en, &p.expr, v),
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => Some((if i.suffix().is_empty() { T::Lit } else { int_type(&parse_str(i.suffix()).ok()?)? }, i.base10_parse().ok()?)),
            Lit::Bool(b) => Some((T::Bool, b.value as i128)),
            Lit::Byte(b) => Some((T::Int(8, false), b.value() as i128)),
            _ => None,
        },
        Expr::Path(p) => {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                if n == en.x {
                    return Some((T::Int(8, false), v));
                }
                if let Some(d) = en.lets.get(&n) {
                    return eval(en, d, v);
                }
            }
            let n = p.path.segments.last()?.ident.to_string();
            let t = en.g.const_types.get(&n)?;
            Some((int_type(t)?, const_eval(en.g, e)?))
        }
        Expr::Cast(c) => {
            let (_, x) = eval(en, &c.expr, v)?;
            let t = int_type(&c.ty)?;
            Some((t, wrap(t, x)))
        }
        Expr::Unary(u) => {
            let (t, x) = eval(en, &u.expr, v)?;
            match u.op {
                UnOp::Not(_) if t == T::Bool => Some((t, 1 - x)),
                UnOp::Not(_) => match t {
                    T::Int(..) => Some((t, wrap(t, !x))),
                    _ => None,
                },
                UnOp::Neg(_) => Some((t, -x)),
                _ => None,
            }
        }
        Expr::Binary(b) => {
            let (lt, l) = eval(en, &b.left, v)?;
            let (rt, r) = eval(en, &b.right, v)?;
            let fit = |t: T, x: i128| -> Option<V> {
                if t == T::Lit || wrap(t, x) == x {
                    Some((t, x))
                } else {
                    None
                }
            };
            match b.op {
                BinOp::Shl(_) | BinOp::Shr(_) => {
                    let T::Int(n, _) = lt else { return None };
                    if r < 0 || r >= n as i128 {
                        return None;
                    }
                    Some((lt, if matches!(b.op, BinOp::Shl(_)) { wrap(lt, l << r) } else { l >> r }))
                }
                BinOp::BitAnd(_) => Some((unify(lt, rt)?, l & r)),
                BinOp::BitOr(_) => Some((unify(lt, rt)?, l | r)),
                BinOp::BitXor(_) => Some((unify(lt, rt)?, l ^ r)),
                BinOp::Add(_) => fit(unify(lt, rt)?, l + r),
                BinOp::Sub(_) => fit(unify(lt, rt)?, l - r),
                BinOp::Mul(_) => fit(unify(lt, rt)?, l * r),
                BinOp::Div(_) if r != 0 => Some((unify(lt, rt)?, l / r)),
                BinOp::Rem(_) if r != 0 => Some((unify(lt, rt)?, l % r)),
                BinOp::And(_) => Some((T::Bool, l & r)),
                BinOp::Or(_) => Some((T::Bool, l | r)),
                BinOp::Eq(_) => unify(lt, rt).map(|_| (T::Bool, (l == r) as i128)),
                BinOp::Ne(_) => unify(lt, rt).map(|_| (T::Bool, (l != r) as i128)),
                BinOp::Lt(_) => unify(lt, rt).map(|_| (T::Bool, (l < r) as i128)),
                BinOp::Le(_) => unify(lt, rt).map(|_| (T::Bool, (l <= r) as i128)),
                BinOp::Gt(_) => unify(lt, rt).map(|_| (T::Bool, (l > r) as i128)),
                BinOp::Ge(_) => unify(lt, rt).map(|_| (T::Bool, (l >= r) as i128)),
                _ => None,
            }
        }
        _ => None,
    }
}

/// the byte occurs in `e` below a bit operation, and not only through a name
pub fn bitty(e: &Expr) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_) | BinOp::Div(_) | BinOp::Rem(_)) {
                self.0 = true;
            }
            visit::visit_expr_binary(self, b);
        }
        fn visit_expr_unary(&mut self, u: &'a ExprUnary) {
            if matches!(u.op, UnOp::Not(_)) {
                self.0 = true;
            }
            visit::visit_expr_unary(self, u);
        }
    }
    let mut b = B(false);
    b.visit_expr(e);
    b.0
}

struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(d) = self.0.get(&i.to_string()) {
                    let mut d = d.clone();
                    self.visit_expr_mut(&mut d);
                    *e = parse_quote!((#d));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

const FORMS: &[(&str, fn(i128) -> i128)] = &[
    ("", |x| x),
    (" & 0x7f", |x| x & 0x7f),
    (" & 0x80", |x| x & 0x80),
    (" & 0x70", |x| x & 0x70),
    (" & 0xf0", |x| x & 0xf0),
    (" & 0x40", |x| x & 0x40),
    (" & 0x78", |x| x & 0x78),
    (" & 0x3f", |x| x & 0x3f),
    (" & 0x7e", |x| x & 0x7e),
    (" & 0x0f", |x| x & 0x0f),
    (" & 0x1f", |x| x & 0x1f),
    (" & 1", |x| x & 1),
    (" & 2", |x| x & 2),
    (" & 4", |x| x & 4),
    (" >> 7", |x| x >> 7),
    (" >> 6", |x| x >> 6),
];

struct Collect<'a, 'g> {
    en: &'a mut Env<'g>,
    out: Vec<String>,
}
impl Collect<'_, '_> {
    fn full(&self, e: &Expr) -> Expr {
        let mut e = e.clone();
        Subst(&self.en.lets).visit_expr_mut(&mut e);
        e
    }
    fn fact(&mut self, e: &Expr) -> bool {
        let vals: Option<Vec<V>> = (0..256).map(|v| eval(self.en, e, v)).collect();
        let Some(vals) = vals else { return false };
        let f = self.full(e);
        let x = self.en.x.clone();
        if vals.windows(2).all(|w| w[0] == w[1]) || !bitty(&f) {
            return true;
        }
        let mut text = f.to_token_stream().to_string();
        // constants by value, so that the bit-vector solver sees them
        struct K<'a>(&'a Global, &'a str);
        impl VisitMut for K<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if !p.path.is_ident(self.1) {
                        let s = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                        if let Some(v) = const_eval(self.0, e) {
                            if let Some(t) = self.0.const_types.get(&s) {
                                let l = LitInt::new(&format!("{v}{}", t.to_token_stream()), proc_macro2::Span::call_site());
                                *e = parse_quote!(#l);
                                return;
                            }
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut k = f.clone();
        K(self.en.g, &x).visit_expr_mut(&mut k);
        text = if k.to_token_stream().to_string() != text { k.to_token_stream().to_string() } else { text };
        match vals[0].0 {
            T::Bool => {
                let mut rs: Vec<(usize, usize)> = vec![];
                for (i, v) in vals.iter().enumerate() {
                    if v.1 == 1 {
                        match rs.last_mut() {
                            Some(r) if r.1 + 1 == i => r.1 = i,
                            _ => rs.push((i, i)),
                        }
                    }
                }
                if rs.len() > 8 {
                    return true;
                }
                let c: Vec<String> = rs
                    .iter()
                    .map(|(a, b)| match (a, b) {
                        (a, b) if a == b => format!("({x} == {a})"),
                        (0, b) => format!("({x} < {})", b + 1),
                        (a, 255) => format!("({x} >= {a})"),
                        (a, b) => format!("({x} >= {a} && {x} < {})", b + 1),
                    })
                    .collect();
                self.out.push(format!("assert(({text}) <==> ({})) by (bit_vector);", c.join(" || ")));
            }
            t => {
                let t = if t == T::Lit { T::Int(8, false) } else { t };
                if let Some((s, _)) = FORMS.iter().find(|(_, f)| vals.iter().enumerate().all(|(i, v)| wrap(t, f(i as i128)) == v.1)) {
                    let c = format!("(({x}{s}) as {})", tname(t));
                    self.out.push(format!("assert(({text}) == {c}) by (bit_vector);"));
                }
            }
        }
        true
    }
}
impl<'a> Visit<'a> for Collect<'_, '_> {
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            let pat = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(p), None) = (pat, &i.diverge) {
                let n = p.ident.to_string();
                self.en.lets.remove(&n);
                if p.mutability.is_none() && p.by_ref.is_none() && n != self.en.x && eval(self.en, &i.expr, 0).is_some() {
                    let e = match &l.pat {
                        Pat::Type(t) => {
                            let (e, t) = (&i.expr, &t.ty);
                            if int_type(t).is_some() { parse_quote!((#e as #t)) } else { (*i.expr).clone() }
                        }
                        _ => (*i.expr).clone(),
                    };
                    self.en.lets.insert(n, e);
                }
            }
        }
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        if matches!(e, Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Paren(_)) && self.fact(e) {
            // the parts are worth having too: contracts and lemmas speak of them
            if let Expr::Binary(b) = e {
                for s in [&b.left, &b.right] {
                    if !matches!(**s, Expr::Lit(_) | Expr::Path(_)) {
                        self.visit_expr(s);
                    }
                }
            }
            return;
        }
        visit::visit_expr(self, e);
    }
}

struct Walk<'g> {
    g: &'g Global,
    u8s: &'g BTreeSet<String>,
    facts: Vec<String>,
}
impl VisitMut for Walk<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut name = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let Pat::Ident(p) = pat {
                    if p.mutability.is_none() && self.u8s.contains(&p.ident.to_string()) {
                        name = Some(p.ident.to_string());
                    }
                }
            }
            if let Some(x) = name {
                let mut en = Env { g: self.g, x, lets: BTreeMap::new() };
                // a byte computed from another byte is covered by the facts about that one
                let mut c = Collect { en: &mut en, out: vec![] };
                for s in &b.stmts[i + 1..] {
                    c.visit_stmt(s);
                }
                let mut out = c.out;
                let mut seen = BTreeSet::new();
                out.retain(|x| seen.insert(x.clone()));
                if !out.is_empty() {
                    let m = format_ident!("__VFACT_{}__", self.facts.len());
                    self.facts.push(out.join(" "));
                    b.stmts.insert(i + 1, parse_quote!(#m;));
                    i += 1;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
/// inserts `__VFACT_n__;` markers; returns the facts they stand for
pub fn bit_facts(g: &Global, u8s: &BTreeSet<String>, params: &[String], b: &mut Block) -> Vec<String> {
    let mut w = Walk { g, u8s, facts: vec![] };
    w.visit_block_mut(b);
    for p in params.iter().rev() {
        let mut en = Env { g, x: p.clone(), lets: BTreeMap::new() };
        let mut c = Collect { en: &mut en, out: vec![] };
        c.visit_block(b);
        let mut out = c.out;
        let mut seen = BTreeSet::new();
        out.retain(|x| seen.insert(x.clone()));
        if !out.is_empty() {
            let m = format_ident!("__VFACT_{}__", w.facts.len());
            w.facts.push(out.join(" "));
            b.stmts.insert(0, parse_quote!(#m;));
        }
    }
    w.facts
}

/// (counter, initial value, step) of the counters of each `while`/`loop`; inserts `__VPRE_k__;`
/// markers in front of the loops
pub fn counters(g: &Global, b: &mut Block) -> BTreeMap<usize, Vec<(String, i128, i128)>> {
    struct W<'a> {
        g: &'a Global,
        whole: Block,
        out: BTreeMap<usize, Vec<(String, i128, i128)>>,
    }
    fn loop_no(b: &Block) -> Option<usize> {
        let Some(Stmt::Expr(Expr::Path(p), _)) = b.stmts.first() else { return None };
        p.path.get_ident()?.to_string().strip_prefix("__VINV_")?.strip_suffix("__")?.parse().ok()
    }
    fn step(g: &Global, s: &Stmt) -> Option<(String, i128)> {
        let Stmt::Expr(e, _) = s else { return None };
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) => {
                let Expr::Path(p) = &*b.left else { return None };
                Some((p.path.get_ident()?.to_string(), const_eval(g, &b.right)?))
            }
            Expr::Binary(b) if matches!(b.op, BinOp::SubAssign(_)) => {
                let Expr::Path(p) = &*b.left else { return None };
                Some((p.path.get_ident()?.to_string(), -const_eval(g, &b.right)?))
            }
            Expr::Assign(a) => {
                let Expr::Path(p) = &*a.left else { return None };
                let n = p.path.get_ident()?.to_string();
                let Expr::Binary(b) = &*a.right else { return None };
                let c = match (&*b.left, b.op) {
                    (Expr::Path(q), BinOp::Add(_)) if q.path.is_ident(&n) => const_eval(g, &b.right)?,
                    (Expr::Path(q), BinOp::Sub(_)) if q.path.is_ident(&n) => -const_eval(g, &b.right)?,
                    _ => return None,
                };
                Some((n, c))
            }
            _ => None,
        }
    }
    /// assigned exactly once, declared once, never borrowed mutably
    fn once(b: &Block, n: &str) -> bool {
        struct O<'a>(&'a str, usize, usize, bool);
        impl<'a> Visit<'a> for O<'_> {
            fn visit_expr(&mut self, e: &'a Expr) {
                let is = |x: &Expr, n: &str| matches!(x, Expr::Path(p) if p.path.is_ident(n));
                match e {
                    Expr::Assign(a) if is(&a.left, self.0) => self.1 += 1,
                    Expr::Binary(a) if is(&a.left, self.0) && a.op.to_token_stream().to_string().ends_with('=') && !matches!(a.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) => self.1 += 1,
                    Expr::Reference(r) if r.mutability.is_some() && is(&r.expr, self.0) => self.3 = true,
                    Expr::Closure(_) => self.3 = true,
                    _ => {}
                }
                visit::visit_expr(self, e);
            }
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                if p.ident == self.0 {
                    self.2 += 1;
                }
            }
        }
        let mut o = O(n, 0, 0, false);
        o.visit_block(b);
        o.1 == 1 && o.2 == 1 && !o.3
    }
    fn has_continue(b: &Block) -> bool {
        struct C(bool);
        impl<'a> Visit<'a> for C {
            fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
                self.0 = true;
            }
        }
        let mut c = C(false);
        c.visit_block(b);
        c.0
    }
    impl VisitMut for W<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut inits: BTreeMap<String, i128> = BTreeMap::new();
            let mut i = 0;
            while i < b.stmts.len() {
                if let Stmt::Local(l) = &b.stmts[i] {
                    let pat = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    if let (Pat::Ident(p), Some(init)) = (pat, &l.init) {
                        if let Some(v) = const_eval(self.g, &init.expr) {
                            inits.insert(p.ident.to_string(), v);
                        }
                    }
                }
                let body = match &b.stmts[i] {
                    Stmt::Expr(Expr::Loop(l), _) => Some(&l.body),
                    Stmt::Expr(Expr::While(l), _) => Some(&l.body),
                    _ => None,
                };
                if let Some((body, k)) = body.and_then(|b| loop_no(b).map(|k| (b, k))) {
                    let mut v = vec![];
                    if !has_continue(body) {
                        // the body of a `match`/`block` in tail position counts as the body
                        for s in &body.stmts {
                            if let Some((n, c)) = step(self.g, s) {
                                if let (Some(a), true) = (inits.get(&n), once(&self.whole, &n)) {
                                    v.push((n, *a, c));
                                }
                            }
                        }
                    }
                    self.out.insert(k, v);
                    let m = format_ident!("__VPRE_{}__", k);
                    b.stmts.insert(i, parse_quote!(#m;));
                    i += 1;
                }
                i += 1;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut w = W { g, whole: b.clone(), out: BTreeMap::new() };
    w.visit_block_mut(b);
    w.out
}
