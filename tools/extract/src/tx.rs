//! Function-level extraction: desugaring into the Verus subset, contract attachment.
use crate::genspec;
use crate::print::print;
use crate::*;
use quote::format_ident;
use syn::visit_mut::{self, VisitMut};

pub struct OutFnExtra;

// ------------------------------------------------------------------ paths and types

struct Fix;
impl VisitMut for Fix {
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
type Path = syn::Path;

fn fix_path(p: &mut Path) {
    let n = p.segments.len();
    if n < 2 {
        return;
    }
    let s0 = p.segments[0].ident.to_string();
    let s1 = p.segments[1].ident.to_string();
    if (s0 == "std" || s0 == "alloc" || (s0 == "core" && s1 == "io")) && matches!(s1.as_str(), "io" | "string" | "process" | "error") {
        p.segments[0].ident = format_ident!("crate");
        p.segments[1].ident = format_ident!("{}", s1);
        let seg: PathSegment = parse_quote!(xstd);
        p.segments.insert(1, seg);
        return;
    }
    if s0 == "phf" {
        p.segments.insert(0, parse_quote!(xstd));
        p.segments.insert(0, parse_quote!(crate));
        return;
    }
    if s0 == "crate" && s1 == "core" {
        p.segments[1].ident = format_ident!("wcore");
    }
    for s in p.segments.iter_mut() {
        if s.ident == "r#type" || s.ident == "type" {
            s.ident = format_ident!("type_");
        }
    }
}

pub fn fix_type(t: &mut Type) {
    Fix.visit_type_mut(t);
}

struct SelfErr {
    err: Option<Type>,
    selft: Option<Type>,
}
impl VisitMut for SelfErr {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s == ["Self", "Error"] {
                if let Some(e) = &self.err {
                    *t = e.clone();
                    return;
                }
            }
            if s == ["Self"] && p.path.segments[0].arguments.is_empty() {
                if let Some(e) = &self.selft {
                    *t = e.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn subst_self(t: &Type, s: &Option<String>) -> Type {
    let mut t = t.clone();
    if let Some(s) = s {
        let st: Type = parse_str(s).unwrap();
        SelfErr { err: None, selft: Some(st) }.visit_type_mut(&mut t);
    }
    t
}

/// trait impl of a crate-local trait -> inherent impl (defaults copied in)
pub fn devirtualise(im: &ItemImpl, t: &ItemTrait) -> ItemImpl {
    let mut o = im.clone();
    o.trait_ = None;
    let mut err = None;
    let mut items = vec![];
    let mut have = BTreeSet::new();
    for it in &im.items {
        match it {
            ImplItem::Type(ty) => {
                if ty.ident == "Error" {
                    err = Some(ty.ty.clone());
                }
            }
            ImplItem::Fn(f) => {
                have.insert(f.sig.ident.to_string());
                items.push(ImplItem::Fn(f.clone()));
            }
            o => items.push(o.clone()),
        }
    }
    for it in &t.items {
        if let TraitItem::Fn(f) = it {
            if have.contains(&f.sig.ident.to_string()) {
                continue;
            }
            if let Some(b) = &f.default {
                let sig = &f.sig;
                let m: ImplItemFn = parse_quote!(pub #sig #b);
                items.push(ImplItem::Fn(m));
            }
        }
    }
    // inline argument-less single-expression associated functions (the marker tables)
    let mut inl: BTreeMap<String, Expr> = BTreeMap::new();
    for it in &items {
        if let ImplItem::Fn(f) = it {
            if f.sig.inputs.is_empty() && f.block.stmts.len() == 1 {
                if let Stmt::Expr(e @ Expr::Reference(_), None) = &f.block.stmts[0] {
                    inl.insert(f.sig.ident.to_string(), e.clone());
                }
            }
        }
    }
    struct Inl<'a>(&'a BTreeMap<String, Expr>);
    impl VisitMut for Inl<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s.len() == 2 && s[0] == "Self" && c.args.is_empty() {
                        if let Some(x) = self.0.get(&s[1]) {
                            *e = parse_quote!((#x));
                        }
                    }
                }
            }
        }
    }
    let mut used: BTreeSet<String> = BTreeSet::new();
    for it in items.iter_mut() {
        Inl(&inl).visit_impl_item_mut(it);
        SelfErr { err: err.clone(), selft: None }.visit_impl_item_mut(it);
        used.insert(it.to_token_stream().to_string());
    }
    // functions that exist only to format messages, and inlined ones, are not decoder code
    items.retain(|it| match it {
        ImplItem::Fn(f) => {
            let n = f.sig.ident.to_string();
            !(n.contains("formatted") || inl.contains_key(&n))
        }
        _ => true,
    });
    o.items = items;
    o
}

pub fn lift_nested(it: &mut Item, out: &mut Vec<ItemFn>) {
    struct L<'a>(&'a mut Vec<ItemFn>);
    impl VisitMut for L<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut keep = vec![];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Item(Item::Fn(f)) => self.0.push(f),
                    o => keep.push(o),
                }
            }
            b.stmts = keep;
        }
    }
    L(out).visit_item_mut(it);
}

// ------------------------------------------------------------------ constants

pub fn const_eval(g: &Global, e: &Expr) -> Option<i128> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            Lit::Byte(b) => Some(b.value() as i128),
            _ => None,
        },
        Expr::Paren(p) => const_eval(g, &p.expr),
        Expr::Cast(c) => const_eval(g, &c.expr),
        Expr::Path(p) if p.path.segments.len() == 1 => {
            let n = p.path.segments[0].ident.to_string();
            let (_, e) = g.consts.get(&n)?;
            let v = const_eval(g, e)?;
            Some(match g.const_types.get(&n).map(|t| t.to_token_stream().to_string()).as_deref() {
                Some("u8") => v & 0xff,
                Some("u16") => v & 0xffff,
                Some("u32") => v & 0xffff_ffff,
                Some("u64" | "usize") => v & 0xffff_ffff_ffff_ffff,
                _ => v,
            })
        }
        Expr::Unary(u) => match u.op {
            UnOp::Neg(_) => Some(-const_eval(g, &u.expr)?),
            // the type of the constant cuts it to size
            UnOp::Not(_) => Some(!const_eval(g, &u.expr)?),
            _ => None,
        },
        Expr::Index(ix) => {
            let i = const_eval(g, &ix.index)? as usize;
            let Expr::Path(p) = &*ix.expr else { return None };
            let (_, e) = g.consts.get(&p.path.segments.last()?.ident.to_string())?;
            let v = const_array(g, e)?;
            v.get(i).copied()
        }
        Expr::Binary(b) => {
            let (l, r) = (const_eval(g, &b.left)?, const_eval(g, &b.right)?);
            match b.op {
                BinOp::Add(_) => l.checked_add(r),
                BinOp::Sub(_) => l.checked_sub(r),
                BinOp::Mul(_) => l.checked_mul(r),
                BinOp::Shl(_) => Some(l << r),
                BinOp::BitOr(_) => Some(l | r),
                BinOp::BitAnd(_) => Some(l & r),
                _ => None,
            }
        }
        _ => None,
    }
}
fn const_array(g: &Global, e: &Expr) -> Option<Vec<i128>> {
    match e {
        Expr::Array(a) => a.elems.iter().map(|x| const_eval(g, x)).collect(),
        Expr::Repeat(r) => {
            let n = const_eval(g, &r.len)? as usize;
            Some(vec![const_eval(g, &r.expr)?; n])
        }
        Expr::Path(p) => {
            let (_, e) = g.consts.get(&p.path.segments.last()?.ident.to_string())?;
            const_array(g, e)
        }
        Expr::Lit(l) => match &l.lit {
            Lit::ByteStr(b) => Some(b.value().iter().map(|x| *x as i128).collect()),
            _ => None,
        },
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => const_array(g, &u.expr),
        Expr::Reference(r) => const_array(g, &r.expr),
        _ => None,
    }
}

pub fn emit_const(g: &Global, id: Ident, ty: &Type, e: &Expr, _is_static: bool) -> String {
    let mut ty = ty.clone();
    fix_type(&mut ty);
    if let Expr::Macro(m) = e {
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        if n == "phf_ordered_map" || n == "phf_map" {
            // key => value pairs
            struct Pairs(Vec<(Expr, Expr)>);
            impl syn::parse::Parse for Pairs {
                fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
                    let mut v = vec![];
                    while !input.is_empty() {
                        let k: Expr = input.parse()?;
                        input.parse::<Token![=>]>()?;
                        let x: Expr = input.parse()?;
                        v.push((k, x));
                        if input.peek(Token![,]) {
                            input.parse::<Token![,]>()?;
                        }
                    }
                    Ok(Pairs(v))
                }
            }
            if let Ok(p) = parse2::<Pairs>(m.mac.tokens.clone()) {
                let mut body = quote!(None);
                for (k, v) in p.0.iter().rev() {
                    body = quote!(if k == #k { Some(#v) } else { #body });
                }
                let mk = format_ident!("{}__mk", id);
                return print(quote! {
                    #[verifier::external_body]
                    pub const fn #mk() -> (r: #ty) ensures forall|k: u8| #[trigger] r.lookup(k) == (#body) { crate::xstd::phf::OrderedMap::stub() }
                    pub exec static #id: #ty ensures forall|k: u8| #[trigger] #id.lookup(k) == (#body) { #mk() }
                });
            }
        }
        return String::new();
    }
    if let Some(v) = const_array(g, e) {
        if let Type::Array(a) = &ty {
            let el = &a.elem;
            let lits: Vec<TokenStream> = v.iter().map(|x| { let l = proc_macro2::Literal::i128_unsuffixed(*x); quote!(#l as #el) }).collect();
            let mut e2 = e.clone();
            Fix.visit_expr_mut(&mut e2);
            return print(quote!(pub exec static #id: #ty ensures #id@ == seq![#(#lits),*] { #e2 }));
        }
    }
    let mut e2 = e.clone();
    Fix.visit_expr_mut(&mut e2);
    // masks computed from masks: the value, for the solver does not compute with bits
    if crate::facts::bitty(e) && INTS.contains(&ty.to_token_stream().to_string().as_str()) {
        if let Some(v) = const_eval(g, &parse_quote!(#id)) {
            let l = proc_macro2::Literal::i128_unsuffixed(v);
            return print(quote!(pub const #id: #ty = #l;));
        }
    }
    print(quote!(pub const #id: #ty = #e2;))
}

// ------------------------------------------------------------------ function emission

pub fn has_fn_param(sig: &Signature) -> Option<usize> {
    // generic parameters bounded by Fn*/FnMut/FnOnce
    let mut fnp = BTreeSet::new();
    let is_fn = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().map(|s| s.ident.to_string().starts_with("Fn")).unwrap_or(false));
    for p in &sig.generics.params {
        if let GenericParam::Type(t) = p {
            if t.bounds.iter().any(is_fn) {
                fnp.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if t.bounds.iter().any(is_fn) {
                    fnp.insert(t.bounded_ty.to_token_stream().to_string());
                }
            }
        }
    }
    for (i, a) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(t) = a {
            let s = t.ty.to_token_stream().to_string();
            if fnp.contains(&s) {
                return Some(i);
            }
            if let Type::ImplTrait(im) = &*t.ty {
                if im.bounds.iter().any(is_fn) {
                    return Some(i);
                }
            }
        }
    }
    None
}

#[derive(Clone)]
pub struct Specialise {
    pub name: String, // rust identifier
    pub key: String,
    pub generic: String, // key of the generic fn
    pub module: Vec<String>,
    pub self_ty: Option<String>,
    pub arg: Expr,                              // path or closure
    pub callee: Option<String>,                 // key of the function passed / called by the closure
    pub captures: Vec<(String, Type, bool)>,    // name, type, by-mut-ref
    pub ret: Option<(Type, Type)>,              // T, E of the element parser
}

struct Cx<'a> {
    g: &'a mut Global,
    module: Vec<String>,
    self_ty: Option<String>,
    key: String,
    ret: Option<Type>,
    exact_err: bool,
    locals: Vec<(String, Option<Type>)>,
    loops: Vec<String>,
    bindings: Vec<String>,
    notes: Vec<String>,
    calls: Vec<String>,
    nclos: usize,
    nhelp: usize,
    queue: &'a mut Vec<Specialise>,
    helpers: &'a mut BTreeMap<String, (Vec<String>, String)>,
    pending: Vec<OutFn>,
    subst_fn: Option<(String, Expr, Option<String>)>, // fn-param name, replacement, callee key
    unsupported: Vec<String>,
    u8s: std::collections::BTreeSet<String>,
    /// expressions known to be Results from what is done with them
    hints: std::collections::BTreeSet<String>,
    /// locals that hold the length of something
    lens: std::collections::BTreeSet<String>,
    not_u8: std::collections::BTreeSet<String>,
}

fn path_strs(p: &Path) -> Vec<String> {
    p.segments.iter().map(|s| ident_str(&s.ident)).collect()
}

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize"];

impl<'a> Cx<'a> {
    fn fnkey(&self, e: &Expr) -> Option<String> {
        let Expr::Path(p) = e else { return None };
        let mut s = path_strs(&p.path);
        if s.len() >= 2 {
            if s[s.len() - 2] == "Self" {
                if let Some(t) = &self.self_ty {
                    let n = s.len();
                    s[n - 2] = t.clone();
                }
            }
            let k = format!("{}::{}", s[s.len() - 2], s[s.len() - 1]);
            if self.g.fns.contains_key(&k) {
                return Some(k);
            }
        }
        let k = s.last()?.clone();
        if self.g.fns.contains_key(&k) && self.g.fns[&k].self_ty.is_none() {
            if s.len() >= 2 && s[s.len() - 2].chars().next().unwrap().is_uppercase() {
                return None;
            }
            return Some(k);
        }
        None
    }
    fn method_key(&self, m: &str) -> Option<String> {
        let v: Vec<&String> = self.g.fns.keys().filter(|k| k.ends_with(&format!("::{m}"))).collect();
        if v.len() == 1 && self.g.fns[v[0]].sig.receiver().is_some() {
            Some(v[0].clone())
        } else {
            None
        }
    }
    fn fn_ret(&self, k: &str) -> Option<Type> {
        let f = self.g.fns.get(k)?;
        match &f.sig.output {
            ReturnType::Type(_, t) => Some(subst_self(t, &f.self_ty)),
            _ => None,
        }
    }
    fn local(&self, n: &str) -> Option<Type> {
        self.locals.iter().rev().find(|x| x.0 == n).and_then(|x| x.1.clone())
    }
    fn is_local(&self, n: &str) -> bool {
        self.locals.iter().any(|x| x.0 == n)
    }
    fn ty(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Block(b) => match b.block.stmts.last()? {
                Stmt::Expr(e, None) => self.ty(e),
                _ => None,
            },
            Expr::Reference(r) => {
                let t = self.ty(&r.expr)?;
                Some(parse_quote!(&#t))
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) if !i.suffix().is_empty() => parse_str(i.suffix()).ok(),
                Lit::Bool(_) => parse_str("bool").ok(),
                _ => None,
            },
            Expr::Cast(c) => Some((*c.ty).clone()),
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => parse_str("bool").ok(),
                BinOp::BitOr(_) | BinOp::BitAnd(_) | BinOp::BitXor(_) => self.ty(&b.left).or_else(|| self.ty(&b.right)),
                _ => None,
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => self.ty(&u.expr),
            Expr::Field(f) => {
                let Member::Named(n) = &f.member else { return None };
                let mut t = match &*f.base {
                    Expr::Path(p) if p.path.is_ident("self") => parse_str(self.self_ty.as_ref()?).ok()?,
                    b => self.ty(b)?,
                };
                while let Type::Reference(r) = t {
                    t = *r.elem;
                }
                let Type::Path(p) = &t else { return None };
                self.g.fields.get(&(ident_str(&p.path.segments.last()?.ident), ident_str(n))).cloned()
            }
            Expr::Array(a) => {
                let t = a.elems.first().and_then(|x| self.ty(x)).unwrap_or(parse_quote!(u8));
                let n = a.elems.len();
                Some(parse_quote!([#t; #n]))
            }
            Expr::Repeat(r) => {
                let t = self.ty(&r.expr).unwrap_or(parse_quote!(u8));
                let n = &r.len;
                Some(parse_quote!([#t; #n]))
            }
            Expr::Path(p) => {
                let s = path_strs(&p.path);
                if s.len() == 1 {
                    return self.local(&s[0]);
                }
                if s.len() == 2 && INTS.contains(&s[0].as_str()) {
                    return parse_str(&s[0]).ok();
                }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_strs(&p.path);
                    if s.len() == 2 && s[1] == "from" && INTS.contains(&s[0].as_str()) {
                        return parse_str(&s[0]).ok();
                    }
                }
                self.fn_ret(&self.fnkey(&c.func)?)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map" if m.args.len() == 1 => {
                        let t = self.ty(&m.receiver)?;
                        let Type::Path(tp) = &t else { return None };
                        let last = tp.path.segments.last()?;
                        let PathArguments::AngleBracketed(a) = &last.arguments else { return None };
                        let mut args: Vec<Type> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect();
                        if let Expr::Closure(c) = &m.args[0] {
                            // |(a, _)| a
                            if let (Some(Pat::Tuple(pt)), Expr::Path(b), Type::Tuple(tt)) = (c.inputs.first(), &*c.body, &args[0]) {
                                for (i, q) in pt.elems.iter().enumerate() {
                                    if let Pat::Ident(pi) = q {
                                        if b.path.is_ident(&pi.ident) {
                                            args[0] = tt.elems[i].clone();
                                            let id = &last.ident;
                                            return Some(parse_quote!(#id<#(#args),*>));
                                        }
                                    }
                                }
                            }
                        }
                        None
                    }
                    _ => {
                        if let Some(k) = self.method_key(&n) {
                            return self.fn_ret(&k);
                        }
                        match n.as_str() {
                            "last" | "first" | "last_mut" | "first_mut" | "pop" | "checked_add" | "checked_sub" | "checked_mul" | "then_some" => parse_str("Option<()>").ok(),
                            "is_some" | "is_none" | "is_ok" | "is_err" | "is_empty" | "contains" | "contains_key" => parse_str("bool").ok(),
                            "as_ref" | "as_mut" | "copied" | "cloned" => match self.ty(&m.receiver)? {
                                Type::Path(p) if p.path.segments.last()?.ident == "Option" => parse_str("Option<()>").ok(),
                                _ => None,
                            },
                            _ => None,
                        }
                    }
                }
            }
            Expr::Try(t) => {
                let t = self.ty(&t.expr)?;
                result_args(&t).map(|x| x.0)
            }
            _ => None,
        }
    }
    fn pat_bind(&mut self, p: &Pat, t: Option<Type>) {
        match p {
            Pat::Ident(i) => {
                let n = pname(&i.ident);
                if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) || t.is_some() {
                    self.locals.push((n.clone(), t.clone()));
                    self.bindings.push(n);
                }
                if let Some((_, s)) = &i.subpat {
                    self.pat_bind(s, t);
                }
            }
            Pat::Type(pt) => {
                let ty = (*pt.ty).clone();
                self.pat_bind(&pt.pat, Some(ty));
            }
            Pat::Tuple(tp) => {
                for (i, x) in tp.elems.iter().enumerate() {
                    let ti = match &t {
                        Some(Type::Tuple(tt)) => tt.elems.iter().nth(i).cloned(),
                        _ => None,
                    };
                    self.pat_bind(x, ti);
                }
            }
            Pat::TupleStruct(tp) => {
                for x in &tp.elems {
                    self.pat_bind(x, None);
                }
            }
            Pat::Struct(s) => {
                for f in &s.fields {
                    self.pat_bind(&f.pat, None);
                }
            }
            Pat::Or(o) => {
                if let Some(c) = o.cases.first() {
                    self.pat_bind(c, None);
                }
            }
            Pat::Reference(r) => self.pat_bind(&r.pat, None),
            Pat::Paren(r) => self.pat_bind(&r.pat, t),
            Pat::Slice(r) => {
                for x in &r.elems {
                    self.pat_bind(x, None);
                }
                self.unsup("slice pattern");
            }
            _ => {}
        }
    }
    fn unsup(&mut self, s: &str) {
        self.unsupported.push(s.to_string());
    }
    /// the length of something that is there already
    fn is_len(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::MethodCall(m) => m.method == "len" && m.args.is_empty(),
            Expr::Path(p) => p.path.get_ident().map(|i| self.lens.contains(&pname(i))).unwrap_or(false),
            _ => false,
        }
    }
    fn newloop(&mut self, kind: &str) -> usize {
        self.loops.push(kind.to_string());
        self.bindings.push(format!("#{}", self.loops.len() - 1));
        self.loops.len() - 1
    }
    fn mark(&self, b: &mut Block, k: usize) {
        let a = format_ident!("__VINV_{}__", k);
        let z = format_ident!("__VEND_{}__", k);
        b.stmts.insert(0, parse_quote!(#a;));
        // make a trailing expression a statement
        if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        b.stmts.push(parse_quote!(#z;));
    }
    fn is_array(&self, e: &Expr) -> bool {
        if let Expr::Path(p) = e {
            let s = path_strs(&p.path);
            if let Some((_, ce)) = self.g.consts.get(s.last().unwrap()) {
                if !self.is_local(s.last().unwrap()) && const_array(self.g, ce).is_some() {
                    return true;
                }
            }
        }
        matches!(self.ty(e), Some(Type::Array(_)))
    }

    // ---- specialisation of higher-order functions ----
    fn specialise(&mut self, c: &mut ExprCall, key: &str, argi: usize) {
        let f = self.g.fns[key].clone();
        let arg = c.args[argi].clone();
        let gname = ident_str(&f.sig.ident);
        let sp;
        match &arg {
            Expr::Path(_) => {
                let ck = self.fnkey(&arg);
                let Some(ck) = ck else {
                    self.unsup(&format!("cannot resolve function argument of {gname}"));
                    return;
                };
                self.calls.push(ck.clone());
                let ret = self.fn_ret(&ck).and_then(|t| result_args(&t));
                let nm = format!("{gname}__{}", ck.replace("::", "_"));
                sp = Specialise {
                    name: nm,
                    key: format!("{gname}<{ck}>"),
                    generic: key.to_string(),
                    module: self.module.clone(),
                    self_ty: self.self_ty.clone(),
                    arg: arg.clone(),
                    callee: Some(ck),
                    captures: vec![],
                    ret,
                };
            }
            Expr::Closure(cl) => {
                let k = self.nclos;
                self.nclos += 1;
                // a closure that only forwards to a known function is that function
                if let Some(fw) = forwards(cl) {
                    if let Some(_ck) = self.fnkey(&fw) {
                        c.args[argi] = fw;
                        self.nclos -= 1;
                        return self.specialise(c, key, argi);
                    }
                }
                let caps = self.captures(cl);
                // what the closure body yields
                let mut saved = self.locals.clone();
                std::mem::swap(&mut saved, &mut self.locals);
                self.locals = saved.clone();
                let body_ty = self.ty(&cl.body);
                self.locals = saved;
                let ret = body_ty.and_then(|t| result_args(&t));
                let mut captures = vec![];
                for (n, m) in caps {
                    let Some(t) = self.local(&n) else {
                        self.unsup(&format!("type of captured `{n}` unknown"));
                        return;
                    };
                    captures.push((n, t, m));
                }
                // identical closures in one function share a specialisation
                let txt = arg.to_token_stream().to_string();
                let same = self.queue.iter().find(|s| s.generic == key && s.module == self.module && s.arg.to_token_stream().to_string() == txt && s.key.contains(&format!("@{}#", self.key)));
                let (key2, nm) = match same {
                    Some(s) => {
                        self.nclos -= 1;
                        (s.key.clone(), s.name.clone())
                    }
                    None => (format!("{gname}<@{}#{k}>", self.key), format!("{gname}__at_{}_{k}", self.key.replace("::", "_"))),
                };
                let mut ck = None;
                if let Expr::Call(cc) = &*cl.body {
                    ck = self.fnkey(&cc.func);
                }
                sp = Specialise { name: nm, key: key2, generic: key.to_string(), module: self.module.clone(), self_ty: self.self_ty.clone(), arg: arg.clone(), callee: ck, captures, ret };
            }
            _ => {
                self.unsup(&format!("function argument of {gname}"));
                return;
            }
        }
        if sp.ret.is_none() {
            self.unsup(&format!("result type of function argument of {gname}"));
        }
        self.calls.push(sp.key.clone());
        // rewrite the call
        let nm = format_ident!("{}", sp.name);
        let mut args: Vec<Expr> = c.args.iter().enumerate().filter(|(i, _)| *i != argi).map(|(_, x)| x.clone()).collect();
        for (n, _, m) in &sp.captures {
            let id = format_ident!("{}", n);
            args.push(if *m { parse_quote!(&mut #id) } else { parse_quote!(#id) });
        }
        let home = self.g.spec_home.entry(sp.name.clone()).or_insert(self.module.clone()).clone();
        let hp: syn::Path = parse_str(&cratepath(&home)).unwrap();
        *c = parse_quote!(#hp::#nm::f(#(#args),*));
        let mut sp = sp;
        sp.module = home;
        self.queue.push(sp);
    }
    fn captures(&self, cl: &ExprClosure) -> Vec<(String, bool)> {
        struct V {
            names: Vec<String>,
            muts: BTreeSet<String>,
        }
        impl<'ast> syn::visit::Visit<'ast> for V {
            fn visit_expr_path(&mut self, p: &'ast ExprPath) {
                if let Some(i) = p.path.get_ident() {
                    self.names.push(pname(i));
                }
            }
            fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
                if r.mutability.is_some() {
                    if let Expr::Path(p) = &*r.expr {
                        if let Some(i) = p.path.get_ident() {
                            self.muts.insert(pname(i));
                        }
                    }
                }
                syn::visit::visit_expr_reference(self, r);
            }
            fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
                if let Expr::Path(p) = &*a.left {
                    if let Some(i) = p.path.get_ident() {
                        self.muts.insert(pname(i));
                    }
                }
                syn::visit::visit_expr_assign(self, a);
            }
            fn visit_expr_binary(&mut self, a: &'ast ExprBinary) {
                if a.op.to_token_stream().to_string().ends_with('=') && !matches!(a.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) {
                    if let Expr::Path(p) = &*a.left {
                        if let Some(i) = p.path.get_ident() {
                            self.muts.insert(pname(i));
                        }
                    }
                }
                syn::visit::visit_expr_binary(self, a);
            }
        }
        let mut v = V { names: vec![], muts: BTreeSet::new() };
        syn::visit::Visit::visit_expr(&mut v, &cl.body);
        let params: BTreeSet<String> = cl.inputs.iter().flat_map(pat_names).collect();
        let mut out: Vec<(String, bool)> = vec![];
        for n in v.names {
            if !params.contains(&n) && self.is_local(&n) && !out.iter().any(|x| x.0 == n) {
                let m = v.muts.contains(&n);
                out.push((n, m));
            }
        }
        out
    }
    /// `e` is a Result, and so is what it is made from where a method keeps the kind
    fn hint(&mut self, e: &Expr) {
        self.hints.insert(e.to_token_stream().to_string());
        match e {
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "and_then" | "or_else" | "map_err") => {
                let r = (*m.receiver).clone();
                self.hint(&r);
            }
            Expr::Paren(p) => self.hint(&p.expr),
            _ => {}
        }
    }
    fn apply(&self, f: &Expr, v: &Ident) -> Option<(Pat, Expr)> {
        match f {
            Expr::Path(_) => Some((parse_quote!(#v), parse_quote!(#f(#v)))),
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone())).filter(|x| !leaves(&x.1))
            }
            Expr::Paren(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_) => self.apply_choice(f, v).map(|e| (parse_quote!(#v), e)),
            _ => None,
        }
    }
    /// a function that is chosen by looking at values only, applied within the branches that choose it
    fn apply_choice(&self, f: &Expr, v: &Ident) -> Option<Expr> {
        let one = |b: &Block| match &b.stmts[..] {
            [Stmt::Expr(e, None)] => Some(e.clone()),
            _ => None,
        };
        match f {
            Expr::Path(_) => Some(parse_quote!(#f(#v))),
            Expr::Closure(_) => {
                let (p, b) = self.apply(f, v)?;
                Some(parse_quote!((match #v { #p => #b })))
            }
            Expr::Paren(p) => self.apply_choice(&p.expr, v),
            Expr::Block(b) if b.label.is_none() => self.apply_choice(&one(&b.block)?, v),
            Expr::If(i) if looks(&i.cond) => {
                let c = &i.cond;
                let t = self.apply_choice(&one(&i.then_branch)?, v)?;
                let e = self.apply_choice(&i.else_branch.as_ref()?.1, v)?;
                Some(parse_quote!((if #c { #t } else { #e })))
            }
            Expr::Match(m) if looks(&m.expr) && m.arms.iter().all(|a| a.guard.as_ref().is_none_or(|g| looks(&g.1))) => {
                let mut m = m.clone();
                for a in &mut m.arms {
                    a.body = Box::new(self.apply_choice(&a.body, v)?);
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            _ => None,
        }
    }
    /// a function of no arguments, as the expression that calling it is
    fn apply0(&self, f: &Expr) -> Option<Expr> {
        match f {
            Expr::Path(_) => Some(parse_quote!(#f())),
            Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()).filter(|x| !leaves(x)),
            _ => None,
        }
    }
    /// whether an expression is a Result or an Option, as far as its text tells
    fn kind(&self, e: &Expr) -> Option<Kind> {
        if self.hints.contains(&e.to_token_stream().to_string()) {
            return Some(Kind::Res);
        }
        match self.ty(e) {
            Some(t) if result_args(&t).is_some() => return Some(Kind::Res),
            Some(Type::Path(p)) => match p.path.segments.last()?.ident.to_string().as_str() {
                "Option" => return Some(Kind::Opt),
                "Result" => return Some(Kind::Res),
                _ => {}
            },
            _ => {}
        }
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Match(m) => m.arms.iter().find_map(|a| self.kind(&a.body)),
            Expr::Block(b) => match b.block.stmts.last()? {
                Stmt::Expr(e, None) => self.kind(e),
                _ => None,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => None,
            }
            .or_else(|| self.kind(&i.else_branch.as_ref()?.1)),
            Expr::Path(p) if p.path.is_ident("None") => Some(Kind::Opt),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() {
                    "Ok" | "Err" | "try_from" => Some(Kind::Res),
                    "Some" => Some(Kind::Opt),
                    _ => None,
                },
                _ => None,
            },
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "map_err" | "try_into" | "ok_or" | "ok_or_else" | "read_exact" | "read_to_end" => Some(Kind::Res),
                "ok" | "err" | "checked_add" | "checked_sub" | "checked_mul" | "first" | "last" | "pop" | "get" | "next" | "then" | "then_some" => Some(Kind::Opt),
                "map" | "and_then" | "or" | "or_else" | "filter" => self.kind(&m.receiver),
                _ => None,
            },
            _ => None,
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Res,
    Opt,
}
/// an expression whose evaluation changes nothing and cannot panic, as far as its text tells
fn looks(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => looks(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && looks(&r.expr),
        Expr::Field(f) => looks(&f.base),
        Expr::Unary(u) => !matches!(u.op, UnOp::Neg(_)) && looks(&u.expr),
        Expr::Tuple(t) => t.elems.iter().all(looks),
        Expr::Let(l) => looks(&l.expr),
        Expr::Binary(b) => {
            matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_))
                && looks(&b.left)
                && looks(&b.right)
        }
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "is_empty" | "len" | "is_some" | "is_none" | "is_ok" | "is_err" | "limit") && m.args.is_empty() && looks(&m.receiver),
        Expr::Macro(m) => m.mac.path.is_ident("matches"),
        _ => false,
    }
}
/// whether an expression holds a `?`, a return or a jump
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            self.0 |= matches!(e, Expr::Try(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_));
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn forwards(c: &ExprClosure) -> Option<Expr> {
    // |r| f(r)
    if c.inputs.len() != 1 {
        return None;
    }
    let n = pat_names(&c.inputs[0]);
    let mut b = &*c.body;
    if let Expr::Block(bl) = b {
        if bl.block.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &bl.block.stmts[0] {
                b = e;
            }
        }
    }
    if let Expr::Call(cc) = b {
        if cc.args.len() == 1 && n.len() == 1 {
            if let Expr::Path(p) = &cc.args[0] {
                if p.path.get_ident().map(pname) == Some(n[0].clone()) {
                    return Some((*cc.func).clone());
                }
            }
        }
    }
    None
}

pub fn pname(i: &Ident) -> String {
    let s = i.to_string();
    match s.strip_prefix("r#") {
        Some(x) => format!("{x}_"),
        None => s,
    }
}
fn pat_names(p: &Pat) -> Vec<String> {
    match p {
        Pat::Ident(i) => vec![pname(&i.ident)],
        Pat::Type(t) => pat_names(&t.pat),
        Pat::Tuple(t) => t.elems.iter().flat_map(pat_names).collect(),
        Pat::Reference(r) => pat_names(&r.pat),
        Pat::TupleStruct(t) => t.elems.iter().flat_map(pat_names).collect(),
        _ => vec![],
    }
}
pub fn result_args(t: &Type) -> Option<(Type, Type)> {
    let Type::Path(p) = t else { return None };
    let l = p.path.segments.last()?;
    if l.ident != "Result" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    let v: Vec<Type> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect();
    let is_io = p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "io";
    match v.len() {
        2 => Some((v[0].clone(), v[1].clone())),
        1 if is_io => Some((v[0].clone(), parse_quote!(crate::xstd::io::Error))),
        _ => None,
    }
}
/// the arguments a format string shows, in order; true for Debug
fn shown(ts: TokenStream) -> Option<Vec<(Expr, bool)>> {
    let l: ListE = parse2(ts).ok()?;
    let mut args = l.0.into_iter();
    let Some(f) = args.next() else { return Some(vec![]) };
    let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = f else { return None };
    let args: Vec<Expr> = args.collect();
    let f = f.value().replace("{{", "").replace("}}", "");
    let mut out = vec![];
    let mut next = 0;
    for p in f.split('{').skip(1) {
        let p = p.split('}').next()?;
        let (n, spec) = p.split_once(':').unwrap_or((p, ""));
        let x: Expr = if n.is_empty() {
            next += 1;
            args.get(next - 1)?.clone()
        } else if let Ok(k) = n.parse::<usize>() {
            args.get(k)?.clone()
        } else {
            // a named argument or a variable in scope
            match args.iter().find_map(|a| match a { Expr::Assign(a) if a.left.to_token_stream().to_string() == n => Some((*a.right).clone()), _ => None }) {
                Some(x) => x,
                None => parse_str(n).ok()?,
            }
        };
        out.push((x, spec.ends_with('?')));
    }
    Some(out)
}

fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => is_simple(&p.expr),
        Expr::Unary(u) => is_simple(&u.expr),
        Expr::Field(f) => is_simple(&f.base),
        Expr::Reference(r) => is_simple(&r.expr),
        _ => false,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        _ => e,
    }
}
fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    if let Expr::Binary(b) = e {
        if matches!(b.op, BinOp::And(_)) {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
            return;
        }
    }
    out.push(e.clone());
}

impl VisitMut for Cx<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        let t0 = l.init.as_ref().and_then(|i| self.ty(&i.expr));
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.visit_expr_mut(d);
            }
        }
        let t = l.init.as_ref().and_then(|i| self.ty(&i.expr)).or(t0);
        let p = l.pat.clone();
        if let Pat::Ident(i) = match &p { Pat::Type(t) => &*t.pat, p => p } {
            let t = match &p { Pat::Type(t) => Some((*t.ty).clone()), _ => t.clone() };
            let n = ident_str(&i.ident);
            if i.mutability.is_none() && l.init.as_ref().map(|x| self.is_len(&x.expr)).unwrap_or(false) { self.lens.insert(pname(&i.ident)); } else { self.lens.remove(&pname(&i.ident)); }
            if t.map(|t| t.to_token_stream().to_string() == "u8").unwrap_or(false) { self.u8s.insert(n); } else { self.not_u8.insert(n); }
        }
        self.pat_bind(&p, t);
        self.visit_pat_mut(&mut l.pat);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        let p = a.pat.clone();
        self.pat_bind(&p, None);
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            let semi = m.semi_token;
            *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), semi);
        }
        if let Stmt::Item(Item::Const(c)) = s {
            let (id, ty, e) = (c.ident.clone(), c.ty.clone(), c.expr.clone());
            *s = parse_quote!(let #id: #ty = #e;);
        }
        if let Stmt::Item(Item::Use(_)) = s {
            self.unsup("use inside a function");
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop attribute-only noise
        let n = self.locals.len();
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let before = self.loops.len();
            let is_loop = matches!(&s, Stmt::Expr(Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_), _));
            self.visit_stmt_mut(&mut s);
            // drop removed statements
            if let Stmt::Expr(Expr::Tuple(t), Some(_)) = &s {
                if t.elems.is_empty() {
                    continue;
                }
            }
            if is_loop {
                let a = format_ident!("__VBEF_{}__", before);
                out.push(parse_quote!(#a;));
            }
            out.push(s);
            if is_loop {
                let a = format_ident!("__VAFTER_{}__", before);
                out.push(parse_quote!(#a;));
            }
        }
        // a marker must not displace the value of the block
        b.stmts = out;
        self.locals.truncate(n);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---------------- pre-order
        match e {
            Expr::Call(c) => {
                let func = (*c.func).clone();
                if let Some((p, rep, ck)) = &self.subst_fn {
                    if let Expr::Path(pp) = &func {
                        if pp.path.is_ident(p) {
                            let rep = rep.clone();
                            if let Some(k) = ck {
                                self.calls.push(k.clone());
                            }
                            for a in c.args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            match &rep {
                                Expr::Closure(cl) => {
                                    let ps: Vec<Pat> = cl.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                                    let mut body = (*cl.body).clone();
                                    for p in &ps {
                                        self.pat_bind(&p.clone(), None);
                                    }
                                    self.visit_expr_mut(&mut body);
                                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                                    // bind closure parameters to the arguments (a reader argument is reborrowed)
                                    let lets: Vec<TokenStream> = ps
                                        .iter()
                                        .zip(&args)
                                        .filter(|(p, a)| p.to_token_stream().to_string() != a.to_token_stream().to_string())
                                        .map(|(p, a)| quote!(let #p = &mut *#a;))
                                        .collect();
                                    *e = parse_quote!({ #(#lets)* #body });
                                }
                                f => {
                                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                                    *e = parse_quote!(#f(#(#args),*));
                                }
                            }
                            return;
                        }
                    }
                }
                if let Some(k) = self.fnkey(&func) {
                    if let Some(i) = has_fn_param(&self.g.fns[&k].sig) {
                        self.specialise(c, &k, i);
                        // remaining args
                        if let Expr::Call(c) = e {
                            for a in c.args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                        }
                        return;
                    }
                    self.calls.push(k);
                } else if let Expr::Path(p) = &func {
                    let s = path_strs(&p.path);
                    if s.len() == 2 && s[1] == "from" && INTS.contains(&s[0].as_str()) && c.args.len() == 1 {
                        let t = format_ident!("{}", s[0]);
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!(((#a) as #t));
                        return;
                    }
                    if s.len() == 2 && s[0] == "Vec" && s[1] == "with_capacity" {
                        c.func = match c.args.first().map(|a| self.is_len(a)) {
                            Some(true) => Box::new(parse_quote!(crate::xstd::vec_with_len_of)),
                            _ => Box::new(parse_quote!(crate::xstd::vec_with_capacity)),
                        };
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "collect" {
                    if let Some(x) = self.map_collect(m) {
                        *e = x;
                        return;
                    }
                }
                if n == "unwrap_or_else" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() <= 1 {
                            let (r, b) = (&m.receiver, &c.body);
                            let v = format_ident!("v__");
                            let mut ne: Expr = match c.inputs.first() {
                                Some(p) => {
                                    let p = match p { Pat::Type(t) => &t.pat, p => p };
                                    parse_quote!((match #r { Ok(#v) => #v, Err(#p) => #b }))
                                }
                                None => parse_quote!((match #r { Some(#v) => #v, None => #b })),
                            };
                            self.visit_expr_mut(&mut ne);
                            *e = ne;
                            return;
                        }
                    }
                }
                if n == "any" || n == "all" {
                    if let Some(x) = self.any_all(m, &n) {
                        *e = x;
                        return;
                    }
                }
                if let Some(k) = self.method_key(&n) {
                    self.calls.push(k);
                }
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_)) => {
                if let Expr::Tuple(t) = &*a.left {
                    let ids: Vec<Ident> = (0..t.elems.len()).map(|i| format_ident!("d__{}", i)).collect();
                    let rhs = (*a.right).clone();
                    let asg: Vec<TokenStream> = t.elems.iter().zip(&ids).map(|(l, d)| if l.to_token_stream().to_string() == "_" { quote!() } else { quote!(#l = #d;) }).collect();
                    let mut ne: Expr = parse_quote!({ let (#(#ids),*) = #rhs; #(#asg)* });
                    visit_mut::visit_expr_mut(self, &mut ne);
                    *e = ne;
                    return;
                }
            }
            Expr::While(w) => {
                let k = self.newloop("while");
                if let Expr::Let(l) = &*w.cond {
                    let (p, ex, b) = (l.pat.clone(), l.expr.clone(), w.body.clone());
                    let mut ne: Expr = parse_quote!(loop { match #ex { #p => #b, _ => break } });
                    if let Expr::Loop(lp) = &mut ne {
                        lp.label = w.label.clone();
                        self.visit_block_mut(&mut lp.body);
                        self.mark(&mut lp.body, k);
                    }
                    *e = ne;
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.mark(&mut w.body, k);
                return;
            }
            Expr::Loop(l) => {
                let k = self.newloop("loop");
                self.visit_block_mut(&mut l.body);
                self.mark(&mut l.body, k);
                return;
            }
            Expr::ForLoop(f) => {
                *e = self.for_loop(f.clone());
                return;
            }
            Expr::If(i) => {
                if let Some(n) = self.let_chain(i) {
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
                if let Expr::Let(l) = &mut *i.cond {
                    self.visit_expr_mut(&mut l.expr);
                    let p = l.pat.clone();
                    let keep = self.locals.len();
                    self.pat_bind(&p, None);
                    self.visit_pat_mut(&mut l.pat);
                    self.visit_block_mut(&mut i.then_branch);
                    self.locals.truncate(keep);
                    if let Some((_, x)) = &mut i.else_branch {
                        self.visit_expr_mut(x);
                    }
                    return;
                }
            }
            Expr::Closure(_) => {
                self.unsup("closure");
            }
            Expr::Unsafe(_) | Expr::Async(_) | Expr::Await(_) | Expr::TryBlock(_) | Expr::Yield(_) => self.unsup("construct"),
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "vec" => {
                        let toks = m.mac.tokens.clone();
                        if let Ok(r) = parse2::<Repeat2>(toks.clone()) {
                            let (mut a, mut b) = (r.0, r.1);
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!(crate::xstd::vec_from_elem(#a, #b));
                        } else if let Ok(l) = parse2::<ListE>(toks) {
                            let mut v = l.0;
                            for x in v.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            *e = parse_quote!(vec![#(#v),*]);
                        }
                        return;
                    }
                    "assert" | "debug_assert" => {
                        if let Ok(l) = parse2::<ListE>(m.mac.tokens.clone()) {
                            if let Some(mut c) = l.0.into_iter().next() {
                                self.visit_expr_mut(&mut c);
                                *e = parse_quote!(crate::xstd::rt_assert(#c));
                                return;
                            }
                        }
                        self.unsup("assert!");
                        return;
                    }
                    "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                        if let Ok(l) = parse2::<ListE>(m.mac.tokens.clone()) {
                            let mut it = l.0.into_iter();
                            if let (Some(mut a), Some(mut b)) = (it.next(), it.next()) {
                                self.visit_expr_mut(&mut a);
                                self.visit_expr_mut(&mut b);
                                *e = if n.ends_with("eq") { parse_quote!(crate::xstd::rt_assert(#a == #b)) } else { parse_quote!(crate::xstd::rt_assert(#a != #b)) };
                                return;
                            }
                        }
                        self.unsup("assert_eq!");
                        return;
                    }
                    "matches" => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let e = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) {
                                    i.parse::<Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                if i.peek(Token![,]) {
                                    i.parse::<Token![,]>()?;
                                }
                                Ok(M(e, p, g))
                            }
                        }
                        if let Ok(M(x, p, gd)) = parse2::<M>(m.mac.tokens.clone()) {
                            let gd = gd.map(|g| quote!(if #g));
                            *e = parse_quote!((match #x { #p #gd => true, _ => false }));
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        *e = parse_quote!(crate::xstd::rt_panic());
                        return;
                    }
                    "println" | "eprintln" | "print" | "eprint" if self.g.cli => {
                        match shown(m.mac.tokens.clone()) {
                            Some(parts) => {
                                let err = n.starts_with('e');
                                let st: Vec<TokenStream> = parts
                                    .into_iter()
                                    .map(|(mut x, dbg)| {
                                        self.visit_expr_mut(&mut x);
                                        match (err, dbg) {
                                            (true, false) => quote!(crate::xstd::eprint_display(&#x);),
                                            (true, true) => quote!(crate::xstd::eprint_debug(&#x);),
                                            _ => quote!(crate::xstd::print_any(&#x);),
                                        }
                                    })
                                    .collect();
                                *e = parse_quote!({ #(#st)* });
                            }
                            None => self.unsup(&format!("macro {n}!")),
                        }
                        return;
                    }
                    "println" | "eprintln" | "print" | "eprint" => {
                        self.notes.push(format!("dropped {n}!"));
                        *e = parse_quote!(());
                        return;
                    }
                    _ => {
                        self.unsup(&format!("macro {n}!"));
                        return;
                    }
                }
            }
            _ => {}
        }
        // if-let scrutinee closures etc. are handled in post-order on method calls; closures given
        // to the desugared combinators must not be reported as unsupported
        let clos_ok = matches!(e, Expr::MethodCall(m) if COMBINATORS.contains(&m.method.to_string().as_str()));
        let kind = if let Expr::MethodCall(m) = &*e { self.kind(&m.receiver).or(if m.method == "map_err" { Some(Kind::Res) } else { None }) } else { None };
        if let (Expr::MethodCall(m), Some(Kind::Res)) = (&*e, kind) {
            self.hint(&m.receiver);
        }
        if let Expr::Try(t) = &*e {
            if self.ret.as_ref().is_some_and(|t| result_args(t).is_some()) {
                let x = (*t.expr).clone();
                self.hint(&x);
            }
        }
        let mark = self.unsupported.len();
        let nested = {
            visit_mut::visit_expr_mut(self, e);
            self.unsupported.len()
        };
        if clos_ok && nested > mark {
            // only closures that are direct arguments are excused
            let direct = if let Expr::MethodCall(m) = &*e { m.args.iter().filter(|a| matches!(a, Expr::Closure(_))).count() } else { 0 };
            let mut k = direct;
            let tail: Vec<String> = self.unsupported.split_off(mark);
            for t in tail {
                if t == "closure" && k > 0 {
                    k -= 1;
                    continue;
                }
                self.unsupported.push(t);
            }
        }
        // ---------------- post-order
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let recv = (*m.receiver).clone();
                match (n.as_str(), m.args.len()) {
                    ("reserve" | "reserve_exact", 1) => {
                        let a = &m.args[0];
                        *e = if self.is_len(a) { parse_quote!({ let n__ = #a; crate::xstd::vec_reserve_len_of(&mut #recv, n__) }) } else { parse_quote!({ let n__ = #a; crate::xstd::vec_reserve(&mut #recv, n__) }) };
                    }
                    ("resize", 2) => {
                        let (a, b) = (&m.args[0], &m.args[1]);
                        *e = parse_quote!({ let n__ = #a; let b__ = #b; crate::xstd::vec_resize(&mut #recv, n__, b__) });
                    }
                    ("then_some", 1) => {
                        let a = &m.args[0];
                        *e = parse_quote!({ let c__ = #recv; let a__ = #a; if c__ { Some(a__) } else { None } });
                    }
                    ("map_err", 1) => {
                        let v = format_ident!("e__");
                        if let Some((p, b)) = self.apply(&m.args[0], &v) {
                            *e = parse_quote!((match #recv { Ok(v__) => Ok(v__), Err(#p) => Err(#b) }));
                        } else {
                            self.unsup("map_err argument");
                        }
                    }
                    ("map", 1) => {
                        let t = self.ty(&recv);
                        let v = format_ident!("v__");
                        match &t {
                            Some(Type::Array(_)) => {
                                let f = m.args[0].clone();
                                if let Some(k) = self.fnkey(&f) {
                                    self.calls.push(k);
                                }
                                *e = parse_quote!(crate::xstd::arr_map(#recv, #f));
                            }
                            Some(t) if result_args(t).is_some() => {
                                if let Some((p, b)) = self.apply(&m.args[0], &v) {
                                    *e = parse_quote!((match #recv { Ok(#p) => Ok(#b), Err(e__) => Err(e__) }));
                                }
                            }
                            Some(Type::Path(tp)) if tp.path.segments.last().unwrap().ident == "Option" => {
                                if let Some((p, b)) = self.apply(&m.args[0], &v) {
                                    *e = parse_quote!((match #recv { Some(#p) => Some(#b), None => None }));
                                }
                            }
                            _ => match (kind.or_else(|| self.kind(&recv)), self.apply(&m.args[0], &v)) {
                                (Some(Kind::Res), Some((p, b))) => *e = parse_quote!((match #recv { Ok(#p) => Ok(#b), Err(e__) => Err(e__) })),
                                (Some(Kind::Opt), Some((p, b))) => *e = parse_quote!((match #recv { Some(#p) => Some(#b), None => None })),
                                _ => self.unsup("map on a value of unknown type"),
                            },
                        }
                    }
                    ("is_some_and", 1) => {
                        let v = format_ident!("v__");
                        if let Some((p, b)) = self.apply(&m.args[0], &v) {
                            *e = parse_quote!((match #recv { Some(#p) => #b, None => false }));
                        }
                    }
                    ("contains", 1) => {
                        if let (Expr::Range(r), Expr::Reference(x)) = (strip(&recv), &m.args[0]) {
                            let x = (*x.expr).clone();
                            if is_simple(&x) {
                                let lo = r.start.as_ref().map(|s| quote!(#s <= #x)).unwrap_or(quote!(true));
                                let hi = r
                                    .end
                                    .as_ref()
                                    .map(|s| if matches!(r.limits, RangeLimits::Closed(_)) { quote!(#x <= #s) } else { quote!(#x < #s) })
                                    .unwrap_or(quote!(true));
                                *e = parse_quote!((#lo && #hi));
                            }
                        }
                    }
                    ("pow", 1) => {
                        if let (Expr::Lit(l), Some(p)) = (strip(&recv), const_eval(self.g, &m.args[0])) {
                            if let Lit::Int(i) = &l.lit {
                                if let Ok(b) = i.base10_parse::<u128>() {
                                    let suf = i.suffix().to_string();
                                    let bits: u32 = suf.trim_start_matches(['u', 'i']).parse().unwrap_or(32);
                                    if let Some(v) = b.checked_pow(p as u32) {
                                        if bits < 128 && v < (1u128 << (bits - suf.starts_with('i') as u32)) {
                                            let t: Type = parse_str(if suf.is_empty() { "u32" } else { &suf }).unwrap();
                                            let lit = proc_macro2::Literal::u128_unsuffixed(v);
                                            *e = parse_quote!((#lit as #t));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    (c, k) if COMBINATORS.contains(&c) => {
                        let v = format_ident!("v__");
                        let w = format_ident!("e__");
                        let kind = kind.or_else(|| self.kind(&recv)).or(if c == "ok_or_else" { Some(Kind::Opt) } else { None });
                        let one = m.args.last().and_then(|a| self.apply(a, &v));
                        let one_e = m.args.first().and_then(|a| self.apply(a, &w));
                        let none = m.args.first().and_then(|a| self.apply0(a));
                        let new: Option<Expr> = match (c, k, kind) {
                            ("and_then", 1, Some(Kind::Res)) => one.map(|(p, b)| parse_quote!((match #recv { Ok(#p) => #b, Err(e__) => Err(e__) }))),
                            ("and_then", 1, Some(Kind::Opt)) => one.map(|(p, b)| parse_quote!((match #recv { Some(#p) => #b, None => None }))),
                            ("or_else", 1, Some(Kind::Res)) => one_e.map(|(p, b)| parse_quote!((match #recv { Ok(v__) => Ok(v__), Err(#p) => #b }))),
                            ("or_else", 1, Some(Kind::Opt)) => none.map(|b| parse_quote!((match #recv { Some(v__) => Some(v__), None => #b }))),
                            ("ok_or_else", 1, Some(Kind::Opt)) => none.map(|b| parse_quote!((match #recv { Some(v__) => Ok(v__), None => Err(#b) }))),
                            ("unwrap_or_else", 1, Some(Kind::Res)) => one_e.map(|(p, b)| parse_quote!((match #recv { Ok(v__) => v__, Err(#p) => #b }))),
                            ("unwrap_or_else", 1, Some(Kind::Opt)) => none.map(|b| parse_quote!((match #recv { Some(v__) => v__, None => #b }))),
                            ("is_none_or", 1, _) => one.map(|(p, b)| parse_quote!((match #recv { Some(#p) => #b, None => true }))),
                            ("is_ok_and", 1, _) => one.map(|(p, b)| parse_quote!((match #recv { Ok(#p) => #b, Err(_) => false }))),
                            ("is_err_and", 1, _) => one.map(|(p, b)| parse_quote!((match #recv { Err(#p) => #b, Ok(_) => false }))),
                            ("map_or_else", 2, Some(Kind::Res)) => one.zip(one_e).map(|((p, b), (q, d))| parse_quote!((match #recv { Ok(#p) => #b, Err(#q) => #d }))),
                            ("map_or_else", 2, Some(Kind::Opt)) => one.zip(none).map(|((p, b), d)| parse_quote!((match #recv { Some(#p) => #b, None => #d }))),
                            // the default is evaluated before the match
                            ("map_or", 2, Some(Kind::Opt)) if is_simple(&m.args[0]) || matches!(&m.args[0], Expr::Lit(_)) => {
                                let d = &m.args[0];
                                one.map(|(p, b)| parse_quote!((match #recv { Some(#p) => #b, None => #d })))
                            }
                            ("map_or", 2, Some(Kind::Res)) if is_simple(&m.args[0]) || matches!(&m.args[0], Expr::Lit(_)) => {
                                let d = &m.args[0];
                                one.map(|(p, b)| parse_quote!((match #recv { Ok(#p) => #b, Err(_) => #d })))
                            }
                            ("then", 1, _) if matches!(self.ty(&recv), Some(Type::Path(p)) if p.path.is_ident("bool")) => none.map(|b| parse_quote!((if #recv { Some(#b) } else { None }))),
                            _ => None,
                        };
                        match new {
                            Some(x) => *e = x,
                            None => self.unsup(c),
                        }
                    }
                    _ => {}
                }
            }
            // both operands are evaluated, unlike || and &&; Verus has the operators on integers only
            Expr::Binary(b) if bool_op(&b.op).is_some() => {
                let is_bool = |x: Option<Type>| matches!(x, Some(Type::Path(p)) if p.path.is_ident("bool"));
                if is_bool(self.ty(&b.left)) || is_bool(self.ty(&b.right)) {
                    let (f, assign) = bool_op(&b.op).unwrap();
                    let f = format_ident!("{f}");
                    let (l, r) = (&b.left, &b.right);
                    *e = if assign { parse_quote!(#l = crate::xstd::#f(#l, #r)) } else { parse_quote!(crate::xstd::#f(#l, #r)) };
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                if self.is_array(&b.left) || self.is_array(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(crate::xstd::arr_eq(&#l, &#r)) } else { parse_quote!((!crate::xstd::arr_eq(&#l, &#r))) };
                }
            }
            Expr::Try(t) if self.exact_err => {
                let x = &t.expr;
                *e = match fused(x) {
                    Some((r, p, err)) => parse_quote!((match #r { Ok(v__) => v__, Err(#p) => return Err(From::from(#err)) })),
                    None => parse_quote!((match #x { Ok(v__) => v__, Err(e__) => return Err(From::from(e__)) })),
                };
            }
            _ => {}
        }
    }
}

/// methods of Option, Result and bool that take closures and are matches in disguise
const COMBINATORS: &[&str] = &["map_err", "map", "is_some_and", "and_then", "or_else", "ok_or_else", "unwrap_or_else", "is_none_or", "is_ok_and", "is_err_and", "map_or", "map_or_else", "then"];

fn bool_op(o: &BinOp) -> Option<(&'static str, bool)> {
    Some(match o {
        BinOp::BitOr(_) => ("bor", false),
        BinOp::BitAnd(_) => ("band", false),
        BinOp::BitXor(_) => ("bxor", false),
        BinOp::BitOrAssign(_) => ("bor", true),
        BinOp::BitAndAssign(_) => ("band", true),
        BinOp::BitXorAssign(_) => ("bxor", true),
        _ => return None,
    })
}

/// `match r { Ok(v__) => Ok(v__), Err(p) => Err(x) }`, what map_err becomes: r, p and x
fn fused(e: &Expr) -> Option<(Expr, Pat, Expr)> {
    let mut e = e;
    while let Expr::Paren(p) = e {
        e = &p.expr;
    }
    let Expr::Match(m) = e else { return None };
    let [a, b] = &m.arms[..] else { return None };
    if a.to_token_stream().to_string().trim_end_matches(',').trim() != quote!(Ok(v__) => Ok(v__)).to_string() {
        return None;
    }
    let Pat::TupleStruct(t) = &b.pat else { return None };
    let Expr::Call(c) = &*b.body else { return None };
    if !t.path.is_ident("Err") || t.elems.len() != 1 || c.args.len() != 1 || c.func.to_token_stream().to_string() != "Err" || b.guard.is_some() {
        return None;
    }
    Some(((*m.expr).clone(), t.elems[0].clone(), c.args[0].clone()))
}

struct Repeat2(Expr, Expr);
impl syn::parse::Parse for Repeat2 {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let a = i.parse()?;
        i.parse::<Token![;]>()?;
        Ok(Repeat2(a, i.parse()?))
    }
}
struct ListE(Vec<Expr>);
impl syn::parse::Parse for ListE {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        Ok(ListE(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?.into_iter().collect()))
    }
}

impl Cx<'_> {
    fn let_chain(&mut self, i: &ExprIf) -> Option<Expr> {
        let mut parts = vec![];
        flatten_and(&i.cond, &mut parts);
        if parts.len() < 2 || !parts.iter().any(|p| matches!(p, Expr::Let(_))) {
            return None;
        }
        if let Some((_, els)) = &i.else_branch {
            // `if let P = E && C {A} else {B}`  ->  match E { P if C => A, _ => B }
            if let Expr::Let(l) = &parts[0] {
                if parts[1..].iter().all(|p| !matches!(p, Expr::Let(_))) {
                    let rest = &parts[1..];
                    let (p, ex, t) = (&l.pat, &l.expr, &i.then_branch);
                    return Some(parse_quote!(match #ex { #p if #(#rest)&&* => #t, _ => #els }));
                }
            }
            self.unsup("let-chain with else");
            return None;
        }
        let mut body = i.then_branch.clone();
        for p in parts.iter().rev() {
            let inner: Expr = parse_quote!(if #p #body);
            body = parse_quote!({ #inner });
        }
        if body.stmts.len() == 1 {
            if let Stmt::Expr(e, _) = body.stmts.remove(0) {
                return Some(e);
            }
        }
        None
    }
    fn for_loop(&mut self, mut f: ExprForLoop) -> Expr {
        let k = self.newloop("for");
        // enumerate
        let mut counter: Option<(Pat, Pat)> = None;
        if let Expr::MethodCall(m) = &*f.expr {
            if m.method == "enumerate" {
                if let Pat::Tuple(t) = &*f.pat {
                    if t.elems.len() == 2 {
                        counter = Some((t.elems[0].clone(), t.elems[1].clone()));
                        f.expr = m.receiver.clone();
                    }
                }
            }
        }
        let mut by_ref = false;
        loop {
            match &*f.expr {
                Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => f.expr = m.receiver.clone(),
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                    f.expr = m.receiver.clone();
                    by_ref = true;
                }
                _ => break,
            }
        }
        self.visit_expr_mut(&mut f.expr);
        let ex = f.expr.clone();
        let it = format_ident!("__VITL_{}__", k);
        let keep = self.locals.len();
        let mut pre = TokenStream::new();
        let mut body = f.body.clone();
        if let Some((ip, xp)) = counter {
            let c = format_ident!("i__{}", k);
            let has_continue = body.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "continue");
            if has_continue {
                self.unsup("continue in an enumerated loop");
            }
            self.pat_bind(&ip, parse_str("usize").ok());
            self.pat_bind(&xp, None);
            self.visit_block_mut(&mut body);
            let blk = body;
            pre = quote!(let mut #c: usize = 0;);
            body = parse_quote!({ let #ip = #c; #blk #c = #c + 1; });
            *f.pat = xp;
        } else {
            let p = (*f.pat).clone();
            self.pat_bind(&p, None);
            self.visit_block_mut(&mut body);
        }
        self.locals.truncate(keep);
        self.mark(&mut body, k);
        let p = &f.pat;
        let ex: Expr = if by_ref { parse_quote!(#it(#ex.iter())) } else { parse_quote!(#it(#ex)) };
        let lbl = &f.label;
        let lp: Expr = parse_quote!(#lbl for #p in #ex #body);
        if pre.is_empty() {
            lp
        } else {
            parse_quote!({ #pre #lp })
        }
    }
    fn map_collect(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let Expr::MethodCall(mp) = &*m.receiver else { return None };
        if mp.method != "map" || mp.args.len() != 1 {
            return None;
        }
        let Expr::MethodCall(it) = &*mp.receiver else { return None };
        if it.method != "into_iter" {
            return None;
        }
        let v = format_ident!("x__");
        let (p, mut b) = self.apply(&mp.args[0], &v)?;
        let mut src = (*it.receiver).clone();
        self.visit_expr_mut(&mut src);
        self.bindings.push("out__".into());
        let k = self.newloop("for");
        let itl = format_ident!("__VITL_{}__", k);
        let keep = self.locals.len();
        self.pat_bind(&p, None);
        self.visit_expr_mut(&mut b);
        self.locals.truncate(keep);
        let mut body: Block = parse_quote!({ out__.push(#b); });
        self.mark(&mut body, k);
        let after = format_ident!("__VAFTER_{}__", k);
        Some(parse_quote!({ let mut out__ = Vec::new(); for #p in #itl(#src) #body #after; out__ }))
    }
    fn any_all(&mut self, m: &ExprMethodCall, which: &str) -> Option<Expr> {
        let Expr::MethodCall(it) = &*m.receiver else { return None };
        if it.method != "iter" || m.args.len() != 1 {
            return None;
        }
        let mut f = m.args[0].clone();
        if let Expr::Closure(c) = &f {
            if let Some(x) = forwards(c) {
                f = x;
            }
        }
        let ck = self.fnkey(&f)?;
        let mut recv = (*it.receiver).clone();
        self.visit_expr_mut(&mut recv);
        let finfo = self.g.fns[&ck].clone();
        let FnArg::Typed(a) = finfo.sig.inputs.first()? else { return None };
        let Type::Reference(r) = &*a.ty else { return None };
        let mut elem = (*r.elem).clone();
        elem = subst_self(&elem, &finfo.self_ty);
        let ety: Type = parse_str(&genspec::cty(&elem)).ok()?;
        let nm = format_ident!("{}__{}", which, ck.replace("::", "_"));
        let key = format!("{which}<{ck}>");
        self.calls.push(key.clone());
        self.calls.push(ck.clone());
        let fpath: Expr = abs_path(&finfo);
        let neg = if which == "all" { quote!(!) } else { quote!() };
        let (hit, end) = if which == "all" { (quote!(false), quote!(true)) } else { (quote!(true), quote!(false)) };
        if !self.pending.iter().any(|p| p.key == key) && !self.helpers.contains_key(&key) {
            let sig: Signature = parse_quote!(fn #nm(items: &Vec<#ety>) -> bool);
            let block: Block = parse_quote!({
                let mut i: usize = 0;
                while i < items.len() {
                    __VINV_0__;
                    if #neg #fpath(&items[i]) { return #hit; }
                    i = i + 1;
                    __VEND_0__;
                }
                __VAFTER_0__;
                #end
            });
            let text = render(self.g, &key, &sig, &block, None, &finfo.module, &["while".to_string()], &["items".into(), "i".into()], false, &[], &[], &Default::default());
            self.helpers.insert(key.clone(), (finfo.module.clone(), text));
        }
        let mp: Expr = parse_str(&format!("{}::{}", cratepath(&finfo.module), nm)).unwrap();
        let _ = self.nhelp;
        Some(parse_quote!(#mp(&#recv)))
    }
}

fn abs_path(f: &FnInfo) -> Expr {
    let n = ident_str(&f.sig.ident);
    let s = match &f.self_ty {
        Some(t) => format!("{}::{n}", genspec::cty(&parse_str(t).unwrap())),
        None => format!("{}::{n}", cratepath(&f.module)),
    };
    parse_str(&s).unwrap()
}

// ------------------------------------------------------------------ signature + contract text

fn clean_generics(g: &Generics) -> Generics {
    let mut g = g.clone();
    let fixb = |b: &mut syn::punctuated::Punctuated<TypeParamBound, Token![+]>| {
        let v: Vec<TypeParamBound> = b.iter().filter(|x| !matches!(x, TypeParamBound::Trait(t) if matches!(t.modifier, TraitBoundModifier::Maybe(_)))).cloned().collect();
        *b = v.into_iter().collect();
    };
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            fixb(&mut t.bounds);
            t.attrs.clear();
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                fixb(&mut t.bounds);
            }
        }
        let v: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounds.is_empty())).cloned().collect();
        w.predicates = v.into_iter().collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
    for p in g.params.iter_mut() {
        Fix.visit_generic_param_mut(p);
    }
    if let Some(w) = &mut g.where_clause {
        Fix.visit_where_clause_mut(w);
    }
    g
}

fn word_subst(s: &str, map: &BTreeMap<String, String>) -> String {
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let field = st > 0 && (b[st - 1] == '$' || b[st - 1] == '.' && !(st > 1 && b[st - 2] == '.'));
            match map.get(&w) {
                Some(n) if !field => o.push_str(n),
                _ => o.push_str(&w),
            }
        } else if b[i].is_numeric() {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            o.extend(&b[st..i]);
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// Local variables that go by another name than when the contracts were written: `base` are the names then,
/// `now` the names in the source, both in order of binding. Between names that are still there, as many
/// new names as vanished ones are taken for renamings.
fn renamed(base: &[String], now: &[String]) -> BTreeMap<String, String> {
    let (n, m) = (base.len(), now.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if base[i] == now[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut map = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    let (mut a, mut b): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    loop {
        let end = i >= n && j >= m;
        if end || (i < n && j < m && base[i] == now[j]) {
            if a.len() == b.len() {
                for (x, y) in a.iter().zip(b.iter()) {
                    if !now.contains(*x) && !base.contains(*y) {
                        map.entry(x.to_string()).or_insert_with(|| y.to_string());
                    }
                }
            }
            a.clear();
            b.clear();
            if end {
                return map;
            }
            i += 1;
            j += 1;
        } else if i < n && (j >= m || l[i + 1][j] >= l[i][j + 1]) {
            if !base[i].starts_with('#') {
                a.push(&base[i]);
            }
            i += 1;
        } else {
            if !now[j].starts_with('#') {
                b.push(&now[j]);
            }
            j += 1;
        }
    }
}

/// Contract lines without those that speak of variables the source no longer has. A line is left out only where
/// it stands for itself; leaving out an invariant or an assertion takes nothing off what has to be proved.
/// R: Read, said beside the parameter or in the where clause
fn reads(g: &syn::Generics, r: &str) -> bool {
    let read = |b: &syn::TypeParamBound| b.to_token_stream().to_string().ends_with("Read");
    g.type_params().any(|q| q.ident == r && q.bounds.iter().any(read))
        || g.where_clause.iter().flat_map(|w| &w.predicates).any(|p| match p {
            syn::WherePredicate::Type(t) => t.bounded_ty.to_token_stream().to_string() == r && t.bounds.iter().any(read),
            _ => false,
        })
}

fn without(t: &str, lost: &[&String]) -> String {
    let bal = |l: &str| "({[".chars().zip(")}]".chars()).all(|(a, b)| l.matches(a).count() == l.matches(b).count());
    let kw = |l: &str| ["invariant", "invariant_except_break", "ensures", "decreases"].contains(&l.trim());
    let mentions = |l: &str| lost.iter().any(|n| word_subst(l, &BTreeMap::from([(n.to_string(), "\u{1}".to_string())])).contains('\u{1}'));
    let kept: Vec<&str> = t
        .lines()
        .filter(|l| {
            let code = l.split("//@").next().unwrap_or("").trim();
            !(bal(l) && (code.ends_with(',') || code.ends_with(';') || code.ends_with('}')) && mentions(l))
        })
        .collect();
    let mut o = String::new();
    for (i, l) in kept.iter().enumerate() {
        if !(kw(l) && kept.get(i + 1).map(|n| kw(n)).unwrap_or(true)) {
            o.push_str(l);
            o.push('\n');
        }
    }
    o
}

/// produce the final text of one function
#[allow(clippy::too_many_arguments)]
fn render(
    g: &mut Global,
    key: &str,
    sig: &Signature,
    block: &Block,
    self_ty: Option<&str>,
    _module: &[String],
    loops: &[String],
    bindings: &[String],
    external: bool,
    extra_subst: &[(String, String)],
    facts: &[String],
    counters: &BTreeMap<usize, Vec<(String, i128, i128)>>,
) -> String {
    let contract = lookup_contract(g, key);
    let mut sig = sig.clone();
    sig.generics = clean_generics(&sig.generics);
    // parameters
    let mut params: Vec<String> = vec![];
    let mut ptypes: Vec<String> = vec![];
    let mut pre = String::new();
    let mut implg: Vec<TokenStream> = vec![];
    for (n, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Typed(t) => {
                t.attrs.clear();
                fix_type(&mut t.ty);
                if let Type::ImplTrait(im) = &*t.ty {
                    let id = format_ident!("RI{}", n);
                    let b = &im.bounds;
                    implg.push(quote!(#id: #b));
                    *t.ty = parse_quote!(#id);
                }
                let mut nm = format!("p{n}");
                if let Pat::Ident(i) = &mut *t.pat {
                    nm = pname(&i.ident);
                    if i.mutability.is_some() {
                        i.mutability = None;
                        let np = format!("{nm}__p");
                        pre.push_str(&format!("let mut {nm} = {np};\n"));
                        i.ident = format_ident!("{}", np);
                        nm = np;
                    }
                }
                params.push(nm);
                ptypes.push(t.ty.to_token_stream().to_string());
            }
            FnArg::Receiver(r) => {
                r.attrs.clear();
                params.push("self".into());
                ptypes.push("Self".into());
            }
        }
    }
    for x in implg {
        let p: GenericParam = parse2(x).unwrap();
        sig.generics.params.push(p);
    }
    let (ig, _, wh) = sig.generics.split_for_impl();
    let id = &sig.ident;
    let inputs = &sig.inputs;
    let (ret, rett) = match &sig.output {
        ReturnType::Type(_, t) => {
            let mut t2 = (**t).clone();
            fix_type(&mut t2);
            (quote!(-> (res: #t2)), Some(t2))
        }
        _ => (quote!(), None),
    };
    let mut head = String::new();
    let mut c = contract.clone().unwrap_or_default();
    c.keep_known_whys(&g.contracts.whys);
    // contract for a parser
    let rettype = rett.clone().map(|t| subst_self(&t, &self_ty.map(|s| s.to_string())));
    if let Some(sp) = &c.parser {
        if let Some((t, _)) = rettype.as_ref().and_then(result_args) {
            let view = genspec::vexpr(&t, "v");
            let rt = ptypes[0].trim_start_matches('&').trim_start().trim_start_matches("mut").trim();
            let p = &params[0];
            c.ensures = format!(
                "match res {{ Ok(v) => {sp}((*old({p})).rem()) == Some(({view}, (*final({p})).rem())) && <{rt} as crate::xstd::io::Read>::adv(&*old({p}), &*final({p})) && (*final({p})).rem().len() < (*old({p})).rem().len(), Err(_) => {sp}((*old({p})).rem()) is None }},\n{}",
                c.ensures
            );
            if !OPEN_PARSERS.contains(&sp.as_str()) {
                c.start = format!("proof {{ reveal({sp}); }}\n{}", c.start);
            }
        }
    }
    if let (Some((_, ety)), Some(p)) = (rettype.as_ref().and_then(result_args), params.first()) {
        let w = c.why.clone().or_else(|| c.parser.as_ref().map(|s| format!("why_{}", s.trim_start_matches("sp_"))));
        let rd = ptypes.first().and_then(|t| t.trim_start().strip_prefix("& mut ").or(t.trim_start().strip_prefix("&mut "))).map(|t| t.trim().to_string()).unwrap_or_default();
        if !g.contracts.whys.is_empty() && reads(&sig.generics, &rd) && genspec::caused_type(&ety) {
            // a limited reader ends where the limit is, whatever the reader below it would do
            let text = quote!(#ety).to_string();
            let w = if ["DecodeCodeError", "DecodeCodeSectionError", "DecodeModuleError"].iter().any(|n| text.contains(n)) { "why_io_lim" } else { "why_io" };
            c.ensures.push_str(&format!("match res {{ Ok(_) => true, Err(e__) => {w}(crate::xstd::io::Caused::io(e__), crate::xstd::io::end(*old({p}))) }}, //@C15\n"));
        }
        let ety = contracts::last_segments(&quote!(#ety).to_string().replace(' ', ""));
        if let Some((opaque, _)) = w.as_ref().and_then(|w| g.contracts.whys.get(w)).filter(|w| w.1 == ety) {
            let w = w.unwrap();
            c.ensures.push_str(&format!("match res {{ Ok(_) => true, Err(e__) => {w}(e__, (*old({p})).rem()) }}, //@C15\n"));
            if *opaque && !c.start.contains(&format!("b_{w}(")) {
                c.start = format!("proof {{ reveal({w}); }}\n{}", c.start);
            }
        }
    }
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    if let Some(base) = g.base_bindings.get(key) {
        map = renamed(base, bindings);
        let mut dropped = false;
        // what a loop's invariant may speak of is bound before the loop
        let before = |v: &[String], k: usize| v.iter().position(|x| *x == format!("#{k}")).map(|n| v[..n].to_vec());
        for (k, t) in c.loops.iter_mut() {
            if let (Some(b), Some(now)) = (before(base, *k), before(bindings, *k)) {
                let late: Vec<&String> = b.iter().filter(|n| bindings.contains(n) && !now.contains(n) && !params.contains(n)).collect();
                let w = without(t, &late);
                dropped |= w.len() < t.len();
                *t = w;
            }
        }
        let lost: Vec<&String> = base.iter().filter(|b| !b.starts_with('#') && !bindings.contains(b) && !map.contains_key(*b) && !params.contains(b)).collect();
        for m in [&mut c.loops, &mut c.loop_start, &mut c.loop_end, &mut c.loop_after, &mut c.loop_before] {
            for t in m.values_mut() {
                let w = without(t, &lost);
                dropped |= w.len() < t.len();
                *t = w;
            }
        }
        let w = without(&c.start, &lost);
        dropped |= w.len() < c.start.len();
        c.start = w;
        if dropped {
            g.dropped.insert(key.to_string());
        }
    }
    for (a, b) in extra_subst {
        map.insert(a.clone(), b.clone());
    }
    let rt0 = ptypes.first().map(|s| s.trim_start_matches('&').trim_start().trim_start_matches("mut").trim().to_string()).unwrap_or_default();
    // a `while` or `loop` where the contract speaks of the rounds of the loop: a ghost counter
    let counted = |k: usize| loops[k] != "for" && loops[k] != "collect" && counters.contains_key(&k) && [&c.loops, &c.loop_start, &c.loop_end, &c.loop_after].iter().any(|m| m.get(&k).map(|t| t.contains("$i")).unwrap_or(false));
    let fill = |s: &str, k: Option<usize>| -> String {
        let mut s = word_subst(s, &map);
        for (i, p) in params.iter().enumerate().rev() {
            s = s.replace(&format!("$m{i}"), p.strip_suffix("__p").unwrap_or(p));
            s = s.replace(&format!("${i}"), p);
        }
        s = s.replace("$R", &rt0);
        if let Some(k) = k {
            if counted(k) {
                s = s.replace("$it", &format!("it_{k}"));
                s = s.replace("$i", &format!("it_{k}"));
            } else {
                s = s.replace("$it", &format!("it_{k}"));
                s = s.replace("$i", &format!("it_{k}.index@"));
            }
        }
        s
    };
    let c_ens = c.ensures.clone();
    head.push_str("#[verifier::loop_isolation(false)]\n");
    for a in &c.attrs {
        head.push_str(&format!("#[{a}]\n"));
    }
    if external {
        head.push_str("#[verifier::external_body]\n");
    }
    let konst = if sig.constness.is_some() { quote!(const) } else { quote!() };
    head.push_str(print(quote!(pub #konst fn #id #ig (#inputs) #ret #wh)).trim_end());
    head.push('\n');
    if !c.requires.trim().is_empty() {
        head.push_str(&format!("    requires\n{}", fill(&c.requires, None)));
    }
    let req_end = head.len();
    let mut ens = fill(&c_ens, None);
    if ens.trim().is_empty() && contract.is_none() {
        if let Some(e) = auto_ensures(g, &sig, block, self_ty) {
            ens = e;
        }
    }
    if !ens.trim().is_empty() {
        head.push_str(&format!("    ensures\n{ens}"));
        if !ens.ends_with('\n') {
            head.push('\n');
        }
    }
    let ens_end = head.len();
    if !c.decreases.trim().is_empty() {
        head.push_str(&format!("    decreases\n{}", fill(&c.decreases, None)));
    }
    if external {
        return format!("{head}{{ unimplemented!() }}\n");
    }
    let mut body = print(quote!(#block)).trim().to_string();
    // `{` start
    if body.starts_with('{') {
        body = format!("{{\n{pre}{}{}", fill(&c.start, None), &body[1..]);
    }
    for (n, f) in facts.iter().enumerate() {
        body = replace_stmt_marker(&body, &format!("__VFACT_{n}__"), &format!("proof {{ {f} }}"));
    }
    let split_loop = c.loop_cases.clone().filter(|(n, _)| *n < loops.len());
    for k in 0..loops.len() {
        let mut c = c.clone();
        if split_loop.as_ref().map(|(n, _)| *n == k).unwrap_or(false) {
            c.loop_start.entry(k).or_default().push_str("__VCASE__;\n");
        }
        let pre = format!("__VPRE_{k}__");
        if counted(k) {
            body = replace_stmt_marker(&body, &pre, &format!("let ghost mut it_{k}: int = 0;"));
            let facts: String = counters[&k].iter().map(|(n, a, s)| format!("    {n} as int == {a} + {s} * it_{k},\n")).collect();
            let inv = c.loops.entry(k).or_default();
            *inv = inv.lines().filter(|l| !l.ends_with("//@for")).map(|l| format!("{l}\n")).collect();
            *inv = inv.replacen("invariant\n", &format!("invariant\n    0 <= it_{k},\n{facts}"), 1);
            if let Some(m) = c.loop_measure.get(&k) {
                if !inv.contains("decreases") {
                    inv.push_str(&format!("decreases {m}"));
                }
            }
            c.loop_start.entry(k).or_default().push_str(&format!("proof {{ it_{k} = it_{k} + 1; }}\n"));
            if let Some(e) = c.loop_end.get_mut(&k) {
                *e = e.replace("$it", "\u{1}").replace("$i", &format!("(it_{k} - 1)")).replace('\u{1}', "$it");
            }
        } else {
            body = replace_stmt_marker(&body, &pre, "");
        }
        body = replace_brace_marker(&body, &format!("__VINV_{k}__"), &fill(c.loops.get(&k).map(|s| s.as_str()).unwrap_or(""), Some(k)), &fill(c.loop_start.get(&k).map(|s| s.as_str()).unwrap_or(""), Some(k)));
        body = replace_stmt_marker(&body, &format!("__VEND_{k}__"), &fill(c.loop_end.get(&k).map(|s| s.as_str()).unwrap_or(""), Some(k)));
        body = replace_stmt_marker(&body, &format!("__VBEF_{k}__"), &fill(c.loop_before.get(&k).map(|s| s.as_str()).unwrap_or(""), Some(k)));
        body = replace_stmt_marker(&body, &format!("__VAFTER_{k}__"), &fill(c.loop_after.get(&k).map(|s| s.as_str()).unwrap_or(""), Some(k)));
        body = body.replace(&format!("__VITL_{k}__"), &format!("it_{k}: "));
    }
    if let Some((n, mut cases)) = split_loop {
        // one copy of the function per case of what a round of the loop starts from, the last for all that no other
        // case has. Their contracts are the same, so the function itself is any one of them.
        cases.push(format!("!({})", cases.join(" || ")));
        let (req, rest) = (&head[..req_end], &head[req_end..]);
        let args = params.join(", ");
        let name = format!("fn {id}");
        let me = if self_ty.is_some() { "Self::" } else { "" };
        let mut out = format!("{head}{{ {me}{id}__case_0({args}) }}\n");
        for (k, w) in cases.iter().enumerate() {
            let b = replace_stmt_marker(&body, "__VCASE__", &format!("proof {{ assume({}); }} //case", fill(w, Some(n))));
            out.push_str(&format!("#[verifier::spinoff_prover]\n{}{rest}{b}\n", req.replacen(&name, &format!("{name}__case_{k}"), 1)));
        }
        return out;
    }
    if c.cases.is_empty() {
        return format!("{head}{body}\n");
    }
    // one copy of the function per case of the input; the function itself picks the case that holds, so that the
    // verifier has to see that the cases cover everything
    let (req, ens) = (&head[..req_end], &head[req_end..ens_end]);
    let measure = |n: usize| format!("    decreases\n{}{n}int,\n", fill(&c.decreases, None));
    let args = params.join(", ");
    let me = if self_ty.is_some() { "Self::" } else { "" };
    let name = format!("fn {id}");
    let mut out = format!("{req}{ens}{}{{\n", measure(1));
    let mut copies = String::new();
    let n = c.cases.len();
    for (k, w) in c.cases.iter().enumerate() {
        let w = fill(w, None);
        let test = if k + 1 < n { format!("let ghost case_{k} = {};\nif ghost_choice(Ghost(case_{k})) ", w.replace("old(", "(")) } else { String::new() };
        out.push_str(&format!("{test}{{ return {me}{id}__case_{k}({args}); }}\n"));
        let sep = if c.requires.trim().is_empty() { "    requires\n" } else { "" };
        copies.push_str(&format!("#[verifier::spinoff_prover]\n{}{sep}{w},\n{ens}{}{body}\n", req.replacen(&name, &format!("{name}__case_{k}"), 1), measure(0)));
    }
    format!("{out}}}\n{copies}")
}

fn replace_brace_marker(s: &str, mk: &str, inv: &str, start: &str) -> String {
    let Some(p) = s.find(mk) else { return s.to_string() };
    let b = s[..p].rfind('{').unwrap();
    let after = &s[p + mk.len()..];
    let after = after.trim_start().strip_prefix(';').unwrap_or(after);
    format!("{}\n{}{{\n{}{}", &s[..b], inv, start, after)
}
fn replace_stmt_marker(s: &str, mk: &str, txt: &str) -> String {
    let Some(p) = s.find(mk) else { return s.to_string() };
    let after = &s[p + mk.len()..];
    let after = after.trim_start().strip_prefix(';').unwrap_or(after);
    format!("{}{}{}", &s[..p], txt, after)
}

fn auto_ensures(g: &Global, sig: &Signature, block: &Block, self_ty: Option<&str>) -> Option<String> {
    // pure single-expression function: res == expr
    if block.stmts.len() != 1 || !sig.generics.params.is_empty() {
        return None;
    }
    let Stmt::Expr(e, None) = &block.stmts[0] else { return None };
    fn pure(e: &Expr, g: &Global) -> bool {
        match e {
            Expr::Path(p) => {
                let s = path_strs(&p.path);
                !g.consts.contains_key(s.last().unwrap())
            }
            Expr::Lit(_) => true,
            Expr::Paren(p) => pure(&p.expr, g),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_strs(&p.path);
                    let l = s.last().unwrap();
                    l.chars().next().unwrap().is_uppercase() && c.args.iter().all(|a| pure(a, g))
                } else {
                    false
                }
            }
            Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| pure(&f.expr, g)),
            Expr::Tuple(t) => t.elems.iter().all(|f| pure(f, g)),
            Expr::Field(f) => pure(&f.base, g),
            _ => false,
        }
    }
    if !pure(e, g) {
        return None;
    }
    let ts = print(quote!(res == #e));
    let mut ts = ts.trim().to_string();
    if let Some(s) = self_ty {
        let mut m = BTreeMap::new();
        m.insert("Self".to_string(), s.to_string());
        ts = word_subst(&ts, &m);
    }
    Some(format!("{ts},\n"))
}

/// grammar functions that are not opaque
const OPEN_PARSERS: &[&str] = &["sp_byte", "sp_take", "sp_instr"];

fn lookup_contract(g: &Global, key: &str) -> Option<contracts::Contract> {
    if let Some(c) = g.contracts.fns.get(key) {
        return Some(c.clone());
    }
    // templates: NAME<*>
    if let Some(p) = key.find('<') {
        let gen = &key[..p];
        let arg = key[p + 1..].trim_end_matches('>');
        if arg.starts_with('@') {
            return None;
        }
        let t = g.contracts.fns.get(&format!("{gen}<*>"))?.clone();
        let callee = g.contracts.fns.get(arg)?;
        let sp = callee.parser.clone()?;
        let n = sp.trim_start_matches("sp_").to_string();
        let ret = g.fns.get(arg).and_then(|f| match &f.sig.output {
            ReturnType::Type(_, t) => Some(subst_self(t, &f.self_ty)),
            _ => None,
        })?;
        let (ty, ety) = result_args(&ret)?;
        let ety = quote::quote!(#ety).to_string();
        let sub = |s: &str| -> String {
            let mut o = s.replace("$SP", &sp).replace("$N", &n).replace("$E", &ety);
            while let Some(p) = o.find("$VS(") {
                let end = o[p..].find(')').unwrap() + p;
                let inner = o[p + 4..end].to_string();
                let v = match genspec::seq_view(&ty) {
                    Some(f) => format!("{f}({inner}@)"),
                    None => format!("{inner}@"),
                };
                o = format!("{}{}{}", &o[..p], v, &o[end + 1..]);
            }
            o
        };
        let mut c = t;
        c.parser = c.parser.map(|s| sub(&s));
        c.why = c.why.map(|s| sub(&s));
        c.requires = sub(&c.requires);
        c.ensures = sub(&c.ensures);
        c.start = sub(&c.start);
        for m in [&mut c.loops, &mut c.loop_start, &mut c.loop_end, &mut c.loop_after, &mut c.loop_before] {
            for v in m.values_mut() {
                *v = sub(v);
            }
        }
        return Some(c);
    }
    None
}

fn shape_of(b: &Block) -> String {
    struct S(String);
    impl<'a> syn::visit::Visit<'a> for S {
        fn visit_expr(&mut self, e: &'a Expr) {
            let c = match e {
                Expr::Loop(_) => 'L',
                Expr::While(_) => 'W',
                Expr::ForLoop(_) => 'F',
                _ => ' ',
            };
            if c != ' ' {
                self.0.push(c);
                self.0.push('(');
            }
            syn::visit::visit_expr(self, e);
            if c != ' ' {
                self.0.push(')');
            }
        }
    }
    let mut s = S(String::new());
    syn::visit::Visit::visit_block(&mut s, b);
    s.0
}

#[allow(clippy::too_many_arguments)]
pub fn emit_fn(
    g: &mut Global,
    module: &[String],
    file: &str,
    self_ty: Option<String>,
    sig: &Signature,
    block: &Block,
    queue: &mut Vec<Specialise>,
    helpers: &mut BTreeMap<String, (Vec<String>, String)>,
    key_override: Option<String>,
) -> OutFn {
    let name = ident_str(&sig.ident);
    let key = key_override.unwrap_or(match &self_ty {
        Some(t) => format!("{t}::{name}"),
        None => name.clone(),
    });
    let shape = shape_of(block);
    let line = sig.span().start().line;
    let (text, loops, bindings, notes, calls, contracted, external) = emit_inner(g, module, self_ty, &key, sig, block, queue, helpers, None, vec![], &[]);
    OutFn { key, text, file: file.to_string(), line, contracted, external, loops, bindings, notes, calls, shape }
}

#[allow(clippy::too_many_arguments, clippy::type_complexity)]
fn emit_inner(
    g: &mut Global,
    module: &[String],
    self_ty: Option<String>,
    key: &str,
    sig: &Signature,
    block: &Block,
    queue: &mut Vec<Specialise>,
    helpers: &mut BTreeMap<String, (Vec<String>, String)>,
    subst_fn: Option<(String, Expr, Option<String>)>,
    extra_locals: Vec<(String, Option<Type>)>,
    extra_subst: &[(String, String)],
) -> (String, Vec<String>, Vec<String>, Vec<String>, Vec<String>, bool, bool) {
    let contract = lookup_contract(g, key);
    let mut block = block.clone();
    crate::pats::Pats.visit_block_mut(&mut block);
    let ret = match &sig.output {
        ReturnType::Type(_, t) => Some(subst_self(t, &self_ty)),
        _ => None,
    };
    // `?` on a Result is spelled out, so that the conversion of the error has its specification
    let exact = ret.as_ref().map(|t| result_args(t).is_some()).unwrap_or(false);
    if exact {
        crate::pats::Collect::tail(&mut block);
        crate::pats::Collect { ok: true }.visit_block_mut(&mut block);
    }
    let mut locals = vec![];
    let mut bindings = vec![];
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            for n in pat_names(&t.pat) {
                locals.push((n.clone(), Some((*t.ty).clone())));
                bindings.push(n);
            }
        }
    }
    locals.extend(extra_locals);
    let mut ext = g.external.contains(key);
    let mut cx = Cx {
        g,
        module: module.to_vec(),
        self_ty: self_ty.clone(),
        key: key.to_string(),
        ret,
        exact_err: exact,
        locals,
        loops: vec![],
        bindings,
        notes: vec![],
        calls: vec![],
        nclos: 0,
        nhelp: 0,
        queue,
        helpers,
        pending: vec![],
        subst_fn,
        unsupported: vec![],
        u8s: Default::default(),
        hints: Default::default(),
        not_u8: Default::default(),
        lens: Default::default(),
    };
    let _ = &cx.ret;
    cx.visit_block_mut(&mut block);
    // a trailing loop marker would change the value of the body only for `()` functions, which is fine
    let mut notes = std::mem::take(&mut cx.notes);
    let unsupported = std::mem::take(&mut cx.unsupported);
    let loops = std::mem::take(&mut cx.loops);
    let bindings = std::mem::take(&mut cx.bindings);
    let mut calls = std::mem::take(&mut cx.calls);
    let mut u8s = std::mem::take(&mut cx.u8s);
    let not_u8 = std::mem::take(&mut cx.not_u8);
    drop(cx);
    u8s.retain(|n| !not_u8.contains(n));
    let u8params: Vec<String> = sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(t) if t.ty.to_token_stream().to_string() == "u8" => match &*t.pat { Pat::Ident(i) if i.mutability.is_none() => Some(ident_str(&i.ident)), _ => None },
        _ => None,
    }).collect();
    let counters = crate::facts::counters(g, &mut block);
    let facts = crate::facts::bit_facts(g, &u8s, &u8params, &mut block);
    calls.sort();
    calls.dedup();
    for u in &unsupported {
        notes.push(format!("unsupported: {u}"));
    }
    if !unsupported.is_empty() {
        ext = true;
    }
    let text = render(g, key, sig, &block, self_ty.as_deref(), module, &loops, &bindings, ext, extra_subst, &facts, &counters);
    if g.dropped.contains(key) {
        notes.push("the contract's proof text speaks of variables the function no longer has".into());
    }
    (text, loops, bindings, notes, calls, contract.is_some(), ext)
}

pub fn emit_specialised(g: &mut Global, s: &Specialise, queue: &mut Vec<Specialise>, helpers: &mut BTreeMap<String, (Vec<String>, String)>) -> OutFn {
    let f = g.fns[&s.generic].clone();
    let idx = has_fn_param(&f.sig).unwrap();
    let mut sig = f.sig.clone();
    let FnArg::Typed(fp) = sig.inputs[idx].clone() else { unreachable!() };
    let fpn = pat_names(&fp.pat)[0].clone();
    let fty = fp.ty.to_token_stream().to_string();
    // the bound tells which generics are the element and error types
    let mut bound: Option<ParenthesizedGenericArguments> = None;
    let mut take = |b: &TypeParamBound| {
        if let TypeParamBound::Trait(t) = b {
            if let Some(PathSegment { arguments: PathArguments::Parenthesized(p), .. }) = t.path.segments.last() {
                bound = Some(p.clone());
            }
        }
    };
    for p in &sig.generics.params {
        if let GenericParam::Type(t) = p {
            if t.ident == fty {
                t.bounds.iter().for_each(&mut take);
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if t.bounded_ty.to_token_stream().to_string() == fty {
                    t.bounds.iter().for_each(&mut take);
                }
            }
        }
    }
    if let Type::ImplTrait(im) = &*fp.ty {
        im.bounds.iter().for_each(&mut take);
    }
    let mut tmap: BTreeMap<String, Type> = BTreeMap::new();
    if let (Some(b), Some((t, e))) = (&bound, &s.ret) {
        if let ReturnType::Type(_, rt) = &b.output {
            if let Some((bt, be)) = result_args(rt) {
                let ab = |t: &Type| -> Type { parse_str(&genspec::cty(t)).unwrap_or(t.clone()) };
                tmap.insert(bt.to_token_stream().to_string(), ab(t));
                tmap.insert(be.to_token_stream().to_string(), ab(e));
            }
        }
    }
    // drop the function parameter and the substituted generics
    let ins: Vec<FnArg> = sig.inputs.iter().enumerate().filter(|(i, _)| *i != idx).map(|(_, a)| a.clone()).collect();
    sig.inputs = ins.into_iter().collect();
    let mut dropn: BTreeSet<String> = tmap.keys().cloned().collect();
    dropn.insert(fty.clone());
    let gp: Vec<GenericParam> = sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if dropn.contains(&t.ident.to_string()))).cloned().collect();
    sig.generics.params = gp.into_iter().collect();
    if let Some(w) = &mut sig.generics.where_clause {
        let v: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if dropn.contains(&t.bounded_ty.to_token_stream().to_string()))).cloned().collect();
        w.predicates = v.into_iter().collect();
    }
    struct Ts<'a>(&'a BTreeMap<String, Type>);
    impl VisitMut for Ts<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            let s = t.to_token_stream().to_string();
            if let Some(x) = self.0.get(&s) {
                *t = x.clone();
                return;
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    Ts(&tmap).visit_signature_mut(&mut sig);
    let mut block = f.block.clone();
    Ts(&tmap).visit_block_mut(&mut block);
    sig.ident = format_ident!("f");
    let mut arg = s.arg.clone();
    // captured variables become parameters
    let mut extra = vec![];
    for (n, t, m) in &s.captures {
        let id = format_ident!("{}", n);
        let t2: Type = parse_str(&genspec::cty(t)).unwrap_or(t.clone());
        if *m {
            sig.inputs.push(parse_quote!(#id: &mut #t2));
            struct Dm(String);
            impl VisitMut for Dm {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Reference(r) = e {
                        if r.mutability.is_some() {
                            if let Expr::Path(p) = &*r.expr {
                                if p.path.is_ident(&self.0) {
                                    let id = format_ident!("{}", self.0);
                                    *e = parse_quote!(&mut *#id);
                                    return;
                                }
                            }
                        }
                    }
                    if let Expr::Path(p) = e {
                        if p.path.is_ident(&self.0) {
                            let id = format_ident!("{}", self.0);
                            *e = parse_quote!((*#id));
                            return;
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            Dm(n.clone()).visit_expr_mut(&mut arg);
        } else {
            sig.inputs.push(parse_quote!(#id: #t2));
        }
        extra.push((n.clone(), Some(t.clone())));
    }
    if let Expr::Path(_) = &arg {
        if let Some(k) = &s.callee {
            arg = abs_path(&g.fns[k]);
        }
    }
    let key = s.key.clone();
    let (text, loops, bindings, notes, mut calls, contracted, external) =
        emit_inner(g, &s.module, f.self_ty.clone(), &key, &sig, &block, queue, helpers, Some((fpn, arg, s.callee.clone())), vec![], &[]);
    calls.sort();
    let hm = cratepath(&f.module);
    let text = format!(
        "pub mod {} {{\nuse vstd::prelude::*;\nuse crate::xstd::pre::*;\nuse crate::spec::*;\nbroadcast use crate::spec::g_all;\nuse super::*;\nuse {hm}::*;\n{text}}}\n",
        s.name
    );
    OutFn { key, text, file: f.file.clone(), line: f.line, contracted, external, loops, bindings, notes, calls, shape: shape_of(&f.block) }
}

#[allow(clippy::too_many_arguments)]
pub fn emit_impl(
    g: &mut Global,
    module: &[String],
    file: &str,
    im: &ItemImpl,
    queue: &mut Vec<Specialise>,
    helpers: &mut BTreeMap<String, (Vec<String>, String)>,
    outfns: &mut Vec<OutFn>,
) -> String {
    let mut ty = (*im.self_ty).clone();
    fix_type(&mut ty);
    let tname = match &*im.self_ty {
        Type::Path(p) => ident_str(&p.path.segments.last().unwrap().ident),
        _ => {
            g.notes.push("impl on a non-path type dropped".into());
            return String::new();
        }
    };
    let gen = clean_generics(&im.generics);
    let (ig, _, wh) = gen.split_for_impl();
    let mut out = String::new();
    if let Some((_, p, _)) = &im.trait_ {
        let tn = p.segments.last().unwrap().ident.to_string();
        match tn.as_str() {
            "From" => {
                let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments else { return out };
                let Some(GenericArgument::Type(src)) = a.args.first() else { return out };
                let mut src = src.clone();
                fix_type(&mut src);
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        if f.block.stmts.len() == 1 {
                            if let (Stmt::Expr(e, None), FnArg::Typed(a)) = (&f.block.stmts[0], &f.sig.inputs[0]) {
                                if let Pat::Ident(pi) = &*a.pat {
                                    // rename the parameter to `v`
                                    struct Rn(String, String);
                                    impl VisitMut for Rn {
                                        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                                            if p.path.is_ident(&self.0) {
                                                p.path = parse_quote!(v);
                                            } else if p.path.is_ident("Self") {
                                                let t = format_ident!("{}", self.1);
                                                p.path = parse_quote!(#t);
                                            }
                                        }
                                    }
                                    let mut e = e.clone();
                                    Rn(pi.ident.to_string(), tname.clone()).visit_expr_mut(&mut e);
                                    Fix.visit_expr_mut(&mut e);
                                    out.push_str(&genspec::emit_from(&quote!(#ig), &quote!(#ty), &quote!(#wh), &src, quote!(#e), quote!(#e)));
                                    return out;
                                }
                            }
                        }
                    }
                }
                g.notes.push(format!("From impl for {tname} not modelled"));
            }
            "Default" => {
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        let of = emit_fn(g, module, file, Some(tname.clone()), &f.sig, &f.block, queue, helpers, None);
                        let t = of.text.replacen("pub fn", "fn", 1);
                        out.push_str(&format!("impl Default for {} {{\n//@@BEGIN {}\n{}\n//@@END {}\n}}\n", tname, of.key, t, of.key));
                        outfns.push(of);
                    }
                }
            }
            "Debug" | "Display" | "Error" | "Clone" | "Copy" | "PartialEq" | "Eq" | "Hash" => {}
            _ => g.notes.push(format!("impl {tn} for {tname} dropped")),
        }
        return out;
    }
    out.push_str(&print(quote!(impl #ig #ty #wh)).trim_end().to_string());
    out.push_str(" {\n");
    for it in &im.items {
        match it {
            ImplItem::Fn(f) => {
                if has_fn_param(&f.sig).is_some() {
                    continue;
                }
                let of = emit_fn(g, module, file, Some(tname.clone()), &f.sig, &f.block, queue, helpers, None);
                out.push_str(&format!("//@@BEGIN {}\n{}\n//@@END {}\n", of.key, of.text, of.key));
                outfns.push(of);
            }
            ImplItem::Const(c) => {
                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                out.push_str(&print(quote!(pub const #id: #ty = #e;)));
            }
            _ => g.notes.push(format!("impl item dropped in {tname}")),
        }
    }
    out.push_str("}\n");
    out
}
