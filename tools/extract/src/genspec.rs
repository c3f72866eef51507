//! Emission of type definitions, and of their mathematical mirror types and views.
use crate::*;
use quote::format_ident;
use std::cell::RefCell;

pub fn has_derive(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && {
            let s = a.meta.to_token_stream().to_string();
            s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == name)
        }
    })
}
fn is_error(attrs: &[Attribute]) -> bool {
    has_derive(attrs, "Error")
}

pub fn emit_type(it: &Item, g: &mut Global) -> String {
    let mut out = String::new();
    match it {
        Item::Struct(s) => {
            let mut s = s.clone();
            let attrs = std::mem::take(&mut s.attrs);
            s.vis = parse_quote!(pub);
            let mut froms = vec![];
            for (i, f) in s.fields.iter_mut().enumerate() {
                if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                    froms.push((i, f.ty.clone()));
                }
                f.attrs.clear();
                f.vis = parse_quote!(pub);
                tx::fix_type(&mut f.ty);
            }
            let d = if has_derive(&attrs, "Copy") { quote!(#[derive(Copy, Clone)]) } else { quote!() };
            out.push_str(&print::print(quote!(#d #s)));
            let name = &s.ident;
            let (ig, tg, wh) = s.generics.split_for_impl();
            for (_, mut ty) in froms {
                tx::fix_type(&mut ty);
                out.push_str(&emit_from(&quote!(#ig), &quote!(#name #tg), &quote!(#wh), &ty, quote!(#name(v)), quote!(#name(v))));
            }
            if has_derive(&attrs, "PartialEq") && has_derive(&attrs, "Copy") {
                out.push_str(&emit_eq(&name.to_string(), None));
            }
        }
        Item::Enum(s) => {
            let mut s = s.clone();
            let attrs = std::mem::take(&mut s.attrs);
            s.vis = parse_quote!(pub);
            let name = s.ident.clone();
            let mut froms = vec![];
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                        froms.push((v.ident.clone(), f.ident.clone(), f.ty.clone()));
                    }
                    f.attrs.clear();
                    tx::fix_type(&mut f.ty);
                }
            }
            let d = if has_derive(&attrs, "Copy") { quote!(#[derive(Copy, Clone)]) } else { quote!() };
            out.push_str(&print::print(quote!(#d #s)));
            let (ig, tg, wh) = s.generics.split_for_impl();
            for (v, fi, mut ty) in froms {
                tx::fix_type(&mut ty);
                let ctor = match fi {
                    None => quote!(#name::#v(v)),
                    Some(f) => quote!(#name::#v { #f: v }),
                };
                out.push_str(&emit_from(&quote!(#ig), &quote!(#name #tg), &quote!(#wh), &ty, ctor.clone(), ctor));
            }
            if has_derive(&attrs, "PartialEq") && has_derive(&attrs, "Copy") {
                let rank = if has_derive(&attrs, "PartialOrd") && s.variants.iter().all(|v| v.fields.is_empty()) {
                    Some(s.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>())
                } else {
                    None
                };
                out.push_str(&emit_eq(&name.to_string(), rank));
            }
        }
        _ => unreachable!(),
    }
    let _ = g;
    out
}

/// what an I/O error held by an error value is, through every error it wraps
pub fn emit_caused(it: &Item) -> String {
    let (name, attrs, generics, variants): (&Ident, &Vec<Attribute>, &Generics, Vec<(Option<&Ident>, &Fields)>) = match it {
        Item::Struct(s) => (&s.ident, &s.attrs, &s.generics, vec![(None, &s.fields)]),
        Item::Enum(s) => (&s.ident, &s.attrs, &s.generics, s.variants.iter().map(|v| (Some(&v.ident), &v.fields)).collect()),
        _ => return String::new(),
    };
    if !is_error(attrs) {
        return String::new();
    }
    let params: Vec<String> = generics.type_params().map(|p| ident_str(&p.ident)).collect();
    let mut arms = vec![];
    for (v, fs) in &variants {
        for (i, f) in fs.iter().enumerate() {
            let is_param = matches!(&f.ty, Type::Path(p) if p.path.get_ident().is_some_and(|x| params.contains(&ident_str(x))));
            if !is_param && !caused_type(&f.ty) {
                continue;
            }
            let path = match v {
                Some(v) => quote!(#name::#v),
                None => quote!(#name),
            };
            arms.push(match &f.ident {
                Some(n) => quote!(#path { #n: x__, .. } => x__.io()),
                None => {
                    let before = (0..i).map(|_| quote!(_));
                    quote!(#path(#(#before,)* x__, ..) => x__.io())
                }
            });
            break;
        }
    }
    let total = arms.len() == variants.len();
    let rest = if total { quote!() } else { quote!(_ => None,) };
    let mut g2 = generics.clone();
    for p in g2.type_params_mut() {
        p.bounds.clear();
        p.bounds.push(parse_quote!(crate::xstd::io::Caused));
    }
    let (ig, _, _) = g2.split_for_impl();
    let (_, tg, _) = generics.split_for_impl();
    print::print(quote! {
        impl #ig crate::xstd::io::Caused for #name #tg {
            open spec fn io(self) -> Option<crate::xstd::io::Error> { match self { #(#arms,)* #rest } }
        }
    })
}
/// an I/O error or an error type of the crate
pub fn caused_type(t: &Type) -> bool {
    let Type::Path(p) = resolve(t) else { return false };
    let s: Vec<String> = p.path.segments.iter().map(|s| ident_str(&s.ident)).collect();
    let n = s.len();
    if n >= 2 && s[n - 2] == "io" && s[n - 1] == "Error" {
        return true;
    }
    ENV.with(|e| e.borrow().errors.contains(&s[n - 1])) && args_of(&p).iter().all(|a| caused_type(a) || matches!(a, Type::Path(q) if q.path.get_ident().is_some_and(|i| i.to_string().len() == 1)))
}

pub fn emit_from(ig: &TokenStream, target: &TokenStream, wh: &TokenStream, ty: &Type, body: TokenStream, spec: TokenStream) -> String {
    print::print(quote! {
        impl #ig From<#ty> for #target #wh { fn from(v: #ty) -> Self { #body } }
        impl #ig vstd::std_specs::convert::FromSpecImpl<#ty> for #target #wh {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: #ty) -> Self { #spec }
        }
    })
}

fn emit_eq(name: &str, rank: Option<Vec<String>>) -> String {
    let mut o = format!(
        "impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &{name}) -> bool {{ unimplemented!() }} }}\n\
         impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\n"
    );
    if let Some(vs) = rank {
        let arms: String = vs.iter().enumerate().map(|(i, v)| format!("{name}::{v} => {i}int, ")).collect();
        o.push_str(&format!(
            "pub open spec fn rank_{name}(k: {name}) -> int {{ match k {{ {arms} }} }}\n\
             impl PartialOrd for {name} {{ #[verifier::external_body] fn partial_cmp(&self, o: &{name}) -> Option<::core::cmp::Ordering> {{ unimplemented!() }} }}\n\
             impl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} \
             open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<::core::cmp::Ordering> {{ if rank_{name}(*self) < rank_{name}(*o) {{ Some(::core::cmp::Ordering::Less) }} else if rank_{name}(*self) > rank_{name}(*o) {{ Some(::core::cmp::Ordering::Greater) }} else {{ Some(::core::cmp::Ordering::Equal) }} }} }}\n"
        ));
    }
    o
}

// ------------------------------------------------------------------ mirror types

#[derive(Default, Clone)]
pub struct Env {
    pub alias: BTreeMap<String, Type>,
    pub identity: BTreeMap<String, bool>,
    pub path: BTreeMap<String, String>, // name -> crate path
    pub errors: BTreeSet<String>,
}
thread_local! {
    pub static ENV: RefCell<Env> = RefCell::new(Env::default());
    static SEQS: RefCell<BTreeMap<String, Type>> = RefCell::new(BTreeMap::new());
}

fn args_of(p: &TypePath) -> Vec<Type> {
    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
        a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect()
    } else {
        vec![]
    }
}
const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize", "bool", "char"];

pub fn resolve(t: &Type) -> Type {
    if let Type::Path(p) = t {
        let n = ident_str(&p.path.segments.last().unwrap().ident);
        if args_of(p).is_empty() {
            if let Some(a) = ENV.with(|e| e.borrow().alias.get(&n).cloned()) {
                return resolve(&a);
            }
        }
    }
    t.clone()
}

pub fn is_identity(t: &Type) -> bool {
    let t = resolve(t);
    match &t {
        Type::Tuple(tt) => tt.elems.iter().all(is_identity),
        Type::Path(p) => {
            let n = ident_str(&p.path.segments.last().unwrap().ident);
            if PRIMS.contains(&n.as_str()) {
                return true;
            }
            if n == "Option" {
                return args_of(p).iter().all(is_identity);
            }
            ENV.with(|e| e.borrow().identity.get(&n).copied().unwrap_or(false))
        }
        Type::Reference(r) => is_identity(&r.elem),
        _ => false,
    }
}

pub fn mty(t: &Type) -> String {
    let t = resolve(t);
    match &t {
        Type::Tuple(tt) => format!("({})", tt.elems.iter().map(|x| mty(x) + ",").collect::<String>().trim_end_matches(',')),
        Type::Array(a) => format!("Seq<{}>", mty(&a.elem)),
        Type::Path(p) => {
            let n = ident_str(&p.path.segments.last().unwrap().ident);
            if PRIMS.contains(&n.as_str()) {
                return n;
            }
            let a = args_of(p);
            match n.as_str() {
                "Option" => format!("Option<{}>", mty(&a[0])),
                "Vec" => format!("Seq<{}>", mty(&a[0])),
                "Box" => mty(&a[0]),
                "String" | "f32" | "f64" => "Seq<u8>".into(),
                _ => {
                    if is_identity(&t) {
                        ENV.with(|e| e.borrow().path.get(&n).cloned().unwrap_or(n.clone()))
                    } else {
                        format!("S{n}")
                    }
                }
            }
        }
        _ => "()".into(),
    }
}

/// concrete type text with crate paths
pub fn cty(t: &Type) -> String {
    match t {
        Type::Tuple(tt) => format!("({})", tt.elems.iter().map(cty).collect::<Vec<_>>().join(", ")),
        Type::Array(a) => format!("[{}; {}]", cty(&a.elem), a.len.to_token_stream()),
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, cty(&r.elem)),
        Type::Path(p) => {
            let n = ident_str(&p.path.segments.last().unwrap().ident);
            let a = args_of(p);
            let base = if p.path.segments.len() > 1 && p.path.segments[0].ident == "io" {
                format!("crate::xstd::{}", p.path.to_token_stream().to_string().replace(' ', ""))
            } else if n == "String" {
                "crate::xstd::pre::String".into()
            } else {
                ENV.with(|e| e.borrow().path.get(&n).cloned().unwrap_or_else(|| p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")))
            };
            if a.is_empty() {
                base
            } else {
                format!("{base}<{}>", a.iter().map(cty).collect::<Vec<_>>().join(", "))
            }
        }
        o => o.to_token_stream().to_string(),
    }
}

fn mangle(t: &Type) -> String {
    cty(t).replace("crate::xstd::pre::", "").replace("crate::", "").chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect::<String>().rsplit("__").next().unwrap().trim_matches('_').to_string()
}
fn mangle_full(t: &Type) -> String {
    let t = resolve(t);
    if let Type::Path(p) = &t {
        let n = ident_str(&p.path.segments.last().unwrap().ident);
        let a = args_of(p);
        if a.is_empty() {
            return n;
        }
        return format!("{n}_{}", a.iter().map(mangle_full).collect::<Vec<_>>().join("_"));
    }
    mangle(&t)
}

/// name of the function mapping Seq<T> to its mirror; None when identity
pub fn seq_view(t: &Type) -> Option<String> {
    if is_identity(t) {
        return None;
    }
    let m = mangle_full(t);
    SEQS.with(|s| {
        s.borrow_mut().entry(m.clone()).or_insert(resolve(t));
    });
    Some(format!("vs_{m}"))
}

pub fn vexpr(t: &Type, e: &str) -> String {
    let t = resolve(t);
    if is_identity(&t) {
        return e.to_string();
    }
    match &t {
        Type::Tuple(tt) => {
            let v: Vec<String> = tt.elems.iter().enumerate().map(|(i, x)| vexpr(x, &format!("{e}.{i}"))).collect();
            format!("({})", v.join(", "))
        }
        Type::Array(_) => format!("{e}@"),
        Type::Path(p) => {
            let n = ident_str(&p.path.segments.last().unwrap().ident);
            let a = args_of(p);
            match n.as_str() {
                "Vec" => match seq_view(&a[0]) {
                    None => format!("{e}@"),
                    Some(f) => format!("{f}({e}@)"),
                },
                "String" => format!("{e}.bytes()"),
                "f32" => format!("crate::xstd::f32_bytes({e})"),
                "f64" => format!("crate::xstd::f64_bytes({e})"),
                "Box" => vexpr(&a[0], &format!("(*{e})")),
                "Option" => format!("(match {e} {{ Some(o__) => Some({}), None => None }})", vexpr(&a[0], "o__")),
                _ => format!("v_{n}({e})"),
            }
        }
        _ => "()".into(),
    }
}

pub fn build_env(mods: &[Module], g: &Global) {
    let mut env = Env::default();
    for m in mods {
        for it in &m.items {
            if let Item::Type(t) = it {
                env.alias.insert(ident_str(&t.ident), (*t.ty).clone());
            }
        }
    }
    for (n, ps) in &g.types {
        // a duplicated name resolves to the shallowest definition
        let p = ps.iter().min_by_key(|p| p.len()).unwrap();
        if !env.alias.contains_key(n) {
            env.path.insert(n.clone(), format!("{}::{}", cratepath(p), n));
        }
    }
    // optimistic fixpoint
    let mut fields: BTreeMap<String, Vec<Type>> = BTreeMap::new();
    for m in mods {
        for it in &m.items {
            let (n, attrs, fs): (String, &Vec<Attribute>, Vec<Type>) = match it {
                Item::Struct(s) => (ident_str(&s.ident), &s.attrs, s.fields.iter().map(|f| f.ty.clone()).collect()),
                Item::Enum(s) => (ident_str(&s.ident), &s.attrs, s.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.ty.clone())).collect()),
                _ => continue,
            };
            if env.path.get(&n) != Some(&format!("{}::{}", cratepath(&m.path), n)) {
                continue;
            }
            if is_error(attrs) {
                env.errors.insert(n);
                continue;
            }
            fields.insert(n.clone(), fs);
            env.identity.insert(n, true);
        }
    }
    ENV.with(|e| *e.borrow_mut() = env);
    loop {
        let mut changed = false;
        for (n, fs) in &fields {
            let id = fs.iter().all(is_identity);
            ENV.with(|e| {
                let mut e = e.borrow_mut();
                if e.identity[n] && !id {
                    e.identity.insert(n.clone(), false);
                    changed = true;
                }
            });
        }
        if !changed {
            break;
        }
    }
}

pub fn emit_models(specs: &[(Vec<String>, TokenStream)], g: &mut Global) -> String {
    let mut out = String::from("use vstd::prelude::*;\nuse crate::xstd::pre::*;\n");
    // short names for every model-visible type
    let env = ENV.with(|e| e.borrow().clone());
    for (n, p) in &env.path {
        if env.identity.contains_key(n) || env.errors.contains(n) {
            out.push_str(&format!("pub use {p};\n"));
        }
    }
    let mut lemmas = vec![];
    let mut big_unit = String::new();
    let mut big_calls = String::new();
    let mut bigs: Vec<String> = vec![];
    let _ = format_ident!("x");
    for (m, ts) in specs {
        let it: Item = parse2(ts.clone()).unwrap();
        let (n, attrs) = match &it {
            Item::Struct(s) => (ident_str(&s.ident), &s.attrs),
            Item::Enum(s) => (ident_str(&s.ident), &s.attrs),
            _ => continue,
        };
        if is_error(attrs) || env.path.get(&n) != Some(&format!("{}::{}", cratepath(m), n)) {
            continue;
        }
        if env.identity[&n] {
            continue;
        }
        let path = &env.path[&n];
        let fname = |f: &Field| -> String {
            let s = f.ident.as_ref().unwrap().to_string();
            s.strip_prefix("r#").map(|x| format!("{x}_")).unwrap_or(s)
        };
        match &it {
            Item::Struct(s) => {
                let (def, view) = match &s.fields {
                    Fields::Named(fs) => (
                        format!("{{ {} }}", fs.named.iter().map(|f| format!("pub {}: {}, ", fname(f), mty(&f.ty))).collect::<String>()),
                        format!("S{n} {{ {} }}", fs.named.iter().map(|f| format!("{}: {}, ", fname(f), vexpr(&f.ty, &format!("x.{}", fname(f))))).collect::<String>()),
                    ),
                    Fields::Unnamed(fs) => (
                        format!("({});", fs.unnamed.iter().map(|f| format!("pub {}, ", mty(&f.ty))).collect::<String>()),
                        format!("S{n}({})", fs.unnamed.iter().enumerate().map(|(i, f)| format!("{}, ", vexpr(&f.ty, &format!("x.{i}")))).collect::<String>()),
                    ),
                    Fields::Unit => (";".into(), format!("S{n}")),
                };
                out.push_str(&format!("pub ghost struct S{n} {def}\npub open spec fn v_{n}(x: {path}) -> S{n} {} {{ {view} }}\n", ""));
            }
            Item::Enum(s) => {
                let mut def = String::new();
                let mut arms = String::new();
                for v in &s.variants {
                    let vn = ident_str(&v.ident);
                    match &v.fields {
                        Fields::Named(fs) => {
                            def.push_str(&format!("{vn} {{ {} }}, ", fs.named.iter().map(|f| format!("{}: {}, ", fname(f), mty(&f.ty))).collect::<String>()));
                            arms.push_str(&format!(
                                "{path}::{vn} {{ {} }} => S{n}::{vn} {{ {} }},\n",
                                fs.named.iter().map(|f| fname(f) + ", ").collect::<String>(),
                                fs.named.iter().map(|f| format!("{}: {}, ", fname(f), vexpr(&f.ty, &fname(f)))).collect::<String>()
                            ));
                        }
                        Fields::Unnamed(fs) => {
                            def.push_str(&format!("{vn}({}), ", fs.unnamed.iter().map(|f| mty(&f.ty) + ", ").collect::<String>()));
                            arms.push_str(&format!(
                                "{path}::{vn}({}) => S{n}::{vn}({}),\n",
                                (0..fs.unnamed.len()).map(|i| format!("a{i}, ")).collect::<String>(),
                                fs.unnamed.iter().enumerate().map(|(i, f)| vexpr(&f.ty, &format!("a{i}")) + ", ").collect::<String>()
                            ));
                        }
                        Fields::Unit => {
                            def.push_str(&format!("{vn}, "));
                            arms.push_str(&format!("{path}::{vn} => S{n}::{vn},\n"));
                        }
                    }
                }
                let dec = if arms.contains(&format!("vs_{n}(")) { "decreases x" } else { "" };
                let big = s.variants.len() > 40;
                let op = if big { "#[verifier::opaque] " } else { "" };
                out.push_str(&format!("pub ghost enum S{n} {{ {def} }}\n{op}pub open spec fn v_{n}(x: {path}) -> S{n} {dec} {{ match x {{ {arms} }} }}\n"));
                if big {
                    for (vi, v) in s.variants.iter().enumerate() {
                        if vi % 80 == 0 {
                            out.push_str(&format!("{}pub use lv_{n}_{vi}::*;\npub mod lv_{n}_{vi} {{ use super::*;\n", if vi > 0 { "}\n" } else { "" }));
                        }
                        let vn = ident_str(&v.ident);
                        let (params, ctor, sctor) = match &v.fields {
                            Fields::Named(fs) => (
                                fs.named.iter().map(|f| format!("{}: {}, ", fname(f), cty(&f.ty))).collect::<String>(),
                                format!("{path}::{vn} {{ {} }}", fs.named.iter().map(|f| fname(f) + ", ").collect::<String>()),
                                format!("S{n}::{vn} {{ {} }}", fs.named.iter().map(|f| format!("{}: {}, ", fname(f), vexpr(&f.ty, &fname(f)))).collect::<String>()),
                            ),
                            Fields::Unnamed(fs) => (
                                fs.unnamed.iter().enumerate().map(|(i, f)| format!("a{i}: {}, ", cty(&f.ty))).collect::<String>(),
                                format!("{path}::{vn}({})", (0..fs.unnamed.len()).map(|i| format!("a{i}, ")).collect::<String>()),
                                format!("S{n}::{vn}({})", fs.unnamed.iter().enumerate().map(|(i, f)| vexpr(&f.ty, &format!("a{i}")) + ", ").collect::<String>()),
                            ),
                            Fields::Unit => (String::new(), format!("{path}::{vn}"), format!("S{n}::{vn}")),
                        };
                        if params.is_empty() {
                            out.push_str(&format!("pub proof fn vc_{n}_{vn}() ensures v_{n}({ctor}) == {sctor} {{ reveal(v_{n}); }}\n"));
                            big_unit.push_str(&format!("v_{n}({ctor}) == {sctor}, "));
                            big_calls.push_str(&format!("vc_{n}_{vn}(); "));
                        } else {
                            out.push_str(&format!("pub broadcast proof fn vc_{n}_{vn}({params}) ensures #[trigger] v_{n}({ctor}) == {sctor} {{ reveal(v_{n}); }}\n"));
                            lemmas.push(format!("vc_{n}_{vn}"));
                        }
                    }
                    out.push_str("}\n");
                    // the variants without fields, all at once: v_{n} agrees with the constructor
                    out.push_str(&format!("pub proof fn vcu_{n}() ensures {big_unit} {{ {big_calls} }}\n"));
                    big_unit.clear();
                    big_calls.clear();
                    bigs.push(n.clone());
                }
            }
            _ => {}
        }
    }
    // sequence views, requested so far (functions of the crate may request more through contracts,
    // so emit for every non-identity type and for Vec of it)
    let names: Vec<String> = env.identity.iter().filter(|(_, v)| !**v).map(|(k, _)| k.clone()).collect();
    for n in &names {
        let t: Type = parse_str(n).unwrap();
        seq_view(&t);
    }
    let seqs = SEQS.with(|s| s.borrow().clone());
    for (m, t) in &seqs {
        let ct = cty(t);
        let mt = mty(t);
        let v = vexpr(t, "s.last()");
        let vx = vexpr(t, "x");
        let vi = vexpr(t, "s[i]");
        let v0 = vexpr(t, "s[0]");
        let rv = if bigs.contains(m) { format!("reveal(v_{m}); ") } else { String::new() };
        out.push_str(&format!(
            "pub open spec fn vs_{m}(s: Seq<{ct}>) -> Seq<{mt}> decreases s {{ if s.len() == 0 {{ Seq::<{mt}>::empty() }} else {{ vs_{m}(s.drop_last()).push({v}) }} }}\n\
             pub broadcast proof fn lpush_{m}(s: Seq<{ct}>, x: {ct}) ensures #[trigger] vs_{m}(s.push(x)) == vs_{m}(s).push({vx}) {{ {rv}assert(s.push(x).drop_last() =~= s); }}\n\
             pub broadcast proof fn llen_{m}(s: Seq<{ct}>) ensures #[trigger] vs_{m}(s).len() == s.len() decreases s.len() {{ if s.len() > 0 {{ llen_{m}(s.drop_last()); }} }}\n\
             pub broadcast proof fn lidx_{m}(s: Seq<{ct}>, i: int) requires 0 <= i < s.len() ensures #[trigger] vs_{m}(s)[i] == {vi} decreases s.len() {{ {rv}llen_{m}(s.drop_last()); if i < s.len() - 1 {{ lidx_{m}(s.drop_last(), i); }} }}\n\
             pub broadcast proof fn lupd_{m}(s: Seq<{ct}>, i: int, x: {ct}) requires 0 <= i < s.len() ensures #[trigger] vs_{m}(s.update(i, x)) == vs_{m}(s).update(i, {vx}) {{ llen_{m}(s); llen_{m}(s.update(i, x)); assert forall|j: int| 0 <= j < s.len() implies #[trigger] vs_{m}(s.update(i, x))[j] == vs_{m}(s).update(i, {vx})[j] by {{ lidx_{m}(s, j); lidx_{m}(s.update(i, x), j); }} assert(vs_{m}(s.update(i, x)) =~= vs_{m}(s).update(i, {vx})); }}\n\
             pub broadcast proof fn lone_{m}(s: Seq<{ct}>) ensures #![trigger vs_{m}(s)] s.len() == 0 ==> vs_{m}(s) == Seq::<{mt}>::empty(), s.len() == 1 ==> vs_{m}(s) == seq![{v0}] {{ {rv}if s.len() == 1 {{ assert(vs_{m}(s.drop_last()) =~= Seq::<{mt}>::empty()); assert(s.last() == s[0]); }} }}\n"
        ));
        lemmas.push(format!("lpush_{m}"));
        lemmas.push(format!("llen_{m}"));
        lemmas.push(format!("lidx_{m}"));
        lemmas.push(format!("lupd_{m}"));
        lemmas.push(format!("lone_{m}"));
    }
    out.push_str(&format!("pub broadcast group g_views {{ {} }}\n", lemmas.join(", ")));
    let _ = g;
    out
}
