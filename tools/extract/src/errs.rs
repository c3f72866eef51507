//! The crate's error types, their Error::source, their Display where it stands for a wrapped
//! error, and the conversions between them, from the crate with its derives expanded.
//!
//! usage: extract errors EXPANDED.rs REPO_SRC SPEC.rs OUT.rs REPORT.json [--external FNKEY]...
use crate::{ident_str, print};
use quote::{format_ident, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct All {
    enums: BTreeMap<String, ItemEnum>,
    structs: BTreeMap<String, ItemStruct>,
    errors: BTreeMap<String, ItemImpl>,   // impl Error for T
    displays: BTreeMap<String, ItemImpl>, // impl Display for T
    froms: Vec<(String, Type, ItemImpl)>, // impl From<X> for T
    twice: BTreeSet<String>,
}

fn last(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn collect(items: Vec<Item>, a: &mut All) {
    for it in items {
        match it {
            Item::Mod(m) => collect(m.content.map(|c| c.1).unwrap_or_default(), a),
            Item::Enum(e) => {
                if a.enums.insert(e.ident.to_string(), e.clone()).is_some() {
                    a.twice.insert(e.ident.to_string());
                }
            }
            Item::Struct(e) => {
                if a.structs.insert(e.ident.to_string(), e.clone()).is_some() {
                    a.twice.insert(e.ident.to_string());
                }
            }
            Item::Impl(im) => {
                let (Some((_, p, _)), Some(t)) = (&im.trait_, last(&im.self_ty)) else { continue };
                let s = p.segments.last().unwrap();
                match s.ident.to_string().as_str() {
                    "Error" => {
                        a.errors.insert(t, im);
                    }
                    "Display" => {
                        a.displays.insert(t, im);
                    }
                    "From" => {
                        if let PathArguments::AngleBracketed(ab) = &s.arguments {
                            if let Some(GenericArgument::Type(x)) = ab.args.first() {
                                let x = x.clone();
                                a.froms.push((t, x, im));
                            }
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

struct Cx<'a> {
    all: &'a All,
    ext: BTreeSet<String>, // error types of other crates
}

impl Cx<'_> {
    /// the type as the extracted crate names it, if values of it are errors
    fn err(&mut self, t: &Type, gens: &BTreeSet<String>) -> Option<String> {
        let Type::Path(p) = t else { return None };
        let s = p.path.segments.last()?;
        let n = s.ident.to_string();
        if p.path.segments.len() == 1 && gens.contains(&n) {
            return Some(n);
        }
        let args: Vec<Type> = match &s.arguments {
            PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect(),
            _ => vec![],
        };
        if n == "Box" {
            return self.err(args.first()?, gens).map(|i| format!("Box<{i}>"));
        }
        if self.all.errors.contains_key(&n) {
            if args.is_empty() {
                return Some(n);
            }
            let mut v = vec![];
            for a in &args {
                v.push(self.err(a, gens).unwrap_or("Other".into()));
            }
            return Some(format!("{n}<{}>", v.join(", ")));
        }
        if n.ends_with("Error") && args.is_empty() {
            // io::Error, std::string::FromUtf8Error, ...
            let name = if n == "Error" { p.path.segments.iter().rev().take(2).map(|s| s.ident.to_string()).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("_") } else { n };
            self.ext.insert(name.clone());
            return Some(name);
        }
        None
    }

    fn ty(&mut self, t: &Type, gens: &BTreeSet<String>) -> String {
        if let Some(e) = self.err(t, gens) {
            return e;
        }
        match last(t).as_deref() {
            Some(p @ ("u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "bool")) => p.to_string(),
            _ => "Other".into(),
        }
    }
}

struct Variant_ {
    name: Option<String>, // None: a struct
    fields: Vec<(Option<String>, String, bool)>,
}

fn fields(f: &Fields, cx: &mut Cx, gens: &BTreeSet<String>) -> Vec<(Option<String>, String, bool)> {
    f.iter().map(|f| (f.ident.as_ref().map(ident_str), cx.ty(&f.ty, gens), cx.err(&f.ty, gens).is_some())).collect()
}

/// pattern of a variant with the given field bound to `p`
fn pat(ty: &str, v: &Variant_, bind: &str, which: usize) -> String {
    let head = match &v.name {
        Some(n) => format!("{ty}::{n}"),
        None => ty.to_string(),
    };
    if v.fields.is_empty() {
        return format!("{head}{{..}}");
    }
    if let Some(f) = &v.fields[which.min(v.fields.len() - 1)].0 {
        if bind == "_" {
            format!("{head}{{..}}")
        } else {
            format!("{head}{{{f}: {bind}, ..}}")
        }
    } else {
        let b: Vec<&str> = (0..v.fields.len()).map(|i| if i == which { bind } else { "_" }).collect();
        format!("{head}({})", b.join(", "))
    }
}

struct Body<'a> {
    arity: &'a BTreeMap<String, Vec<Option<String>>>, // variant -> fields of the type at hand
    fmt: Option<String>,                              // the formatter's name, in Display::fmt
}

fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")),
        _ => None,
    }
}

impl VisitMut for Body<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // T::V { 0: x, .. } is T::V(x, ..)
        if let Pat::Struct(s) = p {
            let v = s.path.segments.last().unwrap().ident.to_string();
            if s.fields.iter().any(|f| matches!(f.member, Member::Unnamed(_))) || (s.fields.is_empty() && self.arity.get(&v).is_some_and(|f| f.iter().any(|n| n.is_none()))) {
                if let Some(fs) = self.arity.get(&v) {
                    let mut xs: Vec<Pat> = fs.iter().map(|_| parse_quote!(_)).collect();
                    for f in &s.fields {
                        if let Member::Unnamed(i) = &f.member {
                            if (i.index as usize) < xs.len() {
                                xs[i.index as usize] = (*f.pat).clone();
                            }
                        }
                    }
                    let path = &s.path;
                    *p = parse_quote!(#path(#(#xs),*));
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `match (x.as_display(),) { (y,) => E }` writes text around x: only E is looked at
        if self.fmt.is_some() {
            if let Expr::Match(m) = e {
                if matches!(&*m.expr, Expr::Tuple(_)) && m.arms.len() == 1 {
                    let b = (*m.arms[0].body).clone();
                    *e = b;
                    return self.visit_expr_mut(e);
                }
            }
        }
        if let Expr::Struct(s) = e {
            // T::V { 0: x }
            if !s.fields.is_empty() && s.fields.iter().all(|f| matches!(f.member, Member::Unnamed(_))) {
                let mut xs: Vec<(u32, Expr)> = s.fields.iter().map(|f| if let Member::Unnamed(i) = &f.member { (i.index, f.expr.clone()) } else { unreachable!() }).collect();
                xs.sort_by_key(|x| x.0);
                let xs = xs.into_iter().map(|x| x.1);
                let path = &s.path;
                *e = parse_quote!(#path(#(#xs),*));
                return self.visit_expr_mut(e);
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            match (n.as_str(), &self.fmt.clone()) {
                ("as_dyn_error", _) if m.args.is_empty() => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let r = by_ref(r);
                    *e = parse_quote!(as_dyn(#r));
                    return;
                }
                ("source", _) if m.args.is_empty() => {
                    let r = self.dynamic((*m.receiver).clone());
                    *e = parse_quote!(source_of(#r));
                    return;
                }
                ("write_str" | "write_fmt" | "write_char" | "pad", Some(f)) if call_name(&m.receiver).as_deref() == Some(f) => {
                    let f = format_ident!("{f}");
                    *e = parse_quote!(write_some(#f));
                    return;
                }
                ("fmt", Some(f)) if m.args.len() == 1 && call_name(&m.args[0]).as_deref() == Some(f) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let (r, f) = (by_ref(r), format_ident!("{f}"));
                    *e = parse_quote!(display(#r, #f));
                    return;
                }
                _ => {}
            }
        }
        if let Expr::Macro(m) = e {
            if let (Some(f), true) = (&self.fmt.clone(), m.mac.path.segments.last().is_some_and(|s| s.ident == "write" || s.ident == "writeln")) {
                let f = format_ident!("{f}");
                *e = parse_quote!(write_some(#f));
                return;
            }
        }
        if let Expr::Call(c) = e {
            if let Some(n) = call_name(&c.func) {
                let end = |s: &str| n == s || n.ends_with(&format!("::{s}"));
                if end("Error::source") && c.args.len() == 1 {
                    let r = self.dynamic(c.args[0].clone());
                    *e = parse_quote!(source_of(#r));
                    return;
                }
                if end("Display::fmt") && c.args.len() == 2 {
                    let (mut x, mut f) = (c.args[0].clone(), c.args[1].clone());
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut f);
                    *e = parse_quote!(display(#x, #f));
                    return;
                }
                if n.ends_with("Formatter::write_str") {
                    let mut f = c.args[0].clone();
                    self.visit_expr_mut(&mut f);
                    *e = parse_quote!(write_some(#f));
                    return;
                }
                if end("Some") && self.fmt.is_none() && c.args.len() == 1 {
                    let r = self.dynamic(c.args[0].clone());
                    *e = parse_quote!(Some(#r));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // names are unique: keep the last segments
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.last().is_some_and(|s| s == "Some" || s == "None" || s == "Ok" || s == "Err") {
            let l = p.segments.last().unwrap().clone();
            *p = Path::from(l);
        } else if p.segments.len() > 2 {
            let keep = p.segments.iter().skip(p.segments.len() - 2).cloned().collect();
            *p = Path { leading_colon: None, segments: keep };
        }
        p.leading_colon = None;
    }
}

impl Body<'_> {
    /// an expression of type &(dyn Error + 'static)
    fn dynamic(&mut self, mut e: Expr) -> Expr {
        while let Expr::Paren(p) = e {
            e = *p.expr;
        }
        if let Expr::Cast(c) = e {
            e = *c.expr;
        }
        let already = matches!(&e, Expr::MethodCall(m) if m.method == "as_dyn_error");
        self.visit_expr_mut(&mut e);
        if already {
            return e;
        }
        let e = by_ref(e);
        parse_quote!(as_dyn(#e))
    }
}

/// a field is given by reference; a name bound by `match self` is a reference already
fn by_ref(e: Expr) -> Expr {
    match e {
        Expr::Field(_) => parse_quote!(&#e),
        e => e,
    }
}

pub fn main(args: &[String]) {
    let die = |m: String| -> ! {
        eprintln!("EXTRACT-ERROR {m}");
        std::process::exit(3)
    };
    let src = std::fs::read_to_string(&args[0]).unwrap_or_else(|e| die(format!("cannot read {}: {e}", args[0])));
    let file = parse_file(&src).unwrap_or_else(|e| die(format!("cannot parse {}: {e}", args[0])));
    let mut external = BTreeSet::new();
    let mut i = 5;
    while i + 1 < args.len() {
        if args[i] == "--external" {
            external.insert(args[i + 1].clone());
            i += 1;
        }
        i += 1;
    }
    let mut all = All::default();
    collect(file.items, &mut all);
    let homes = homes(std::path::Path::new(&args[1]));
    let mut notes = vec![];
    let mut fns: Vec<serde_json::Value> = vec![];
    let mut text = String::new();
    let mut cx = Cx { all: &all, ext: BTreeSet::new() };
    for (t, im) in &all.errors {
        if all.twice.contains(t) {
            notes.push(format!("two types are called {t}"));
            continue;
        }
        let (gen, vars) = match (all.enums.get(t), all.structs.get(t)) {
            (Some(e), _) => {
                let gens = e.generics.type_params().map(|p| p.ident.to_string()).collect();
                (e.generics.clone(), e.variants.iter().map(|v| Variant_ { name: Some(v.ident.to_string()), fields: fields(&v.fields, &mut cx, &gens) }).collect::<Vec<_>>())
            }
            (_, Some(s)) => {
                let gens = s.generics.type_params().map(|p| p.ident.to_string()).collect();
                (s.generics.clone(), vec![Variant_ { name: None, fields: fields(&s.fields, &mut cx, &gens) }])
            }
            _ => {
                notes.push(format!("the definition of {t} was not found"));
                continue;
            }
        };
        let gens: Vec<String> = gen.type_params().map(|p| p.ident.to_string()).collect();
        let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
        let full = format!("{t}{g}");
        let (home, line) = homes.get(t).cloned().unwrap_or_default();
        // the definition
        let body = |v: &Variant_, pb: &str| -> String {
            if v.fields.is_empty() {
                String::new()
            } else if v.fields[0].0.is_some() {
                format!("{{ {} }}", v.fields.iter().map(|f| format!("{pb}{}: {}", f.0.as_ref().unwrap(), f.1)).collect::<Vec<_>>().join(", "))
            } else {
                format!("({})", v.fields.iter().map(|f| format!("{pb}{}", f.1)).collect::<Vec<_>>().join(", "))
            }
        };
        if let Some(_) = vars.first().and_then(|v| v.name.as_ref()) {
            text += &format!("pub enum {full} {{ {} }}\n", vars.iter().map(|v| format!("{}{}", v.name.as_ref().unwrap(), body(v, ""))).collect::<Vec<_>>().join(", "));
        } else if let Some(v) = vars.first() {
            text += &format!("pub struct {full}{}{}\n", body(v, "pub "), if v.fields.first().is_some_and(|f| f.0.is_some()) { "" } else { ";" });
        } else {
            text += &format!("pub enum {full} {{}}\n");
        }
        let arity: BTreeMap<String, Vec<Option<String>>> = vars.iter().map(|v| (v.name.clone().unwrap_or(t.clone()), v.fields.iter().map(|f| f.0.clone()).collect())).chain(vars.iter().filter(|v| v.name.is_none()).map(|v| ("Self".to_string(), v.fields.iter().map(|f| f.0.clone()).collect()))).collect();

        // which variants' text is the text of what they wrap?
        let fmt = all.displays.get(t).and_then(|d| method(d, "fmt"));
        let mut stands: BTreeMap<String, usize> = BTreeMap::new();
        let mut fmt_body = None;
        if let Some(f) = &fmt {
            let fname = f.sig.inputs.iter().nth(1).and_then(|a| if let FnArg::Typed(p) = a { Some(p.pat.to_token_stream().to_string()) } else { None }).unwrap_or_default();
            let mut b = f.block.clone();
            let mut v = Body { arity: &arity, fmt: Some(fname.clone()) };
            v.visit_block_mut(&mut b);
            for v in &vars {
                // the only error in a variant, displayed by an arm of its own
                let errs: Vec<usize> = v.fields.iter().enumerate().filter(|(_, f)| f.2).map(|f| f.0).collect();
                if let (Some(n), [one]) = (&v.name, &errs[..]) {
                    if arm_displays(&b, n) {
                        stands.insert(n.clone(), *one);
                    }
                }
            }
            fmt_body = Some((fname, b));
        }

        // Error::source
        let mut ens = vec![];
        for v in &vars {
            let errs: Vec<usize> = v.fields.iter().enumerate().filter(|(_, f)| f.2).map(|f| f.0).collect();
            if errs.is_empty() {
                continue;
            }
            let by_stand = v.name.as_ref().and_then(|n| stands.get(n)).copied();
            let alts: Vec<String> = errs
                .iter()
                .map(|i| {
                    let c = if by_stand == Some(*i) { "is_link(res, link(x)) || is_cause_of(res, link(x))" } else { "is_link(res, link(x))" };
                    format!("(match *self {{ {} => {c}, _ => true }})", pat(t, v, "x", *i))
                })
                .collect();
            let alts: Vec<String> = if vars.len() == 1 { alts.into_iter().map(|a| a.replace(", _ => true }", " }")).collect() } else { alts };
            ens.push(format!("    {}, //@C18", alts.join(" || ")));
        }
        let key = format!("{t}::source");
        let ext = external.contains(&key);
        let b = match method(im, "source") {
            Some(f) => {
                let mut b = f.block.clone();
                Body { arity: &arity, fmt: None }.visit_block_mut(&mut b);
                print::print(b.to_token_stream())
            }
            None => "{ None }\n".into(), // the trait's default
        };
        let (b, e) = if ext { ("{ unimplemented!() }\n".into(), "#[verifier::external_body]\n") } else { (b, "") };
        text += &format!("impl{g} {full} {{\n//@@BEGIN {key}\n{e}pub fn source(&self) -> (res: Option<Dyn>)\nensures\n{}\n    true,\n{b}//@@END\n}}\n", ens.join("\n"));
        let mut push = |k: String| {
            let ext = external.contains(&k);
            fns.push(json!({"key": k, "file": home, "line": line, "contracted": true, "external": ext, "loops": 0, "bindings": [], "notes": [], "calls": [], "shape": ""}));
        };
        push(key);

        // Display, where it matters
        if !stands.is_empty() {
            let (fname, b) = fmt_body.unwrap();
            let key = format!("{t}::fmt");
            let mut ens = vec![];
            for v in &vars {
                if let Some(i) = v.name.as_ref().and_then(|n| stands.get(n)) {
                    let wild = if vars.len() == 1 { "" } else { ", _ => true" };
                    ens.push(format!("    match *self {{ {} => (*final({fname})).out() == (*old({fname})).out().push(link(x)){wild} }}, //@C18", pat(t, v, "x", *i)));
                }
            }
            let (b, e) = if external.contains(&key) { ("{ unimplemented!() }\n".into(), "#[verifier::external_body]\n") } else { (print::print(b.to_token_stream()), "") };
            text += &format!("impl{g} {full} {{\n//@@BEGIN {key}\n{e}pub fn fmt(&self, {fname}: &mut Formatter) -> (res: FmtResult)\nensures\n{}\n{b}//@@END\n}}\n", ens.join("\n"));
            push(key);
        }

        // conversions from errors
        for (_, x, im) in all.froms.iter().filter(|f| &f.0 == t) {
            let gs: BTreeSet<String> = gens.iter().cloned().collect();
            let Some(xn) = cx.err(x, &gs) else { continue };
            let Some(f) = method(im, "from") else { continue };
            let key = format!("{t}::from<{xn}>");
            let p = f.sig.inputs.first().and_then(|a| if let FnArg::Typed(p) = a { Some(p.pat.to_token_stream().to_string()) } else { None }).unwrap_or_default();
            let mut b = f.block.clone();
            Body { arity: &arity, fmt: None }.visit_block_mut(&mut b);
            let mut alts = vec![];
            for v in &vars {
                for (i, fl) in v.fields.iter().enumerate() {
                    if fl.2 && fl.1 == xn {
                        let wild = if vars.len() == 1 { "" } else { ", _ => false" };
                        alts.push(format!("(match res {{ {} => x == source__{wild} }})", pat(t, v, "x", i)));
                    }
                }
            }
            for v in &vars {
                for (i, fl) in v.fields.iter().enumerate() {
                    if fl.1 == format!("Box<{xn}>") {
                        let wild = if vars.len() == 1 { "" } else { ", _ => false" };
                        alts.push(format!("(match res {{ {} => *x == source__{wild} }})", pat(t, v, "x", i)));
                    }
                }
            }
            if alts.is_empty() {
                if vars.iter().any(|v| v.fields.iter().any(|f| f.1 == "Other")) {
                    // perhaps kept in a form that is not understood here
                    notes.push(format!("{key}: no variant of {t} is known to hold a {xn}"));
                    continue;
                }
                alts.push("false".into()); // nothing of type {t} can hold it
            }
            let (b, e) = if external.contains(&key) { ("{ unimplemented!() }\n".into(), "#[verifier::external_body]\n") } else { (print::print(b.to_token_stream()), "") };
            let fname = format!("from_{}", xn.replace(['<', '>', ' ', ','], "_"));
            let alts: Vec<String> = alts.into_iter().map(|a| a.replace("source__", &p)).collect();
            text += &format!("impl{g} {full} {{\n//@@BEGIN {key}\n{e}pub fn {fname}({p}: {xn}) -> (res: Self)\nensures {}, //@C18\n{b}//@@END\n}}\n", alts.join(" || "));
            push(key);
        }
    }
    let mut out = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| die(format!("cannot read {}: {e}", args[2])));
    out += "pub mod errs {\nuse vstd::prelude::*;\nuse crate::xerr::*;\n#[verifier::external_body]\npub struct Other {}\n";
    for e in &cx.ext {
        out += &format!("#[verifier::external_body]\npub struct {e} {{}}\n");
    }
    out += &text;
    out += "}\n} // verus!\nfn main() {}\n";
    std::fs::write(&args[3], out).unwrap();
    let rep = json!({"functions": fns, "helpers": [], "missing": [], "inlined": [], "notes": notes});
    std::fs::write(&args[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

fn method(im: &ItemImpl, n: &str) -> Option<ImplItemFn> {
    im.items.iter().find_map(|i| match i {
        ImplItem::Fn(f) if f.sig.ident == n => Some(f.clone()),
        _ => None,
    })
}

/// is there an arm for the variant that only displays what it binds?
fn arm_displays(b: &Block, variant: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'ast> visit::Visit<'ast> for V<'_> {
        fn visit_arm(&mut self, a: &'ast Arm) {
            struct P<'a>(&'a str, bool);
            impl<'ast> visit::Visit<'ast> for P<'_> {
                fn visit_path(&mut self, p: &'ast Path) {
                    self.1 |= p.segments.last().is_some_and(|s| s.ident == self.0);
                }
            }
            let mut p = P(self.0, false);
            visit::visit_pat(&mut p, &a.pat);
            let mut body = &*a.body;
            while let Expr::Block(b) = body {
                match &b.block.stmts[..] {
                    [Stmt::Expr(e, None)] => body = e,
                    _ => break,
                }
            }
            if p.1 && matches!(body, Expr::Call(c) if call_name(&c.func).as_deref() == Some("display")) {
                self.1 = true;
            }
            visit::visit_arm(self, a);
        }
    }
    let mut v = V(variant, false);
    visit::Visit::visit_block(&mut v, b);
    v.1
}

/// where each type is defined
fn homes(src: &std::path::Path) -> BTreeMap<String, (String, usize)> {
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs") {
                out.push(p);
            }
        }
    }
    let mut fs = vec![];
    walk(src, &mut fs);
    fs.sort();
    let mut r = BTreeMap::new();
    for f in fs {
        for (i, l) in std::fs::read_to_string(&f).unwrap_or_default().lines().enumerate() {
            let mut w = l.split_whitespace().skip_while(|w| w.starts_with("pub"));
            if matches!(w.next(), Some("enum" | "struct")) {
                let n: String = w.next().unwrap_or("").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                r.entry(n).or_insert((f.strip_prefix(src.parent().unwrap_or(src)).unwrap_or(&f).display().to_string(), i + 1));
            }
        }
    }
    r
}
