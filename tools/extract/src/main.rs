//! Mechanical extraction of /repo/src into one Verus crate.
//!
//! usage: extract REPO_SRC CONTRACT_DIR OUT.rs REPORT.json [--external FNKEY]...
//!
//! What is dropped or desugared is listed in /verif/DESIGN.md ("Extraction").
mod contracts;
mod errs;
mod genspec;
mod facts;
mod pats;
mod inline;
mod print;
mod tx;
mod uses;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::*;

pub struct Module {
    pub path: Vec<String>, // e.g. ["decode","types","limits"]
    pub file: PathBuf,
    pub items: Vec<Item>,
}

#[derive(Clone)]
pub struct FnInfo {
    pub module: Vec<String>,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
}

#[derive(Default)]
pub struct Global {
    pub types: BTreeMap<String, Vec<Vec<String>>>,
    pub fns: BTreeMap<String, FnInfo>, // "parse_limits" or "ValType::decode"
    pub consts: BTreeMap<String, (Vec<String>, Expr)>,
    pub cli: bool,
    pub const_types: BTreeMap<String, Type>,
    pub variants: BTreeMap<String, BTreeSet<String>>, // enum -> variants
    pub dropped: BTreeSet<String>, // functions some proof text of which was left out
    pub base_bindings: BTreeMap<String, Vec<String>>, // function -> its local names when the contracts were written
    pub fields: BTreeMap<(String, String), Type>, // struct, field -> type
    pub notes: Vec<String>,
    pub external: BTreeSet<String>,
    pub contracts: contracts::Contracts,
    pub spec_home: BTreeMap<String, Vec<String>>, // specialisation -> module it lives in
}

pub fn ident_str(i: &Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(s)
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test") && !a.to_token_stream().to_string().contains("not"))
}
fn is_cfg_other(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg"))
}

fn load(root: &Path, file: &Path, path: Vec<String>, out: &mut Vec<Module>) {
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("EXTRACT-ERROR cannot read {}: {e}", file.display());
        std::process::exit(3)
    });
    let f = syn::parse_file(&src).unwrap_or_else(|e| {
        eprintln!("EXTRACT-ERROR cannot parse {}: {e}", file.display());
        std::process::exit(3)
    });
    let _ = root;
    add_items(file, path, f.items, out);
}

fn add_items(file: &Path, path: Vec<String>, items: Vec<Item>, out: &mut Vec<Module>) {
    let idx = out.len();
    out.push(Module { path: path.clone(), file: file.to_path_buf(), items: vec![] });
    let mut keep = vec![];
    for it in items {
        match it {
            Item::Mod(m) => {
                if is_cfg_test(&m.attrs) || is_cfg_other(&m.attrs) {
                    continue;
                }
                let name = ident_str(&m.ident);
                let mut p = path.clone();
                p.push(name.clone());
                if let Some((_, its)) = m.content {
                    add_items(file, p, its, out);
                } else {
                    let dir = file.parent().unwrap();
                    let stem = file.file_stem().unwrap().to_str().unwrap();
                    let base = if stem == "lib" || stem == "mod" || stem == "main" { dir.to_path_buf() } else { dir.join(stem) };
                    let a = base.join(format!("{name}.rs"));
                    let b = base.join(&name).join("mod.rs");
                    let f = if a.exists() { a } else { b };
                    load(dir, &f, p, out);
                }
            }
            other => keep.push(other),
        }
    }
    out[idx].items = keep;
}

// ---- macro_rules expansion (no repetitions) ----
fn expand_macros(mods: &mut Vec<Module>, notes: &mut Vec<String>) {
    for m in mods.iter_mut() {
        let mut rules: HashMap<String, Vec<(TokenStream, TokenStream)>> = HashMap::new();
        let mut out = vec![];
        for it in std::mem::take(&mut m.items) {
            match it {
                Item::Macro(im) if im.ident.is_some() && im.mac.path.is_ident("macro_rules") => {
                    rules.insert(im.ident.unwrap().to_string(), uses::parse_rules(im.mac.tokens));
                }
                Item::Macro(im) => {
                    let n = im.mac.path.segments.last().unwrap().ident.to_string();
                    if let Some(rs) = rules.get(&n) {
                        match uses::expand(rs, im.mac.tokens.clone()) {
                            Some(ts) => match syn::parse2::<File>(ts) {
                                Ok(f) => out.extend(f.items),
                                Err(e) => notes.push(format!("macro {n}: {e}")),
                            },
                            None => notes.push(format!("cannot expand macro {n}")),
                        }
                    } else {
                        notes.push(format!("unknown item macro {n} in {}", m.file.display()));
                    }
                }
                other => out.push(other),
            }
        }
        m.items = out;
    }
}

fn type_last(t: &Type) -> Option<String> {
    if let Type::Path(p) = t {
        return p.path.segments.last().map(|s| ident_str(&s.ident));
    }
    None
}

pub fn modkey(m: &[String]) -> String {
    m.join("::")
}
pub fn cratepath(m: &[String]) -> String {
    let mut s = String::from("crate");
    for x in m {
        s.push_str("::");
        s.push_str(&modname(x));
    }
    s
}
pub fn modname(x: &str) -> String {
    match x {
        "core" => "wcore".into(),
        "type" => "type_".into(),
        o => o.to_string(),
    }
}

pub struct OutFn {
    pub key: String,
    pub text: String,
    pub file: String,
    pub line: usize,
    pub contracted: bool,
    pub external: bool,
    pub loops: Vec<String>,
    pub bindings: Vec<String>,
    pub notes: Vec<String>,
    pub calls: Vec<String>,
    pub shape: String,
}

/// what the errors say (C15)
const WHY: [&str; 2] = ["why.rs", "why_instr.gen.rs"];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "errors") {
        return errs::main(&args[2..]);
    }
    let root = PathBuf::from(&args[1]);
    let cdir = PathBuf::from(&args[2]);
    let outp = PathBuf::from(&args[3]);
    let repp = PathBuf::from(&args[4]);
    let mut g = Global::default();
    // the command-line tool: its own small crate, over spec/cli.rs
    let cli = args.iter().any(|a| a == "--cli");
    g.cli = cli;
    let no_why = cli || args.iter().any(|a| a == "--no-why");
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--external" {
            g.external.insert(args[i + 1].clone());
            i += 2;
        } else {
            i += 1;
        }
    }
    g.contracts = contracts::load(&cdir);
    let base: serde_json::Value = std::fs::read_to_string(cdir.join("anchors.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    for (k, v) in base.as_object().into_iter().flatten() {
        if let Some(b) = v["bindings"].as_array() {
            g.base_bindings.insert(k.clone(), b.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect());
        }
    }
    if !no_why {
        let w: String = WHY.iter().map(|f| std::fs::read_to_string(cdir.join("../spec").join(f)).unwrap_or_default()).collect();
        g.contracts.whys = contracts::scan_whys(&contracts::preprocess_spec(&w));
    }

    let mut mods = vec![];
    if cli {
        load(&root, &root.join("main.rs"), vec!["cli".into()], &mut mods);
    } else {
        load(&root, &root.join("lib.rs"), vec![], &mut mods);
    }
    let mut notes = vec![];
    expand_macros(&mut mods, &mut notes);
    g.notes = notes;

    // marker-trait devirtualisation: collect traits with default methods defined in the crate
    let mut traits: BTreeMap<String, ItemTrait> = BTreeMap::new();
    for m in &mods {
        for it in &m.items {
            if let Item::Trait(t) = it {
                traits.insert(t.ident.to_string(), t.clone());
            }
        }
    }
    for m in mods.iter_mut() {
        let mut items = vec![];
        for it in std::mem::take(&mut m.items) {
            match it {
                Item::Trait(t) => items.push(Item::Trait(t)),
                Item::Impl(im) => {
                    if is_cfg_other(&im.attrs) {
                        continue;
                    }
                    if let Some((_, p, _)) = &im.trait_ {
                        let n = p.segments.last().unwrap().ident.to_string();
                        if let Some(t) = traits.get(&n) {
                            items.push(Item::Impl(tx::devirtualise(&im, t)));
                            continue;
                        }
                    }
                    items.push(Item::Impl(im));
                }
                o => items.push(o),
            }
        }
        m.items = items;
    }

    // lift nested fn items
    for m in mods.iter_mut() {
        let mut lifted = vec![];
        for it in m.items.iter_mut() {
            tx::lift_nested(it, &mut lifted);
        }
        m.items.extend(lifted.into_iter().map(Item::Fn));
    }

    // functions no contract names are verified as part of their callers
    let inlined = {
        let c = &g.contracts;
        let b = &g.base_bindings;
        inline::run(&mut mods, &|k: &str| c.fns.contains_key(k) || b.contains_key(k))
    };

    g.external.extend(inlined.iter().cloned());

    // index
    for m in &mods {
        let file = m.file.strip_prefix(&root).unwrap_or(&m.file).display().to_string();
        for it in &m.items {
            match it {
                Item::Struct(s) => {
                    g.types.entry(ident_str(&s.ident)).or_default().push(m.path.clone());
                    for f in &s.fields {
                        if let Some(n) = &f.ident {
                            g.fields.insert((ident_str(&s.ident), ident_str(n)), f.ty.clone());
                        }
                    }
                }
                Item::Enum(s) => {
                    g.types.entry(ident_str(&s.ident)).or_default().push(m.path.clone());
                    g.variants.insert(ident_str(&s.ident), s.variants.iter().map(|v| ident_str(&v.ident)).collect());
                }
                Item::Type(s) => g.types.entry(ident_str(&s.ident)).or_default().push(m.path.clone()),
                Item::Const(c) => {
                    g.consts.insert(ident_str(&c.ident), (m.path.clone(), (*c.expr).clone()));
                    g.const_types.insert(ident_str(&c.ident), (*c.ty).clone());
                }
                Item::Static(c) => {
                    g.consts.insert(ident_str(&c.ident), (m.path.clone(), (*c.expr).clone()));
                    g.const_types.insert(ident_str(&c.ident), (*c.ty).clone());
                }
                Item::Fn(f) => {
                    g.fns.insert(
                        ident_str(&f.sig.ident),
                        FnInfo { module: m.path.clone(), self_ty: None, sig: f.sig.clone(), block: (*f.block).clone(), file: file.clone(), line: f.sig.span().start().line },
                    );
                }
                Item::Impl(im) => {
                    if im.trait_.is_some() {
                        continue;
                    }
                    let Some(t) = type_last(&im.self_ty) else { continue };
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            g.fns.insert(
                                format!("{t}::{}", ident_str(&f.sig.ident)),
                                FnInfo { module: m.path.clone(), self_ty: Some(t.clone()), sig: f.sig.clone(), block: f.block.clone(), file: file.clone(), line: f.sig.span().start().line },
                            );
                        }
                    }
                }
                _ => {}
            }
        }
    }

    genspec::build_env(&mods, &g);

    // generate
    let mut per_mod: BTreeMap<Vec<String>, String> = BTreeMap::new();
    let mut outfns: Vec<OutFn> = vec![];
    let mut specs: Vec<(Vec<String>, TokenStream)> = vec![];
    let mut queue: Vec<tx::Specialise> = vec![];
    let mut helpers: BTreeMap<String, (Vec<String>, String)> = BTreeMap::new();
    for m in &mods {
        let file = m.file.strip_prefix(&root).unwrap_or(&m.file).display().to_string();
        let mut text = String::new();
        let is_root = m.path.is_empty();
        for it in &m.items {
            match it {
                Item::Use(u) => {
                    if is_cfg_other(&u.attrs) {
                        continue;
                    }
                    for l in uses::flatten(u, is_root) {
                        text.push_str(&l);
                        text.push('\n');
                    }
                }
                Item::Struct(_) | Item::Enum(_) => {
                    if matches!(it, Item::Struct(s) if is_cfg_other(&s.attrs)) {
                        continue;
                    }
                    specs.push((m.path.clone(), it.to_token_stream()));
                    text.push_str(&genspec::emit_type(it, &mut g));
                    if !no_why {
                        text.push_str(&genspec::emit_caused(it));
                    }
                    if cli {
                        if let Item::Struct(s) = it {
                            if genspec::has_derive(&s.attrs, "Parser") {
                                text.push_str(&format!("impl crate::xstd::clap::Parser for {} {{\n    #[verifier::external_body]\n    fn parse() -> (c: Self) {{ unimplemented!() }}\n}}\n", s.ident));
                            }
                        }
                    }
                }
                Item::Type(t) => {
                    let id = &t.ident;
                    let gen = &t.generics;
                    let mut ty = (*t.ty).clone();
                    tx::fix_type(&mut ty);
                    text.push_str(&print::print(quote!(pub type #id #gen = #ty;)));
                }
                Item::Const(c) => text.push_str(&tx::emit_const(&g, c.ident.clone(), &c.ty, &c.expr, false)),
                Item::Static(c) => text.push_str(&tx::emit_const(&g, c.ident.clone(), &c.ty, &c.expr, true)),
                Item::Fn(f) => {
                    if is_cfg_other(&f.attrs) {
                        continue;
                    }
                    if tx::has_fn_param(&f.sig).is_some() {
                        // specialised per call site; the name stays importable
                        text.push_str(&format!("pub fn {}() {{}}\n", f.sig.ident));
                        continue;
                    }
                    let of = tx::emit_fn(&mut g, &m.path, &file, None, &f.sig, &f.block, &mut queue, &mut helpers, None);
                    text.push_str(&format!("//@@BEGIN {}\n{}\n//@@END {}\n", of.key, of.text, of.key));
                    outfns.push(of);
                }
                Item::Impl(im) => {
                    if is_cfg_other(&im.attrs) {
                        continue;
                    }
                    text.push_str(&tx::emit_impl(&mut g, &m.path, &file, im, &mut queue, &mut helpers, &mut outfns));
                }
                // the methods have become inherent; the name stays importable
                Item::Trait(t) => text.push_str(&format!("pub trait {} {{}}\n", t.ident)),
                Item::Macro(_) => {}
                o => g.notes.push(format!("item dropped in {}: {}", m.file.display(), o.to_token_stream().to_string().chars().take(60).collect::<String>())),
            }
        }
        per_mod.insert(m.path.clone(), text);
    }
    // specialisations (may enqueue more)
    let mut done: BTreeSet<String> = BTreeSet::new();
    while let Some(s) = queue.pop() {
        if !done.insert(s.name.clone()) {
            continue;
        }
        let of = tx::emit_specialised(&mut g, &s, &mut queue, &mut helpers);
        let t = per_mod.get_mut(&s.module).unwrap();
        t.push_str(&format!("//@@BEGIN {}\n{}\n//@@END {}\n", of.key, of.text, of.key));
        outfns.push(of);
    }
    for (name, (module, body)) in &helpers {
        let t = per_mod.get_mut(module).unwrap();
        t.push_str(&format!("//@@BEGIN {name}\n{body}\n//@@END {name}\n"));
    }
    // module tree
    let mut out = String::new();
    if cli {
        out.push_str("//@@BEGIN spec/cli.rs\n");
        out.push_str(&std::fs::read_to_string(cdir.join("../../spec/cli.rs")).expect("cli.rs"));
        out.push_str("//@@END spec/cli.rs\n");
    } else {
    out.push_str(&std::fs::read_to_string(cdir.join("../spec/prelude.rs")).expect("prelude"));
    out.push_str("pub mod spec {\n");
    out.push_str(&genspec::emit_models(&specs, &mut g));
    for f in ["wasm.rs", "leb.rs", "opcodes.gen.rs"].iter().chain(&WHY) {
        if WHY.contains(f) && no_why {
            continue;
        }
        let p = cdir.join("../spec").join(f);
        if let Ok(s) = std::fs::read_to_string(&p) {
            out.push_str(&format!("//@@BEGIN spec/{f}\n"));
            out.push_str(&contracts::preprocess_spec(&s));
            out.push_str(&format!("//@@END spec/{f}\n"));
        }
    }
    out.push_str("}\n");
    }
    emit_tree(&per_mod, &[], &mut out);
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&outp, &out).unwrap();

    let mut missing = vec![];
    let keys: BTreeSet<String> = outfns.iter().map(|f| f.key.clone()).collect();
    for k in g.contracts.fns.keys() {
        if !k.ends_with("<*>") && !keys.contains(k) && !helpers.contains_key(k) {
            missing.push(k.clone());
        }
    }
    let rep = json!({
        "functions": outfns.iter().map(|f| json!({
            "key": f.key, "file": f.file, "line": f.line, "contracted": f.contracted, "external": f.external,
            "loops": f.loops, "bindings": f.bindings, "notes": f.notes, "calls": f.calls, "shape": f.shape,
        })).collect::<Vec<_>>(),
        "helpers": helpers.keys().collect::<Vec<_>>(),
        "missing": missing,
        "inlined": inlined.iter().collect::<Vec<_>>(),
        "notes": g.notes,
    });
    std::fs::write(&repp, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

fn emit_tree(per: &BTreeMap<Vec<String>, String>, at: &[String], out: &mut String) {
    if let Some(t) = per.get(at) {
        if !at.is_empty() {
            out.push_str("use vstd::prelude::*;\nuse crate::xstd::pre::*;\nuse crate::spec::*;\nbroadcast use crate::spec::g_all;\n");
        }
        out.push_str(t);
    }
    let kids: Vec<&Vec<String>> = per.keys().filter(|k| k.len() == at.len() + 1 && k[..at.len()] == *at).collect();
    for k in kids {
        out.push_str(&format!("pub mod {} {{\n", modname(k.last().unwrap())));
        emit_tree(per, k, out);
        out.push_str("}\n");
    }
}
