use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::*;

/// use-declaration -> simple `use a::b as c;` lines
pub fn flatten(u: &ItemUse, is_root: bool) -> Vec<String> {
    let mut out = vec![];
    let mut acc = vec![];
    walk(&u.tree, &mut acc, &mut out);
    let mut res = vec![];
    for (mut path, alias) in out {
        let first = path[0].clone();
        match first.as_str() {
            "thiserror" => continue,
            // the command-line tool's surroundings
            "clap" | "patharg" | "wadec" if path.len() > 1 => {
                path.splice(0..0, ["crate".into(), "xstd".into()]);
            }
            "std" if path.len() > 1 && matches!(path[1].as_str(), "process" | "error") => {
                path.splice(0..1, ["crate".into(), "xstd".into()]);
            }
            "phf" => {
                if path.last().map(|s| s.contains("phf_") || s == "phf").unwrap_or(false) {
                    continue;
                }
                path.splice(0..1, ["crate".into(), "xstd".into(), "phf".into()]);
            }
            "std" | "core" | "alloc" if path.len() > 1 && (path[1] == "io" || path[1] == "string") && !(is_root && first == "core") => {
                path.splice(0..1, ["crate".into(), "xstd".into()]);
            }
            _ => {}
        }
        if path.len() > 1 && path[0] == "crate" && path[1] == "core" {
            path[1] = "wcore".into();
        }
        if is_root && path[0] == "core" {
            path[0] = "wcore".into();
        }
        let path: Vec<String> = path.iter().map(|s| if s == "r#type" || s == "type" { "type_".into() } else { s.clone() }).collect();
        let mut l = format!("pub use {}", path.join("::"));
        if path.len() == 1 {
            continue;
        }
        if let Some(a) = alias {
            l.push_str(&format!(" as {a}"));
        }
        l.push(';');
        res.push(l);
    }
    res
}

fn walk(t: &UseTree, acc: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            acc.push(p.ident.to_string());
            walk(&p.tree, acc, out);
            acc.pop();
        }
        UseTree::Name(n) => {
            let mut v = acc.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        UseTree::Rename(n) => {
            let mut v = acc.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = acc.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for x in &g.items {
                walk(x, acc, out);
            }
        }
    }
}

// ---- minimal macro_rules ----
pub fn parse_rules(ts: TokenStream) -> Vec<(TokenStream, TokenStream)> {
    let mut groups = vec![];
    for t in ts {
        if let TokenTree::Group(g) = t {
            groups.push(g.stream());
        }
    }
    let mut v = vec![];
    let mut it = groups.into_iter();
    while let (Some(a), Some(b)) = (it.next(), it.next()) {
        v.push((a, b));
    }
    v
}

pub fn expand(rules: &[(TokenStream, TokenStream)], input: TokenStream) -> Option<TokenStream> {
    for (pat, body) in rules {
        let mut b = HashMap::new();
        let p: Vec<TokenTree> = pat.clone().into_iter().collect();
        let i: Vec<TokenTree> = input.clone().into_iter().collect();
        if matchp(&p, &i, &mut b) {
            return Some(subst(body.clone(), &b));
        }
    }
    None
}

fn matchp(p: &[TokenTree], i: &[TokenTree], b: &mut HashMap<String, TokenStream>) -> bool {
    let (mut pi, mut ii) = (0, 0);
    while pi < p.len() {
        if let TokenTree::Punct(d) = &p[pi] {
            if d.as_char() == '$' {
                let Some(TokenTree::Ident(name)) = p.get(pi + 1) else { return false };
                let Some(TokenTree::Ident(kind)) = p.get(pi + 3) else { return false };
                pi += 4;
                let mut toks = vec![];
                match kind.to_string().as_str() {
                    "ident" | "tt" | "literal" => {
                        let Some(t) = i.get(ii) else { return false };
                        toks.push(t.clone());
                        ii += 1;
                    }
                    _ => {
                        // up to next separator ',' or ';' or '=>'
                        while ii < i.len() {
                            if let TokenTree::Punct(q) = &i[ii] {
                                if q.as_char() == ',' || q.as_char() == ';' {
                                    break;
                                }
                                if q.as_char() == '=' {
                                    if let Some(TokenTree::Punct(z)) = i.get(ii + 1) {
                                        if z.as_char() == '>' {
                                            break;
                                        }
                                    }
                                }
                            }
                            toks.push(i[ii].clone());
                            ii += 1;
                        }
                    }
                }
                b.insert(name.to_string(), toks.into_iter().collect());
                continue;
            }
        }
        let Some(t) = i.get(ii) else {
            // allow trailing comma mismatch
            return false;
        };
        if t.to_string() != p[pi].to_string() {
            return false;
        }
        pi += 1;
        ii += 1;
    }
    ii == i.len()
}

fn subst(ts: TokenStream, b: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut k = 0;
    while k < v.len() {
        match &v[k] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(k + 1) {
                    if let Some(s) = b.get(&n.to_string()) {
                        out.extend(s.clone());
                        k += 2;
                        continue;
                    }
                    if n == "crate" {
                        k += 1;
                        continue;
                    }
                }
                out.push(v[k].clone());
                k += 1;
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), b));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                k += 1;
            }
            t => {
                out.push(t.clone());
                k += 1;
            }
        }
    }
    let _ = Delimiter::None;
    out.into_iter().collect()
}
