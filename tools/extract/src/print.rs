use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0, false);
    s.push('\n');
    s
}

fn go(ts: TokenStream, s: &mut String, ind: usize, in_brace: bool) {
    let mut glue = true;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !glue && !s.ends_with('\n') && !s.ends_with(' ') && (g.delimiter() == Delimiter::Brace || !s.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '>' || c == '!' || c == ')' || c == '#')) {
                    s.push(' ');
                }
                s.push_str(o);
                let br = g.delimiter() == Delimiter::Brace;
                if br && !g.stream().is_empty() {
                    nl(s, ind + 1);
                    go(g.stream(), s, ind + 1, true);
                    nl(s, ind);
                } else {
                    go(g.stream(), s, ind, false);
                }
                s.push_str(c);
                glue = false;
                if br && in_brace {
                    // newline only if next token begins a statement; keep simple
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if !glue && !s.ends_with(' ') && !s.ends_with('\n') && !matches!(ch, ',' | ';' | '.' | '?') && !s.ends_with("::") && ch != ':' {
                    s.push(' ');
                }
                if ch == ':' && s.ends_with("> ") {
                    s.pop();
                }
                s.push(ch);
                glue = p.spacing() == Spacing::Joint || ch == '.' || ch == '&' || ch == '!' || ch == '\'' || ch == '#' || s.ends_with("::") || ch == '@' && false;
                if ch == '.' {
                    glue = true;
                }
                if in_brace && (ch == ';' || ch == ',') && p.spacing() == Spacing::Alone {
                    nl(s, ind);
                    glue = true;
                }
            }
            TokenTree::Ident(i) => {
                if !glue && !s.ends_with(' ') && !s.ends_with('\n') {
                    s.push(' ');
                } else if glue && s.ends_with(|c: char| c.is_alphanumeric()) {
                    s.push(' ');
                }
                let t = i.to_string();
                match t.strip_prefix("r#") {
                    Some(x) => {
                        s.push_str(x);
                        s.push('_');
                    }
                    None => s.push_str(&t),
                }
                glue = false;
            }
            TokenTree::Literal(l) => {
                if !glue && !s.ends_with(' ') && !s.ends_with('\n') && !s.ends_with('(') {
                    s.push(' ');
                }
                s.push_str(&l.to_string());
                glue = false;
            }
        }
    }
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') {
        s.push('\n');
    } else {
        return;
    }
    for _ in 0..ind {
        s.push_str("    ");
    }
    // keep "\n" detection working: trailing indentation counts as space
}
