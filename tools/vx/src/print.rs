//! Prints a token stream as Verus source text, expanding the `__vx_*` markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Texts {
    /// loop number -> text put before the loop body's brace
    pub loops: BTreeMap<usize, String>,
    /// key -> raw proof text
    pub raw: BTreeMap<String, String>,
    pub used: BTreeSet<String>,
}

pub fn print(ts: TokenStream, t: &mut Texts) -> String {
    let mut out = String::new();
    go(ts, t, &mut out);
    out
}

fn last_needs_space(out: &str) -> bool {
    !out.is_empty() && !out.ends_with([' ', '\n'])
}

/// If `ts` starts with `__vx_loop!{K}` gives K and the rest.
fn loop_marker(ts: &TokenStream) -> Option<(usize, TokenStream)> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    if v.len() < 3 {
        return None;
    }
    match (&v[0], &v[1], &v[2]) {
        (TokenTree::Ident(i), TokenTree::Punct(_), TokenTree::Group(g)) if i == "__vx_loop" => {
            let k: usize = g.stream().to_string().trim().trim_end_matches("usize").parse().ok()?;
            let mut rest = 3;
            if let Some(TokenTree::Punct(p)) = v.get(3) {
                if p.as_char() == ';' {
                    rest = 4;
                }
            }
            Some((k, v[rest..].iter().cloned().collect()))
        }
        _ => None,
    }
}

fn go(ts: TokenStream, t: &mut Texts, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut joint = false;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if s == "__vx_raw" {
                    // __vx_raw!{ key } ;
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let key = g.stream().to_string().replace(' ', "");
                        if let Some(txt) = t.raw.get(&key) {
                            out.push('\n');
                            out.push_str(txt);
                            out.push('\n');
                        }
                        t.used.insert(key);
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        joint = false;
                        continue;
                    }
                }
                if s == "__vx_reveal" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        out.push_str(&format!("\nproof {{ reveal_strlit({}); }}\n", g.stream()));
                        i += 3;
                        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                            i += 1;
                        }
                        joint = false;
                        continue;
                    }
                }
                if s == "__vx_iter" {
                    // __vx_iter!(name ; expr)
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        out.push_str(&format!(" {}: ", inner[0]));
                        go(inner[2..].iter().cloned().collect(), t, out);
                        i += 3;
                        joint = false;
                        continue;
                    }
                }
                if !joint && last_needs_space(out) && !out.ends_with(['(', '[', '.', '!', '&']) {
                    out.push(' ');
                }
                out.push_str(&s);
                joint = false;
            }
            TokenTree::Literal(l) => {
                if !joint && last_needs_space(out) && !out.ends_with(['(', '[', '.']) {
                    out.push(' ');
                }
                out.push_str(&l.to_string());
                joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !joint && last_needs_space(out) && !matches!(c, ',' | ';' | '.' | '?' | ':') {
                    out.push(' ');
                }
                out.push(c);
                joint = p.spacing() == Spacing::Joint;
                if c == ';' {
                    out.push('\n');
                }
                if c == ',' {
                    out.push(' ');
                }
            }
            TokenTree::Group(g) => {
                joint = false;
                match g.delimiter() {
                    Delimiter::Brace => {
                        let (body, k) = match loop_marker(&g.stream()) {
                            Some((k, rest)) => (rest, Some(k)),
                            None => (g.stream(), None),
                        };
                        if let Some(k) = k {
                            if let Some(txt) = t.loops.get(&k) {
                                out.push('\n');
                                out.push_str(txt);
                            }
                            t.used.insert(format!("loop{}", k));
                        }
                        out.push_str(" {\n");
                        go(body, t, out);
                        out.push_str("\n}\n");
                    }
                    Delimiter::Parenthesis => {
                        out.push('(');
                        go(g.stream(), t, out);
                        out.push(')');
                    }
                    Delimiter::Bracket => {
                        out.push('[');
                        go(g.stream(), t, out);
                        out.push(']');
                    }
                    Delimiter::None => go(g.stream(), t, out),
                }
            }
        }
        i += 1;
    }
}
