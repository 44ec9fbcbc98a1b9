//! Summaries of quote! templates: the type definitions they emit, or the type expression they are.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::quote;
use syn::{parse2, parse_quote, Expr, Ident, Stmt};

fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

fn ident(t: Option<&TokenTree>) -> Option<Ident> {
    match t {
        Some(TokenTree::Ident(i)) => Some(i.clone()),
        _ => None,
    }
}

fn word(t: Option<&TokenTree>, w: &str) -> bool {
    ident(t).map_or(false, |i| i == w)
}

fn group(t: Option<&TokenTree>, d: Delimiter) -> Option<Vec<TokenTree>> {
    match t {
        Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.stream().into_iter().collect()),
        _ => None,
    }
}

/// `#x` at i.
fn hole(v: &[TokenTree], i: usize) -> Option<Ident> {
    if punct(v.get(i), '#') {
        ident(v.get(i + 1))
    } else {
        None
    }
}

/// `#( ... ),*` as the whole of v; gives the inside.
fn repeat(v: &[TokenTree]) -> Option<Vec<TokenTree>> {
    let g = if punct(v.first(), '#') { group(v.get(1), Delimiter::Parenthesis)? } else { return None };
    if punct(v.get(2), ',') && punct(v.get(3), '*') && v.len() == 4 {
        return Some(g);
    }
    // the separator inside
    if punct(v.get(2), '*') && v.len() == 3 && punct(g.last(), ',') {
        return Some(g[..g.len() - 1].to_vec());
    }
    None
}

/// `#(Some(#x))|*`
fn somes(v: &[TokenTree]) -> Option<Ident> {
    if !punct(v.first(), '#') || !punct(v.get(2), '|') || !punct(v.get(3), '*') || v.len() != 4 {
        return None;
    }
    let g = group(v.get(1), Delimiter::Parenthesis)?;
    let p = group(g.get(1), Delimiter::Parenthesis)?;
    if word(g.first(), "Some") && g.len() == 2 && p.len() == 2 {
        hole(&p, 0)
    } else {
        None
    }
}

/// Matches tokens against a pattern in which `$x` stands for an identifier, `@x` for a hole `#x`, and `%x` for a
/// string or other literal; the same letter stands for the same thing throughout.
fn matches(v: &[TokenTree], pat: &str, binds: &mut Vec<(char, String)>) -> bool {
    let pat: TokenStream = match pat.parse() {
        Ok(p) => p,
        Err(_) => return false,
    };
    let pat: Vec<TokenTree> = pat.into_iter().collect();
    matches_tokens(v, &pat, binds)
}

fn bind(binds: &mut Vec<(char, String)>, key: char, val: String) -> bool {
    match binds.iter().find(|(k, _)| *k == key) {
        Some((_, old)) => *old == val,
        None => {
            binds.push((key, val));
            true
        }
    }
}

fn matches_tokens(v: &[TokenTree], pat: &[TokenTree], binds: &mut Vec<(char, String)>) -> bool {
    let (mut i, mut j) = (0, 0);
    while j < pat.len() {
        match &pat[j] {
            TokenTree::Punct(p) if "$@%".contains(p.as_char()) => {
                let key = match ident(pat.get(j + 1)) {
                    Some(k) => k.to_string().chars().next().unwrap(),
                    None => return false,
                };
                j += 2;
                match p.as_char() {
                    '@' => match hole(v, i) {
                        Some(h) => {
                            i += 2;
                            if !bind(binds, key, h.to_string()) {
                                return false;
                            }
                        }
                        None => return false,
                    },
                    '$' => match ident(v.get(i)) {
                        Some(h) => {
                            i += 1;
                            if !bind(binds, key, h.to_string()) {
                                return false;
                            }
                        }
                        None => return false,
                    },
                    _ => {
                        if i >= v.len() {
                            return false;
                        }
                        i += 1;
                    }
                }
            }
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match group(v.get(i), g.delimiter()) {
                    Some(w) if matches_tokens(&w, &inner, binds) => {}
                    _ => return false,
                }
                i += 1;
                j += 1;
            }
            t => {
                if v.get(i).map(|x| x.to_string()) != Some(t.to_string()) {
                    return false;
                }
                i += 1;
                j += 1;
            }
        }
    }
    i == v.len()
}

/// What a generated implementation of Display prints, or of Parse takes.
fn implementation(head: &[TokenTree], body: &[TokenTree]) -> Result<Vec<Stmt>, String> {
    let words: Vec<String> = head.iter().map(|t| t.to_string()).collect();
    let at = words.iter().position(|w| w == "for").ok_or("inherent impl in a template")?;
    let of = words[at - 1].clone();
    if of != "Display" && of != "Parse" {
        return if words[..at].iter().any(|w| w == "From") { Ok(vec![]) } else { Err(format!("impl of {} in a template", of)) };
    }
    let name = hole(head, at + 1).ok_or("impl for something else")?;
    if head.len() != at + 3 {
        return Err("impl for something else".into());
    }
    // one function
    let k = body.iter().position(|t| word(Some(t), "fn")).ok_or("impl without a function")?;
    let g = group(body.last(), Delimiter::Brace).ok_or("impl without a function")?;
    if body.iter().filter(|t| word(Some(t), "fn")).count() != 1
        || !word(body.get(k + 1), if of == "Display" { "fmt" } else { "take" })
        || body[..k].iter().any(|t| !punct(Some(t), '#') && group(Some(t), Delimiter::Bracket).is_none())
    {
        return Err(format!("impl of {} in a template", of));
    }
    let args = (k..body.len())
        .find_map(|i| group(body.get(i), Delimiter::Parenthesis))
        .ok_or("function without arguments")?;
    let mut b: Vec<(char, String)> = Vec::new();
    let get = |b: &Vec<(char, String)>, k: char| -> Ident {
        quote::format_ident!("{}", b.iter().find(|x| x.0 == k).unwrap().1)
    };
    b.push(('n', name.to_string()));
    if of == "Display" {
        let f = args
            .iter()
            .position(|t| punct(Some(t), ':'))
            .and_then(|i| ident(args.get(i.wrapping_sub(1))))
            .ok_or("formatter")?;
        b.push(('f', f.to_string()));
        let b0 = b.clone();
        for p in [r#"write!($f, "{}", @l)"#, "$f.write_str(@l)"] {
            b = b0.clone();
            if matches(&g, p, &mut b) {
                let l = get(&b, 'l');
                return Ok(vec![parse_quote!(vx_print_text(&mut __q, &#name, &#l);)]);
            }
        }
        for p in ["#(self.@p.fmt($f)?;)* Ok(())"] {
            b = b0.clone();
            if matches(&g, p, &mut b) {
                let p = get(&b, 'p');
                return Ok(vec![parse_quote!(vx_print_fields(&mut __q, &#name, &#p);)]);
            }
        }
        for p in [
            "match self { #(Self::@p($i) => $i.fmt($f)),* }",
            "match self { #(Self::@p($i) => $i.fmt($f),)* }",
            "match self { #(@n::@p($i) => $i.fmt($f)),* }",
            "match self { #(@n::@p($i) => $i.fmt($f),)* }",
        ] {
            b = b0.clone();
            if matches(&g, p, &mut b) {
                let p = get(&b, 'p');
                return Ok(vec![parse_quote!(vx_print_variants(&mut __q, &#name, &#p);)]);
            }
        }
        return Err("Display of a generated type".into());
    }
    let input = ident(args.first()).ok_or("input")?;
    if !punct(args.get(1), ':') {
        return Err("input".into());
    }
    b.push(('i', input.to_string()));
    let b0 = b.clone();
    for p in [
        "$i.consume_str(@l).map(|()| @n)",
        "$i.consume_str(@l).map(|_| @n)",
        "$i.consume_str(@l)?; Ok(@n)",
        "$i.consume_str(@l)?; Ok(Self)",
        "$i.consume_str(@l).map(|()| Self)",
    ] {
        b = b0.clone();
        if matches(&g, p, &mut b) {
            let l = get(&b, 'l');
            return Ok(vec![parse_quote!(vx_take_text(&mut __q, &#name, &#l);)]);
        }
    }
    for p in [
        "#(let @v = $i.take()?;)* Ok(Self {#(@p: @w),*})",
        "#(let @v = $i.take()?;)* Ok(@n {#(@p: @w),*})",
    ] {
        b = b0.clone();
        if matches(&g, p, &mut b) {
            let (v, p, w) = (get(&b, 'v'), get(&b, 'p'), get(&b, 'w'));
            return Ok(vec![parse_quote!(vx_take_fields(&mut __q, &#name, &#v, &#p, &#w);)]);
        }
    }
    for p in [
        "#(let @v = $i.take()?;)* Ok(Self(#(@w),*))",
        "#(let @v = $i.take()?;)* Ok(@n(#(@w),*))",
    ] {
        b = b0.clone();
        if matches(&g, p, &mut b) {
            let (v, w) = (get(&b, 'v'), get(&b, 'w'));
            return Ok(vec![parse_quote!(vx_take_tuple(&mut __q, &#name, &#v, &#w);)]);
        }
    }
    for s in ["Self", "@n"] {
        b = b0.clone();
        let arms = format!("#(@a => Ok({}::@p($i.take()?)),)*", s);
        if matches(&g, &format!("match $i.peek() {{ {} _ => Ok({}::@d($i.take()?)), }}", arms, s), &mut b) {
            let (a, p, d) = (get(&b, 'a'), get(&b, 'p'), get(&b, 'd'));
            return Ok(vec![parse_quote!(vx_take_switch_or(&mut __q, &#name, &#a, &#p, &#d);)]);
        }
        b = b0.clone();
        for e in [
            "Some($c) => Err(TakeError::BadBranch($i.pos(), $c, &[#(@e),*])), None => Err(TakeError::EndOfStream($i.pos()))",
            "Some($c) => Err(TakeError::BadBranch($i.pos(), $c, &[#(@e),*])), None => Err(TakeError::EndOfStream($i.pos())),",
        ] {
            b = b0.clone();
            if matches(&g, &format!("match $i.peek() {{ {} {} }}", arms, e), &mut b) {
                let (a, p) = (get(&b, 'a'), get(&b, 'p'));
                return Ok(vec![parse_quote!(vx_take_switch(&mut __q, &#name, &#a, &#p);)]);
            }
        }
    }
    Err("Parse of a generated type".into())
}

pub fn summary(ts: TokenStream, spanned: bool) -> Result<Expr, String> {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    if spanned {
        let i = (0..v.len())
            .find(|&i| punct(v.get(i), '=') && punct(v.get(i + 1), '>'))
            .ok_or("no span")?;
        v.drain(..i + 2);
    }
    let mut out: Vec<Stmt> = Vec::new();
    let mut i = 0;
    let mut expr = true;
    while i < v.len() {
        // attributes
        if punct(v.get(i), '#') && group(v.get(i + 1), Delimiter::Bracket).is_some() {
            i += 2;
            continue;
        }
        let mut j = i;
        if word(v.get(j), "pub") {
            j += 1;
            if group(v.get(j), Delimiter::Parenthesis).is_some() {
                j += 1;
            }
        }
        let kw = ident(v.get(j)).map(|k| k.to_string()).unwrap_or_default();
        match kw.as_str() {
            "use" => {
                while i < v.len() && !punct(v.get(i), ';') {
                    i += 1;
                }
                i += 1;
                expr = false;
            }
            "impl" => {
                let start = i;
                while i < v.len() && group(v.get(i), Delimiter::Brace).is_none() {
                    i += 1;
                }
                let body = group(v.get(i), Delimiter::Brace).ok_or("impl without a body")?;
                out.extend(implementation(&v[start + 1..i], &body)?);
                i += 1;
                expr = false;
            }
            "struct" | "enum" | "type" => {
                expr = false;
                j += 1;
                let name: Expr = match (hole(&v, j), ident(v.get(j))) {
                    (Some(x), _) => {
                        j += 2;
                        parse_quote!(&#x)
                    }
                    (None, Some(x)) => {
                        j += 1;
                        let s = x.to_string();
                        parse_quote!(&vx_word(#s))
                    }
                    _ => return Err("name of a definition".into()),
                };
                if kw == "type" {
                    if !punct(v.get(j), '=') {
                        return Err("type alias".into());
                    }
                    let t = hole(&v, j + 1).ok_or("type alias")?;
                    if !punct(v.get(j + 3), ';') {
                        return Err("type alias".into());
                    }
                    out.push(parse_quote!(vx_def_alias(&mut __q, #name, &#t);));
                    i = j + 4;
                } else if kw == "enum" {
                    let g = group(v.get(j), Delimiter::Brace).ok_or("enum body")?;
                    let b = repeat(&g).ok_or("enum body")?;
                    let f = hole(&b, 0).ok_or("variants")?;
                    let p = group(b.get(2), Delimiter::Parenthesis).ok_or("variants")?;
                    let t = hole(&p, 0).ok_or("variants")?;
                    if b.len() != 3 || p.len() != 2 {
                        return Err("variants".into());
                    }
                    out.push(parse_quote!(vx_def_enum(&mut __q, #name, &#f, &#t);));
                    i = j + 1;
                } else if punct(v.get(j), ';') {
                    out.push(parse_quote!(vx_def_unit(&mut __q, #name);));
                    i = j + 1;
                } else if let Some(g) = group(v.get(j), Delimiter::Brace) {
                    let b = repeat(&g).ok_or("struct body")?;
                    if !word(b.first(), "pub") {
                        return Err("fields".into());
                    }
                    let f = hole(&b, 1).ok_or("fields")?;
                    if !punct(b.get(3), ':') || b.len() != 6 {
                        return Err("fields".into());
                    }
                    let t = hole(&b, 4).ok_or("fields")?;
                    out.push(parse_quote!(vx_def_struct(&mut __q, #name, &#f, &#t);));
                    i = j + 1;
                } else if let Some(g) = group(v.get(j), Delimiter::Parenthesis) {
                    let b = repeat(&g).ok_or("tuple struct body")?;
                    if !word(b.first(), "pub") || b.len() != 3 {
                        return Err("tuple struct body".into());
                    }
                    let t = hole(&b, 1).ok_or("tuple struct body")?;
                    if !punct(v.get(j + 1), ';') {
                        return Err("tuple struct body".into());
                    }
                    out.push(parse_quote!(vx_def_tuple(&mut __q, #name, &#t);));
                    i = j + 2;
                } else {
                    return Err("definition".into());
                }
            }
            "fn" | "mod" | "const" | "static" | "trait" | "union" | "extern" | "macro_rules" => {
                return Err(format!("{} in a template", kw));
            }
            _ => {
                if !expr || i > 0 {
                    return Err("template is neither items nor an expression".into());
                }
                // a type, or anything else that defines nothing
                if let (Some(x), 1) = (ident(v.first()), v.len()) {
                    let s = x.to_string();
                    out.push(parse_quote!(vx_put(&mut __q, &vx_word(#s));));
                } else if let (Some(x), true, Some(h), true, 5) =
                    (ident(v.first()), punct(v.get(1), '<'), hole(&v, 2), punct(v.get(4), '>'), v.len())
                {
                    let s = x.to_string();
                    out.push(parse_quote!(vx_put_generic(&mut __q, #s, &#h);));
                } else if let (Some(h), 2) = (hole(&v, 0), v.len()) {
                    out.push(parse_quote!(vx_put(&mut __q, &#h);));
                } else if let Some(h) = somes(&v) {
                    out.push(parse_quote!(vx_put_somes(&mut __q, &#h);));
                } else {
                    out.push(parse_quote!(vx_put_other(&mut __q);));
                }
                i = v.len();
            }
        }
    }
    parse2(quote!({ let mut __q = TokenStream::new(); #(#out)* __q })).map_err(|e| e.to_string())
}
