//! Finds functions and types in the parsed sources.
use std::{collections::HashMap, fs, path::{Path, PathBuf}};
use syn::*;

pub struct Repo {
    pub root: PathBuf,
    pub cache: HashMap<String, File>,
}

#[derive(Clone)]
pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub self_ty: Option<String>,
    /// constants of the file and of enclosing functions
    pub consts: Vec<ItemConst>,
}

pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn toks<T: quote::ToTokens>(t: &T) -> String {
    squash(&t.to_token_stream().to_string())
}

pub fn last_ident(ty: &Type) -> Option<String> {
    match ty {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => last_ident(&r.elem),
        Type::Paren(p) => last_ident(&p.elem),
        _ => None,
    }
}

impl Repo {
    pub fn file(&mut self, f: &str) -> std::result::Result<File, String> {
        if let Some(x) = self.cache.get(f) {
            return Ok(x.clone());
        }
        let s = fs::read_to_string(self.root.join(f)).map_err(|e| format!("{}: {}", f, e))?;
        let p = parse_file(&s).map_err(|e| format!("{}: {}", f, e))?;
        let mut p = p;
        expand(&mut p.items);
        self.cache.insert(f.to_string(), p.clone());
        Ok(p)
    }

    /// All source files of the crate `f` belongs to, `f` first.
    pub fn crate_files(&self, f: &str) -> Vec<String> {
        let mut out = vec![f.to_string()];
        let src = match f.find("src/") {
            Some(i) => &f[..i + 3],
            None => return out,
        };
        let mut todo = vec![self.root.join(src)];
        let mut more = Vec::new();
        while let Some(d) = todo.pop() {
            if let Ok(rd) = fs::read_dir(&d) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        todo.push(p);
                    } else if p.extension().map_or(false, |x| x == "rs") {
                        if let Ok(r) = p.strip_prefix(&self.root) {
                            let r: &Path = r;
                            let r = r.to_string_lossy().to_string();
                            if r != f {
                                more.push(r);
                            }
                        }
                    }
                }
            }
        }
        more.sort();
        out.extend(more);
        out
    }

    pub fn find_fn(&mut self, f: &str, path: &str) -> std::result::Result<Found, String> {
        for file in self.crate_files(f) {
            let ast = match self.file(&file) {
                Ok(a) => a,
                Err(e) => {
                    if file == f {
                        return Err(e);
                    }
                    continue;
                }
            };
            if let Some((sig, block, self_ty)) = in_items(&ast.items, path) {
                let mut consts = vec![];
                for i in flat(&ast.items) {
                    if let Item::Const(c) = i {
                        consts.push(c.clone());
                    }
                }
                ENCLOSING.with(|x| consts.extend(x.borrow_mut().drain(..)));
                return Ok(Found { sig, block, file, self_ty, consts });
            }
            if let Some((sig, block, self_ty)) = derived(&ast.items, path) {
                return Ok(Found { sig, block, file, self_ty, consts: vec![] });
            }
        }
        Err(format!("function {} not found", path))
    }

    pub fn find_item(&mut self, f: &str, name: &str) -> std::result::Result<Item, String> {
        for file in self.crate_files(f) {
            let ast = match self.file(&file) {
                Ok(a) => a,
                Err(_) => continue,
            };
            for it in flat(&ast.items) {
                let id = match it {
                    Item::Struct(s) => &s.ident,
                    Item::Enum(s) => &s.ident,
                    Item::Type(s) => &s.ident,
                    Item::Const(s) => &s.ident,
                    Item::Trait(s) => &s.ident,
                    _ => continue,
                };
                if id == name {
                    return Ok(it.clone());
                }
            }
        }
        Err(format!("item {} not found", name))
    }
}

/// Expands item macros that the same file defines with macro_rules, as long as they have no repetitions.
fn expand(items: &mut Vec<Item>) {
    use proc_macro2::{TokenStream, TokenTree};
    let mut rules: HashMap<String, Vec<TokenTree>> = HashMap::new();
    for i in items.iter() {
        if let Item::Macro(m) = i {
            if let (Some(id), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                rules.insert(id.to_string(), m.mac.tokens.clone().into_iter().collect());
            }
        }
    }
    fn subst(ts: TokenStream, vars: &HashMap<String, Vec<TokenTree>>) -> TokenStream {
        let mut out: Vec<TokenTree> = Vec::new();
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    if let Some(v) = it.peek().and_then(|n| vars.get(&n.to_string())) {
                        out.extend(v.iter().cloned());
                        it.next();
                    } else {
                        out.push(TokenTree::Punct(p));
                    }
                }
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), vars));
                    n.set_span(g.span());
                    out.push(TokenTree::Group(n));
                }
                t => out.push(t),
            }
        }
        out.into_iter().collect()
    }
    fn matches(pat: &[TokenTree], arg: &[TokenTree]) -> Option<HashMap<String, Vec<TokenTree>>> {
        let mut vars = HashMap::new();
        let (mut i, mut j) = (0, 0);
        while i < pat.len() {
            match &pat[i] {
                TokenTree::Punct(p) if p.as_char() == '$' && i + 3 < pat.len() => {
                    let name = match &pat[i + 1] {
                        TokenTree::Ident(id) => id.to_string(),
                        _ => return None,
                    };
                    i += 4;
                    let stop = pat.get(i).map(|t| t.to_string());
                    let mut v = Vec::new();
                    while j < arg.len() && Some(arg[j].to_string()) != stop {
                        v.push(arg[j].clone());
                        j += 1;
                    }
                    if v.is_empty() {
                        return None;
                    }
                    vars.insert(name, v);
                }
                t => {
                    if arg.get(j).map(|a| a.to_string()) != Some(t.to_string()) {
                        return None;
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        if j == arg.len() { Some(vars) } else { None }
    }
    let mut out = Vec::new();
    for i in items.drain(..) {
        if let Item::Macro(m) = &i {
            if m.ident.is_none() {
                if let Some(r) = m.mac.path.get_ident().and_then(|n| rules.get(&n.to_string())) {
                    let arg: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let groups: Vec<&proc_macro2::Group> = r.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
                    let hit = groups.chunks(2).find_map(|c| {
                        let pat: Vec<TokenTree> = c[0].stream().into_iter().collect();
                        let vars = matches(&pat, &arg)?;
                        parse2::<File>(subst(c.get(1)?.stream(), &vars)).ok()
                    });
                    if let Some(f) = hit {
                        out.extend(f.items);
                        continue;
                    }
                }
            }
        }
        out.push(i);
    }
    *items = out;
}

/// The function that a derive attribute of the type named in `path` stands for.
fn derived(items: &[Item], path: &str) -> Option<(Signature, Block, Option<String>)> {
    let (head, rest) = split(path);
    let h = head.strip_prefix('<')?;
    let (ty, tr) = h.split_once(" as ")?;
    let (tr, f) = (tr.trim(), rest.first()?.as_str());
    let ty = ty.rsplit("::").next().unwrap();
    if !matches!((tr, f), ("PartialEq", "eq") | ("Hash", "hash") | ("Clone", "clone") | ("Default", "default")) {
        return None;
    }
    let has = |attrs: &[Attribute]| {
        attrs.iter().any(|a| {
            if let Meta::List(l) = &a.meta {
                l.path.is_ident("derive") && toks(&l.tokens).split(',').any(|d| d.rsplit("::").next() == Some(tr))
            } else {
                false
            }
        })
    };
    let conj = |v: Vec<Expr>| -> Expr {
        v.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap_or_else(|| parse_quote!(true))
    };
    let member = |i: usize, f: &Field| -> Member {
        match &f.ident {
            Some(n) => Member::Named(n.clone()),
            None => Member::Unnamed(Index::from(i)),
        }
    };
    for it in flat(items) {
        let eq = tr == "PartialEq";
        let body: Block = match it {
            Item::Struct(s) if s.ident == ty.trim() && has(&s.attrs) => {
                let fields: Vec<Member> = s.fields.iter().enumerate().map(|(i, f)| member(i, f)).collect();
                if tr == "Default" {
                    if matches!(s.fields, Fields::Unit) {
                        parse_quote!({ Self })
                    } else {
                        parse_quote!({ Self { #(#fields: Default::default()),* } })
                    }
                } else if tr == "Clone" {
                    if matches!(s.fields, Fields::Unit) {
                        parse_quote!({ Self })
                    } else {
                        parse_quote!({ Self { #(#fields: self.#fields.clone()),* } })
                    }
                } else if eq {
                    let e = conj(fields.iter().map(|m| parse_quote!(self.#m == other.#m)).collect());
                    parse_quote!({ #e })
                } else {
                    parse_quote!({ #(self.#fields.hash(state);)* })
                }
            }
            Item::Enum(s) if s.ident == ty.trim() && has(&s.attrs) => {
                let mut arms: Vec<Arm> = vec![];
                for (k, v) in s.variants.iter().enumerate() {
                    let id = &v.ident;
                    let n = v.fields.len();
                    let a: Vec<Ident> = (0..n).map(|i| quote::format_ident!("__a{}", i)).collect();
                    let b: Vec<Ident> = (0..n).map(|i| quote::format_ident!("__b{}", i)).collect();
                    let pat = |x: &[Ident]| -> Pat {
                        match &v.fields {
                            Fields::Unit => parse_quote!(Self::#id),
                            Fields::Unnamed(_) => parse_quote!(Self::#id(#(#x),*)),
                            Fields::Named(f) => {
                                let names = f.named.iter().map(|f| f.ident.clone().unwrap());
                                parse_quote!(Self::#id { #(#names: #x),* })
                            }
                        }
                    };
                    if tr == "Clone" {
                        let p = pat(&a);
                        let e: Expr = match &v.fields {
                            Fields::Unit => parse_quote!(Self::#id),
                            Fields::Unnamed(_) => parse_quote!(Self::#id(#(#a.clone()),*)),
                            Fields::Named(f) => {
                                let names = f.named.iter().map(|f| f.ident.clone().unwrap());
                                parse_quote!(Self::#id { #(#names: #a.clone()),* })
                            }
                        };
                        arms.push(parse_quote!(#p => #e,));
                    } else if eq {
                        let (p, q) = (pat(&a), pat(&b));
                        let e = conj(a.iter().zip(b.iter()).map(|(a, b)| parse_quote!(#a == #b)).collect());
                        arms.push(parse_quote!((#p, #q) => #e,));
                    } else {
                        let p = pat(&a);
                        arms.push(parse_quote!(#p => { #k.hash(state); #(#a.hash(state);)* }));
                    }
                }
                if tr == "Default" {
                    return None;
                }
                if eq {
                    if s.variants.len() > 1 {
                        arms.push(parse_quote!(_ => false,));
                    }
                    parse_quote!({ match (self, other) { #(#arms)* } })
                } else {
                    parse_quote!({ match self { #(#arms)* } })
                }
            }
            _ => continue,
        };
        let sig: Signature = if tr == "Default" {
            parse_quote!(fn default() -> Self)
        } else if tr == "Clone" {
            parse_quote!(fn clone(&self) -> Self)
        } else if eq {
            parse_quote!(fn eq(&self, other: &Self) -> bool)
        } else {
            parse_quote!(fn hash<H: hash::Hasher>(&self, state: &mut H))
        };
        return Some((sig, body, Some(ty.trim().to_string())));
    }
    None
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| toks(&a.meta).starts_with("cfg(test)"))
}

pub fn flat(items: &[Item]) -> Vec<&Item> {
    let mut out = Vec::new();
    for i in items {
        match i {
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    out.extend(flat(its));
                }
            }
            Item::Mod(_) => {}
            _ => out.push(i),
        }
    }
    out
}

thread_local!(static ENCLOSING: std::cell::RefCell<Vec<ItemConst>> = const { std::cell::RefCell::new(Vec::new()) });

fn nested(block: &Block, name: &str) -> Option<(Signature, Block)> {
    for s in &block.stmts {
        if let Stmt::Item(Item::Fn(f)) = s {
            if f.sig.ident == name {
                return Some((f.sig.clone(), (*f.block).clone()));
            }
        }
    }
    None
}

fn split(path: &str) -> (String, Vec<String>) {
    // "<A as B>::f::g" | "trait T::f" | "fn f" | "A::f"
    if let Some(r) = path.strip_prefix('<') {
        let i = r.rfind(">::").expect("bad path");
        let head = format!("<{}", &r[..i]);
        let rest = r[i + 3..].split("::").map(|s| s.to_string()).collect();
        (head, rest)
    } else if let Some(r) = path.strip_prefix("fn ") {
        ("".to_string(), r.split("::").map(|s| s.to_string()).collect())
    } else {
        let mut it = path.splitn(2, "::");
        let head = it.next().unwrap().to_string();
        let rest = it.next().unwrap_or("").split("::").map(|s| s.to_string()).collect();
        (head, rest)
    }
}

fn descend(sig: Signature, block: Block, rest: &[String]) -> Option<(Signature, Block)> {
    let mut cur = (sig, block);
    ENCLOSING.with(|x| x.borrow_mut().clear());
    for r in rest {
        for s in &cur.1.stmts {
            if let Stmt::Item(Item::Const(c)) = s {
                ENCLOSING.with(|x| x.borrow_mut().push(c.clone()));
            }
        }
        cur = nested(&cur.1, r)?;
    }
    Some(cur)
}

fn in_items(items: &[Item], path: &str) -> Option<(Signature, Block, Option<String>)> {
    let (head, rest) = split(path);
    for it in flat(items) {
        match it {
            Item::Fn(f) if head.is_empty() && f.sig.ident == rest[0] => {
                let (a, b) = descend(f.sig.clone(), (*f.block).clone(), &rest[1..])?;
                return Some((a, b, None));
            }
            Item::Impl(im) => {
                let sty = last_ident(&im.self_ty);
                let ok = if let Some(h) = head.strip_prefix('<') {
                    let mut sp = h.splitn(2, " as ");
                    let a = sp.next().unwrap().trim();
                    let a = a.rsplit("::").next().unwrap();
                    let b = sp.next().unwrap_or("").trim();
                    match &im.trait_ {
                        None => false,
                        Some((_, tp, _)) => {
                            let tseg = tp.segments.last().unwrap();
                            let tname = if b.contains('<') {
                                toks(tseg)
                            } else if matches!(tseg.arguments, PathArguments::None) {
                                tseg.ident.to_string()
                            } else {
                                String::new()
                            };
                            sty.as_deref() == Some(a) && tname == squash(b)
                        }
                    }
                } else {
                    !head.is_empty() && im.trait_.is_none() && sty.as_deref() == Some(&head)
                };
                if ok {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.ident == rest[0] {
                                let (a, b) = descend(f.sig.clone(), f.block.clone(), &rest[1..])?;
                                return Some((a, b, sty));
                            }
                        }
                    }
                }
            }
            Item::Trait(t) => {
                if head == format!("trait {}", t.ident) {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if f.sig.ident == rest[0] {
                                let b = f.default.clone()?;
                                let (a, b) = descend(f.sig.clone(), b, &rest[1..])?;
                                return Some((a, b, Some(t.ident.to_string())));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
