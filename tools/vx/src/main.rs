//! vx: weaves contracts into functions extracted from the repository.
//!
//! vx REPO TEMPLATE OUT.rs REPORT.json LOCALS.json [--bless] [--external NAME]... [--canary NAME]
mod find;
mod print;
mod rewrite;
mod tpl;

use find::{squash, toks, Found, Repo};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use rewrite::{locals, Cfg, Rw};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::{env, fs};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
struct FnReq {
    file: String,
    path: String,
    opts: Vec<(String, String)>,
    ret: String,
    spec: String,
    loops: BTreeMap<usize, String>,
    loopstart: BTreeMap<usize, String>,
    loopend: BTreeMap<usize, String>,
    start: String,
    end: String,
    anchors: Vec<(bool, String, String)>, // before?, pattern, text
    line: usize,
}

enum Part {
    Text(String),
    Fn(FnReq),
    Item { file: String, name: String, opts: String },
    Set(String),
}

fn parse_template(s: &str) -> Vec<Part> {
    let mut parts = Vec::new();
    let mut text = String::new();
    let mut cur: Option<FnReq> = None;
    let mut sect: String = String::new();
    for (ln, line) in s.lines().enumerate() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let mut sp = d.splitn(2, char::is_whitespace);
            let key = sp.next().unwrap_or("");
            let rest = sp.next().unwrap_or("").trim().to_string();
            if cur.is_none() {
                match key {
                    "fn" => {
                        parts.push(Part::Text(std::mem::take(&mut text)));
                        let mut sp = rest.splitn(2, char::is_whitespace);
                        let file = sp.next().unwrap().to_string();
                        let path = sp.next().expect("fn path").trim().to_string();
                        cur = Some(FnReq { file, path, ret: "r".into(), line: ln + 1, ..Default::default() });
                        sect = "spec".into();
                    }
                    "item" => {
                        parts.push(Part::Text(std::mem::take(&mut text)));
                        let v: Vec<&str> = rest.split_whitespace().collect();
                        parts.push(Part::Item { file: v[0].into(), name: v[1].into(), opts: v[2..].join(" ") });
                    }
                    "set" => {
                        parts.push(Part::Text(std::mem::take(&mut text)));
                        parts.push(Part::Set(rest));
                    }
                    _ => panic!("line {}: unknown directive {}", ln + 1, key),
                }
            } else {
                let f = cur.as_mut().unwrap();
                match key {
                    "endfn" => {
                        parts.push(Part::Fn(cur.take().unwrap()));
                    }
                    "ret" => f.ret = rest,
                    "opt" => {
                        let mut sp = rest.splitn(2, char::is_whitespace);
                        f.opts.push((sp.next().unwrap().into(), sp.next().unwrap_or("").trim().into()));
                    }
                    "spec" | "start" | "end" => sect = key.into(),
                    "loop" | "loopstart" | "loopend" => sect = format!("{} {}", key, rest),
                    "before" | "after" => {
                        f.anchors.push((key == "before", rest, String::new()));
                        sect = "anchor".into();
                    }
                    _ => panic!("line {}: unknown directive {}", ln + 1, key),
                }
            }
            continue;
        }
        match &mut cur {
            None => {
                text.push_str(line);
                text.push('\n');
            }
            Some(f) => {
                let mut sp = sect.splitn(2, ' ');
                let s = sp.next().unwrap();
                let k: usize = sp.next().and_then(|x| x.trim().parse().ok()).unwrap_or(0);
                let dst: &mut String = match s {
                    "spec" => &mut f.spec,
                    "start" => &mut f.start,
                    "end" => &mut f.end,
                    "loop" => f.loops.entry(k).or_default(),
                    "loopstart" => f.loopstart.entry(k).or_default(),
                    "loopend" => f.loopend.entry(k).or_default(),
                    "anchor" => &mut f.anchors.last_mut().unwrap().2,
                    _ => unreachable!(),
                };
                dst.push_str(line);
                dst.push('\n');
            }
        }
    }
    assert!(cur.is_none(), "unterminated //@fn");
    parts.push(Part::Text(text));
    parts
}

fn hash(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn replace_words(s: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() {
        return s.to_string();
    }
    let mut out = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    let flush = |w: &mut String, out: &mut String, prev: char| {
        if !w.is_empty() {
            if prev == '.' {
                out.push_str(w);
            } else {
                out.push_str(map.get(w.as_str()).unwrap_or(w));
            }
            w.clear();
        }
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            if w.is_empty() {
                prev = out.chars().last().unwrap_or(' ');
            }
            w.push(c);
        } else {
            flush(&mut w, &mut out, prev);
            out.push(c);
        }
    }
    flush(&mut w, &mut out, prev);
    out
}

#[derive(Default, Clone)]
struct Globals {
    sets: Vec<(String, String)>,
    items: HashSet<String>,
}

fn insert_anchor(b: &mut Block, before: bool, pat: &str, key: &str) -> bool {
    struct V<'a> {
        before: bool,
        pat: &'a str,
        key: &'a str,
        done: bool,
    }
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            if self.done {
                return;
            }
            // innermost first
            visit_mut::visit_block_mut(self, b);
            if self.done {
                return;
            }
            for i in 0..b.stmts.len() {
                if toks(&b.stmts[i]).contains(self.pat) {
                    let key: TokenStream = self.key.parse().unwrap();
                    let m: Stmt = parse_quote!(__vx_raw!{#key};);
                    if self.before {
                        b.stmts.insert(i, m);
                    } else if let Stmt::Expr(e, None) = &b.stmts[i] {
                        let is_unit_like = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::If(_));
                        if is_unit_like && i + 1 < b.stmts.len() {
                            b.stmts.insert(i + 1, m);
                        } else {
                            let e = e.clone();
                            b.stmts[i] = parse_quote!(let __t = #e;);
                            b.stmts.insert(i + 1, m);
                            b.stmts.push(Stmt::Expr(parse_quote!(__t), None));
                        }
                    } else {
                        b.stmts.insert(i + 1, m);
                    }
                    self.done = true;
                    return;
                }
            }
        }
    }
    use syn::visit_mut;
    let mut v = V { before, pat, key, done: false };
    v.visit_block_mut(b);
    v.done
}

fn loop_texts(b: &mut Block, req: &FnReq) {
    // start/end of loop bodies
    struct V<'a>(&'a FnReq);
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let k = match b.stmts.first() {
                Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_loop") => {
                    m.mac.tokens.to_string().trim().trim_end_matches("usize").parse::<usize>().ok()
                }
                _ => None,
            };
            if let Some(k) = k {
                if self.0.loopstart.contains_key(&k) {
                    let key = format_ident!("loopstart{}", k);
                    b.stmts.insert(1, parse_quote!(__vx_raw!{#key};));
                }
                if self.0.loopend.contains_key(&k) {
                    let key = format_ident!("loopend{}", k);
                    if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                        b.stmts.pop();
                        b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                    }
                    b.stmts.push(parse_quote!(__vx_raw!{#key};));
                }
            }
        }
    }
    use syn::visit_mut;
    V(req).visit_block_mut(b);
}

struct Emitted {
    text: String,
    log: BTreeMap<String, usize>,
    errors: Vec<String>,
    hash: String,
    file: String,
    name: String,
    locals: Vec<String>,
    lost_anchors: Vec<String>,
    nloops: usize,
    skel: String,
}

fn emit_fn(
    repo: &mut Repo,
    req: &FnReq,
    g: &Globals,
    contracted: &HashSet<String>,
    base_locals: Option<&Vec<String>>,
    external: bool,
    canary: bool,
) -> std::result::Result<Emitted, String> {
    let found = repo.find_fn(&req.file, &req.path)?;
    let Found { mut sig, mut block, file, self_ty, consts } = found;
    let mut c = Cfg::default();
    let src_hash = hash(&format!("{}{}", sig.to_token_stream(), block.to_token_stream()));
    let skel = skeleton(&block);
    rewrite::tail_breaks(&mut block, &mut c);
    if external && NO_BODY.get() {
        block = parse_quote!({});
    }
    let mut rename = None;
    let mut free: Option<String> = None;
    let mut freety: Option<String> = None;
    let mut gens: Vec<String> = vec![];
    let mut opts: Vec<(String, String)> = g.sets.clone();
    opts.extend(req.opts.iter().cloned());
    let mut vis = String::from("pub ");
    let mut attrs = String::new();
    let mut begin = String::new();
    let mut retvec = false;
    let mut twin = false;
    for (k, v) in &opts {
        let ws = || v.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
        let arrow = || {
            let mut sp = v.splitn(2, "=>");
            (sp.next().unwrap().trim().to_string(), sp.next().unwrap_or("").trim().to_string())
        };
        match k.as_str() {
            "resultfns" => c.result_fns.extend(ws()),
            "optionfns" => c.option_fns.extend(ws()),
            "visitors" => c.visitors.extend(ws()),
            "ty" => c.tymap.push(arrow()),
            "path" => c.pathmap.push(arrow()),
            "method" => c.methodmap.push(arrow()),
            "macro" => {
                let w = ws();
                c.macros.insert(w[0].clone(), w[1].clone());
            }
            "inline" => {
                let w = ws();
                match repo.find_fn(&w[1], &w[2]) {
                    Ok(f) => {
                        c.inlines.insert(w[0].clone(), f);
                    }
                    Err(e) => c.errors.push(e),
                }
            }
            "indexmut" => c.for_index_mut.extend(ws().iter().map(|x| x.parse::<usize>().unwrap())),
            "qmark" => c.qmark_from = true,
            "dropgen" => c.dropgen.extend(ws()),
            "name" => rename = Some(v.clone()),
            "visitor" => c.self_visitor = Some(v.clone()),
            "paramvisitor" => c.param_visitor = Some(v.clone()),
            "liftguard" => c.liftguard = true,
            "fmtwrite" => c.fmtwrite = true,
            "copyguard" => c.copyguard = true,
            "veciter" => c.veciter = true,
            "synread" => c.synread = true,
            "collectinto" => c.collectinto = true,
            "extendcall" => c.extendcall = true,
            "intoiter" => c.intoiter = true,
            "intoarg" => c.intoarg.extend(ws()),
            "vecfns" => c.vec_fns.extend(ws()),
            "retvec" => retvec = true,
            "novis" => vis = String::new(),
            "gen" => gens.push(v.clone()),
            "free" => free = Some(v.clone()),
            "freety" => freety = Some(v.clone()),
            "strslice" => c.strslice = true,
            "boolops" => c.boolops = true,
            "partial" => c.partial = true,
            "begin" => begin.push_str(&format!("{}\n", v)),
            "addcheck" => c.addcheck = true,
            "arithcheck" => c.arithcheck = true,
            "eqcall" => c.eqcall = true,
            "twin" => twin = true,
            "closurespec" => c.closurespec = Some(v.clone()),
            "attr" => attrs.push_str(&format!("#[{}]\n", v)),
            _ => panic!("unknown option {}", k),
        }
    }
    if c.self_visitor.is_none() {
        c.self_visitor = self_ty.clone();
    }
    // helper functions without a contract are inlined
    let ast = repo.file(&file)?;
    for it in find::flat(&ast.items) {
        match it {
            Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                if !contracted.contains(&n) && n != sig.ident.to_string() {
                    let into = if has_ret(&f.block) { &mut c.inlines_q } else { &mut c.inlines };
                    into.entry(n).or_insert(Found { sig: f.sig.clone(), block: (*f.block).clone(), file: file.clone(), self_ty: None, consts: vec![] });
                }
            }
            Item::Impl(im) if im.trait_.is_none() && find::last_ident(&im.self_ty) == self_ty => {
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        if !contracted.contains(&n) && n != sig.ident.to_string() {
                            let into = if has_ret(&f.block) { &mut c.inlines_q } else { &mut c.inlines };
                            let fd = Found { sig: f.sig.clone(), block: f.block.clone(), file: file.clone(), self_ty: self_ty.clone(), consts: vec![] };
                            if f.sig.receiver().is_some() {
                                into.entry(format!(".{}", n)).or_insert(fd);
                            } else {
                                into.entry(format!("Self::{}", n)).or_insert(fd.clone());
                                if let Some(t) = &self_ty {
                                    into.entry(format!("{}::{}", t, n)).or_insert(fd);
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let cur_locals = locals(&sig, &block);
    let mut map = HashMap::new();
    if let Some(base) = base_locals {
        let miss: Vec<&String> = base.iter().filter(|b| !cur_locals.contains(b)).collect();
        let new: Vec<&String> = cur_locals.iter().filter(|b| !base.contains(b)).collect();
        for (a, b) in miss.iter().zip(new.iter()) {
            map.insert(a.to_string(), b.to_string());
        }
    }
    let sub = |s: &str| replace_words(s, &map);

    // constants of the file and of enclosing functions that the function names
    for k in consts.iter().rev() {
        if !g.items.contains(&k.ident.to_string()) && rewrite::names_const(&block, &k.ident) {
            block.stmts.insert(0, Stmt::Item(Item::Const(k.clone())));
        }
    }
    {
        let mut rw = Rw { c: &mut c };
        if retvec {
            rw.ret_vec(&mut block);
        } else {
            rw.visit_block_mut(&mut block);
        }
    }
    // types in the signature
    {
        let mut rw = Rw { c: &mut c };
        rw.visit_signature_mut(&mut sig);
    }
    for (n, i) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = i {
            if let Pat::Wild(_) = &*t.pat {
                let id = format_ident!("__arg{}", n);
                *t.pat = parse_quote!(#id);
            }
        }
    }
    if sig.receiver().map_or(false, |r| r.reference.is_none() && r.mutability.is_some()) {
        // mut self: a mutable local
        struct S;
        impl VisitMut for S {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if i == "self" {
                    *i = format_ident!("__self");
                }
            }
        }
        S.visit_block_mut(&mut block);
        block.stmts.insert(0, parse_quote!(let mut __self = self;));
        for i in sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = i {
                r.mutability = None;
            }
        }
        c.note("mutable self is a local variable");
    }
    if free.is_some() || freety.is_some() {
        let ty: Type = match (&free, &freety) {
            (Some(f), _) => {
                let gp: GenericParam = parse_str(f).expect("free generic");
                let id = match &gp {
                    GenericParam::Type(t) => t.ident.clone(),
                    _ => panic!("free"),
                };
                sig.generics.params.push(gp);
                parse_quote!(#id)
            }
            (_, Some(t)) => parse_str(t).expect("free type"),
            _ => unreachable!(),
        };
        if sig.receiver().map_or(false, |r| r.reference.is_some()) {
            sig.generics.params.insert(0, parse_quote!('vxs));
        }
        for i in sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = i {
                let n: FnArg = match (&r.reference, r.mutability) {
                    (None, None) => parse_quote!(this: #ty),
                    (None, Some(_)) => parse_quote!(mut this: #ty),
                    (Some(_), None) => parse_quote!(this: &'vxs #ty),
                    (Some(_), Some(_)) => parse_quote!(this: &'vxs mut #ty),
                };
                *i = n;
            }
        }
        struct S(Type);
        impl VisitMut for S {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if toks(t) == "Self" {
                    *t = self.0.clone();
                    return;
                }
                syn::visit_mut::visit_type_mut(self, t);
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                fn rename(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
                    ts.into_iter()
                        .map(|t| match t {
                            proc_macro2::TokenTree::Ident(i) if i == "self" => format_ident!("this").into(),
                            proc_macro2::TokenTree::Group(g) => {
                                let mut n = proc_macro2::Group::new(g.delimiter(), rename(g.stream()));
                                n.set_span(g.span());
                                n.into()
                            }
                            t => t,
                        })
                        .collect()
                }
                m.tokens = rename(m.tokens.clone());
                syn::visit_mut::visit_macro_mut(self, m);
            }
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if i == "Self" {
                    if let Ok(x) = parse2::<Ident>(self.0.to_token_stream()) {
                        *i = x;
                    }
                } else if i == "self" {
                    *i = format_ident!("this");
                }
            }
        }
        S(ty.clone()).visit_signature_mut(&mut sig);
        S(ty).visit_block_mut(&mut block);
        c.note("trait method emitted as a free function over its implementor");
    }
    let dropgen = c.dropgen.clone();
    for x in gens {
        let gp: GenericParam = parse_str(&x).expect("generic parameter");
        sig.generics.params.push(gp);
    }
    if !dropgen.is_empty() {
        let params = sig.generics.params.iter().filter(|p| match p {
            GenericParam::Type(t) => !dropgen.contains(&t.ident.to_string()),
            GenericParam::Lifetime(t) => !dropgen.contains(&t.lifetime.to_string()),
            _ => true,
        });
        sig.generics.params = params.cloned().collect();
        if let Some(w) = &mut sig.generics.where_clause {
            w.predicates = w
                .predicates
                .iter()
                .filter(|p| match p {
                    WherePredicate::Type(t) => !dropgen.contains(&toks(&t.bounded_ty)),
                    _ => true,
                })
                .cloned()
                .collect();
            if w.predicates.is_empty() {
                sig.generics.where_clause = None;
            }
        }
    }
    if twin {
        // the body twice, on two sets of arguments
        struct S(Vec<String>, &'static str);
        impl VisitMut for S {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if self.0.contains(&i.to_string()) {
                    *i = format_ident!("{}_{}", i, self.1);
                }
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                fn go(ts: proc_macro2::TokenStream, n: &[String], s: &str) -> proc_macro2::TokenStream {
                    use proc_macro2::TokenTree;
                    ts.into_iter()
                        .map(|t| match t {
                            TokenTree::Ident(i) if n.contains(&i.to_string()) => TokenTree::Ident(format_ident!("{}_{}", i, s)),
                            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), n, s))),
                            t => t,
                        })
                        .collect()
                }
                m.tokens = go(m.tokens.clone(), &self.0, self.1);
            }
        }
        if has_ret(&block) {
            c.errors.push("a body with a return cannot be run twice".into());
        }
        let names: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|i| match i {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => Some(p.ident.to_string()),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let mut inputs = sig.inputs.clone();
        let mut second = sig.inputs.clone();
        let (mut a, mut b) = (S(names.clone(), "a"), S(names, "b"));
        let (mut ba, mut bb) = (block.clone(), block.clone());
        for i in inputs.iter_mut() {
            a.visit_fn_arg_mut(i);
        }
        for i in second.iter_mut() {
            b.visit_fn_arg_mut(i);
        }
        a.visit_block_mut(&mut ba);
        b.visit_block_mut(&mut bb);
        inputs.extend(second);
        sig.inputs = inputs;
        block = parse_quote!({ #ba #bb });
        c.note("the body is run on two sets of arguments");
    }
    let mut req2 = req.clone();
    req2.start = format!("{}{}", begin, req2.start);
    let mut lost = vec![];
    loop_texts(&mut block, &req2);
    for (i, (before, pat, text)) in req.anchors.iter().enumerate() {
        let key = format!("anchor{}", i);
        if insert_anchor(&mut block, *before, &squash(&sub(pat)), &key) {
            c.texts.raw.insert(key, sub(text));
        } else {
            lost.push(pat.clone());
        }
    }
    if !req.end.trim().is_empty() {
        let m: Stmt = parse_quote!(__vx_raw!{__end};);
        if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
            let unit = matches!(sig.output, ReturnType::Default);
            block.stmts.pop();
            if unit {
                block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                block.stmts.push(m);
            } else {
                let mut l: Stmt = parse_quote!(let __r = 0;);
                if let Stmt::Local(x) = &mut l {
                    x.init.as_mut().unwrap().expr = Box::new(e);
                }
                block.stmts.push(l);
                block.stmts.push(m);
                block.stmts.push(Stmt::Expr(parse_quote!(__r), None));
            }
        } else {
            block.stmts.push(m);
        }
        c.texts.raw.insert("__end".into(), sub(&req.end));
    }
    if canary {
        req2.start.push_str("\nproof { assert(false); }\n");
    }
    if !req2.start.trim().is_empty() {
        block.stmts.insert(0, parse_quote!(__vx_raw!{__start};));
        c.texts.raw.insert("__start".into(), sub(&req2.start));
    }
    for (k, v) in &req.loops {
        c.texts.loops.insert(*k, sub(v));
        if *k >= c.counter {
            lost.push(format!("loop {}", k));
        }
    }
    for (k, v) in &req.loopstart {
        c.texts.raw.insert(format!("loopstart{}", k), sub(v));
    }
    for (k, v) in &req.loopend {
        c.texts.raw.insert(format!("loopend{}", k), sub(v));
    }
    // signature text
    let name = rename.unwrap_or_else(|| sig.ident.to_string());
    let mut out = String::new();
    out.push_str(&attrs);
    let ext = external || !c.errors.is_empty();
    if ext {
        out.push_str("#[verifier::external_body]\n");
    }
    let gens = {
        let (g, ..) = (&sig.generics, ());
        let mut g2 = g.clone();
        g2.where_clause = None;
        if g2.params.is_empty() {
            String::new()
        } else {
            g2.to_token_stream().to_string()
        }
    };
    let inputs = &sig.inputs;
    let inputs = quote!(#inputs).to_string();
    let konst = "";
    out.push_str(&format!("{}{}fn {}{}({})", vis, konst, name, gens, inputs));
    if let ReturnType::Type(_, t) = &sig.output {
        out.push_str(&format!(" -> ({}: {})", req.ret, t.to_token_stream()));
    }
    if let Some(w) = &sig.generics.where_clause {
        out.push_str(&format!("\n{}", w.to_token_stream()));
        if !out.trim_end().ends_with(',') {
            out.push(',');
        }
    }
    out.push('\n');
    out.push_str(&sub(&req.spec));
    let body = if ext {
        quote!({ unimplemented!() })
    } else {
        block.to_token_stream()
    };
    out.push_str(&print::print(body, &mut c.texts));
    Ok(Emitted {
        text: out,
        log: c.log,
        errors: c.errors,
        hash: src_hash,
        file,
        name,
        locals: cur_locals,
        lost_anchors: lost,
        nloops: c.counter,
        skel,
    })
}

/// The order of the control constructs of a function, without what they compute: a changed order means that loop
/// invariants may no longer stand where they did.
fn skeleton(b: &Block) -> String {
    struct V(String);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            use syn::visit::visit_expr as go;
            let (open, close) = match e {
                Expr::If(_) => ("i(", ")"),
                Expr::Match(_) => ("m(", ")"),
                Expr::Loop(_) => ("l(", ")"),
                Expr::While(_) => ("w(", ")"),
                Expr::ForLoop(_) => ("f(", ")"),
                Expr::Closure(_) => ("|(", ")"),
                Expr::Return(_) => ("", "r"),
                Expr::Break(_) => ("", "b"),
                Expr::Continue(_) => ("", "c"),
                Expr::Try(_) => ("", "?"),
                _ => ("", ""),
            };
            self.0.push_str(open);
            go(self, e);
            self.0.push_str(close);
        }
        fn visit_arm(&mut self, a: &'a syn::Arm) {
            syn::visit::visit_arm(self, a);
            self.0.push(',');
        }
        fn visit_block(&mut self, b: &'a Block) {
            self.0.push('{');
            syn::visit::visit_block(self, b);
            self.0.push('}');
        }
    }
    let mut v = V(String::new());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn has_ret(b: &Block) -> bool {
    use syn::visit::Visit;
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

fn emit_item(repo: &mut Repo, file: &str, name: &str, opts: &str, g: &Globals) -> std::result::Result<(String, String, Vec<String>), String> {
    let mut it = repo.find_item(file, name)?;
    let h = hash(&it.to_token_stream().to_string());
    let mut c = Cfg::default();
    for (k, v) in &g.sets {
        if k == "ty" {
            let mut sp = v.splitn(2, "=>");
            c.tymap.push((sp.next().unwrap().trim().into(), sp.next().unwrap_or("").trim().into()));
        }
    }
    let mut extra = String::new();
    let attrs: Vec<Attribute> = match &it {
        Item::Struct(s) => s.attrs.clone(),
        Item::Enum(s) => s.attrs.clone(),
        _ => vec![],
    };
    let derived: String = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| squash(&a.meta.to_token_stream().to_string())).collect();
    let mut missing = Vec::new();
    for o in opts.split_whitespace() {
        if let Some(x) = o.strip_prefix("attr=") {
            extra.push_str(&format!("#[{}]\n", x));
        }
        if let Some(x) = o.strip_prefix("needs=") {
            for d in x.split(',') {
                if !derived.split(|c: char| !c.is_alphanumeric()).any(|w| w == d) {
                    missing.push(d.to_string());
                }
            }
        }
    }
    let pb: Visibility = parse_quote!(pub);
    struct Attrs;
    impl VisitMut for Attrs {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    Attrs.visit_item_mut(&mut it);
    Rw { c: &mut c }.visit_item_mut(&mut it);
    match &mut it {
        Item::Struct(s) => {
            s.vis = pb.clone();
            for f in s.fields.iter_mut() {
                f.vis = pb.clone();
            }
        }
        Item::Enum(s) => s.vis = pb.clone(),
        Item::Type(s) => s.vis = pb.clone(),
        Item::Const(s) => s.vis = pb.clone(),
        _ => {}
    }
    let mut t = print::Texts::default();
    Ok((format!("{}{}", extra, print::print(it.to_token_stream(), &mut t)), h, missing))
}

fn parse_locals(s: &str) -> HashMap<String, Vec<String>> {
    // lines: key<TAB>a b c
    s.lines()
        .filter_map(|l| l.split_once('\t'))
        .map(|(k, v)| (k.to_string(), v.split_whitespace().map(|x| x.to_string()).collect()))
        .collect()
}

thread_local! {
    static NO_BODY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn main() {
    // syntax trees nest deeply
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}

fn run() {
    let args: Vec<String> = env::args().collect();
    let (repo, tpl, out, report, loc) = (&args[1], &args[2], &args[3], &args[4], &args[5]);
    let mut external = HashSet::new();
    let mut canary = HashSet::new();
    let mut bless = false;
    let mut i = 6;
    while i < args.len() {
        match args[i].as_str() {
            "--bless" => bless = true,
            "--external" => {
                i += 1;
                external.insert(args[i].clone());
            }
            "--canary" => {
                i += 1;
                canary.insert(args[i].clone());
            }
            a => panic!("bad argument {}", a),
        }
        i += 1;
    }
    let mut src = fs::read_to_string(tpl).expect("template");
    // includes
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let mut done = false;
    while !done {
        done = true;
        let mut o = String::new();
        for l in src.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                o.push_str(&fs::read_to_string(dir.join(f.trim())).expect("include"));
                done = false;
            } else {
                o.push_str(l);
                o.push('\n');
            }
        }
        src = o;
    }
    let unit = std::path::Path::new(tpl).file_stem().unwrap().to_string_lossy().to_string();
    let base = fs::read_to_string(loc).map(|s| parse_locals(&s)).unwrap_or_default();
    let parts = parse_template(&src);
    let mut contracted = HashSet::new();
    for p in &parts {
        match p {
            Part::Fn(f) => {
                contracted.insert(f.path.rsplit("::").next().unwrap().rsplit(' ').next().unwrap().to_string());
            }
            Part::Text(t) => {
                let mut it = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).peekable();
                while let Some(w) = it.next() {
                    if w == "fn" {
                        if let Some(n) = it.peek() {
                            contracted.insert(n.to_string());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut repo = Repo { root: repo.into(), cache: HashMap::new() };
    let mut g = Globals::default();
    let mut text = String::new();
    let mut recs = Vec::new();
    let mut new_locals: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for p in &parts {
        if let Part::Item { name, .. } = p {
            g.items.insert(name.clone());
        }
    }
    for p in &parts {
        match p {
            Part::Text(t) => text.push_str(t),
            Part::Set(s) => {
                let mut sp = s.splitn(2, char::is_whitespace);
                let k = sp.next().unwrap().to_string();
                let v = sp.next().unwrap_or("").trim().to_string();
                if k == "clear" {
                    g.sets.retain(|(a, _)| *a != v);
                } else {
                    g.sets.push((k, v));
                }
            }
            Part::Item { file, name, opts } => {
                let start = text.lines().count() + 1;
                match emit_item(&mut repo, file, name, opts, &g) {
                    Ok((t, h, missing)) => {
                        for d in missing {
                            recs.push(format!(
                                "{{\"kind\":\"missing\",\"file\":{},\"path\":{},\"error\":{}}}",
                                js(file), js(&format!("derive({}) of {}", d, name)), js("no longer derived, so its assumed contract does not apply")
                            ));
                        }
                        text.push_str(&t);
                        text.push('\n');
                        let end = text.lines().count();
                        recs.push(format!(
                            "{{\"kind\":\"item\",\"file\":{},\"path\":{},\"hash\":{},\"lines\":[{},{}]}}",
                            js(file), js(name), js(&h), start, end
                        ));
                    }
                    Err(e) => recs.push(format!(
                        "{{\"kind\":\"missing\",\"file\":{},\"path\":{},\"error\":{}}}",
                        js(file), js(name), js(&e)
                    )),
                }
            }
            Part::Fn(f) => {
                let rn = f.opts.iter().find(|o| o.0 == "name").map(|o| o.1.clone());
                let id = format!("{}{}", f.path, rn.as_ref().map(|r| format!(" as {}", r)).unwrap_or_default());
                let key = format!("{}|{}|{}", unit, f.file, id);
                let bl = if bless { None } else { base.get(&key) };
                if !text.ends_with('\n') {
                    text.push('\n');
                }
                let start = text.lines().count() + 1;
                let emitted = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    emit_fn(&mut repo, f, &g, &contracted, bl, external.contains(&id), canary.contains(&id))
                }));
                let emitted = emitted.unwrap_or_else(|_| {
                    // the body is beyond the extractor: only the contract is left
                    rewrite::reset_depth();
                    NO_BODY.set(true);
                    let r = emit_fn(&mut repo, f, &g, &contracted, bl, true, false);
                    NO_BODY.set(false);
                    r.map(|mut e| {
                        e.errors.push("the extractor cannot rewrite this body".into());
                        e
                    })
                });
                match emitted {
                    Ok(e) => {
                        new_locals.insert(key, e.locals.clone());
                        text.push_str(&e.text);
                        text.push('\n');
                        let end = text.lines().count();
                        let log: Vec<String> = e.log.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
                        let errs: Vec<String> = e.errors.iter().map(|x| js(x)).collect();
                        let lost: Vec<String> = e.lost_anchors.iter().map(|x| js(x)).collect();
                        recs.push(format!(
                            "{{\"kind\":\"fn\",\"file\":{},\"path\":{},\"name\":{},\"hash\":{},\"lines\":[{},{}],\"rewrites\":{{{}}},\"unsupported\":[{}],\"lost\":[{}],\"loops\":{},\"skel\":{},\"external\":{}}}",
                            js(&e.file), js(&id), js(&e.name), js(&e.hash), start, end,
                            log.join(","), errs.join(","), lost.join(","), e.nloops, js(&e.skel), external.contains(&id)
                        ));
                    }
                    Err(e) => recs.push(format!(
                        "{{\"kind\":\"missing\",\"file\":{},\"path\":{},\"error\":{}}}",
                        js(&f.file), js(&id), js(&e)
                    )),
                }
            }
        }
    }
    fs::write(out, &text).expect("write");
    fs::write(report, format!("[{}]\n", recs.join(",\n"))).expect("write");
    if bless {
        let mut all: BTreeMap<String, Vec<String>> = base.into_iter().filter(|(k, _)| !k.starts_with(&format!("{}|", unit))).collect();
        all.extend(new_locals);
        let s: String = all.iter().map(|(k, v)| format!("{}\t{}\n", k, v.join(" "))).collect();
        fs::write(loc, s).expect("write");
    }
}
