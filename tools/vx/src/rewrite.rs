//! The mechanical rewrites from the repository's Rust into the subset Verus accepts.
use crate::find::{squash, toks, Found};
use crate::print::Texts;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Iter,
    Unknown,
}

pub fn reset_depth() {
    KIND_DEPTH.set(0);
    EXPR_DEPTH.set(0);
}

#[derive(Default)]
pub struct Cfg {
    pub result_fns: HashSet<String>,
    pub option_fns: HashSet<String>,
    /// method -> true for visitor dispatch methods
    pub visitors: HashSet<String>,
    pub self_visitor: Option<String>,
    pub param_visitor: Option<String>,
    pub tymap: Vec<(String, String)>,
    pub pathmap: Vec<(String, String)>,
    pub methodmap: Vec<(String, String)>,
    pub macros: HashMap<String, String>,
    pub inlines: HashMap<String, Found>,
    /// helpers whose bodies hold `?` or `return`
    pub inlines_q: HashMap<String, Found>,
    pub inline_depth: usize,
    pub for_index_mut: HashSet<usize>,
    pub for_native: HashSet<usize>,
    pub qmark_from: bool,
    pub strslice: bool,
    pub boolops: bool,
    pub partial: bool,
    pub addcheck: bool,
    pub arithcheck: bool,
    /// a == b becomes vx_eq(&a, &b)
    pub eqcall: bool,
    pub closurespec: Option<String>,
    pub liftguard: bool,
    pub copyguard: bool,
    pub fmtwrite: bool,
    pub veciter: bool,
    pub collectinto: bool,
    pub synread: bool,
    pub extendcall: bool,
    pub intoiter: bool,
    pub intoarg: HashSet<String>,
    pub vec_fns: HashSet<String>,
    pub dropgen: HashSet<String>,
    pub log: BTreeMap<String, usize>,
    pub errors: Vec<String>,
    pub counter: usize,
    pub tmp: usize,
    pub lets: HashMap<String, Expr>,
    pub texts: Texts,
}

impl Cfg {
    pub fn note(&mut self, s: &str) {
        *self.log.entry(s.to_string()).or_insert(0) += 1;
    }
    fn fresh(&mut self) -> usize {
        let k = self.counter;
        self.counter += 1;
        k
    }
    fn tmp(&mut self) -> usize {
        self.tmp += 1;
        self.tmp
    }
}

fn has_q<T: ToTokens>(t: &T) -> bool {
    // `?` or `return` outside nested closures and items
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false);
    if let Ok(e) = parse2::<Expr>(t.to_token_stream()) {
        v.visit_expr(&e);
    }
    v.0
}

/// The block names the constant in an expression.
pub fn names_const(b: &Block, k: &Ident) -> bool {
    struct V<'a>(&'a Ident, bool);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if p.path.is_ident(self.0) {
                self.1 = true;
            }
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| self.0 == w) {
                self.1 = true;
            }
        }
    }
    let mut v = V(k, false);
    v.visit_block(b);
    v.1 || binds(b, k)
}

/// The block has a pattern that is, or contains, the bare identifier.
fn binds(b: &Block, k: &Ident) -> bool {
    struct V<'a>(&'a Ident, bool);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.ident == *self.0 {
                self.1 = true;
            }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_expr_range(&mut self, p: &'a ExprRange) {
            syn::visit::visit_expr_range(self, p);
        }
        fn visit_item(&mut self, _: &'a Item) {}
        fn visit_pat(&mut self, p: &'a Pat) {
            if let Pat::Path(q) = p {
                if q.path.is_ident(self.0) {
                    self.1 = true;
                }
            }
            if let Pat::Range(q) = p {
                if toks(q).contains(&self.0.to_string()) {
                    self.1 = true;
                }
            }
            syn::visit::visit_pat(self, p);
        }
    }
    let mut v = V(k, false);
    v.visit_block(b);
    v.1
}

fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn ident_of(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

thread_local! {
    static KIND_DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static EXPR_DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn kind(e: &Expr, c: &Cfg) -> Kind {
    // a variable may be bound to something that holds a variable of the same name
    if KIND_DEPTH.get() > 40 {
        return Kind::Unknown;
    }
    KIND_DEPTH.set(KIND_DEPTH.get() + 1);
    let k = kind_inner(e, c);
    KIND_DEPTH.set(KIND_DEPTH.get() - 1);
    k
}

/// What a helper function without a contract returns.
fn returned(f: &Found) -> Kind {
    if let ReturnType::Type(_, t) = &f.sig.output {
        if let Type::Path(p) = &**t {
            match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                Some("Result") => return Kind::Res,
                Some("Option") => return Kind::Opt,
                _ => {}
            }
        }
    }
    Kind::Unknown
}

fn kind_inner(e: &Expr, c: &Cfg) -> Kind {
    match strip(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if c.result_fns.contains(&n) || c.synread && n == "call" {
                return Kind::Res;
            }
            if c.option_fns.contains(&n) {
                return Kind::Opt;
            }
            if c.vec_fns.contains(&n) {
                return Kind::Iter;
            }
            match n.as_str() {
                "next" | "next_back" | "peek" | "last" | "first" | "get" | "pop" | "nth" | "nth_back" | "find"
                | "checked_sub" | "checked_add" | "ok" | "find_map" | "position" => Kind::Opt,
                "unzip" => Kind::Unknown,
                _ if c.inlines_q.contains_key(&format!(".{}", n)) => returned(&c.inlines_q[&format!(".{}", n)]),
                "iter" | "into_iter" | "chars" | "rev" | "enumerate" | "zip" | "chain" | "copied_iter" | "into_pairs"
                | "peekable" | "filter" | "flat_map" | "skip" | "into_values" => match kind(&m.receiver, c) {
                    Kind::Opt if n == "filter" => Kind::Opt,
                    _ => Kind::Iter,
                },
                "ok_or" | "ok_or_else" | "map_err" => Kind::Res,
                "map" | "and_then" | "or_else" | "as_ref" | "as_mut" | "take" | "copied" | "cloned" => {
                    kind(&m.receiver, c)
                }
                _ => Kind::Unknown,
            }
        }
        Expr::Call(k) => {
            let p = toks(&k.func);
            if p == "Ok" || p == "Err" {
                return Kind::Res;
            }
            if p == "Some" {
                return Kind::Opt;
            }
            if p == "iter::once" || p == "std::iter::once" {
                return Kind::Iter;
            }
            let l = p.rsplit("::").next().unwrap().trim().to_string();
            if c.result_fns.contains(&l) {
                return Kind::Res;
            }
            if c.option_fns.contains(&l) {
                return Kind::Opt;
            }
            if c.vec_fns.contains(&l) {
                return Kind::Iter;
            }
            if let Some(f) = c.inlines_q.get(&p).or_else(|| c.inlines.get(&p)) {
                return returned(f);
            }
            Kind::Unknown
        }
        Expr::Path(p) => {
            if let Some(i) = p.path.get_ident() {
                if i == "None" {
                    return Kind::Opt;
                }
                if let Some(init) = c.lets.get(&i.to_string()) {
                    let init = init.clone();
                    if ident_of(&init).as_deref() == Some(&i.to_string()) {
                        return Kind::Unknown;
                    }
                    return kind(&init, c);
                }
            }
            Kind::Unknown
        }
        Expr::Field(f) => {
            let n = f.member.to_token_stream().to_string();
            if c.option_fns.contains(&format!(".{}", n)) {
                Kind::Opt
            } else {
                Kind::Unknown
            }
        }
        _ => Kind::Unknown,
    }
}

/// A closure-like argument: pattern and body.
fn closure_parts(f: &Expr, c: &mut Cfg) -> (Pat, Expr) {
    match strip(f) {
        Expr::Closure(cl) => {
            let pat = if cl.inputs.is_empty() {
                parse_quote!(_)
            } else {
                match &cl.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                }
            };
            (pat, (*cl.body).clone())
        }
        Expr::Reference(r) => {
            let f = (*r.expr).clone();
            let x = format_ident!("__x{}", c.tmp());
            (parse_quote!(#x), parse_quote!(#f(#x)))
        }
        Expr::Path(p) => {
            let x = format_ident!("__x{}", c.tmp());
            (parse_quote!(#x), parse_quote!(#p(#x)))
        }
        other => {
            c.errors.push(format!("unsupported function argument {}", other.to_token_stream()));
            (parse_quote!(_), parse_quote!(()))
        }
    }
}

/// The value of a closure body, with `?` turned into matches.
fn closureize(body: Expr, c: &mut Cfg) -> Expr {
    if !has_q(&body) {
        return body;
    }
    c.note("`?` inside an inlined closure turned into a match");
    match body {
        Expr::Block(b) => closureize_stmts(b.block.stmts, c),
        Expr::Paren(p) => closureize(*p.expr, c),
        Expr::If(mut i) => {
            if has_q(&i.cond) {
                c.errors.push("`?` in a closure's condition".into());
            }
            let t = i.then_branch.clone();
            let t = closureize(parse_quote!(#t), c);
            i.then_branch = parse_quote!({ #t });
            if let Some((_, e)) = &mut i.else_branch {
                let x = closureize((**e).clone(), c);
                **e = parse_quote!({ #x });
            }
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            if let Expr::Try(t) = strip(&m.expr).clone() {
                let inner = *t.expr;
                m.expr = parse_quote!(__q);
                let rest = closureize(Expr::Match(m), c);
                return parse_quote!(match #inner { Ok(__q) => #rest, Err(__e) => Err(__e) });
            }
            for a in &mut m.arms {
                let b = (*a.body).clone();
                *a.body = closureize(b, c);
            }
            Expr::Match(m)
        }
        mut other => {
            // hoist the first `?`
            struct H {
                found: Option<Expr>,
                name: Ident,
            }
            impl VisitMut for H {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if self.found.is_some() {
                        return;
                    }
                    if let Expr::Closure(_) = e {
                        return;
                    }
                    visit_mut::visit_expr_mut(self, e);
                    if self.found.is_some() {
                        return;
                    }
                    if let Expr::Try(t) = e {
                        self.found = Some((*t.expr).clone());
                        let n = self.name.clone();
                        *e = parse_quote!(#n);
                    }
                }
            }
            let name = format_ident!("__q{}", c.tmp());
            let mut h = H { found: None, name: name.clone() };
            h.visit_expr_mut(&mut other);
            match h.found {
                Some(x) => {
                    let rest = closureize(other, c);
                    parse_quote!(match #x { Ok(#name) => #rest, Err(__e) => Err(__e) })
                }
                None => {
                    c.errors.push("`return` in an inlined closure".into());
                    other
                }
            }
        }
    }
}

fn closureize_stmts(stmts: Vec<Stmt>, c: &mut Cfg) -> Expr {
    let mut before: Vec<Stmt> = Vec::new();
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if !has_q_stmt(&s) {
            before.push(s);
            continue;
        }
        let rest: Vec<Stmt> = it.collect();
        match s {
            Stmt::Local(l) => {
                let pat = match &l.pat {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let init = l.init.as_ref().map(|i| (*i.expr).clone());
                match init {
                    Some(Expr::Try(t)) if !has_q(&t.expr) => {
                        let x = *t.expr;
                        let r = closureize_stmts(rest, c);
                        return parse_quote!({ #(#before)* match #x { Ok(#pat) => #r, Err(__e) => Err(__e) } });
                    }
                    Some(x) => {
                        let name = format_ident!("__h{}", c.tmp());
                        let mut all: Vec<Stmt> = Vec::new();
                        all.push(parse_quote!(let #pat = #name;));
                        all.extend(rest);
                        let r = closureize_stmts(all, c);
                        // evaluate x with its `?` hoisted, continue with r
                        let okx = closureize(parse_quote!(Ok(#x)), c);
                        return parse_quote!({ #(#before)* match #okx { Ok(#name) => #r, Err(__e) => Err(__e) } });
                    }
                    None => {}
                }
                return parse_quote!({ #(#before)* });
            }
            Stmt::Expr(Expr::Return(r), _) => {
                let v = r.expr.map(|e| *e).unwrap_or_else(|| parse_quote!(()));
                let v = closureize(v, c);
                return parse_quote!({ #(#before)* #v });
            }
            Stmt::Expr(Expr::Try(t), Some(_)) if !has_q(&t.expr) => {
                let x = *t.expr;
                let r = closureize_stmts(rest, c);
                return parse_quote!({ #(#before)* match #x { Ok(_) => #r, Err(__e) => Err(__e) } });
            }
            Stmt::Expr(Expr::If(i), semi) if !rest.is_empty() && i.else_branch.is_none() => {
                // `if c { ...return x; } rest`
                let _ = semi;
                let cond = &i.cond;
                let t = closureize_stmts(i.then_branch.stmts.clone(), c);
                let ends = matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                if !ends || has_q(cond) {
                    c.errors.push("`?` in a branch of an inlined closure".into());
                }
                let r = closureize_stmts(rest, c);
                return parse_quote!({ #(#before)* if #cond { #t } else { #r } });
            }
            Stmt::Expr(e, None) if rest.is_empty() => {
                let v = closureize(e, c);
                return parse_quote!({ #(#before)* #v });
            }
            other => {
                c.errors.push(format!("`?` in unsupported place of an inlined closure: {}", other.to_token_stream()));
                return parse_quote!({ #(#before)* });
            }
        }
    }
    parse_quote!({ #(#before)* })
}

/// What a function returning a `Result` yields on success, where a failure leaves the caller.
fn tail_value(e: Expr) -> Expr {
    match e {
        Expr::Paren(p) => tail_value(*p.expr),
        Expr::Block(mut b) => {
            b.block = tail_block(b.block);
            Expr::Block(b)
        }
        Expr::If(mut i) => {
            i.then_branch = tail_block(i.then_branch);
            i.else_branch = i.else_branch.map(|(t, e)| (t, Box::new(tail_value(*e))));
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in &mut m.arms {
                *a.body = tail_value((*a.body).clone());
            }
            Expr::Match(m)
        }
        Expr::Call(k) if ident_of(&k.func).as_deref() == Some("Ok") && k.args.len() == 1 => k.args[0].clone(),
        Expr::Call(k) if ident_of(&k.func).as_deref() == Some("Err") => parse_quote!(return #k),
        Expr::Return(_) | Expr::Macro(_) | Expr::Loop(_) => e,
        other => parse_quote!(#other?),
    }
}

fn tail_block(mut b: Block) -> Block {
    match b.stmts.pop() {
        Some(Stmt::Expr(e, None)) => b.stmts.push(Stmt::Expr(tail_value(e), None)),
        Some(s) => b.stmts.push(s),
        None => {}
    }
    b
}

/// Does every `return` of the block leave with an error?
fn returns_errors_only(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            match r.expr.as_deref() {
                Some(Expr::Call(k)) if ident_of(&k.func).as_deref() == Some("Err") => {}
                _ => self.0 = false,
            }
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(true);
    v.visit_block(b);
    v.0
}

/// Does the block bind a variable of this name?
fn binds_name(b: &Block, name: &str) -> bool {
    struct V<'n>(&'n str, bool);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.1 |= p.ident == self.0;
        }
    }
    let mut v = V(name, false);
    v.visit_block(b);
    v.1
}

fn has_q_stmt(s: &Stmt) -> bool {
    let b: Block = parse_quote!({ #s });
    has_q(&b)
}

/// Does the function bind a name of a parameter again, use one as the name of a field, or change one?
fn rebinds(f: &Found) -> bool {
    let mut names = HashSet::new();
    let mut again = false;
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(i) = &*t.pat {
                names.insert(i.ident.to_string());
                again |= i.mutability.is_some();
            }
        }
    }
    struct R(HashSet<String>, bool);
    impl<'a> Visit<'a> for R {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.1 |= self.0.contains(&p.ident.to_string());
        }
        fn visit_field_value(&mut self, v: &'a FieldValue) {
            if let Member::Named(n) = &v.member {
                self.1 |= v.colon_token.is_none() && self.0.contains(&n.to_string());
            }
            visit::visit_field_value(self, v);
        }
    }
    let mut r = R(names, again);
    r.visit_block(&f.block);
    r.1
}

/// Replaces `self` (and named parameters) in an inlined body.
struct SubstIdents(HashMap<String, Expr>);
impl VisitMut for SubstIdents {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(r) = self.0.get(&i.to_string()) {
                    *e = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Rw<'c> {
    pub c: &'c mut Cfg,
}

struct Chain {
    /// something a `for` loop can run over (a Vec or a native iterator)
    src: Expr,
    map: Option<(Pat, Expr)>,
}

impl<'c> Rw<'c> {
    fn expr(&mut self, e: &mut Expr) {
        EXPR_DEPTH.set(EXPR_DEPTH.get() + 1);
        if EXPR_DEPTH.get() > 300 {
            panic!("rewriting does not come to an end");
        }
        self.visit_expr_mut(e);
        EXPR_DEPTH.set(EXPR_DEPTH.get() - 1);
    }

    /// `&x` patterns bind a reference, and x is what it refers to.
    fn deref_pats(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct D<'a>(&'a mut Cfg, Vec<Stmt>);
        impl VisitMut for D<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if let Pat::Ident(i) = &*r.pat {
                        if i.subpat.is_none() && i.by_ref.is_none() && r.mutability.is_none() {
                            let r = format_ident!("__r{}", self.0.tmp());
                            self.1.push(parse_quote!(let #i = *#r;));
                            *p = parse_quote!(#r);
                            return;
                        }
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut d = D(self.c, Vec::new());
        d.visit_pat_mut(p);
        d.1
    }

    fn local(&mut self, l: &mut Local) {
        l.attrs.clear();
        if self.c.veciter {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
                let plain = matches!(strip(&init.expr), Expr::MethodCall(m) if m.method == "into_iter" || m.method == "into_pairs" || m.method == "iter" || m.method == "rev");
                if i.mutability.is_some() && plain {
                    let x = (*init.expr).clone();
                    if let Some(ch) = self.chain(&x) {
                        *init.expr = self.materialize(ch);
                        self.c.note("local iterator replaced by the vector of what it has left to give");
                        return;
                    }
                }
            }
        }
        if self.c.collectinto {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
                let x = (*init.expr).clone();
                if i.mutability.is_none() && matches!(strip(&x), Expr::MethodCall(_)) && kind(&x, self.c) == Kind::Iter {
                    if let Some(ch) = self.chain(&x) {
                        *init.expr = self.materialize(ch);
                        self.c.note("iterator kept in a variable replaced by the vector of what it gives");
                        return;
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn chain(&mut self, e: &Expr) -> Option<Chain> {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let recv = (*m.receiver).clone();
                match n.as_str() {
                    "into_iter" if m.args.is_empty() => {
                        if let Some(ch) = self.chain(&recv) {
                            return Some(ch);
                        }
                        let mut r = recv;
                        self.expr(&mut r);
                        if self.c.intoiter {
                            r = parse_quote!(vx_seq(#r));
                        }
                        Some(Chain { src: r, map: None })
                    }
                    "into_pairs" if m.args.is_empty() => {
                        let mut r = recv;
                        self.expr(&mut r);
                        Some(Chain { src: parse_quote!(#r.into_pairs()), map: None })
                    }
                    "iter" if m.args.is_empty() => {
                        let mut r = recv;
                        if let Expr::Array(a) = strip(&r).clone() {
                            r = self.array(&a);
                        } else {
                            self.expr(&mut r);
                        }
                        Some(Chain { src: parse_quote!(vx_refs(&#r)), map: None })
                    }
                    "chars" if m.args.is_empty() => {
                        let mut r = recv;
                        self.expr(&mut r);
                        if self.c.collectinto {
                            return Some(Chain { src: parse_quote!(vx_chars(&#r)), map: None });
                        }
                        Some(Chain { src: parse_quote!(#r.chars()), map: None })
                    }
                    "enumerate" | "rev" | "copied" | "cloned" if m.args.is_empty() => {
                        if n == "copied" || n == "cloned" {
                            if kind(&recv, self.c) != Kind::Iter {
                                return None;
                            }
                        }
                        let ch = self.chain(&recv)?;
                        let v = self.materialize(ch);
                        self.c.note("closure-free iterator adaptor replaced by a verified function on vectors");
                        let f = format_ident!("vx_{}", n);
                        Some(Chain { src: parse_quote!(#f(#v)), map: None })
                    }
                    "filter" if m.args.len() == 1 && kind(&recv, self.c) == Kind::Iter => {
                        let mut x = strip(e).clone();
                        self.expr(&mut x);
                        Some(Chain { src: parse_quote!(vx_same(#x)), map: None })
                    }
                    "flat_map" if m.args.len() == 1 && kind(&recv, self.c) == Kind::Iter => {
                        let ch = self.chain(&recv)?;
                        let v = self.materialize(ch);
                        let (p, mut b) = closure_parts(&m.args[0], self.c);
                        if has_q(&b) {
                            return None;
                        }
                        let k = self.c.fresh();
                        self.expr(&mut b);
                        let out = format_ident!("__out{}", k);
                        let it = format_ident!("it{}", k);
                        let x = format_ident!("__x_{}", k);
                        self.c.note("flat_map replaced by a loop");
                        Some(Chain { src: parse_quote!(vx_same({ let mut #out = Vec::new(); for #x in __vx_iter!(#it; #v) { __vx_loop!{#k}; let #p = #x; let mut __y = #b; #out.append(&mut __y); } #out })), map: None })
                    }
                    n if self.c.vec_fns.contains(n) => {
                        let mut x = strip(e).clone();
                        self.expr(&mut x);
                        Some(Chain { src: parse_quote!(vx_same(#x)), map: None })
                    }
                    "zip" | "chain" => {
                        let ch = self.chain(&recv)?;
                        let v = self.materialize(ch);
                        let a = m.args[0].clone();
                        let w = match self.chain(&a) {
                            Some(ch) => self.materialize(ch),
                            None => {
                                let mut a = a;
                                self.expr(&mut a);
                                match &a {
                                    Expr::Reference(r) if n == "zip" && r.mutability.is_none() => {
                                        let r = &r.expr;
                                        parse_quote!(vx_refs(&#r))
                                    }
                                    _ => a,
                                }
                            }
                        };
                        self.c.note("closure-free iterator adaptor replaced by a verified function on vectors");
                        let f = format_ident!("vx_{}", n);
                        Some(Chain { src: parse_quote!(#f(#v, #w)), map: None })
                    }
                    "map" if matches!(kind(&recv, self.c), Kind::Iter) => {
                        let mut ch = self.chain(&recv)?;
                        if ch.map.is_some() {
                            let v = self.materialize(ch);
                            ch = Chain { src: v, map: None };
                        }
                        let (p, b) = closure_parts(&m.args[0], self.c);
                        ch.map = Some((p, b));
                        Some(ch)
                    }
                    _ => None,
                }
            }
            Expr::Call(k) => {
                let p = toks(&k.func);
                if p == "iter::once" || p == "std::iter::once" {
                    let mut a = k.args[0].clone();
                    self.expr(&mut a);
                    return Some(Chain { src: parse_quote!(vx_once(#a)), map: None });
                }
                if self.c.vec_fns.contains(p.rsplit("::").next().unwrap()) {
                    let mut x = strip(e).clone();
                    self.expr(&mut x);
                    return Some(Chain { src: parse_quote!(vx_same(#x)), map: None });
                }
                None
            }
            Expr::Path(_) => {
                if kind(e, self.c) == Kind::Iter {
                    return Some(Chain { src: e.clone(), map: None });
                }
                None
            }
            _ => None,
        }
    }

    fn array(&mut self, a: &ExprArray) -> Expr {
        let mut stmts: Vec<Stmt> = vec![parse_quote!(let mut __a = Vec::new();)];
        for x in &a.elems {
            let mut x = x.clone();
            self.expr(&mut x);
            stmts.push(parse_quote!(__a.push(#x);));
        }
        self.c.note("array iterator replaced by a vector");
        parse_quote!({ #(#stmts)* __a })
    }

    /// A function that returns a lazy iterator returns the vector of its items.
    pub fn ret_vec(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
            let n = b.stmts.len();
            let mut head = Block { brace_token: b.brace_token, stmts: b.stmts[..n - 1].to_vec() };
            self.visit_block_mut(&mut head);
            if let Some(ch) = self.chain(&e) {
                let v = self.materialize(ch);
                self.c.note("returned iterator replaced by the vector of its items");
                head.stmts.push(Stmt::Expr(v, None));
                *b = head;
                return;
            }
        }
        self.c.errors.push("no iterator is returned".into());
    }

    /// A Vec with the chain's items.
    fn materialize(&mut self, ch: Chain) -> Expr {
        match ch.map {
            None => ch.src,
            Some(_) => self.collect_vec(ch),
        }
    }

    fn collect_vec(&mut self, ch: Chain) -> Expr {
        match ch.map {
            None => {
                let s = ch.src;
                if let Expr::Call(_) = &s {
                    return s; // already a Vec
                }
                parse_quote!(vx_collect(#s))
            }
            Some((pat, mut body)) => {
                let k = self.c.fresh();
                self.c.note("map(closure).collect() replaced by a loop");
                let out = format_ident!("__out{}", k);
                let it = format_ident!("it{}", k);
                let x = format_ident!("__x_{}", k);
                let s = ch.src;
                if has_q(&body) {
                    body = closureize(body, self.c);
                }
                self.expr(&mut body);
                parse_quote!({
                    let mut #out = Vec::new();
                    for #x in __vx_iter!(#it; #s) { __vx_loop!{#k}; let #pat = #x; let __y = #body; #out.push(__y); }
                    #out
                })
            }
        }
    }

    fn collect_res(&mut self, ch: Chain) -> Expr {
        match ch.map {
            None => {
                let s = ch.src;
                parse_quote!(vx_collect_res(#s))
            }
            Some((pat, body)) => {
                let k = self.c.fresh();
                self.c.note("map(closure).collect::<Result<_, _>>() replaced by a loop that stops working at the first error");
                let out = format_ident!("__out{}", k);
                let err = format_ident!("__err{}", k);
                let it = format_ident!("it{}", k);
                let x = format_ident!("__x_{}", k);
                let s = ch.src;
                let mut body = closureize(body, self.c);
                self.expr(&mut body);
                parse_quote!({
                    let mut #out = Vec::new();
                    let mut #err = None;
                    for #x in __vx_iter!(#it; #s) {
                        __vx_loop!{#k};
                        if #err.is_none() {
                            let #pat = #x;
                            match #body { Ok(__v) => { #out.push(__v); } Err(__e) => { #err = Some(__e); } }
                        }
                    }
                    match #err { None => Ok(#out), Some(__e) => Err(__e) }
                })
            }
        }
    }

    fn visitor_target(&mut self, a: &Expr) -> Option<String> {
        match strip(a) {
            Expr::Path(p) => {
                if p.path.is_ident("self") {
                    return self.c.self_visitor.clone();
                }
                self.c.param_visitor.clone()
            }
            Expr::Reference(r) => match strip(&r.expr) {
                Expr::Struct(s) => s.path.segments.last().map(|s| s.ident.to_string()),
                Expr::Path(p) => {
                    let i = p.path.segments.last().unwrap().ident.to_string();
                    if let Some(init) = self.c.lets.get(&i) {
                        if let Expr::Struct(s) = strip(init) {
                            return s.path.segments.last().map(|s| s.ident.to_string());
                        }
                    }
                    Some(i)
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn inline_call(&mut self, recv: Expr, f: &Found, args: Vec<Expr>) -> Expr {
        self.c.note(&format!("call of {} inlined", f.sig.ident));
        if self.c.inline_depth > 6 {
            self.c.errors.push(format!("recursive helper function {}", f.sig.ident));
            return parse_quote!(());
        }
        let args_have_closure = args.iter().any(|a| matches!(strip(a), Expr::Closure(_)));
        let mut map = HashMap::new();
        map.insert("self".to_string(), recv.clone());
        let mut pre: Vec<Stmt> = Vec::new();
        let mut closures: HashMap<String, ExprClosure> = HashMap::new();
        let mut ai = args.into_iter();
        let by_let = !args_have_closure && rebinds(f);
        let mut binds: Vec<Stmt> = Vec::new();
        for inp in &f.sig.inputs {
            if let FnArg::Typed(t) = inp {
                let a = match ai.next() {
                    Some(a) => a,
                    None => {
                        self.c.errors.push("argument count of inlined call".into());
                        return parse_quote!(());
                    }
                };
                let name = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => {
                        self.c.errors.push("pattern parameter of inlined function".into());
                        return parse_quote!(());
                    }
                };
                let lent = match &*t.ty {
                    Type::Reference(r) => r.mutability.is_some(),
                    Type::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "ParseStream"),
                    _ => false,
                };
                if let Expr::Closure(cl) = strip(&a) {
                    closures.insert(name, cl.clone());
                } else if lent && !by_let && matches!(ident_of(&a), Some(i) if !binds_name(&f.block, &i)) {
                    // a mutable reference is lent for the call
                    map.insert(name, a);
                } else {
                    let n = format_ident!("__in_{}", name);
                    pre.push(parse_quote!(let #n = #a;));
                    if by_let {
                        let p = &t.pat;
                        binds.push(parse_quote!(let #p = #n;));
                    } else {
                        map.insert(name, parse_quote!(#n));
                    }
                }
            }
        }
        let mut block = f.block.clone();
        // f(self) calls
        struct Calls<'a>(&'a HashMap<String, ExprClosure>, Vec<String>, Vec<(Expr, Expr)>);
        impl VisitMut for Calls<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(k) = e {
                    if let Some(i) = ident_of(&k.func) {
                        if let Some(cl) = self.0.get(&i) {
                            let mut pre: Vec<Stmt> = Vec::new();
                            for (p, a) in cl.inputs.iter().zip(k.args.iter()) {
                                let p = match p {
                                    Pat::Type(t) => (*t.pat).clone(),
                                    p => p.clone(),
                                };
                                if ident_of(a).as_deref() == Some("self") {
                                    pre.push(parse_quote!(let #p = &mut *self;));
                                } else {
                                    pre.push(parse_quote!(let #p = #a;));
                                }
                            }
                            let body = &cl.body;
                            self.1.push(i);
                            let new: Expr = parse_quote!({ #(#pre)* __vx_closure_body!{ #body } });
                            *e = new;
                        }
                    }
                }
            }
        }
        let mut cs = Calls(&closures, vec![], vec![]);
        cs.visit_block_mut(&mut block);
        // substitute self and parameters outside closure bodies (they hide in a macro)
        SubstIdents(map).visit_block_mut(&mut block);
        // reveal closure bodies
        struct Reveal<'a>(&'a mut Cfg);
        impl VisitMut for Reveal<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Macro(m) = e {
                    if m.mac.path.is_ident("__vx_closure_body") {
                        let b: Expr = parse2(m.mac.tokens.clone()).unwrap();
                        *e = closureize(b, self.0);
                    }
                }
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                for s in &mut b.stmts {
                    if let Stmt::Macro(m) = s {
                        if m.mac.path.is_ident("__vx_closure_body") {
                            let x: Expr = parse2(m.mac.tokens.clone()).unwrap();
                            let x = closureize(x, self.0);
                            *s = Stmt::Expr(x, m.semi_token);
                            continue;
                        }
                    }
                }
                visit_mut::visit_block_mut(self, b);
            }
        }
        Reveal(self.c).visit_block_mut(&mut block);
        let stmts = block.stmts;
        let mut out: Expr = parse_quote!({ #(#pre)* #(#binds)* #(#stmts)* });
        self.c.inline_depth += 1;
        self.expr(&mut out);
        self.c.inline_depth -= 1;
        out
    }

    /// A call of a helper function whose body holds `?` or `return`.
    fn inline_q(&mut self, e: &Expr, tried: bool) -> Option<Expr> {
        let (recv, mut f, args): (Expr, Found, Vec<Expr>) = match e {
            Expr::Call(k) => {
                let f = self.c.inlines_q.get(&toks(&k.func))?.clone();
                (parse_quote!(self), f, k.args.iter().cloned().collect())
            }
            Expr::MethodCall(m) => {
                let f = self.c.inlines_q.get(&format!(".{}", m.method))?.clone();
                ((*m.receiver).clone(), f, m.args.iter().cloned().collect())
            }
            _ => return None,
        };
        if tried && returns_errors_only(&f.block) {
            f.block = tail_block(f.block);
            return Some(self.inline_call(recv, &f, args));
        }
        let body = closureize_stmts(f.block.stmts.clone(), self.c);
        f.block = parse_quote!({ #body });
        let x = self.inline_call(recv, &f, args);
        Some(if tried { parse_quote!((#x)?) } else { x })
    }

    /// `write!` and `format!` as the calls they stand for.
    fn fmt_macro(&mut self, name: &str, mut a: Vec<Expr>) -> Option<Expr> {
        let to: Option<Expr> = if name == "write" {
            let mut f = a.remove(0);
            self.expr(&mut f);
            Some(f)
        } else {
            None
        };
        let lit = match a.remove(0) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => {
                self.c.errors.push("format string is not a literal".into());
                return None;
            }
        };
        // text and holes
        let mut parts: Vec<(String, Option<(bool, Expr)>)> = vec![];
        let mut text = String::new();
        let mut next = 0;
        let mut it = lit.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' | '}' if it.peek() == Some(&c) => {
                    it.next();
                    text.push(c);
                }
                '{' => {
                    let mut inner = String::new();
                    for c in it.by_ref() {
                        if c == '}' {
                            break;
                        }
                        inner.push(c);
                    }
                    let (arg, spec) = inner.split_once(':').unwrap_or((&inner, ""));
                    let debug = match spec {
                        "" => false,
                        "?" => true,
                        _ => {
                            self.c.errors.push(format!("format specification {}", spec));
                            return None;
                        }
                    };
                    let x = if arg.is_empty() {
                        next += 1;
                        a.get(next - 1).cloned()
                    } else if let Ok(n) = arg.parse::<usize>() {
                        a.get(n).cloned()
                    } else {
                        a.iter()
                            .find_map(|x| match x {
                                Expr::Assign(y) if ident_of(&y.left).as_deref() == Some(arg) => Some((*y.right).clone()),
                                _ => None,
                            })
                            .or_else(|| parse_str::<Expr>(arg).ok())
                    };
                    let mut x = match x {
                        Some(x) => x,
                        None => {
                            self.c.errors.push("format argument".into());
                            return None;
                        }
                    };
                    self.expr(&mut x);
                    parts.push((std::mem::take(&mut text), Some((debug, x))));
                }
                c => text.push(c),
            }
        }
        if !text.is_empty() {
            parts.push((text, None));
        }
        self.c.note("write!/format! written as the calls it stands for");
        let f = match to {
            Some(f) => f,
            None => {
                if parts.len() == 1 && parts[0].0.is_empty() {
                    if let Some((false, x)) = &parts[0].1 {
                        return Some(parse_quote!(vx_text(&#x)));
                    }
                }
                self.c.errors.push("format! of more than one value".into());
                return None;
            }
        };
        let mut calls: Vec<Expr> = vec![];
        for (t, hole) in parts {
            if !t.is_empty() {
                calls.push(parse_quote!(({ __vx_reveal!(#t); vx_put(#f, #t) })));
            }
            match hole {
                Some((true, x)) => calls.push(parse_quote!(vx_debug(&#x, #f))),
                Some((false, x)) => calls.push(parse_quote!(vx_show(&#x, #f))),
                None => {}
            }
        }
        let mut out: Expr = calls.pop().unwrap_or_else(|| parse_quote!(Ok(())));
        for c in calls.into_iter().rev() {
            out = parse_quote!(match #c { Ok(_) => #out, Err(__e) => Err(__e) });
        }
        Some(out)
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name.starts_with("__vx") {
            return None;
        }
        let args = || -> Option<Vec<Expr>> {
            use syn::punctuated::Punctuated;
            let p = Punctuated::<Expr, Token![,]>::parse_terminated;
            let p = syn::parse::Parser::parse2(p, m.tokens.clone()).ok()?;
            Some(p.into_iter().collect())
        };
        if self.c.fmtwrite && (name == "write" || name == "format") {
            return self.fmt_macro(&name, args()?);
        }
        match name.as_str() {
            "assert_eq" => {
                let a = args()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.expr(&mut x);
                self.expr(&mut y);
                self.c.note("assert_eq! turned into an obligation that the two sides are equal");
                Some(parse_quote!({ let __l = #x; let __r = #y; vx_assert(__l == __r) }))
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                self.c.note("debug assertion dropped");
                Some(parse_quote!(()))
            }
            "assert_ne" => {
                let a = args()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.expr(&mut x);
                self.expr(&mut y);
                self.c.note("assert_ne! turned into an obligation that the two sides differ");
                Some(parse_quote!({ let __l = #x; let __r = #y; vx_assert(__l != __r) }))
            }
            "assert" => {
                let a = args()?;
                let mut x = a[0].clone();
                self.expr(&mut x);
                if self.c.partial {
                    self.c.note("assert! taken not to return when it fails (partial)");
                    return Some(parse_quote!(if !(#x) { vx_diverge() }));
                }
                self.c.note("assert! turned into an obligation");
                Some(parse_quote!(vx_assert(#x)))
            }
            "panic" | "todo" if self.c.partial => {
                self.c.note("panic!/todo! taken not to return (partial)");
                Some(parse_quote!(vx_diverge()))
            }
            "unreachable" | "panic" | "todo" => {
                self.c.note("unreachable!/panic!/todo! turned into an obligation that it is not reached");
                Some(parse_quote!(vx_unreachable()))
            }
            "matches" => {
                let ts: TokenStream = m.tokens.clone();
                // matches!(e, pat [if guard])
                let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
                let i = v.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ','))?;
                let e: TokenStream = v[..i].iter().cloned().collect();
                let mut p: Vec<_> = v[i + 1..].to_vec();
                if let Some(proc_macro2::TokenTree::Punct(q)) = p.last() {
                    if q.as_char() == ',' {
                        p.pop();
                    }
                }
                let p: TokenStream = p.into_iter().collect();
                let mut x: Expr = parse2(quote!(match #e { #p => true, _ => false })).ok()?;
                self.expr(&mut x);
                Some(x)
            }
            "quote" | "quote_spanned" => {
                self.c.note("quote! template replaced by its summary (type definitions, their parts and their types; the rest dropped)");
                match crate::tpl::summary(m.tokens.clone(), name == "quote_spanned") {
                    Ok(e) => Some(e),
                    Err(x) => {
                        self.c.errors.push(format!("template: {}", x));
                        None
                    }
                }
            }
            _ => {
                let f = self.c.macros.get(&name)?.clone();
                self.c.note(&format!("macro {}! replaced by trusted function {}", name, f));
                if f.ends_with("()") {
                    let e: Expr = parse_str(&f).ok()?;
                    return Some(e);
                }
                let mut a = args()?;
                for x in &mut a {
                    if let Expr::Assign(s) = x {
                        *x = (*s.right).clone();
                    }
                    self.expr(x);
                }
                let f: Expr = parse_str(&f).ok()?;
                Some(parse_quote!(#f(#(#a),*)))
            }
        }
    }

    /// `let x; let p = parenthesized!(x in input);`: the stream of the group is dropped at the end of the block, where syn
    /// notes what was left in it.
    fn groups(&mut self, b: &mut Block) {
        let mut closes: Vec<(Ident, Ident)> = vec![];
        let mut out: Vec<Stmt> = vec![];
        for st in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &st {
                if let Some(init) = &l.init {
                    if let Expr::Macro(m) = strip(&init.expr) {
                        if m.mac.path.segments.last().unwrap().ident == "parenthesized" {
                            let v: Vec<String> = m.mac.tokens.clone().into_iter().map(|t| t.to_string()).collect();
                            if v.len() == 3 && v[1] == "in" {
                                let (x, i) = (format_ident!("{}", v[0]), format_ident!("{}", v[2]));
                                out.retain(|s| !matches!(s, Stmt::Local(l) if l.init.is_none() && toks(&l.pat) == v[0]));
                                let g = format_ident!("__group{}", closes.len());
                                let p = &l.pat;
                                self.c.note("parenthesized! replaced by the trusted functions vx_open and vx_close (what is left in the group is an error)");
                                out.push(parse_quote!(let (#p, mut #g) = vx_open(#i)?;));
                                out.push(parse_quote!(let #x = &mut #g;));
                                closes.push((i, g));
                                continue;
                            }
                        }
                    }
                }
            }
            out.push(st);
        }
        if !closes.is_empty() {
            match out.pop() {
                Some(Stmt::Expr(t, None)) => {
                    out.push(parse_quote!(let __tail = #t;));
                    for (i, g) in closes.iter().rev() {
                        out.push(parse_quote!(vx_close(#i, #g);));
                    }
                    out.push(Stmt::Expr(parse_quote!(__tail), None));
                }
                _ => self.c.errors.push("parenthesized! in a block without a result".into()),
            }
        }
        b.stmts = out;
    }

    /// Calls of syn's stream and quote's traits.
    fn syn_expr(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        let n = m.method.to_string();
        let r = &m.receiver;
        if n == "peek" && m.args.len() == 1 {
            let a = toks(&m.args[0]);
            let k = match a.strip_prefix("Token![").or_else(|| a.strip_prefix("Token!(")) {
                Some(t) => match &t[..t.len() - 1] {
                    "_" => "Underscore", "!" => "Bang", "." => "Dot", "|" => "Bar", ":" => "Colon", "/" => "Slash", ";" => "Semi",
                    "=" => "Eq", "match" => "Match", "let" => "Let", _ => "",
                },
                None => match a.rsplit("token::").next().unwrap() {
                    "LitStr" | "Literal" => "Lit", "Paren" => "Paren", "Let" => "Let", "Match" => "Match", "Ident::peek_any" => "AnyIdent", "Ident" => "Ident",
                    "Underscore" => "Underscore", _ => "",
                },
            };
            if k.is_empty() {
                self.c.errors.push(format!("unknown token in peek: {}", a));
                return None;
            }
            let k = format_ident!("{}", k);
            self.c.note("the token looked for by peek named by its kind");
            return Some(parse_quote!(#r.peek(Pk::#k)));
        }
        if n == "call" && m.args.len() == 1 {
            let a = &m.args[0];
            let t = toks(a);
            self.c.note("input.call(f) written as f(input)");
            if let Some(ty) = t.strip_suffix("::parse") {
                let ty: Type = parse_str(ty).ok()?;
                return Some(parse_quote!(#r.parse::<#ty>()));
            }
            return Some(parse_quote!(#a(#r)));
        }
        if n == "surround" && m.args.len() == 2 {
            if let Expr::Closure(c) = strip(&m.args[1]) {
                let (t, b, p) = (&m.args[0], &c.body, &c.inputs[0]);
                self.c.note("surround(tokens, closure) replaced by a call of the trusted function vx_surround on what the closure writes");
                return Some(parse_quote!({ let mut __inner = TokenStream::new(); { let #p = &mut __inner; #b }; vx_surround(&#r, #t, __inner) }));
            }
        }
        None
    }

    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        let pat = (*f.pat).clone();
        let k = self.c.fresh();
        let it = format_ident!("it{}", k);
        let x = format_ident!("__x_{}", k);
        let mut src = (*f.expr).clone();
        let mut body = f.body.clone();
        // what to iterate
        let by_mut = match strip(&src) {
            Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
            Expr::MethodCall(m) if m.method == "iter_mut" => Some((*m.receiver).clone()),
            _ if self.c.for_index_mut.contains(&k) => Some(src.clone()),
            _ => None,
        };
        if let Some(mut v) = by_mut {
            self.c.note("for loop over mutable references turned into an index loop");
            let is_place_ref = self.c.for_index_mut.contains(&k);
            self.expr(&mut v);
            let vv = format_ident!("__v{}", k);
            let ii = format_ident!("__i{}", k);
            let pp = format_ident!("__p{}", k);
            let key = format_ident!("__ghost{}", k);
            self.c.texts.raw.insert(key.to_string(), format!("let ghost __orig{} = __v{}@;", k, k));
            self.visit_block_mut(&mut body);
            let stmts = body.stmts;
            let init: Expr = if is_place_ref { parse_quote!(#v) } else { parse_quote!(&mut #v) };
            return parse_quote!({
                let #vv = #init;
                let mut #ii: usize = 0;
                __vx_raw!{#key};
                while #ii < #vv.len() {
                    __vx_loop!{#k};
                    let #pp = &mut #vv[#ii];
                    #ii += 1;
                    let #pat = #pp;
                    #(#stmts)*
                }
            });
        }
        if let Expr::Reference(r) = strip(&src).clone() {
            let mut v = *r.expr;
            self.expr(&mut v);
            src = parse_quote!(vx_refs(&#v));
        } else if let Some(ch) = self.chain(&src) {
            src = self.materialize(ch);
        } else {
            self.expr(&mut src);
            if self.c.intoiter && !matches!(strip(&src), Expr::Range(_)) {
                src = parse_quote!(vx_seq(#src));
            }
        }
        self.visit_block_mut(&mut body);
        let stmts = body.stmts;
        let end: Stmt = parse_quote!(__vx_raw!{ __end };);
        let _ = end;
        parse_quote!(for #x in __vx_iter!(#it; #src) { __vx_loop!{#k}; let #pat = #x; #(#stmts)* })
    }
}

fn add_marker(b: &mut Block, k: usize) {
    let m: Stmt = parse_quote!(__vx_loop!{#k};);
    b.stmts.insert(0, m);
}

impl VisitMut for Rw<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = toks(t);
        for (a, b) in self.c.tymap.clone() {
            if squash(&a) == s {
                *t = parse_str(&b).expect("bad type in ty option");
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        let s = toks(p);
        for (a, b) in self.c.pathmap.clone() {
            if squash(&a) == s {
                *p = parse_str(&b).expect("bad path in path option");
                return;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        // a shadowed name in its own definition is another variable
        struct Old<'a>(&'a Ident, bool);
        impl VisitMut for Old<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Path(p) = e {
                    if p.path.is_ident(self.0) {
                        *e = parse_quote!(__shadowed);
                        self.1 = true;
                    }
                }
            }
        }
        if let Some(init) = &l.init {
            let p = match &l.pat {
                Pat::Type(t) => &t.pat,
                p => p,
            };
            if let Pat::Ident(i) = p {
                let name = i.ident.clone();
                let mut x = (*init.expr).clone();
                let mut old = Old(&name, false);
                old.visit_expr_mut(&mut x);
                if old.1 {
                    self.local(l);
                    self.c.lets.insert(name.to_string(), x);
                    return;
                }
                self.c.lets.insert(name.to_string(), x);
            }
        }
        self.local(l);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.macro_expr(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token);
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // nested functions are listed in the template on their own; constants become variables
        let consts: Vec<ItemConst> = b.stmts.iter().filter_map(|s| if let Stmt::Item(Item::Const(k)) = s { Some(k.clone()) } else { None }).collect();
        b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
        for k in consts.iter().rev() {
            if binds(b, &k.ident) {
                self.c.errors.push(format!("constant {} used as a pattern", k.ident));
                continue;
            }
            let (n, t, e) = (&k.ident, &k.ty, &k.expr);
            self.c.note("local constant turned into a variable");
            b.stmts.insert(0, parse_quote!(let #n: #t = #e;));
        }
        if self.c.synread {
            self.groups(b);
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.c.synread {
            if let Some(x) = self.syn_expr(e) {
                *e = x;
            }
        }
        if let Expr::Match(m) = e {
            if self.c.liftguard && m.arms.len() == 2 && m.arms[0].guard.is_some() && m.arms[1].guard.is_none()
                && matches!(m.arms[1].pat, Pat::Wild(_)) && is_place(&m.expr)
            {
                let (s, p, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].body, &m.arms[1].body);
                let g = &m.arms[0].guard.as_ref().unwrap().1;
                self.c.note("match guard tested before the match (place P if G => A, _ => B turned into if G {match P => A} else B)");
                *e = parse_quote!(if match &#s { #p => #g, _ => false } { match #s { #p => #a, _ => vx_unreached() } } else { #b });
            }
        }
        if let Expr::Match(m) = e {
            let k = m.arms.len();
            let plain = |p: &Pat| matches!(p, Pat::Wild(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() && i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()));
            if self.c.copyguard && k >= 2 && m.arms[k - 2].guard.is_some() && m.arms[k - 1].guard.is_none() && plain(&m.arms[k - 1].pat) {
                // the last arm is what is left when the guard fails
                let v = format_ident!("__m{}", self.c.tmp());
                let g = m.arms[k - 2].guard.take().unwrap().1;
                let a = m.arms[k - 2].body.clone();
                let (p, b) = (m.arms[k - 1].pat.clone(), m.arms[k - 1].body.clone());
                *m.arms[k - 2].body = parse_quote!(if #g { #a } else { let #p = #v; #b });
                let x = m.expr.clone();
                *m.expr = parse_quote!(#v);
                self.c.note("guard of the last arm but one turned into an if (the value is a copy)");
                *e = parse_quote!({ let #v = #x; #m });
            }
        }
        if let Expr::Let(l) = e {
            if let (Pat::Slice(p), Expr::Index(i)) = (&*l.pat, strip(&l.expr)) {
                let full = matches!(strip(&i.index), Expr::Range(r) if r.start.is_none() && r.end.is_none());
                if full && p.elems.len() == 1 && matches!(p.elems[0], Pat::Ident(_)) {
                    let (x, v) = (&p.elems[0], &i.expr);
                    self.c.note("`let [x] = v[..]` routed to a verified function");
                    *e = parse_quote!(let Some(#x) = vx_only(&#v));
                }
            }
        }
        let mut replaced: Option<Expr> = None;
        match e {
            Expr::Macro(m) => {
                if let Some(x) = self.macro_expr(&m.mac.clone()) {
                    *e = x;
                }
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(f);
                return;
            }
            Expr::While(w) => {
                let k = self.c.fresh();
                visit_mut::visit_expr_while_mut(self, w);
                add_marker(&mut w.body, k);
                return;
            }
            Expr::Loop(w) => {
                let k = self.c.fresh();
                visit_mut::visit_expr_loop_mut(self, w);
                add_marker(&mut w.body, k);
                return;
            }
            Expr::Reference(r) if self.c.strslice && matches!(strip(&r.expr), Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_))) => {
                if let Expr::Index(i) = strip(&r.expr).clone() {
                    if let Expr::Range(rg) = strip(&i.index) {
                        if let (None, Some(end)) = (&rg.start, &rg.end) {
                            let (mut b, mut n) = ((*i.expr).clone(), (**end).clone());
                            self.expr(&mut b);
                            self.expr(&mut n);
                            self.c.note("&s[..n] routed to vx_prefix (trusted contract of str slicing)");
                            *e = parse_quote!(vx_prefix(#b, #n));
                            return;
                        }
                    }
                }
            }
            Expr::Binary(b) if self.c.boolops && matches!(b.op, BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAnd(_) | BinOp::BitOr(_)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.expr(&mut l);
                self.expr(&mut r);
                self.c.note("strict boolean operator turned into a lazy one on evaluated operands");
                *e = match b.op {
                    BinOp::BitAndAssign(_) => parse_quote!({ let __b: bool = #r; #l = #l && __b; }),
                    BinOp::BitOrAssign(_) => parse_quote!({ let __b: bool = #r; #l = #l || __b; }),
                    BinOp::BitAnd(_) => parse_quote!({ let __a: bool = #l; let __b: bool = #r; __a && __b }),
                    _ => parse_quote!({ let __a: bool = #l; let __b: bool = #r; __a || __b }),
                };
                return;
            }
            Expr::Binary(b) if self.c.eqcall && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.expr(&mut l);
                self.expr(&mut r);
                self.c.note("== is a call of the type's equality");
                *e = match b.op {
                    BinOp::Eq(_) => parse_quote!(vx_eq(&(#l), &(#r))),
                    _ => parse_quote!((!vx_eq(&(#l), &(#r)))),
                };
                return;
            }
            Expr::Binary(b) if self.c.addcheck && matches!(b.op, BinOp::AddAssign(_) | BinOp::Add(_)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.expr(&mut l);
                self.expr(&mut r);
                self.c.note("usize addition routed to vx_add, which does not return on overflow");
                *e = match b.op {
                    BinOp::AddAssign(_) => parse_quote!({ #l = vx_add(#l, #r); }),
                    _ => parse_quote!(vx_add(#l, #r)),
                };
                return;
            }
            Expr::Binary(b)
                if self.c.arithcheck
                    && matches!(b.op, BinOp::AddAssign(_) | BinOp::Add(_) | BinOp::SubAssign(_) | BinOp::Sub(_) | BinOp::MulAssign(_) | BinOp::Mul(_) | BinOp::DivAssign(_) | BinOp::Div(_)) =>
            {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.expr(&mut l);
                self.expr(&mut r);
                self.c.note("arithmetic routed to functions that do not return on overflow or division by zero");
                let f: syn::Ident = match b.op {
                    BinOp::AddAssign(_) | BinOp::Add(_) => parse_quote!(vx_plus),
                    BinOp::SubAssign(_) | BinOp::Sub(_) => parse_quote!(vx_minus),
                    BinOp::MulAssign(_) | BinOp::Mul(_) => parse_quote!(vx_times),
                    _ => parse_quote!(vx_over),
                };
                *e = match b.op {
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) => {
                        // the right operand of a compound assignment is evaluated first
                        parse_quote!({ let __b = #r; #l = #f(#l, __b); })
                    }
                    _ => parse_quote!(#f(#l, #r)),
                };
                return;
            }
            Expr::Unary(u) if self.c.arithcheck && matches!(u.op, UnOp::Neg(_)) && !matches!(&*u.expr, Expr::Lit(_)) => {
                let mut x = (*u.expr).clone();
                self.expr(&mut x);
                self.c.note("arithmetic routed to functions that do not return on overflow or division by zero");
                *e = parse_quote!(vx_minus(0, #x));
                return;
            }
            Expr::Closure(cl) if self.c.closurespec.is_some() && cl.inputs.len() == 1 && !matches!(&*cl.body, Expr::Block(_)) => {
                let types = self.c.closurespec.clone().unwrap();
                let (a, b) = types.split_once(' ').expect("closurespec ARGTYPE RESULTTYPE");
                let (a, b): (syn::Type, syn::Type) = (syn::parse_str(a).unwrap(), syn::parse_str(b).unwrap());
                let pat = match &cl.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let mut body = (*cl.body).clone();
                self.expr(&mut body);
                self.c.note("closure passed on: its body is its contract");
                *e = Expr::Verbatim(quote::quote!(|#pat: #a| -> (__c: #b) ensures __c == (#body) { #body }));
                return;
            }
            Expr::Try(t) if !self.c.inlines_q.is_empty() && matches!(strip(&t.expr), Expr::Call(_) | Expr::MethodCall(_)) && {
                let x = strip(&t.expr).clone();
                replaced = if self.c.qmark_from { None } else { self.inline_q(&x, true) };
                replaced.is_some()
            } => {
                *e = replaced.unwrap();
                return;
            }
            Expr::Try(t) if self.c.qmark_from => {
                let mut x = (*t.expr).clone();
                self.expr(&mut x);
                self.c.note("`?` with an error conversion turned into a match");
                *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(__e.into()) });
                return;
            }
            Expr::Call(k) => {
                let p = toks(&k.func);
                if self.c.vec_fns.contains(p.rsplit("::").next().unwrap()) {
                    for a in k.args.iter_mut() {
                        let x = a.clone();
                        if let Some(ch) = self.chain(&x) {
                            *a = self.materialize(ch);
                        } else {
                            self.expr(a);
                        }
                    }
                    return;
                }
                if p.ends_with("IntoIter::new") {
                    if let Some(Expr::Array(a)) = k.args.first() {
                        let mut stmts: Vec<Stmt> = vec![parse_quote!(let mut __a = Vec::new();)];
                        for x in &a.elems {
                            let mut x = x.clone();
                            self.expr(&mut x);
                            stmts.push(parse_quote!(__a.push(#x);));
                        }
                        self.c.note("array iterator replaced by a vector");
                        *e = parse_quote!({ #(#stmts)* __a });
                        return;
                    }
                }
                if let Some(x) = self.inline_q(&Expr::Call(k.clone()), false) {
                    *e = x;
                    return;
                }
                if let Some(f) = self.c.inlines.get(&p).cloned() {
                    let args: Vec<Expr> = k.args.iter().cloned().collect();
                    *e = self.inline_call(parse_quote!(self), &f, args);
                    return;
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // visitor dispatch
                if self.c.visitors.contains(&n) && m.args.len() == 1 {
                    if !matches!(strip(&m.args[0]), Expr::Closure(_)) && !(n == "map" && matches!(kind(&m.receiver, self.c), Kind::Iter | Kind::Opt | Kind::Res)) {
                        if let Some(t) = self.visitor_target(&m.args[0].clone()) {
                            m.method = format_ident!("{}_{}", n, t);
                            m.turbofish = None;
                            self.c.note("visitor dispatch resolved to the visitor's type");
                            visit_mut::visit_expr_method_call_mut(self, m);
                            return;
                        }
                    }
                }
                if let Some(x) = self.inline_q(&Expr::MethodCall(m.clone()), false) {
                    *e = x;
                    return;
                }
                if let Some(f) = self.c.inlines.get(&format!(".{}", n)).cloned() {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    let recv = (*m.receiver).clone();
                    *e = self.inline_call(recv, &f, args);
                    return;
                }
                if self.c.vec_fns.contains(&n) {
                    self.expr(&mut m.receiver);
                    for a in m.args.iter_mut() {
                        let x = a.clone();
                        if let Some(ch) = self.chain(&x) {
                            *a = self.materialize(ch);
                        } else {
                            self.expr(a);
                        }
                    }
                    return;
                }
                if n == "starts_with" && m.args.len() == 1 && matches!(strip(&m.args[0]), Expr::Closure(_)) {
                    let (p, b) = closure_parts(&m.args[0], self.c);
                    let mut r = (*m.receiver).clone();
                    let mut b = b;
                    self.expr(&mut r);
                    self.expr(&mut b);
                    self.c.note("starts_with(closure) turned into a match on the first character");
                    *e = parse_quote!(match vx_first_char(&#r) { Some(#p) => #b, None => false });
                    return;
                }
                // iterator terminals
                if n == "collect" && m.args.is_empty() {
                    let res = m.turbofish.as_ref().map_or(false, |t| toks(t).contains("Result"));
                    let recv = (*m.receiver).clone();
                    // a peekable was already evaluated
                    if let Some(i) = ident_of(&recv) {
                        if let Some(init) = self.c.lets.get(&i).cloned() {
                            if let Expr::MethodCall(pm) = strip(&init) {
                                if pm.method == "peekable" {
                                    *e = if res { parse_quote!(vx_collect_res(#recv)) } else { parse_quote!(#recv) };
                                    return;
                                }
                            }
                        }
                    }
                    if let Some(ch) = self.chain(&recv) {
                        if self.c.collectinto && !res {
                            let v = self.materialize(ch);
                            *e = match &m.turbofish {
                                Some(t) => match t.args.first() {
                                    Some(t) => parse_quote!(vx_into::<_, #t>(#v)),
                                    None => parse_quote!(vx_into(#v)),
                                },
                                None => parse_quote!(vx_into(#v)),
                            };
                            return;
                        }
                        *e = if res { self.collect_res(ch) } else { self.collect_vec(ch) };
                        return;
                    }
                    self.c.errors.push(format!("unsupported collect: {}", m.to_token_stream()));
                    return;
                }
                if n == "unzip" && m.args.is_empty() {
                    let recv = (*m.receiver).clone();
                    if let Some(ch) = self.chain(&recv) {
                        let v = self.materialize(ch);
                        *e = parse_quote!(vx_unzip(#v));
                        return;
                    }
                    self.c.errors.push(format!("unsupported unzip: {}", m.to_token_stream()));
                    return;
                }
                if n == "or_insert" && m.args.len() == 1 {
                    if let Expr::MethodCall(en) = strip(&m.receiver).clone() {
                        if en.method == "entry" && en.args.len() == 1 {
                            let mut x = (*en.receiver).clone();
                            let mut k = en.args[0].clone();
                            let mut v = m.args[0].clone();
                            self.expr(&mut x);
                            self.expr(&mut k);
                            self.expr(&mut v);
                            self.c.note("entry(k).or_insert(v) routed to vx_entry");
                            *e = parse_quote!(vx_entry(&mut #x, #k, #v));
                            return;
                        }
                    }
                }
                if self.c.intoarg.contains(&n) {
                    self.c.note("into_iter() moved from the callee to its argument");
                    for a in m.args.iter_mut() {
                        *a = parse_quote!(#a.into_iter());
                    }
                    self.c.intoarg.remove(&n);
                    visit_mut::visit_expr_method_call_mut(self, m);
                    self.c.intoarg.insert(n);
                    return;
                }
                if n == "peekable" && m.args.is_empty() {
                    let recv = (*m.receiver).clone();
                    if let Some(ch) = self.chain(&recv) {
                        *e = self.peekable(ch);
                        return;
                    }
                }
                if n == "peek" && m.args.is_empty() {
                    if let Some(i) = ident_of(&m.receiver) {
                        if let Some(Expr::MethodCall(pm)) = self.c.lets.get(&i).cloned() {
                            if pm.method == "peekable" {
                                let r = &m.receiver;
                                *e = parse_quote!(vx_peek(&#r));
                                return;
                            }
                        }
                    }
                }
                if n == "next" && m.args.is_empty() && self.c.veciter {
                    if ident_of(&m.receiver).is_some() && kind(&m.receiver, self.c) == Kind::Iter {
                        let r = &m.receiver;
                        *e = parse_quote!(vx_next(&mut #r));
                        return;
                    }
                }
                if n == "next" && m.args.is_empty() {
                    if let Some(ch) = match strip(&m.receiver) {
                        Expr::MethodCall(mm) if mm.method == "into_iter" => {
                            let r = (*m.receiver).clone();
                            self.chain(&r)
                        }
                        _ => None,
                    } {
                        let v = self.materialize(ch);
                        *e = parse_quote!(vx_first(#v));
                        return;
                    }
                }
                if self.c.eqcall && (n == "eq" || n == "ne") && m.args.len() == 1 {
                    let mut a = m.args[0].clone();
                    let mut r = (*m.receiver).clone();
                    self.c.note("== is a call of the type's equality");
                    let call: Expr = if let Some(ch) = self.chain(&r) {
                        let x = self.materialize(ch);
                        let y = match self.chain(&a) {
                            Some(ch) => self.materialize(ch),
                            None => {
                                self.expr(&mut a);
                                match &a {
                                    Expr::Reference(r) => {
                                        let r = &r.expr;
                                        parse_quote!(vx_refs(&#r))
                                    }
                                    _ => a,
                                }
                            }
                        };
                        parse_quote!(vx_eq(&(#x), &(#y)))
                    } else {
                        self.expr(&mut r);
                        self.expr(&mut a);
                        parse_quote!(vx_eq(&(#r), #a))
                    };
                    *e = if n == "eq" { call } else { parse_quote!((!#call)) };
                    return;
                }
                if (n == "any" || n == "all" || n == "find" || n == "filter" || n == "for_each")
                    && kind(&m.receiver, self.c) == Kind::Iter
                {
                    let recv = (*m.receiver).clone();
                    if let Some(ch) = self.chain(&recv) {
                        let v = self.materialize(ch);
                        let (p, mut b) = closure_parts(&m.args[0], self.c);
                        if has_q(&b) {
                            b = closureize(b, self.c);
                        }
                        let k = self.c.fresh();
                        self.expr(&mut b);
                        let out = format_ident!("__out{}", k);
                        let it = format_ident!("it{}", k);
                        let x = format_ident!("__x_{}", k);
                        self.c.note("iterator search replaced by a loop");
                        *e = match n.as_str() {
                            "any" => parse_quote!({ let mut #out = false; for #x in __vx_iter!(#it; #v) { __vx_loop!{#k}; if !#out { let #p = #x; let __y = #b; if __y { #out = true; } } } #out }),
                            "all" => parse_quote!({ let mut #out = true; for #x in __vx_iter!(#it; #v) { __vx_loop!{#k}; if #out { let #p = #x; let __y = #b; if !__y { #out = false; } } } #out }),
                            "find" => parse_quote!({ let mut #out = None; for #x in __vx_iter!(#it; #v) { __vx_loop!{#k}; if #out.is_none() { let __y = { let #p = &#x; #b }; if __y { #out = Some(#x); } } } #out }),
                            "filter" => parse_quote!({ let mut #out = Vec::new(); for #x in __vx_iter!(#it; #v) { __vx_loop!{#k}; let __y = { let #p = &#x; #b }; if __y { #out.push(#x); } } #out }),
                            _ => parse_quote!(for #x in __vx_iter!(#it; #v) { __vx_loop!{#k}; let #p = #x; #b; }),
                        };
                        return;
                    }
                }
                if n == "nth_back" {
                    if let Expr::MethodCall(mm) = strip(&m.receiver).clone() {
                        if mm.method == "iter" {
                            let mut r = (*mm.receiver).clone();
                            let mut a = m.args[0].clone();
                            self.expr(&mut r);
                            self.expr(&mut a);
                            self.c.note("iter().nth_back(n) replaced by a verified function");
                            *e = parse_quote!(vx_nth_back(&#r, #a));
                            return;
                        }
                    }
                }
                if n == "extend" && m.args.len() == 1 && matches!(kind(&m.args[0], self.c), Kind::Iter) {
                    let a = m.args[0].clone();
                    if let Some(ch) = self.chain(&a) {
                        let mut recv = (*m.receiver).clone();
                        self.expr(&mut recv);
                        if self.c.extendcall {
                            let v = self.materialize(ch);
                            *e = parse_quote!(vx_extend(&mut #recv, #v));
                            return;
                        }
                        let k = self.c.fresh();
                        let it = format_ident!("it{}", k);
                        let x = format_ident!("__x_{}", k);
                        let (p, mut b) = ch.map.unwrap_or_else(|| (parse_quote!(__y), parse_quote!(__y)));
                        self.expr(&mut b);
                        let s = ch.src;
                        self.c.note("extend(iterator) replaced by a loop");
                        *e = parse_quote!({ for #x in __vx_iter!(#it; #s) { __vx_loop!{#k}; let #p = #x; let __z = #b; #recv.push(__z); } });
                        return;
                    }
                }
                if n == "resize_with" {
                    let mut recv = (*m.receiver).clone();
                    let mut a = m.args[0].clone();
                    self.expr(&mut recv);
                    self.expr(&mut a);
                    if toks(&m.args[1]).contains("unreachable!") {
                        self.c.note("resize_with(n, unreachable) replaced by truncate with the obligation that it does not grow");
                        *e = parse_quote!(vx_shrink(&mut #recv, #a));
                        return;
                    }
                }
                if n == "fold" && m.args.len() == 2 {
                    let recv = (*m.receiver).clone();
                    if let Some(ch) = self.chain(&recv) {
                        let v = self.materialize(ch);
                        let k = self.c.fresh();
                        let it = format_ident!("it{}", k);
                        let x = format_ident!("__x_{}", k);
                        let acc = format_ident!("__acc{}", k);
                        let mut init = m.args[0].clone();
                        self.expr(&mut init);
                        let step: Expr = match strip(&m.args[1]) {
                            Expr::Closure(cl) if cl.inputs.len() == 2 => {
                                let (p, q, b) = (&cl.inputs[0], &cl.inputs[1], &cl.body);
                                let mut b: Expr = (**b).clone();
                                self.expr(&mut b);
                                parse_quote!({ let #p = #acc; let #q = #x; #b })
                            }
                            f => parse_quote!(#f(#acc, #x)),
                        };
                        self.c.note("iterator fold replaced by a loop");
                        *e = parse_quote!({ let mut #acc = #init; for #x in __vx_iter!(#it; #v) { __vx_loop!{#k}; #acc = #step; } #acc });
                        return;
                    }
                }
                // Option / Result combinators
                let kd = kind(&m.receiver, self.c);
                let one = |e: &Expr| e.clone();
                let new: Option<Expr> = match (n.as_str(), kd, m.args.len()) {
                    ("map", Kind::Opt, 1) => {
                        let (p, b) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
                    }
                    ("map", Kind::Res, 1) => {
                        let (p, b) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }))
                    }
                    ("and_then", Kind::Opt, 1) => {
                        let (p, b) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
                    }
                    ("and_then", Kind::Res, 1) => {
                        let (p, b) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }))
                    }
                    ("map_err", _, 1) => {
                        let (p, b) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
                    }
                    ("or_else", Kind::Opt, 1) => {
                        let (_, b) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Some(__v) => Some(__v), None => #b }))
                    }
                    ("ok_or", _, 1) => {
                        let b = &m.args[0];
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
                    }
                    ("ok_or_else", _, 1) => {
                        let (_, b) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
                    }
                    ("map_or", Kind::Opt, 2) => {
                        let (p, b) = closure_parts(&one(&m.args[1]), self.c);
                        let r = &m.receiver;
                        let d = &m.args[0];
                        Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
                    }
                    ("map_or_else", Kind::Opt, 2) => {
                        let (p, b) = closure_parts(&one(&m.args[1]), self.c);
                        let (_, d) = closure_parts(&one(&m.args[0]), self.c);
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
                    }
                    ("unwrap_or_else", Kind::Opt, 1) => {
                        let r = &m.receiver;
                        let b: Expr = match strip(&m.args[0]) {
                            Expr::Closure(cl) => (*cl.body).clone(),
                            f => parse_quote!(#f()),
                        };
                        Some(parse_quote!(match #r { Some(__v) => __v, None => #b }))
                    }
                    ("copied", Kind::Opt, 0) => {
                        let r = &m.receiver;
                        Some(parse_quote!(match #r { Some(__v) => Some(*__v), None => None }))
                    }
                    _ => None,
                };
                if let Some(mut x) = new {
                    if let Expr::Match(mm) = &mut x {
                        for a in &mut mm.arms {
                            let b = (*a.body).clone();
                            if has_q(&b) {
                                self.c.errors.push(format!("`?` in the closure of {}", n));
                            }
                        }
                    }
                    self.c.note(&format!("{}(closure) turned into a match", n));
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                    return;
                }
                for (a, b) in self.c.methodmap.clone() {
                    if a == n {
                        let mut all = vec![];
                        let r = (*m.receiver).clone();
                        all.push(r);
                        all.extend(m.args.iter().cloned());
                        let amp = b.starts_with('&');
                        let ampm = b.starts_with("&mut ");
                        let f: Expr = parse_str(b.trim_start_matches('&').trim_start_matches("mut ").trim()).unwrap();
                        let r0 = &all[0];
                        let rest = &all[1..];
                        let mut x: Expr = if ampm {
                            parse_quote!(#f(&mut #r0 #(, #rest)*))
                        } else if amp {
                            parse_quote!(#f(&#r0 #(, #rest)*))
                        } else {
                            parse_quote!(#f(#(#all),*))
                        };
                        self.c.note(&format!(".{}() routed to {}", a, b));
                        visit_mut::visit_expr_mut(self, &mut x);
                        *e = x;
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if let Expr::Let(l) = &mut *i.cond {
            let pre = self.deref_pats(&mut l.pat);
            for (k, s) in pre.into_iter().enumerate() {
                i.then_branch.stmts.insert(k, s);
            }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if a.guard.is_none() {
            let pre = self.deref_pats(&mut a.pat);
            if !pre.is_empty() {
                let b = a.body.clone();
                *a.body = parse_quote!({ #(#pre)* #b });
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

impl Rw<'_> {
    fn peekable(&mut self, ch: Chain) -> Expr {
        let (pat, body) = match ch.map {
            Some(x) => x,
            None => (parse_quote!(__y), parse_quote!(__y)),
        };
        let k = self.c.fresh();
        self.c.note("lazy map(closure).peekable() evaluated eagerly up to its first error");
        let out = format_ident!("__out{}", k);
        let stop = format_ident!("__stop{}", k);
        let it = format_ident!("it{}", k);
        let x = format_ident!("__x_{}", k);
        let s = ch.src;
        let mut body = closureize(body, self.c);
        self.expr(&mut body);
        parse_quote!({
            let mut #out = Vec::new();
            let mut #stop = false;
            for #x in __vx_iter!(#it; #s) {
                __vx_loop!{#k};
                if !#stop {
                    let #pat = #x;
                    let __y = #body;
                    #stop = __y.is_err();
                    #out.push(__y);
                }
            }
            #out
        })
    }
}

/// Identifiers bound in a function, in source order.
pub fn locals(sig: &Signature, block: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let s = p.ident.to_string();
            if !self.0.contains(&s) && !s.chars().next().map_or(false, |c| c.is_uppercase()) {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(vec![]);
    for i in &sig.inputs {
        v.visit_fn_arg(i);
    }
    v.visit_block(block);
    v.0
}

/// A loop at the end of a function is left with the function's value.
pub fn tail_breaks(b: &mut Block, c: &mut Cfg) {
    struct V(bool);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                Expr::Break(b) if b.label.is_none() && b.expr.is_some() => {
                    let v = b.expr.take().unwrap();
                    *e = parse_quote!(return #v);
                    self.0 = true;
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() {
        if l.label.is_none() {
            let mut v = V(false);
            v.visit_block_mut(&mut l.body);
            if v.0 {
                c.note("`break value` of a loop at the end written as `return value`");
            }
        }
    }
}
