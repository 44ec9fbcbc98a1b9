//! C17-C20: generated code.
use crate::grammar::{infer, real, show, Nm, E, R};
use crate::util::*;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::{TypeInfer, TypedExpression};
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::process::{Command, Stdio};

const LABELS: &[&str] = &[
    "x", "X", "y", "part", "part1", "part_1", "Branch", "Branch1", "branch1", "Lit", "Lit1", "Lit2", "Cat1", "Cat2", "Cat3", "Alt2", "Alt3",
    "Fix1", "fix1", "Fix2", "x1", "x2", "x11", "X1", "_", "__", "é", "type", "Self", "self", "Ast", "Ast1", "Epsilon", "Box", "Ok", "Some", "a_b", "aB", "AB",
];

fn label(r: &mut Rng, odds: usize) -> Option<Nm> {
    if r.chance(1, odds) {
        let k = if r.chance(1, 4) { 6 } else { LABELS.len() };
        let s = LABELS[r.below(k)];
        // raw identifiers keep keywords legal where they are used as they are
        Some((r.below(3) as u8, s.to_string()))
    } else {
        None
    }
}

struct Shape {
    odds: usize,
    long: bool,
    letters: &'static [&'static str],
}

fn lit(r: &mut Rng, g: &Shape) -> E {
    let a = *r.pick(g.letters);
    E::Lit(if r.chance(1, 4) { format!("{}{}", a, r.pick(g.letters)) } else { a.to_string() })
}

fn node(r: &mut Rng, depth: usize, scope: usize, g: &Shape) -> R {
    let e = match if depth == 0 { r.below(3) } else { r.below(12) } {
        0 => lit(r, g),
        1 if scope > 0 => E::Var(r.below(scope)),
        1 => lit(r, g),
        2 => {
            if r.chance(1, 2) {
                E::Eps
            } else {
                lit(r, g)
            }
        }
        3 | 4 | 5 => {
            if g.long && r.chance(1, 3) {
                let n = 10 + r.below(4);
                return R { name: label(r, g.odds), span: 0, e: E::Cat((0..n).map(|_| (0, node(r, 0, 0, g))).collect()) };
            }
            let n = 2 + r.below(2);
            E::Cat((0..n).map(|_| (0, node(r, depth - 1, scope, g))).collect())
        }
        6 => {
            let n = 2 + r.below(2);
            E::Alt((0..n).map(|_| (0, node(r, depth - 1, scope, g))).collect())
        }
        7 | 8 | 9 => {
            // branches that start with different letters
            let n = 1 + r.below(g.letters.len());
            let off = r.below(g.letters.len());
            let mut v: Vec<R> = (0..n)
                .map(|i| {
                    let a = R { name: label(r, g.odds), span: 0, e: E::Lit(g.letters[(off + i) % g.letters.len()].to_string()) };
                    if r.chance(1, 4) {
                        return a;
                    }
                    let m = 1 + r.below(2);
                    let mut w = vec![(0, a)];
                    for _ in 0..m {
                        w.push((0, node(r, depth - 1, scope, g)));
                    }
                    R { name: label(r, g.odds), span: 0, e: E::Cat(w) }
                })
                .collect();
            if n == 1 || r.chance(1, 2) {
                let at = r.below(v.len() + 1);
                v.insert(at, R { name: label(r, g.odds), span: 0, e: E::Eps });
            }
            E::Alt(v.into_iter().map(|x| (0, x)).collect())
        }
        _ => {
            let inner = R { name: None, span: 0, e: E::Lambda(vec![(0, "v".into())], Box::new(node(r, depth - 1, scope + 1, g))) };
            E::Fix(Box::new(inner))
        }
    };
    R { name: label(r, g.odds), span: 0, e }
}

fn depth(r: &R) -> usize {
    match &r.e {
        E::Eps | E::Lit(_) | E::Var(_) => 1,
        E::Cat(v) | E::Alt(v) => 1 + v.iter().map(|x| depth(&x.1)).max().unwrap(),
        E::Fix(x) | E::Lambda(_, x) => 1 + depth(x),
        _ => 1,
    }
}

fn wide(r: &R) -> bool {
    match &r.e {
        E::Cat(v) | E::Alt(v) => v.len() > 9 || v.iter().any(|x| wide(&x.1)),
        E::Fix(x) | E::Lambda(_, x) => wide(x),
        _ => false,
    }
}

/// A closed grammar that the real type inference accepts.
fn grammar(r: &mut Rng, odds: usize, deep: usize) -> (R, TypedExpression) {
    let g = Shape { odds, long: r.chance(1, 8), letters: if r.chance(1, 6) { &["a", "b", "é"] } else { &["a", "b", "c"] } };
    let mut small = None;
    for _ in 0..400 {
        let d = 2 + r.below(deep);
        let x = node(r, d, 0, &g);
        // what the reference refuses has to get past the real inference, too, so cheap grammars go first
        if g.long && !wide(&x) || infer(&x, &mut Vec::new(), 0, &mut 0).is_err() && !r.chance(1, 8) {
            continue;
        }
        let mut ctx = Context::default();
        if let Ok(t) = real(&x).fold(&mut TypeInfer { context: &mut ctx }) {
            if depth(&x) >= 3 || r.chance(1, 10) {
                return (x, t);
            }
            small.get_or_insert((x, t));
        }
    }
    match small {
        Some(x) => x,
        None => {
            let x = R { name: None, span: 0, e: E::Lit("a".into()) };
            let mut ctx = Context::default();
            let t = real(&x).fold(&mut TypeInfer { context: &mut ctx }).unwrap();
            (x, t)
        }
    }
}

// ---- emitted definitions -------------------------------------------------------

#[derive(Clone, Debug)]
enum D {
    Unit(Vec<String>),
    Parts(Vec<(Option<String>, String)>),
    Branches(Vec<(String, Vec<String>)>),
    Alias(String),
}
type Defs = BTreeMap<String, D>;

fn text(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().split_whitespace().collect()
}
struct Lits(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Lits {
    fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
        self.0.push(l.value());
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        for t in m.tokens.clone() {
            if let Ok(l) = syn::parse2::<syn::LitStr>(t.into()) {
                if l.value() != "{}" {
                    self.0.push(l.value());
                }
            }
        }
    }
}

fn definitions(c: &Case, code: TokenStream) -> (Defs, Vec<String>) {
    let src = code.to_string();
    let f = match syn::parse2::<syn::File>(code) {
        Ok(f) => f,
        Err(e) => c.fail(format!("the generated code is not Rust: {}\n{}", e, src)),
    };
    let mut defs = Defs::new();
    let mut order = Vec::new();
    let mut put = |c: &Case, n: String, d: D| {
        order.push(n.clone());
        if defs.insert(n.clone(), d).is_some() {
            c.fail(format!("{} is defined twice:\n{}", n, src))
        }
    };
    let mut lits: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for i in &f.items {
        if let syn::Item::Impl(i) = i {
            let mut l = Lits(Vec::new());
            syn::visit::Visit::visit_item_impl(&mut l, i);
            lits.entry(text(&i.self_ty)).or_default().extend(l.0);
        }
    }
    for i in f.items {
        match i {
            syn::Item::Struct(s) => {
                let n = s.ident.to_string();
                let mut seen = BTreeSet::new();
                for f in &s.fields {
                    if let Some(i) = &f.ident {
                        c.check(seen.insert(i.to_string()), || format!("two fields of {} are called {}:\n{}", n, i, src));
                    }
                }
                let d = match &s.fields {
                    syn::Fields::Unit => D::Unit(lits.remove(&n).unwrap_or_default()),
                    fs => D::Parts(fs.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()), text(&f.ty))).collect()),
                };
                put(c, n, d);
            }
            syn::Item::Enum(e) => {
                let n = e.ident.to_string();
                let mut seen = BTreeSet::new();
                for v in &e.variants {
                    c.check(seen.insert(v.ident.to_string()), || format!("two variants of {} are called {}:\n{}", n, v.ident, src));
                }
                let d = D::Branches(e.variants.iter().map(|v| (v.ident.to_string(), v.fields.iter().map(|f| text(&f.ty)).collect())).collect());
                put(c, n, d);
            }
            syn::Item::Type(t) => put(c, t.ident.to_string(), D::Alias(text(&t.ty))),
            _ => {}
        }
    }
    (defs, order)
}

fn unbox(t: &str) -> &str {
    t.strip_prefix("Box<").and_then(|t| t.strip_suffix('>')).unwrap_or(t)
}

/// What a type is built of, with all names of definitions followed.
fn matches(defs: &Defs, t: &str, r: &R, env: &mut Vec<String>, why: &mut String) -> bool {
    let bad = |why: &mut String, w: &str| {
        if why.is_empty() {
            *why = format!("{} stands for {}: {}", t, show(r), w);
        }
        false
    };
    match &r.e {
        E::Eps => t == "Epsilon" || bad(why, "it is not Epsilon"),
        E::Lit(s) => match defs.get(t) {
            Some(D::Unit(l)) => l.iter().all(|x| x == s) || bad(why, &format!("its literals are {:?}", l)),
            _ => bad(why, "it is no literal's type"),
        },
        E::Cat(v) => match defs.get(t) {
            Some(D::Parts(p)) if p.len() == v.len() => p.iter().zip(v).all(|(p, x)| matches(defs, &p.1, &x.1, env, why)),
            _ => bad(why, "it has other parts"),
        },
        E::Alt(v) => match defs.get(t) {
            Some(D::Branches(p)) if p.len() == v.len() => {
                p.iter().zip(v).all(|(p, x)| p.1.len() == 1 && matches(defs, &p.1[0], &x.1, env, why)) || bad(why, "its branches differ")
            }
            _ => bad(why, "it has other branches"),
        },
        E::Fix(x) => match (defs.get(t), &x.e) {
            (Some(D::Alias(u)), E::Lambda(_, b)) => {
                env.push(t.to_string());
                let r = matches(defs, u, b, env, why);
                env.pop();
                r
            }
            _ => bad(why, "it is no fixed point's type"),
        },
        E::Var(i) => unbox(t) == env[env.len() - 1 - i] || bad(why, &format!("the variable's fixed point is {}", env[env.len() - 1 - i])),
        _ => true,
    }
}

pub fn program(c: &mut Case) {
    let odds = if c.id == "C18" { 2 } else { 4 };
    let two = c.rng.chance(1, 4);
    let mut backend = RustBackend::default();
    let mut before = String::new();
    if two {
        let (r, t) = grammar(&mut c.rng, odds, 3);
        before = format!("after {}, ", show(&r));
        c.input(format!("{}...", before));
        t.gen(&mut backend);
    }
    let (r, t) = grammar(&mut c.rng, odds, 4);
    c.input(format!("{}generate {}", before, show(&r)));
    if depth(&r) < 3 {
        c.trivial();
    }
    let id = t.gen(&mut backend);
    let goal = if c.rng.chance(1, 3) { label(&mut c.rng, 1) } else { None };
    let code = backend.emit_code(goal.as_ref().map(crate::grammar::name), Span::call_site(), id);
    let src = code.to_string();
    let (defs, order) = definitions(c, code);
    let goal = match order.last() {
        Some(x) => x.clone(),
        None => c.fail("nothing is defined".to_string()),
    };
    if c.id == "C18" {
        let mut todo = vec![goal.clone()];
        let mut seen: BTreeSet<String> = todo.iter().cloned().collect();
        while let Some(x) = todo.pop() {
            let used: Vec<String> = match &defs[&x] {
                D::Unit(_) => vec![],
                D::Parts(p) => p.iter().map(|p| p.1.clone()).collect(),
                D::Branches(p) => p.iter().flat_map(|p| p.1.clone()).collect(),
                D::Alias(t) => vec![t.clone()],
            };
            for u in used {
                let u = unbox(&u).to_string();
                if u == "Epsilon" && !defs.contains_key(&u) {
                    continue;
                }
                c.check(defs.contains_key(&u), || format!("{} mentions {}, which is not defined:\n{}", x, u, src));
                if seen.insert(u.clone()) {
                    todo.push(u);
                }
            }
        }
        for n in &order {
            c.check(seen.contains(n), || format!("{} is defined, but {} does not need it:\n{}", n, goal, src));
        }
    } else {
        let mut why = String::new();
        let t = match &defs[&goal] {
            D::Alias(t) => t.clone(),
            _ => c.fail(format!("the last definition is no alias:\n{}", src)),
        };
        if !matches(&defs, &t, &r, &mut Vec::new(), &mut why) {
            c.fail(format!("{}\n{}", why, src))
        }
    }
}

// ---- compiled parsers ----------------------------------------------------------

type Rel = BTreeSet<(usize, usize)>;
/// Which pieces of s the grammar derives; fixed points grow from nothing until they stay.
fn derives(r: &R, s: &[char], env: &mut Vec<Rel>) -> Rel {
    match &r.e {
        E::Eps => (0..=s.len()).map(|i| (i, i)).collect(),
        E::Lit(l) => {
            let l: Vec<char> = l.chars().collect();
            (0..=s.len()).filter(|i| s[*i..].starts_with(&l)).map(|i| (i, i + l.len())).collect()
        }
        E::Cat(v) => {
            let mut m: Rel = (0..=s.len()).map(|i| (i, i)).collect();
            for x in v {
                let x = derives(&x.1, s, env);
                m = m.iter().flat_map(|(i, j)| x.iter().filter(move |p| p.0 == *j).map(move |p| (*i, p.1))).collect();
            }
            m
        }
        E::Alt(v) => v.iter().flat_map(|x| derives(&x.1, s, env)).collect(),
        E::Fix(x) => {
            let b = if let E::Lambda(_, b) = &x.e { b } else { x };
            let mut m = Rel::new();
            loop {
                env.push(m.clone());
                let n = derives(b, s, env);
                env.pop();
                if n == m {
                    return m;
                }
                m = n;
            }
        }
        E::Var(i) => env[env.len() - 1 - i].clone(),
        _ => Rel::new(),
    }
}

const CHARS: &[char] = &['a', 'b', '0', '9', ' ', '\n', '\t', '\r', '"', '\'', '\\', '{', '}', '%', '/', '*', '#', '_', 'é', 'ß', '\u{301}', '→', '中', '😀', '\u{10ffff}', '\0'];

/// Other characters for the letters: each becomes some of them, none in two.
fn disguise(r: &mut Rng) -> Option<BTreeMap<char, Vec<char>>> {
    if r.chance(1, 2) {
        return None;
    }
    let mut pool = CHARS.to_vec();
    let classes = r.chance(1, 2);
    if classes && r.chance(1, 2) {
        pool = ('!'..'\u{7f}').collect();
    }
    let mut m = BTreeMap::new();
    for l in &['a', 'b', 'c', 'é'] {
        let k = if classes { 1 + r.below(pool.len() / 4) } else { 1 };
        m.insert(*l, (0..k).map(|_| pool.swap_remove(r.below(pool.len()))).collect());
    }
    Some(m)
}

fn dressed(r: &R, m: &BTreeMap<char, Vec<char>>) -> R {
    let class = |v: &Vec<char>, name: &Option<Nm>| {
        let one = |c: &char, name: &Option<Nm>| R { name: name.clone(), span: 0, e: E::Lit(c.to_string()) };
        if v.len() == 1 {
            one(&v[0], name)
        } else {
            R { name: name.clone(), span: 0, e: E::Alt(v.iter().map(|c| (0, one(c, &None))).collect()) }
        }
    };
    let e = match &r.e {
        E::Lit(s) => {
            let mut v: Vec<&Vec<char>> = s.chars().map(|c| &m[&c]).collect();
            if v.iter().all(|v| v.len() == 1) {
                E::Lit(v.iter().map(|v| v[0]).collect())
            } else if v.len() == 1 {
                return class(v.pop().unwrap(), &r.name);
            } else {
                E::Cat(v.into_iter().map(|v| (0, class(v, &None))).collect())
            }
        }
        E::Cat(v) => E::Cat(v.iter().map(|x| (0, dressed(&x.1, m))).collect()),
        E::Alt(v) => E::Alt(v.iter().map(|x| (0, dressed(&x.1, m))).collect()),
        E::Fix(x) => E::Fix(Box::new(dressed(x, m))),
        E::Lambda(a, x) => E::Lambda(a.clone(), Box::new(dressed(x, m))),
        e => e.clone(),
    };
    R { name: r.name.clone(), span: 0, e }
}

fn alphabet(r: &R, out: &mut Vec<char>) {
    match &r.e {
        E::Lit(s) => out.extend(s.chars()),
        E::Cat(v) | E::Alt(v) => v.iter().for_each(|x| alphabet(&x.1, out)),
        E::Fix(x) | E::Lambda(_, x) => alphabet(x, out),
        _ => {}
    }
}

/// A string of the language, if the choices end soon enough.
fn sample<'a>(r: &mut Rng, e: &'a R, env: &mut Vec<(&'a R, usize)>, out: &mut String, fuel: &mut usize) -> bool {
    if *fuel == 0 || out.chars().count() > 24 {
        return false;
    }
    *fuel -= 1;
    match &e.e {
        E::Eps => true,
        E::Lit(s) => {
            out.push_str(s);
            true
        }
        E::Cat(v) => v.iter().all(|x| sample(r, &x.1, env, out, fuel)),
        E::Alt(v) => {
            let x = r.pick(v);
            sample(r, &x.1, env, out, fuel)
        }
        E::Fix(x) => {
            let b = if let E::Lambda(_, b) = &x.e { &**b } else { x };
            let n = env.len();
            env.push((b, n));
            let ok = sample(r, b, env, out, fuel);
            env.truncate(n);
            ok
        }
        E::Var(i) => {
            let k = env.len() - 1 - i;
            let (b, n) = env[k];
            let saved = env.clone();
            env.truncate(n + 1);
            let ok = sample(r, b, env, out, fuel);
            *env = saved;
            ok
        }
        _ => false,
    }
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn rustc(dir: &PathBuf, args: &[&str]) -> Result<(), String> {
    let o = Command::new("rustc")
        .args(args)
        .args(&["--cap-lints", "allow", "-C", "debuginfo=0", "-C", "incremental="])
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("harness: {}", e))?;
    if o.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).into_owned())
    }
}

const MAIN: &str = r#"
fn try_one<T: chewed::Parse + std::fmt::Display>(s: &str) {
    use chewed::{IterWrapper, Parser};
    let mut input = IterWrapper::new(s.chars());
    let taken = match input.take::<T>() {
        Ok(v) => {
            let mut rest = String::new();
            while let Some(c) = input.next() { rest.push(c) }
            format!("taken {:?} {:?}", v.to_string(), rest)
        }
        Err(_) => "failed".to_string(),
    };
    let whole = match T::parse_str(s) {
        Ok(v) => format!("whole {:?}", v.to_string()),
        Err(_) => "refused".to_string(),
    };
    println!("{}", taken);
    println!("{}", whole);
}
"#;

thread_local! {
    static DIR: Dir = {
        let d = std::env::current_dir().unwrap().join(format!("scratch_{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    };
}

pub fn parsers(c: &mut Case) {
    let dir = DIR.with(|d| d.0.clone());
    if !dir.join("libchewed.rlib").exists() {
        if let Err(e) = rustc(&dir, &["--edition", "2018", "--crate-type", "rlib", "--crate-name", "chewed", "/repo/chewed/src/lib.rs"]) {
            c.fail(format!("the runtime library does not compile: {}", e))
        }
    }
    let mut src = String::from(MAIN);
    let mut body = String::new();
    let mut cases: Vec<(R, Vec<String>)> = Vec::new();
    for k in 0..20 {
        let (mut r, t) = grammar(&mut c.rng, 5, 4);
        let (letters, cap) = (disguise(&mut c.rng), if wide(&r) { 24 } else { 8 });
        let t = match letters {
            Some(m) => {
                let r2 = dressed(&r, &m);
                let mut ctx = Context::default();
                let t2 = real(&r2).fold(&mut TypeInfer { context: &mut ctx });
                match t2 {
                    Ok(t2) => {
                        r = r2;
                        t2
                    }
                    Err(_) => t,
                }
            }
            None => t,
        };
        let mut known: Vec<char> = vec!['a', 'x'];
        alphabet(&r, &mut known);
        c.input(format!("generate {}", show(&r)));
        let mut backend = RustBackend::default();
        let id = t.gen(&mut backend);
        let code = backend.emit_code(None, Span::call_site(), id);
        src.push_str(&format!("mod g{} {{\n{}\n}}\n", k, code));
        let mut strs: BTreeSet<String> = BTreeSet::new();
        strs.insert(String::new());
        for _ in 0..60 {
            let mut s = String::new();
            let ok = sample(&mut c.rng, &r, &mut Vec::new(), &mut s, &mut 60);
            let mut v: Vec<char> = s.chars().take(cap).collect();
            if !ok || c.rng.chance(1, 2) {
                for _ in 0..1 + c.rng.below(2) {
                    let ch = *c.rng.pick(&known);
                    match c.rng.below(3) {
                        0 if !v.is_empty() => {
                            let i = c.rng.below(v.len());
                            v.remove(i);
                        }
                        1 if !v.is_empty() => {
                            let i = c.rng.below(v.len());
                            v[i] = ch
                        }
                        _ => {
                            let i = c.rng.below(v.len() + 1);
                            v.insert(i, ch)
                        }
                    }
                }
            }
            strs.insert(v.into_iter().collect());
        }
        let strs: Vec<String> = strs.into_iter().collect();
        body.push_str(&format!("    for s in &{:?} {{ try_one::<g{}::Ast>(s) }}\n", strs, k));
        cases.push((r, strs));
    }
    src.push_str(&format!("fn main() {{\n{}}}\n", body));
    std::fs::write(dir.join("m.rs"), &src).unwrap();
    c.input(format!("compile the parsers of {}", cases.iter().map(|x| show(&x.0)).collect::<Vec<_>>().join("; ")));
    if let Err(e) = rustc(&dir, &["--edition", "2018", "--crate-type", "bin", "--crate-name", "m", "--extern", "chewed=libchewed.rlib", "m.rs"]) {
        let e: String = e.chars().take(3000).collect();
        c.fail(format!("the generated code does not compile:\n{}", e))
    }
    let o = Command::new(dir.join("m")).stdin(Stdio::null()).output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout);
    let mut lines = out.lines();
    for (r, strs) in &cases {
        for s in strs {
            c.input(format!("parse {:?} with {}", s, show(r)));
            let cs: Vec<char> = s.chars().collect();
            let d = derives(r, &cs, &mut Vec::new());
            let (taken, whole) = match (lines.next(), lines.next()) {
                (Some(a), Some(b)) => (a, b),
                _ => c.fail(format!("the parser does not return: {}", String::from_utf8_lossy(&o.stderr))),
            };
            if c.id == "C19" {
                if taken != "failed" {
                    let ok = (0..=cs.len()).any(|i| {
                        let (a, b): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
                        d.contains(&(0, i)) && taken == format!("taken {:?} {:?}", a, b)
                    });
                    c.check(ok, || format!("(value's text, rest): {}", taken));
                }
                if whole != "refused" {
                    c.eq("value of the whole-input parse", whole.to_string(), format!("whole {:?}", s));
                }
            } else {
                let member = d.contains(&(0, cs.len()));
                c.check((whole != "refused") == member, || format!("in the language: {}; result: {}", member, whole));
            }
        }
    }
}
