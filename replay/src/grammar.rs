//! C07-C14: grammar types, contexts, names, inference, substitution, reduction.
use crate::util::*;
use chomp::chomp::ast::substitute::{Reduce, Substitute};
use chomp::chomp::ast::{self, error::ReductionError, Expression, NamedExpression};
use chomp::chomp::name::{Content, Name};
use chomp::chomp::set::{FirstSet, FlastSet};
use chomp::chomp::typed::context::{Context, GetVariableError};
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::error::TypeError;
use chomp::chomp::typed::{self, Type, TypeInfer, Typed};
use chomp::nibble::convert::{self, Convert, ConvertError};
use chomp::chomp::visit::Visitable;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

pub type Nm = (u8, String);
pub type Sp = usize;

#[derive(Clone, Debug, PartialEq)]
pub struct R {
    pub name: Option<Nm>,
    pub span: Sp,
    pub e: E,
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Eps,
    Lit(String),
    Cat(Vec<(Sp, R)>),
    Alt(Vec<(Sp, R)>),
    Fix(Box<R>),
    Var(usize),
    Call(Box<R>, Vec<R>),
    Lambda(Vec<Nm>, Box<R>),
    Let(Nm, Box<R>, Box<R>),
}

const NSPAN: usize = 60;
thread_local! {
    static SPANS: Vec<Span> = {
        let s: TokenStream = "a ".repeat(NSPAN).parse().unwrap();
        s.into_iter().map(|t| t.span()).collect()
    };
}
pub fn span(i: Sp) -> Span {
    SPANS.with(|s| s[i])
}
pub fn span_id(s: Span) -> Sp {
    s.start().column / 2
}

/// An identifier as it comes out of source text, raw or not.
pub fn ident(s: &str) -> Ident {
    match s.parse::<TokenStream>().unwrap().into_iter().next() {
        Some(TokenTree::Ident(i)) => i,
        x => panic!("harness: {:?}", x),
    }
}

pub fn name(n: &Nm) -> Name {
    match n.0 {
        2 => Name::new_label(n.1.clone()),
        1 => Name::new_let(n.1.clone()),
        _ => Name::new_variable(n.1.clone()),
    }
}

pub fn unname(n: &Name) -> Nm {
    let d = format!("{:?}", n);
    let k = if d.contains("kind: Label") {
        2
    } else if d.contains("kind: Let") {
        1
    } else {
        0
    };
    (k, n.to_string())
}

fn oname(n: &Option<Nm>) -> Option<Name> {
    n.as_ref().map(name)
}

pub fn merge(a: Option<Nm>, b: Option<Nm>) -> Option<Nm> {
    match (a, b) {
        (None, b) => b,
        (a, None) => a,
        (Some(a), Some(b)) => Some(if a.0 >= b.0 { a } else { b }),
    }
}

pub fn real(r: &R) -> NamedExpression {
    let expr: Expression = match &r.e {
        E::Eps => ast::Epsilon.into(),
        E::Lit(s) => s.clone().into(),
        E::Cat(v) => ast::Cat {
            first: Box::new(real(&v[0].1)),
            rest: v[1..].iter().map(|(s, r)| (span(*s), real(r))).collect(),
        }
        .into(),
        E::Alt(v) => ast::Alt {
            first: Box::new(real(&v[0].1)),
            rest: v[1..].iter().map(|(s, r)| (span(*s), real(r))).collect(),
        }
        .into(),
        E::Fix(r) => ast::Fix { inner: Box::new(real(r)) }.into(),
        E::Var(i) => ast::Variable { index: *i }.into(),
        E::Call(f, a) => ast::Call {
            on: Box::new(real(f)),
            args: a.iter().map(real).collect(),
        }
        .into(),
        E::Lambda(a, b) => ast::Lambda {
            args: a.iter().map(name).collect(),
            inner: Box::new(real(b)),
        }
        .into(),
        E::Let(n, a, b) => ast::Let {
            name: name(n),
            bound: Box::new(real(a)),
            body: Box::new(real(b)),
        }
        .into(),
    };
    NamedExpression {
        name: oname(&r.name),
        span: span(r.span),
        expr,
    }
}

pub fn unreal(n: &NamedExpression) -> R {
    R {
        name: n.name.as_ref().map(unname),
        span: span_id(n.span),
        e: unexpr(&n.expr),
    }
}

fn parts(first: &NamedExpression, rest: &[(Span, NamedExpression)]) -> Vec<(Sp, R)> {
    std::iter::once((0, unreal(first)))
        .chain(rest.iter().map(|(s, r)| (span_id(*s), unreal(r))))
        .collect()
}

pub fn unexpr(e: &Expression) -> E {
    match e {
        Expression::Epsilon(_) => E::Eps,
        Expression::Literal(s) => E::Lit(s.clone()),
        Expression::Cat(c) => E::Cat(parts(&c.first, &c.rest)),
        Expression::Alt(c) => E::Alt(parts(&c.first, &c.rest)),
        Expression::Fix(f) => E::Fix(Box::new(unreal(&f.inner))),
        Expression::Variable(v) => E::Var(v.index),
        Expression::Call(c) => E::Call(Box::new(unreal(&c.on)), c.args.iter().map(unreal).collect()),
        Expression::Lambda(l) => E::Lambda(l.args.iter().map(unname).collect(), Box::new(unreal(&l.inner))),
        Expression::Let(l) => E::Let(unname(&l.name), Box::new(unreal(&l.bound)), Box::new(unreal(&l.body))),
    }
}

/// Short text of a tree: @ marks spans.
pub fn show(r: &R) -> String {
    let mut s = match &r.e {
        E::Eps => "_".into(),
        E::Lit(s) => format!("{:?}", s),
        E::Cat(v) => format!("({})", v.iter().map(|x| show(&x.1)).collect::<Vec<_>>().join(" . ")),
        E::Alt(v) => format!("({})", v.iter().map(|x| show(&x.1)).collect::<Vec<_>>().join(" | ")),
        E::Fix(r) => format!("!{}", show(r)),
        E::Var(i) => format!("'{}", i),
        E::Call(f, a) => format!("({} ({}))", show(f), a.iter().map(show).collect::<Vec<_>>().join(", ")),
        E::Lambda(a, b) => format!("(/{}/ {})", a.iter().map(|n| n.1.clone()).collect::<Vec<_>>().join(","), show(b)),
        E::Let(n, a, b) => format!("(let {} = {}; {})", n.1, show(a), show(b)),
    };
    if let Some(n) = &r.name {
        s = format!("{}:{}{}", s, ["var ", "let ", "label "][n.0 as usize], n.1);
    }
    s
}

pub fn size(r: &R) -> usize {
    1 + match &r.e {
        E::Eps | E::Lit(_) | E::Var(_) => 0,
        E::Cat(v) | E::Alt(v) => v.iter().map(|x| size(&x.1)).sum(),
        E::Fix(r) => size(r),
        E::Call(f, a) => size(f) + a.iter().map(size).sum::<usize>(),
        E::Lambda(_, b) => size(b),
        E::Let(_, a, b) => size(a) + size(b),
    }
}

pub struct Gen {
    /// calls, functions and lets allowed
    pub full: bool,
    pub max_var: usize,
}

fn gen_name(r: &mut Rng) -> Nm {
    (r.below(3) as u8, r.pick(&["x", "y", "z", "w"]).to_string())
}

fn leaf(r: &mut Rng, scope: usize, g: &Gen) -> E {
    let n = scope + g.max_var;
    if n > 0 && r.chance(1, 2) {
        return E::Var(r.below(n));
    }
    if r.chance(1, 5) {
        E::Eps
    } else {
        E::Lit(r.pick(&["a", "b", "c", "d", "ab", "", "é", "ba"]).to_string())
    }
}

pub fn gen(r: &mut Rng, depth: usize, scope: usize, g: &Gen) -> R {
    let name = if r.chance(1, 3) { Some(gen_name(r)) } else { None };
    let span = r.below(NSPAN);
    let k = if depth == 0 { 0 } else { r.below(if g.full { 12 } else { 7 }) };
    let e = match k {
        0 | 1 => leaf(r, scope, g),
        2 | 3 | 4 => {
            let n = 2 + r.below(2);
            let v: Vec<(Sp, R)> = (0..n)
                .map(|i| (if i == 0 { 0 } else { r.below(NSPAN) }, gen(r, depth - 1, scope, g)))
                .collect();
            if r.chance(1, 2) {
                E::Cat(v)
            } else {
                E::Alt(v)
            }
        }
        5 | 6 => {
            let inner = if r.chance(9, 10) {
                R {
                    name: if r.chance(1, 3) { Some(gen_name(r)) } else { None },
                    span: r.below(NSPAN),
                    e: E::Lambda(vec![gen_name(r)], Box::new(gen(r, depth - 1, scope + 1, g))),
                }
            } else if g.full || r.chance(1, 3) {
                gen(r, depth - 1, scope, &Gen { full: true, max_var: g.max_var })
            } else {
                let n = r.below(3);
                R {
                    name: None,
                    span: r.below(NSPAN),
                    e: E::Lambda((0..n).map(|_| gen_name(r)).collect(), Box::new(gen(r, depth - 1, scope + n, g))),
                }
            };
            E::Fix(Box::new(inner))
        }
        7 => {
            let n = 1 + r.below(3);
            E::Lambda((0..n).map(|_| gen_name(r)).collect(), Box::new(gen(r, depth - 1, scope + n, g)))
        }
        8 | 9 => {
            let n = r.below(4);
            let on = if r.chance(4, 5) {
                let m = if r.chance(9, 10) { n } else { r.below(4) };
                R {
                    name: if r.chance(1, 3) { Some(gen_name(r)) } else { None },
                    span: r.below(NSPAN),
                    e: E::Lambda((0..m).map(|_| gen_name(r)).collect(), Box::new(gen(r, depth - 1, scope + m, g))),
                }
            } else {
                gen(r, depth - 1, scope, g)
            };
            E::Call(Box::new(on), (0..n).map(|_| gen(r, depth - 1, scope, g)).collect())
        }
        _ => E::Let(
            gen_name(r),
            Box::new(gen(r, depth - 1, scope, g)),
            Box::new(gen(r, depth - 1, scope + 1, g)),
        ),
    };
    R { name, span, e }
}

// ---- substitution and reduction ------------------------------------------------

pub fn shift(r: &R, d: usize, by: usize) -> R {
    let go = |x: &R| shift(x, d, by);
    R {
        name: r.name.clone(),
        span: r.span,
        e: match &r.e {
            E::Eps => E::Eps,
            E::Lit(s) => E::Lit(s.clone()),
            E::Cat(v) => E::Cat(v.iter().map(|(s, x)| (*s, go(x))).collect()),
            E::Alt(v) => E::Alt(v.iter().map(|(s, x)| (*s, go(x))).collect()),
            E::Fix(x) => E::Fix(Box::new(go(x))),
            E::Var(i) => E::Var(if *i >= d { i + by } else { *i }),
            E::Call(f, a) => E::Call(Box::new(go(f)), a.iter().map(go).collect()),
            E::Lambda(a, b) => E::Lambda(a.clone(), Box::new(shift(b, d + a.len(), by))),
            E::Let(n, a, b) => E::Let(n.clone(), Box::new(go(a)), Box::new(shift(b, d + 1, by))),
        },
    }
}

/// Simultaneous substitution: variables d..d+es.len() become es (variable d being the last one).
pub fn subst(r: &R, d: usize, es: &[R]) -> R {
    let go = |x: &R| subst(x, d, es);
    let k = es.len();
    let e = match &r.e {
        E::Eps => E::Eps,
        E::Lit(s) => E::Lit(s.clone()),
        E::Cat(v) => E::Cat(v.iter().map(|(s, x)| (*s, go(x))).collect()),
        E::Alt(v) => E::Alt(v.iter().map(|(s, x)| (*s, go(x))).collect()),
        E::Fix(x) => E::Fix(Box::new(go(x))),
        E::Var(i) if *i < d => E::Var(*i),
        E::Var(i) if *i < d + k => {
            let mut out = shift(&es[k - 1 - (i - d)], 0, d);
            out.name = merge(out.name, r.name.clone());
            return out;
        }
        E::Var(i) => E::Var(i - k),
        E::Call(f, a) => E::Call(Box::new(go(f)), a.iter().map(go).collect()),
        E::Lambda(a, b) => E::Lambda(a.clone(), Box::new(subst(b, d + a.len(), es))),
        E::Let(n, a, b) => E::Let(n.clone(), Box::new(go(a)), Box::new(subst(b, d + 1, es))),
    };
    R { name: r.name.clone(), span: r.span, e }
}

#[derive(Debug, PartialEq)]
enum RErr {
    NotFunction(E, Sp),
    Count(usize, usize, Sp),
    Fuel,
}

fn reduce(r: &R, fuel: &mut usize) -> Result<R, RErr> {
    if *fuel < size(r) {
        *fuel = 0;
        return Err(RErr::Fuel);
    }
    *fuel -= size(r);
    let e = match &r.e {
        E::Eps | E::Lit(_) | E::Var(_) | E::Lambda(..) => r.e.clone(),
        E::Cat(v) => E::Cat(v.iter().map(|(s, x)| Ok((*s, reduce(x, fuel)?))).collect::<Result<_, RErr>>()?),
        E::Alt(v) => E::Alt(v.iter().map(|(s, x)| Ok((*s, reduce(x, fuel)?))).collect::<Result<_, RErr>>()?),
        E::Fix(x) => {
            let mut x = reduce(x, fuel)?;
            if let E::Lambda(a, b) = x.e {
                x.e = E::Lambda(a, Box::new(reduce(&b, fuel)?));
            }
            E::Fix(Box::new(x))
        }
        E::Call(f, args) => {
            let f = reduce(f, fuel)?;
            let (params, body) = match f.e {
                E::Lambda(a, b) => (a, b),
                e => return Err(RErr::NotFunction(e, r.span)),
            };
            if params.len() != args.len() {
                return Err(RErr::Count(params.len(), args.len(), r.span));
            }
            let args: Vec<R> = args
                .iter()
                .zip(&params)
                .map(|(a, p)| R { name: merge(a.name.clone(), Some(p.clone())), ..a.clone() })
                .collect();
            let mut out = reduce(&subst(&body, 0, &args), fuel)?;
            out.name = merge(merge(r.name.clone(), f.name), out.name);
            out.span = r.span;
            return Ok(out);
        }
        E::Let(_, a, b) => {
            let mut out = reduce(&subst(b, 0, &[(**a).clone()]), fuel)?;
            out.name = merge(out.name, r.name.clone());
            out.span = r.span;
            return Ok(out);
        }
    };
    Ok(R { name: r.name.clone(), span: r.span, e })
}

pub fn substitution(c: &mut Case) {
    let g = Gen { full: true, max_var: 4 };
    let d = c.rng.below(4);
    let body = gen(&mut c.rng, d, 0, &g);
    let d = c.rng.below(3);
    let ex = gen(&mut c.rng, d, 0, &g);
    let index = c.rng.below(5);
    c.input(format!("substitute {} for variable {} in {}", show(&ex), index, show(&body)));
    let mut s = Substitute { index, expr: real(&ex) };
    let got = unreal(&real(&body).fold(&mut s));
    // single substitution at `index`: nothing below it may be touched
    let want = subst_at(&body, index, &ex);
    c.eq("result", got, want);
    c.eq("index afterwards", s.index, index);
    c.eq("expression afterwards", unreal(&s.expr), ex);
}

fn subst_at(r: &R, index: usize, ex: &R) -> R {
    // `ex` lives outside the binders that `index` counts only if they are crossed: it is not shifted at depth 0
    fn go(r: &R, index: usize, crossed: usize, ex: &R) -> R {
        let f = |x: &R| go(x, index, crossed, ex);
        let e = match &r.e {
            E::Eps => E::Eps,
            E::Lit(s) => E::Lit(s.clone()),
            E::Cat(v) => E::Cat(v.iter().map(|(s, x)| (*s, f(x))).collect()),
            E::Alt(v) => E::Alt(v.iter().map(|(s, x)| (*s, f(x))).collect()),
            E::Fix(x) => E::Fix(Box::new(f(x))),
            E::Var(i) if *i == index + crossed => {
                let mut out = shift(ex, 0, crossed);
                out.name = merge(out.name, r.name.clone());
                return out;
            }
            E::Var(i) => E::Var(if *i > index + crossed { i - 1 } else { *i }),
            E::Call(g, a) => E::Call(Box::new(f(g)), a.iter().map(f).collect()),
            E::Lambda(a, b) => E::Lambda(a.clone(), Box::new(go(b, index, crossed + a.len(), ex))),
            E::Let(n, a, b) => E::Let(n.clone(), Box::new(f(a)), Box::new(go(b, index, crossed + 1, ex))),
        };
        R { name: r.name.clone(), span: r.span, e }
    }
    go(r, index, 0, ex)
}

pub fn reduction(c: &mut Case) {
    let d = 1 + c.rng.below(4);
    let max_var = c.rng.below(3);
    let g = gen(&mut c.rng, d, 0, &Gen { full: true, max_var });
    c.input(format!("reduce {}", show(&g)));
    let want = reduce(&g, &mut 3000);
    if want == Err(RErr::Fuel) {
        c.trivial();
        return;
    }
    let got = match real(&g).fold(&mut Reduce) {
        Ok(r) => Ok(unreal(&r)),
        Err(ReductionError::CallNotAFunction { on, span }) => Err(RErr::NotFunction(unexpr(&on), span_id(span))),
        Err(ReductionError::WrongArgCount { lambda, args, span }) => {
            Err(RErr::Count(lambda.args.len(), args.len(), span_id(span)))
        }
    };
    c.eq("reduction", got, want);
}

// ---- types ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ty {
    pub nullable: bool,
    pub first: BTreeSet<char>,
    pub flast: BTreeSet<char>,
}

pub fn unty(t: &Type) -> Ty {
    Ty {
        nullable: t.nullable(),
        first: t.first_set().clone().into_iter().collect(),
        flast: t.flast_set().clone().into_iter().collect(),
    }
}

fn first(s: &BTreeSet<char>) -> FirstSet {
    let mut f = FirstSet::new();
    for x in s {
        f.union(FirstSet::of_str(&x.to_string()));
    }
    f
}

pub fn realty(t: &Ty) -> Type {
    let mut l = FlastSet::new();
    l.union_first(first(&t.flast));
    Type::new(t.nullable, first(&t.first), l)
}

fn ty_str(s: &str) -> Ty {
    Ty {
        nullable: s.is_empty(),
        first: s.chars().take(1).collect(),
        flast: BTreeSet::new(),
    }
}

fn ty_cat(a: &Ty, b: &Ty) -> Ty {
    Ty {
        nullable: a.nullable && b.nullable,
        first: if a.nullable { a.first.union(&b.first).copied().collect() } else { a.first.clone() },
        flast: if b.nullable {
            b.flast.iter().chain(&b.first).chain(&a.flast).copied().collect()
        } else {
            b.flast.clone()
        },
    }
}

fn ty_alt(a: &Ty, b: &Ty) -> Ty {
    Ty {
        nullable: a.nullable || b.nullable,
        first: a.first.union(&b.first).copied().collect(),
        flast: a.flast.union(&b.flast).copied().collect(),
    }
}

fn gen_set(r: &mut Rng) -> BTreeSet<char> {
    let n = r.below(4);
    (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'é', '\0', '\u{1F600}'])).collect()
}

pub fn gen_ty(r: &mut Rng) -> Ty {
    Ty { nullable: r.chance(1, 2), first: gen_set(r), flast: gen_set(r) }
}

pub fn types(c: &mut Case) {
    let (a, b) = (gen_ty(&mut c.rng), gen_ty(&mut c.rng));
    let s: String = (0..c.rng.below(4)).map(|_| *c.rng.pick(&['a', 'é', '\u{1F600}', '\0'])).collect();
    c.input(format!("types {:?} and {:?}, string {:?}", a, b, s));
    c.eq("type", unty(&realty(&a)), a.clone());
    c.eq("of_str", unty(&Type::of_str(&s)), ty_str(&s));
    c.eq("default", unty(&Type::default()), Ty::default());
    let (x, y) = (realty(&a), realty(&b));
    c.eq("is_empty", x.first_set().is_empty(), a.first.is_empty());
    c.eq("flast is_empty", x.flast_set().is_empty(), a.flast.is_empty());
    c.eq("first disjoint", x.first_set().disjoint(y.first_set()), a.first.is_disjoint(&b.first));
    c.eq("flast disjoint", x.flast_set().disjoint(y.first_set()), a.flast.is_disjoint(&b.first));
    let mut u = x.flast_set().clone();
    u.union(y.flast_set().clone());
    c.eq("flast union", u.into_iter().collect::<BTreeSet<_>>(), a.flast.union(&b.flast).copied().collect());
    let mut z = x.clone();
    z.cat(y.clone());
    c.eq("cat", unty(&z), ty_cat(&a, &b));
    let mut z = x;
    z.alt(y);
    c.eq("alt", unty(&z), ty_alt(&a, &b));
}

fn tag(n: usize) -> Ty {
    Ty { nullable: n % 2 == 0, first: [(b'a' + n as u8 % 26) as char].into_iter().collect(), flast: BTreeSet::new() }
}

pub fn contexts(c: &mut Case) {
    // v = enter a binder, g = enter a consuming point, . = leave, ? = look everything up
    let n = 1 + c.rng.below(12);
    let mut open = 0;
    let mut ops = String::new();
    for _ in 0..n {
        let o = *c.rng.pick(&['v', 'v', 'g', '.', '?']);
        if o == '.' {
            if open == 0 {
                continue;
            }
            open -= 1;
        } else if o != '?' {
            open += 1;
        }
        ops.push(o);
        ops.push('?');
    }
    c.input(format!("context operations {} (v binder, g consuming point, . leave, ? look up)", ops));
    let ops: Vec<char> = ops.chars().collect();
    fn look(c: &Case, ctx: &Context, vars: &[Ty], guard: usize) {
        c.eq("depth", ctx.depth(), vars.len());
        for i in (0..vars.len() + 2).chain([usize::MAX, usize::MAX - 1]) {
            let got = ctx.get_variable_type(ast::Variable { index: i }).map(unty);
            let want = if i >= vars.len() {
                Err(GetVariableError::FreeVariable)
            } else if vars.len() - 1 - i < guard {
                Ok(vars[vars.len() - 1 - i].clone())
            } else {
                Err(GetVariableError::GuardedVariable)
            };
            c.eq(&format!("variable {}", i), got, want);
        }
    }
    fn go(c: &Case, ctx: &mut Context, ops: &[char], mut at: usize, vars: &mut Vec<Ty>, guard: usize, inner: bool) -> usize {
        while at < ops.len() {
            match ops[at] {
                'v' => {
                    let t = tag(at);
                    vars.push(t.clone());
                    at = ctx.with_variable_type(realty(&t), |ctx| go(c, ctx, ops, at + 1, vars, guard, true));
                    vars.pop();
                }
                'g' => {
                    let g = vars.len();
                    at = ctx.with_unguard(|ctx| go(c, ctx, ops, at + 1, vars, g, true));
                }
                '.' if inner => return at + 1,
                _ => {
                    look(c, ctx, vars, guard);
                    at += 1;
                }
            }
        }
        look(c, ctx, vars, guard);
        at
    }
    let mut ctx = Context::new();
    go(c, &mut ctx, &ops, 0, &mut Vec::new(), 0, false);
    look(c, &ctx, &[], 0);
}

// ---- inference -----------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct T {
    name: Option<Nm>,
    span: Sp,
    ty: Ty,
    e: TE,
}
#[derive(Clone, Debug, PartialEq)]
pub enum TE {
    Eps,
    Lit(String),
    Cat(Vec<T>),
    Alt(Vec<T>),
    Fix(Box<T>),
    Var(usize),
}

#[derive(Default)]
struct Dump;
impl Backend for Dump {
    type Id = T;
    type Code = ();
    fn gen_epsilon(&mut self, n: Option<Name>, s: Span, e: typed::Epsilon) -> T {
        t(n, s, e.get_type(), TE::Eps)
    }
    fn gen_literal(&mut self, n: Option<Name>, s: Span, e: typed::Literal) -> T {
        t(n, s, e.get_type(), TE::Lit(e.inner().clone()))
    }
    fn gen_cat(&mut self, n: Option<Name>, s: Span, e: typed::Cat) -> T {
        let ty = e.get_type().clone();
        let v = e.into_iter().map(|x| x.gen(self)).collect();
        t(n, s, &ty, TE::Cat(v))
    }
    fn gen_alt(&mut self, n: Option<Name>, s: Span, e: typed::Alt) -> T {
        let ty = e.get_type().clone();
        let v = e.into_iter().map(|x| x.gen(self)).collect();
        t(n, s, &ty, TE::Alt(v))
    }
    fn gen_fix(&mut self, n: Option<Name>, s: Span, e: typed::Fix) -> T {
        let ty = e.get_type().clone();
        let x = e.unwrap().gen(self);
        t(n, s, &ty, TE::Fix(Box::new(x)))
    }
    fn gen_variable(&mut self, n: Option<Name>, s: Span, e: typed::Variable) -> T {
        t(n, s, e.get_type(), TE::Var(e.index()))
    }
    fn emit_code(self, _: Option<Name>, _: Span, _: T) {}
}
/// A typed tree without spans and raw prefixes.
pub fn stripped(x: typed::TypedExpression) -> T {
    fn go(t: &mut T) {
        t.span = 0;
        if let Some(n) = &mut t.name {
            n.1 = n.1.trim_start_matches("r#").to_string();
        }
        match &mut t.e {
            TE::Cat(v) | TE::Alt(v) => v.iter_mut().for_each(go),
            TE::Fix(x) => go(x),
            _ => {}
        }
    }
    let mut t = x.gen(&mut Dump);
    go(&mut t);
    t
}
fn t(n: Option<Name>, s: Span, ty: &Type, e: TE) -> T {
    T { name: n.as_ref().map(unname), span: span_id(s), ty: unty(ty), e }
}

pub fn infer(r: &R, ctx: &mut Vec<Ty>, guard: usize, fixes: &mut usize) -> Result<T, (String, Option<Sp>)> {
    let (ty, e) = match &r.e {
        E::Eps => (Ty { nullable: true, ..Ty::default() }, TE::Eps),
        E::Lit(s) => (ty_str(s), TE::Lit(s.clone())),
        E::Cat(v) => {
            let f = infer(&v[0].1, ctx, guard, fixes)?;
            if f.ty.nullable {
                return Err(("first part of concatenation is nullable".into(), v.get(1).map(|x| x.0)));
            }
            let mut ty = f.ty.clone();
            let mut ts = vec![f];
            for (p, x) in &v[1..] {
                let n = ctx.len();
                let x = infer(x, ctx, n, fixes)?;
                if !ty.flast.is_disjoint(&x.ty.first) {
                    return Err(("first set overlaps with preceding flast set".into(), Some(*p)));
                }
                ty = ty_cat(&ty, &x.ty);
                ts.push(x);
            }
            (ty, TE::Cat(ts))
        }
        E::Alt(v) => {
            let f = infer(&v[0].1, ctx, guard, fixes)?;
            let mut ty = f.ty.clone();
            let mut ts = vec![f];
            for (p, x) in &v[1..] {
                let x = infer(x, ctx, guard, fixes)?;
                let (both, alike) = ("both branches are nullable", "first sets of both branches overlap");
                match (ty.nullable && x.ty.nullable, !ty.first.is_disjoint(&x.ty.first)) {
                    // either message will do
                    (true, true) => return Err((format!("{}\n{}", both, alike), Some(*p))),
                    (true, false) => return Err((both.into(), Some(*p))),
                    (false, true) => return Err((alike.into(), Some(*p))),
                    (false, false) => {}
                }
                ty = ty_alt(&ty, &x.ty);
                ts.push(x);
            }
            (ty, TE::Alt(ts))
        }
        E::Fix(x) => {
            *fixes += 1;
            let mut b = match &x.e {
                E::Lambda(a, b) if a.len() == 1 => (**b).clone(),
                _ => return Err(("expected a lambda expression".into(), Some(r.span))),
            };
            b.name = merge(merge(x.name.clone(), b.name), r.name.clone());
            let mut ty = Ty::default();
            loop {
                ctx.push(ty.clone());
                let res = infer(&b, ctx, guard, fixes);
                ctx.pop();
                let res = res?;
                if res.ty == ty {
                    break (ty, TE::Fix(Box::new(res)));
                }
                ty = res.ty;
            }
        }
        E::Var(i) => {
            let who = match &r.name {
                Some(n) => format!("`{}`", n.1),
                None => format!("'{}", i),
            };
            if *i >= ctx.len() {
                return Err((format!("unbound variable: {}", who), Some(r.span)));
            }
            if ctx.len() - 1 - i >= guard {
                return Err((format!("usage of guarded variable: {}", who), Some(r.span)));
            }
            (ctx[ctx.len() - 1 - i].clone(), TE::Var(*i))
        }
        E::Call(..) => return Err(("unexpected call".into(), Some(r.span))),
        E::Lambda(..) => return Err(("unexpected lambda".into(), Some(r.span))),
        E::Let(..) => return Err(("unexpected let".into(), Some(r.span))),
    };
    Ok(T { name: r.name.clone(), span: r.span, ty, e })
}

fn typed_in(ctx: &mut Context, vars: &[Ty], i: usize, at: usize, e: NamedExpression) -> Result<typed::TypedExpression, TypeError> {
    if i == vars.len() && i != at {
        return e.fold(&mut TypeInfer { context: ctx });
    }
    if i == vars.len() {
        return ctx.with_unguard(|ctx| e.fold(&mut TypeInfer { context: ctx }));
    }
    if i == at {
        return ctx.with_unguard(|ctx| ctx.with_variable_type(realty(&vars[i]), |ctx| typed_in(ctx, vars, i + 1, usize::MAX, e)));
    }
    ctx.with_variable_type(realty(&vars[i]), |ctx| typed_in(ctx, vars, i + 1, at, e))
}

/// The message, and the place it is about.
fn rejection(c: &mut Case, g: &R, vars: &[Ty], at: usize, want: Option<(String, Option<Sp>)>) {
    let (text, place) = match want {
        Some((t, p)) => (t, p.unwrap_or_else(|| span_id(Span::call_site()))),
        None => {
            c.trivial();
            return;
        }
    };
    let e = match typed_in(&mut Context::new(), vars, 0, at, real(g)) {
        Err(e) => e,
        // C09's concern
        Ok(_) => return,
    };
    let said = e.to_string();
    let text = if text.split('\n').any(|x| x == said) { said.clone() } else { text };
    c.eq("message", said, text.clone());
    c.eq("place", span_id(e.span()), place);
    let s = syn::Error::from(e);
    c.eq("message of the compiler error", s.to_string(), text);
    c.eq("place of the compiler error", span_id(s.span()), place);
}

/// C26: what is said about a grammar that is rejected, and where.
pub fn diagnostics(c: &mut Case) {
    match c.rng.below(8) {
        0 | 1 => {
            let d = 1 + c.rng.below(4);
            let max_var = c.rng.below(3);
            let g = gen(&mut c.rng, d, 0, &Gen { full: true, max_var });
            c.input(format!("reduce {}", show(&g)));
            let (text, place) = match reduce(&g, &mut 3000) {
                Err(RErr::NotFunction(_, s)) => ("call expected a function".to_string(), s),
                Err(RErr::Count(1, n, s)) => (format!("this function takes 1 argument but {} were supplied", n), s),
                Err(RErr::Count(m, 1, s)) => (format!("this function takes {} arguments but 1 was supplied", m), s),
                Err(RErr::Count(m, n, s)) => (format!("this function takes {} arguments but {} were supplied", m, n), s),
                _ => {
                    c.trivial();
                    return;
                }
            };
            if let Err(e) = real(&g).fold(&mut Reduce) {
                c.eq("message", e.to_string(), text.clone());
                let s = syn::Error::from(e);
                c.eq("message of the compiler error", s.to_string(), text);
                c.eq("place of the compiler error", span_id(s.span()), place);
            }
        }
        2 => {
            let i = c.rng.below(NSPAN);
            let word = c.rng.pick(&["x", "r#x", "r#match", "é"]).to_string();
            let (e, text, place) = match c.rng.below(5) {
                0 => (ConvertError::EmptyCat(span(i)), "concatenation has no elements".to_string(), i),
                1 => (ConvertError::EmptyAlt(span(i)), "alternation has no elements".to_string(), i),
                2 => (ConvertError::EmptyCall(span(i)), "call has no function".to_string(), i),
                3 => {
                    let n = Name::new_let(word.clone());
                    (ConvertError::UndeclaredName(Box::new(n)), format!("undeclared name: `{}`", word), span_id(Span::call_site()))
                }
                _ => {
                    let mut x = ident(&word);
                    x.set_span(span(i));
                    let text = format!("undeclared name: `{}`", word);
                    match x.convert(&mut convert::Context::new()) {
                        Err(e) => (e, text, i),
                        Ok(_) => return,
                    }
                }
            };
            c.input(format!("{:?}", e));
            c.eq("message", e.to_string(), text.clone());
            let s = syn::Error::from(e);
            c.eq("message of the compiler error", s.to_string(), text);
            c.eq("place of the compiler error", span_id(s.span()), place);
        }
        _ => inference(c),
    }
}

/// C28: a grammar is printed part by part.
pub fn printing(c: &mut Case) {
    fn text(r: &R) -> String {
        let e = match &r.e {
            E::Eps => "_".to_string(),
            E::Lit(s) => s.clone(),
            E::Cat(v) => format!("({})", v.iter().map(|x| text(&x.1)).collect::<Vec<_>>().join(" . ")),
            E::Alt(v) => format!("({})", v.iter().map(|x| text(&x.1)).collect::<Vec<_>>().join(" | ")),
            E::Fix(r) => format!("!{}", text(r)),
            E::Var(i) => format!("'{}", i),
            E::Call(f, a) => format!("({}{})", text(f), a.iter().map(|x| format!(" {}", text(x))).collect::<String>()),
            E::Lambda(a, b) => format!("/{}/ {}", a.iter().map(|n| n.1.clone()).collect::<Vec<_>>().join(", "), text(b)),
            E::Let(n, a, b) => format!("let {} = {}; {}", n.1, text(a), text(b)),
        };
        match (&r.name, &r.e) {
            (Some(n), E::Var(_)) => n.1.clone(),
            (Some(n), _) => format!("({} : {})", e, n.1),
            (None, _) => e,
        }
    }
    let d = c.rng.below(5);
    let g = gen(&mut c.rng, d, 0, &Gen { full: true, max_var: 3 });
    c.input(format!("print {}", show(&g)));
    let n = real(&g);
    c.eq("printed", n.to_string(), text(&g));
    let bare = R { name: None, span: 0, e: g.e.clone() };
    c.eq("printed expression", n.expr.to_string(), text(&bare));
}

pub fn inference(c: &mut Case) {
    let d = 1 + c.rng.below(5);
    let full = c.rng.chance(1, 12);
    let nfree = c.rng.below(3);
    let g = gen(&mut c.rng, d, 0, &Gen { full, max_var: nfree });
    let nvars = if c.rng.chance(1, 6) { nfree.saturating_sub(1) } else { nfree };
    let vars: Vec<Ty> = (0..nvars).map(|_| gen_ty(&mut c.rng)).collect();
    let at = if c.rng.chance(1, 2) { nvars } else { c.rng.below(nvars + 1) };
    c.input(format!("infer {} with variables {:?}, the first {} usable", show(&g), vars, at));
    let mut fixes = 0;
    let want = infer(&g, &mut vars.clone(), at, &mut fixes);
    if c.id == "C26" {
        rejection(c, &g, &vars, at, want.err());
        return;
    }
    let want = want.ok();
    if want.is_none() || (c.id == "C10" && fixes == 0) {
        c.trivial();
    }
    let mut ctx = Context::new();
    let got = typed_in(&mut ctx, &vars, 0, at, real(&g)).ok().map(|x| x.gen(&mut Dump));
    c.eq("accepted", got.is_some(), want.is_some());
    c.eq("typed tree", got, want);
    c.eq("depth afterwards", ctx.depth(), 0);
    let free = ctx.get_variable_type(ast::Variable { index: 0 }).map(unty);
    c.eq("context afterwards", free, Err(GetVariableError::FreeVariable));
}

// ---- names ---------------------------------------------------------------------

pub fn merging(c: &mut Case) {
    let n = c.rng.below(6);
    let v: Vec<Option<Nm>> = (0..n)
        .map(|i| if c.rng.chance(1, 3) { None } else { Some((c.rng.below(3) as u8, format!("n{}", i))) })
        .collect();
    c.input(format!("merge {:?} (0 variable, 1 let, 2 label)", v));
    if v.iter().filter(|x| x.is_some()).count() < 2 {
        c.trivial();
    }
    let want = v.iter().cloned().fold(None, merge);
    let got = Name::merge_all(v.iter().map(oname));
    c.eq("merge_all", got.as_ref().map(unname), want);
    if n >= 2 {
        let got = Name::merge(oname(&v[0]), oname(&v[1]));
        c.eq("merge", got.as_ref().map(unname), merge(v[0].clone(), v[1].clone()));
    }
}

fn hash(x: &Content) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn contents(c: &mut Case) {
    let texts = ["a", "b", "ab", "é", "if", "r", "a_", "_a"];
    let one = |r: &mut Rng| {
        let s = r.pick(&texts).to_string();
        match r.below(3) {
            0 => (format!("string {}", s), s.clone(), Content::from(s)),
            1 => (format!("ident {}", s), s.clone(), Content::from(ident(&s))),
            _ => (format!("ident r#{}", s), s.clone(), Content::from(ident(&format!("r#{}", s)))),
        }
    };
    let x = one(&mut c.rng);
    let y = one(&mut c.rng);
    c.input(format!("{} and {}", x.0, y.0));
    let want = x.1 == y.1;
    if !want {
        c.trivial();
    }
    c.eq("==", x.2 == y.2, want);
    c.eq("== the other way round", y.2 == x.2, want);
    c.eq("!=", x.2 != y.2, !want);
    c.eq("== itself", x.2 == x.2.clone(), true);
    c.eq("== string", x.2 == y.1, want);
    c.eq("== str", x.2 == y.1.as_str(), want);
    if want {
        c.eq("hash", hash(&x.2), hash(&y.2));
    }
    let (a, b) = (Name::new_label(x.2.clone()), Name::new_label(y.2.clone()));
    c.eq("names", a == b, want);
}
