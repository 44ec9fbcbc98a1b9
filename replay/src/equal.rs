//! C24: equality and hashing of grammars.
use crate::grammar::*;
use crate::util::*;
use chomp::chomp::ast::{Expression, NamedExpression};
use chomp::chomp::name::Content;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::{TypeInfer, TypedExpression};
use chomp::chomp::visit::Visitable;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Everything but spans (and the names parts carry, if not kept).
fn bare(r: &R, names: bool) -> R {
    let go = |x: &R| bare(x, names);
    let list = |v: &[(Sp, R)]| v.iter().map(|x| (0, go(&x.1))).collect();
    R {
        name: if names { r.name.clone() } else { None },
        span: 0,
        e: match &r.e {
            E::Eps | E::Lit(_) | E::Var(_) => r.e.clone(),
            E::Cat(v) => E::Cat(list(v)),
            E::Alt(v) => E::Alt(list(v)),
            E::Fix(x) => E::Fix(Box::new(go(x))),
            E::Call(f, a) => E::Call(Box::new(go(f)), a.iter().map(go).collect()),
            E::Lambda(a, b) => E::Lambda(a.clone(), Box::new(go(b))),
            E::Let(n, a, b) => E::Let(n.clone(), Box::new(go(a)), Box::new(go(b))),
        },
    }
}

fn each<'a>(r: &'a mut R, f: &mut dyn FnMut(&mut R)) {
    f(r);
    match &mut r.e {
        E::Eps | E::Lit(_) | E::Var(_) => {}
        E::Cat(v) | E::Alt(v) => v.iter_mut().for_each(|x| each(&mut x.1, f)),
        E::Fix(x) | E::Lambda(_, x) => each(x, f),
        E::Call(x, a) => {
            each(x, f);
            a.iter_mut().for_each(|x| each(x, f));
        }
        E::Let(_, a, b) => {
            each(a, f);
            each(b, f);
        }
    }
}

fn other_name(r: &mut Rng, n: &mut Nm) {
    match r.below(3) {
        0 => n.0 = (n.0 + 1) % 3,
        1 => n.1.push('x'),
        _ => n.1 = r.pick(&["x", "y", "z", "w"]).to_string(),
    }
}

fn tweak(r: &mut Rng, x: &mut R) {
    match &mut x.e {
        E::Eps => x.e = E::Lit(r.pick(&["", "a"]).to_string()),
        E::Lit(s) => match r.below(4) {
            0 => s.push('a'),
            1 => {
                s.pop();
            }
            2 => x.e = E::Eps,
            _ => *s = r.pick(&["a", "b", "é", ""]).to_string(),
        },
        E::Var(i) => *i = r.below(*i + 2),
        E::Cat(v) | E::Alt(v) if r.chance(3, 4) => {
            let n = v.len();
            let (i, j) = (r.below(n), r.below(n));
            match r.below(3) {
                0 => {
                    let y = v[i].1.clone();
                    v[i].1 = std::mem::replace(&mut v[j].1, y);
                }
                1 => {
                    let y = v[i].clone();
                    v.insert(j, y);
                }
                _ => {
                    if n > 2 {
                        v.remove(i);
                    }
                }
            }
        }
        E::Cat(v) => x.e = E::Alt(v.clone()),
        E::Alt(v) => x.e = E::Cat(v.clone()),
        E::Call(f, a) => match r.below(4) {
            0 if !a.is_empty() => {
                let i = r.below(a.len());
                let y = a[i].clone();
                a.push(y);
            }
            1 => {
                a.pop();
            }
            2 => a.reverse(),
            _ => {
                let mut y = (**f).clone();
                tweak(r, &mut y);
                **f = y;
            }
        },
        E::Lambda(a, _) => match r.below(3) {
            0 if !a.is_empty() => {
                let i = r.below(a.len());
                other_name(r, &mut a[i]);
            }
            1 => a.push((0, "q".into())),
            _ => {
                a.pop();
            }
        },
        E::Let(n, a, b) => match r.below(2) {
            0 => other_name(r, n),
            _ => std::mem::swap(a, b),
        },
        E::Fix(y) => match r.below(2) {
            0 => {
                let y = (**y).clone();
                *x = y;
            }
            _ => {
                let y = x.clone();
                x.e = E::Fix(Box::new(y));
            }
        },
    }
}

/// The same grammar as far as equality goes, with names written in other ways.
fn dress(r: &mut Rng, n: &mut NamedExpression) {
    fn one(r: &mut Rng, c: &mut Content) {
        let s = c.to_string();
        match r.below(3) {
            0 => {}
            1 => *c = Content::from(ident(&s)),
            _ => *c = Content::from(ident(&format!("r#{}", s))),
        }
    }
    if let Some(x) = &mut n.name {
        one(r, &mut x.content);
    }
    match &mut n.expr {
        Expression::Epsilon(_) | Expression::Literal(_) | Expression::Variable(_) => {}
        Expression::Cat(c) => {
            dress(r, &mut c.first);
            c.rest.iter_mut().for_each(|x| dress(r, &mut x.1));
        }
        Expression::Alt(c) => {
            dress(r, &mut c.first);
            c.rest.iter_mut().for_each(|x| dress(r, &mut x.1));
        }
        Expression::Fix(f) => dress(r, &mut f.inner),
        Expression::Call(c) => {
            dress(r, &mut c.on);
            c.args.iter_mut().for_each(|x| dress(r, x));
        }
        Expression::Lambda(l) => {
            l.args.iter_mut().for_each(|x| one(r, &mut x.content));
            dress(r, &mut l.inner);
        }
        Expression::Let(l) => {
            one(r, &mut l.name.content);
            dress(r, &mut l.bound);
            dress(r, &mut l.body);
        }
    }
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn typed(e: NamedExpression, vars: &[Ty]) -> Option<TypedExpression> {
    fn go(ctx: &mut Context, vars: &[Ty], e: NamedExpression) -> Option<TypedExpression> {
        match vars.split_first() {
            None => ctx.with_unguard(|ctx| e.fold(&mut TypeInfer { context: ctx }).ok()),
            Some((t, rest)) => ctx.with_variable_type(realty(t), |ctx| go(ctx, rest, e)),
        }
    }
    go(&mut Context::new(), vars, e)
}

pub fn equality(c: &mut Case) {
    let d = 1 + c.rng.below(4);
    let full = c.rng.chance(1, 2);
    let nvars = c.rng.below(3);
    let mut a = gen(&mut c.rng, d, 0, &Gen { full, max_var: nvars });
    let vars: Vec<Ty> = (0..nvars).map(|_| gen_ty(&mut c.rng)).collect();
    if !full {
        for _ in 0..20 {
            let (mut ctx, n) = (vars.clone(), vars.len());
            if infer(&a, &mut ctx, n, &mut 0).is_ok() {
                break;
            }
            a = gen(&mut c.rng, d, 0, &Gen { full, max_var: nvars });
        }
    }
    let (mut b, mut vars2) = (a.clone(), vars.clone());
    let r = &mut c.rng;
    if r.chance(1, 2) {
        each(&mut b, &mut |x| x.span = r.below(60));
    }
    if r.chance(1, 4) {
        let (mut at, odds) = (0, 1 + r.below(5));
        each(&mut b, &mut |x| {
            at += 1;
            if r.chance(1, odds) {
                match &mut x.name {
                    Some(n) if r.chance(1, 2) => other_name(r, n),
                    Some(_) => x.name = None,
                    None => x.name = Some((r.below(3) as u8, "x".into())),
                }
            }
        });
    }
    if r.chance(1, 2) {
        let mut n = 0;
        each(&mut b, &mut |_| n += 1);
        for _ in 0..1 + r.below(2) {
            let k = r.below(n);
            let mut i = 0;
            each(&mut b, &mut |x| {
                if i == k {
                    tweak(r, x);
                }
                i += 1;
            });
        }
    }
    if nvars > 0 && r.chance(1, 4) {
        let i = r.below(nvars);
        let t = gen_ty(r);
        match r.below(4) {
            0 => vars2[i].nullable = t.nullable,
            1 => vars2[i].first = t.first,
            2 => vars2[i].flast = t.flast,
            _ => vars2[i] = t,
        }
    }
    c.input(format!("{} and {} with variables {:?} and {:?}", show(&a), show(&b), vars, vars2));
    let (mut x, mut y) = (real(&a), real(&b));
    dress(&mut c.rng, &mut x);
    dress(&mut c.rng, &mut y);
    let want = bare(&a, false) == bare(&b, false);
    c.eq("==", x == y, want);
    c.eq("== the other way round", y == x, want);
    c.eq("!=", x != y, !want);
    c.eq("== itself", x == x.clone(), true);
    c.eq("== of the expressions", x.expr == y.expr, want);
    let (p, q) = match (typed(x, &vars), typed(y, &vars2)) {
        (Some(p), Some(q)) => (p, q),
        _ => {
            if full {
                c.trivial();
            }
            return;
        }
    };
    let want = stripped(p.clone()) == stripped(q.clone());
    c.eq("== with types", p == q, want);
    c.eq("== with types, the other way round", q == p, want);
    c.eq("== itself, with types", p == p.clone(), true);
    if want {
        c.eq("hash", hash(&p), hash(&q));
    }
}
