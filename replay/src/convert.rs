//! C15, C16: from the syntax tree to the expression.
use crate::grammar::{merge, span_id, unreal, Nm, Sp, E, R};
use crate::util::*;
use chomp::chomp::name::Name;
use chomp::nibble::convert::{Context, Convert, ConvertError};
use chomp::nibble::{self};
use syn::spanned::Spanned;
use syn::punctuated::Punctuated;

// reference syntax trees; the positions are filled in while printing
enum Term {
    Eps(Sp),
    Ident(Sp, String),
    Lit(Sp, String),
    Fix(Sp, Box<Term>),
    Parens(Box<Expr>),
}
struct Call(Sp, Vec<Term>);
/// each part with the separator before it
struct Cat(Sp, Vec<(Sp, Call)>);
struct Labelled(Sp, Cat, Option<String>);
struct Alt(Sp, Vec<(Sp, Labelled)>);
enum Expr {
    Alt(Alt),
    Lambda(Sp, Vec<String>, Alt),
}
enum Stmt {
    Goal(Sp, Expr),
    Let(Sp, String, Vec<String>, Expr, Box<Stmt>),
}

const NAMES: &[&str] = &["a", "b", "c", "r#a", "r#match", "opt", "_x"];
const ANY: &[&str] = &["a", "b", "c", "r#a", "r#match", "opt", "_x", "type", "match"];

struct G<'r> {
    r: &'r mut Rng,
    /// names that are in scope, so that most identifiers resolve
    scope: Vec<String>,
}
impl G<'_> {
    fn ident(&mut self) -> String {
        if !self.scope.is_empty() && !self.r.chance(1, 20) {
            let s = self.r.pick(&self.scope).clone();
            return if s == "r#a" && self.r.chance(1, 2) {
                "a".into()
            } else if s == "r#match" && self.r.chance(1, 2) {
                "match".into()
            } else {
                s
            };
        }
        self.r.pick(ANY).to_string()
    }
    fn term(&mut self, d: usize) -> Term {
        match self.r.below(if d == 0 { 4 } else { 7 }) {
            0 => Term::Eps(0),
            1 | 2 => {
                if self.scope.is_empty() && self.r.chance(9, 10) {
                    Term::Lit(0, "z".into())
                } else {
                    Term::Ident(0, self.ident())
                }
            }
            3 => Term::Lit(0, self.r.pick(&["", "a", "bc", "é\\n"]).to_string()),
            4 => Term::Fix(0, Box::new(self.term(d - 1))),
            _ => Term::Parens(Box::new(self.expr(d - 1))),
        }
    }
    fn few(&mut self) -> usize {
        if self.r.chance(1, 2) { 1 } else { 1 + self.r.below(3) }
    }
    fn call(&mut self, d: usize) -> Call {
        let n = self.few();
        Call(0, (0..n).map(|_| self.term(d)).collect())
    }
    fn cat(&mut self, d: usize) -> Cat {
        let n = self.few();
        Cat(0, (0..n).map(|_| (0, self.call(d))).collect())
    }
    fn alt(&mut self, d: usize) -> Alt {
        let n = self.few();
        Alt(
            0,
            (0..n)
                .map(|_| {
                    let c = self.cat(d);
                    let l = if self.r.chance(1, 3) { Some(self.r.pick(ANY).to_string()) } else { None };
                    (0, Labelled(0, c, l))
                })
                .collect(),
        )
    }
    fn args(&mut self, min: usize) -> Vec<String> {
        let n = min + self.r.below(3);
        (0..n).map(|_| self.r.pick(NAMES).to_string()).collect()
    }
    fn expr(&mut self, d: usize) -> Expr {
        if self.r.chance(1, 2) {
            let a = self.args(1);
            let n = self.scope.len();
            self.scope.extend(a.iter().cloned());
            let b = self.alt(d);
            self.scope.truncate(n);
            Expr::Lambda(0, a, b)
        } else {
            Expr::Alt(self.alt(d))
        }
    }
    fn stmt(&mut self, lets: usize, d: usize) -> Stmt {
        if lets == 0 {
            return Stmt::Goal(0, self.expr(d));
        }
        let name = self.r.pick(ANY).to_string();
        let a = self.args(0);
        let n = self.scope.len();
        self.scope.extend(a.iter().cloned());
        let e = self.expr(d);
        self.scope.truncate(n);
        self.scope.push(name.clone());
        let next = self.stmt(lets - 1, d);
        Stmt::Let(0, name, a, e, Box::new(next))
    }
}

/// Prints a tree, noting where each part starts.
struct P {
    out: String,
    len: usize,
}
impl P {
    fn tok(&mut self, s: &str) -> Sp {
        if self.len % 2 == 1 {
            self.out.push(' ');
            self.len += 1;
        }
        let at = self.len / 2;
        self.out += s;
        self.out.push(' ');
        self.len += s.chars().count() + 1;
        at
    }
    fn next(&self) -> Sp {
        (self.len + 1) / 2
    }
    fn term(&mut self, t: &mut Term) {
        match t {
            Term::Eps(s) => *s = self.tok("_"),
            Term::Ident(s, i) => *s = self.tok(i),
            Term::Lit(s, l) => *s = self.tok(&format!("\"{}\"", l)),
            Term::Fix(s, t) => {
                *s = self.tok("!");
                self.term(t);
            }
            Term::Parens(e) => {
                self.tok("(");
                self.expr(e);
                self.tok(")");
            }
        }
    }
    fn alt(&mut self, a: &mut Alt) {
        a.0 = self.next();
        for (i, (s, l)) in a.1.iter_mut().enumerate() {
            if i > 0 {
                *s = self.tok("|");
            }
            l.0 = self.next();
            l.1 .0 = self.next();
            for (j, (s, c)) in l.1 .1.iter_mut().enumerate() {
                if j > 0 {
                    *s = self.tok(".");
                }
                c.0 = self.next();
                for t in &mut c.1 {
                    self.term(t);
                }
            }
            if let Some(x) = &l.2 {
                self.tok(":");
                self.tok(x);
            }
        }
    }
    fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Alt(a) => self.alt(a),
            Expr::Lambda(s, v, a) => {
                *s = self.tok("/");
                for x in v.iter() {
                    self.tok(x);
                }
                self.tok("/");
                self.alt(a);
            }
        }
    }
    fn stmt(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Goal(s, e) => {
                *s = self.tok("match");
                self.expr(e);
                self.tok(";");
            }
            Stmt::Let(s, n, v, e, next) => {
                *s = self.tok("let");
                self.tok(n);
                for x in v.iter() {
                    self.tok(x);
                }
                self.tok("=");
                self.expr(e);
                self.tok(";");
                self.stmt(next);
            }
        }
    }
}

// the meaning of a tree
#[derive(Clone, Debug, PartialEq)]
enum Bad {
    Name(String, Sp),
    Cat,
    Alt,
    Call,
}
fn plain(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}
fn var(s: &str) -> Nm {
    (0, s.to_string())
}
type Scope = Vec<String>;

fn m_term(t: &Term, sc: &mut Scope) -> Result<R, Bad> {
    Ok(match t {
        Term::Eps(s) => R { name: None, span: *s, e: E::Eps },
        Term::Lit(s, l) => R { name: None, span: *s, e: E::Lit(l.replace("\\n", "\n")) },
        Term::Ident(s, i) => match sc.iter().rev().position(|x| plain(x) == plain(i)) {
            Some(k) => R { name: Some(var(i)), span: *s, e: E::Var(k) },
            None => return Err(Bad::Name(plain(i).to_string(), *s)),
        },
        Term::Fix(s, t) => R { name: None, span: *s, e: E::Fix(Box::new(m_term(t, sc)?)) },
        Term::Parens(e) => m_expr(e, sc)?,
    })
}
fn m_call(c: &Call, sc: &mut Scope) -> Result<R, Bad> {
    if c.1.is_empty() {
        return Err(Bad::Call);
    }
    let mut v = Vec::new();
    for t in &c.1 {
        v.push(m_term(t, sc)?);
    }
    let on = v.remove(0);
    Ok(if v.is_empty() { on } else { R { name: None, span: c.0, e: E::Call(Box::new(on), v) } })
}
fn m_cat(c: &Cat, sc: &mut Scope) -> Result<R, Bad> {
    if c.1.is_empty() {
        return Err(Bad::Cat);
    }
    let mut v = Vec::new();
    for (s, x) in &c.1 {
        v.push((*s, m_call(x, sc)?));
    }
    Ok(if v.len() == 1 { v.remove(0).1 } else { R { name: None, span: c.0, e: E::Cat(v) } })
}
fn m_alt(c: &Alt, sc: &mut Scope) -> Result<R, Bad> {
    if c.1.is_empty() {
        return Err(Bad::Alt);
    }
    let mut v = Vec::new();
    for (s, l) in &c.1 {
        let mut x = m_cat(&l.1, sc)?;
        x.name = merge(l.2.as_ref().map(|n| (2, n.clone())), x.name);
        x.span = l.0;
        v.push((*s, x));
    }
    Ok(if v.len() == 1 { v.remove(0).1 } else { R { name: None, span: c.0, e: E::Alt(v) } })
}
fn m_fun(args: &[String], body: impl FnOnce(&mut Scope) -> Result<R, Bad>, span: Sp, sc: &mut Scope) -> Result<R, Bad> {
    let n = sc.len();
    sc.extend(args.iter().cloned());
    let r = body(sc);
    sc.truncate(n);
    Ok(R { name: None, span, e: E::Lambda(args.iter().map(|a| var(a)).collect(), Box::new(r?)) })
}
fn m_expr(e: &Expr, sc: &mut Scope) -> Result<R, Bad> {
    match e {
        Expr::Alt(a) => m_alt(a, sc),
        Expr::Lambda(s, v, a) => m_fun(v, |sc| m_alt(a, sc), *s, sc),
    }
}
fn m_stmt(s: &Stmt, sc: &mut Scope) -> Result<R, Bad> {
    match s {
        Stmt::Goal(s, e) => {
            let r = m_expr(e, sc)?;
            Ok(R { name: r.name.or(Some(var("Ast"))), span: *s, e: r.e })
        }
        Stmt::Let(s, n, v, e, next) => {
            let mut b = if v.is_empty() { m_expr(e, sc)? } else { m_fun(v, |sc| m_expr(e, sc), *s, sc)? };
            let nm = (1, n.clone());
            b.name = Some(nm.clone());
            sc.push(n.clone());
            let body = m_stmt(next, sc)?;
            Ok(R { name: None, span: *s, e: E::Let(nm, Box::new(b), Box::new(body)) })
        }
    }
}

/// The marker span the reference uses for the first part.
fn tidy(r: &mut R) {
    match &mut r.e {
        E::Cat(v) | E::Alt(v) => {
            v[0].0 = 0;
            v.iter_mut().for_each(|x| tidy(&mut x.1));
        }
        E::Fix(x) | E::Lambda(_, x) => tidy(x),
        E::Call(f, a) => {
            tidy(f);
            a.iter_mut().for_each(tidy);
        }
        E::Let(_, a, b) => {
            tidy(a);
            tidy(b);
        }
        E::Eps | E::Lit(_) | E::Var(_) => {}
    }
}

fn show<T: std::fmt::Debug>(x: &T) -> String {
    format!("{:?}", x)
}

fn outcome(r: Result<chomp::chomp::ast::NamedExpression, ConvertError>) -> Result<R, Bad> {
    match r {
        Ok(n) => {
            let mut r = unreal(&n);
            tidy(&mut r);
            Ok(r)
        }
        Err(ConvertError::UndeclaredName(n)) => Err(Bad::Name(plain(&n.to_string()).to_string(), span_id(n.span()))),
        Err(ConvertError::EmptyCat(_)) => Err(Bad::Cat),
        Err(ConvertError::EmptyAlt(_)) => Err(Bad::Alt),
        Err(ConvertError::EmptyCall(_)) => Err(Bad::Call),
    }
}

pub fn conversion(c: &mut Case) {
    let d = c.rng.below(3);
    let lets = c.rng.below(4);
    if c.rng.chance(1, 2) {
        let mut t = G { r: &mut c.rng, scope: vec![] }.stmt(lets, d);
        let mut p = P { out: String::new(), len: 0 };
        p.stmt(&mut t);
        c.input(format!("grammar {}", p.out));
        let s: nibble::Statement = match syn::parse_str(&p.out) {
            Ok(s) => s,
            Err(_) => {
                c.trivial();
                return;
            }
        };
        let mut want = m_stmt(&t, &mut vec![]);
        if let Ok(r) = &mut want {
            tidy(r);
        }
        let got = outcome(s.convert(&mut Context::new()));
        c.eq("conversion", got, want);
        return;
    }
    // an expression, possibly with parts taken out, in some scope
    let n = c.rng.below(5);
    let mut scope: Scope = (0..n).map(|_| c.rng.pick(NAMES).to_string()).collect();
    let mut t = G { r: &mut c.rng, scope: scope.clone() }.expr(d);
    let mut p = P { out: String::new(), len: 0 };
    p.expr(&mut t);
    let mut s: nibble::Expression = match syn::parse_str(&p.out) {
        Ok(s) => s,
        Err(_) => {
            c.trivial();
            return;
        }
    };
    let mut note = String::new();
    if c.rng.chance(1, 4) {
        let (rt, ra) = match (&mut t, &mut s) {
            (Expr::Alt(t), nibble::Expression::Alt(a)) => (t, a),
            (Expr::Lambda(_, _, t), nibble::Expression::Lambda(l)) => (t, &mut l.expr),
            _ => {
                c.fail("harness: shapes differ".into());
            }
        };
        let i = c.rng.below(rt.1.len());
        let j = c.rng.below(rt.1[i].1 .1 .1.len());
        match c.rng.below(3) {
            0 => {
                note = "no choices".into();
                rt.1.clear();
                ra.0 = Punctuated::new();
            }
            1 => {
                note = format!("choice {} emptied", i);
                rt.1[i].1 .1 .1.clear();
                ra.0[i].cat.0 = Punctuated::new();
            }
            _ => {
                note = format!("choice {} part {} emptied", i, j);
                rt.1[i].1 .1 .1[j].1 .1.clear();
                ra.0[i].cat.0[j].0.clear();
            }
        }
    }
    c.input(format!("expression {} {} in scope {:?}", p.out, note, scope));
    let mut ctx = Context::new();
    for x in &scope {
        ctx.push_variable(Name::new_variable(crate::grammar::ident(x)));
    }
    let before = show(&ctx);
    let got = outcome(s.convert(&mut ctx));
    let mut want = m_expr(&t, &mut scope);
    let emptied = !note.is_empty();
    if let Ok(r) = &mut want {
        tidy(r);
    }
    if emptied {
        // positions of nodes with parts taken out are whatever is left of them
        c.eq("outcome of conversion", got.err(), want.err());
    } else {
        c.eq("conversion", got, want);
    }
    c.eq("scope afterwards", show(&ctx), before);
    for x in NAMES {
        let n = Name::new_variable(crate::grammar::ident(x));
        c.eq(
            "lookup",
            ctx.lookup(&n),
            scope.iter().rev().position(|y| plain(y) == plain(x)),
        );
    }
    let _ = span_id;
}
