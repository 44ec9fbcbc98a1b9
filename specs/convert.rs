//@include prelude.inc
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use std::cmp::Ordering;
//@include vecs.inc
//@include strings.inc
//@include token.inc
//@include nametypes.inc
//@include nameops.inc
//@include contenteq.inc
pub mod ast {
use super::*;
//@include ast.inc
}
pub use ast::{N, X, NamedExpression, vn, vx, vrest, vall, vcat, valt, vcall, vfix, vlambda, vlet, g_views};
//@include mem.inc
//@include syntax.inc
pub mod nibble {
use crate::*;
//@set ty Token![_] => Token
//@set ty Token![!] => Token
//@set ty Token![.] => Token
//@set ty Token![|] => Token
//@set ty Token![:] => Token
//@set ty Token![/] => Token
//@set ty Token![match] => Token
//@set ty Token![let] => Token
//@set ty Token![;] => Token
//@set ty Token![=] => Token
//@set ty Paren => Token
//@set ty LitStr => LitStr
verus! {
//@item src/nibble/mod.rs Epsilon
//@item src/nibble/mod.rs Literal
//@item src/nibble/mod.rs Fix
//@item src/nibble/mod.rs ParenExpression
//@item src/nibble/mod.rs Term
//@item src/nibble/mod.rs Call
//@item src/nibble/mod.rs Cat
//@item src/nibble/mod.rs Label
//@item src/nibble/mod.rs Labelled
//@item src/nibble/mod.rs Alt
//@item src/nibble/mod.rs Lambda
//@item src/nibble/mod.rs Expression
//@item src/nibble/mod.rs GoalStatement
//@item src/nibble/mod.rs LetStatement
//@item src/nibble/mod.rs Statement
}
pub mod convert {
use crate::*;
use super::*;
verus! {
//@item src/nibble/convert.rs Context
//@item src/nibble/convert.rs ConvertError

// ------------------------------------------------------------ what a syntax tree means
/// Why a syntax tree is rejected.
pub ghost enum CE {
    /// ... with the identifier's place.
    Undeclared(Seq<char>, Span),
    EmptyCat(Span),
    EmptyAlt(Span),
    EmptyCall(Span),
}

pub open spec fn ce(e: ConvertError) -> CE {
    match e {
        ConvertError::UndeclaredName(n) => CE::Undeclared(n.content.text(), n.place()),
        ConvertError::EmptyCat(s) => CE::EmptyCat(s),
        ConvertError::EmptyAlt(s) => CE::EmptyAlt(s),
        ConvertError::EmptyCall(s) => CE::EmptyCall(s),
    }
}

pub open spec fn rv(r: Result<NamedExpression, ConvertError>) -> Result<N, CE> {
    match r { Ok(n) => Ok(vn(n)), Err(e) => Err(ce(e)) }
}

/// The distance from the end of the scope to its last entry s.
pub open spec fn innermost(scope: Seq<Seq<char>>, s: Seq<char>) -> Option<nat>
    decreases scope.len(),
{
    if scope.len() == 0 {
        None
    } else if scope.last() == s {
        Some(0)
    } else {
        match innermost(scope.drop_last(), s) { Some(k) => Some(k + 1), None => None }
    }
}

/// ... which is what it says.
pub proof fn innermost_is(scope: Seq<Seq<char>>, s: Seq<char>)
    ensures
        match innermost(scope, s) {
            Some(k) => k < scope.len() && scope[scope.len() - 1 - k] == s
                && forall|j: int| scope.len() - 1 - k < j < scope.len() ==> #[trigger] scope[j] != s,
            None => forall|j: int| 0 <= j < scope.len() ==> #[trigger] scope[j] != s,
        },
    decreases scope.len(),
{
    if scope.len() > 0 {
        let t = scope.drop_last();
        innermost_is(t, s);
        assert forall|j: int| 0 <= j < scope.len() - 1 implies #[trigger] scope[j] == t[j] by {}
    }
}

pub open spec fn var_name(i: Ident) -> Name {
    Name { content: Content::Spanned(i), kind: Kind::Variable }
}
pub open spec fn names_of(v: Seq<Ident>) -> Seq<Name> {
    Seq::new(v.len(), |i: int| var_name(v[i]))
}
pub open spec fn texts_of(v: Seq<Ident>) -> Seq<Seq<char>> {
    Seq::new(v.len(), |i: int| unraw(v[i].text()))
}

pub open spec fn c_ident(i: Ident, scope: Seq<Seq<char>>) -> Result<N, CE> {
    match innermost(scope, unraw(i.text())) {
        Some(k) => Ok(N { name: Some(var_name(i)), span: i.sp(), e: X::Var(k) }),
        None => Err(CE::Undeclared(unraw(i.text()), i.sp())),
    }
}

pub open spec fn c_term(t: Term, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases t, 0int,
{
    match t {
        Term::Epsilon(e) => Ok(N { name: None, span: e.span, e: X::Eps }),
        Term::Ident(i) => c_ident(i, scope),
        Term::Literal(l) => Ok(N { name: None, span: l.sp(), e: X::Lit(l.text()) }),
        Term::Fix(f) => c_fix(f, scope),
        Term::Parens(p) => c_expr(p.expr, scope),
    }
}

pub open spec fn c_fix(f: Fix, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases f, 0int,
{
    match c_term(*f.expr, scope) {
        Ok(n) => Ok(N { name: None, span: span_of(f), e: X::Fix(Box::new(n)) }),
        Err(e) => Err(e),
    }
}

/// The first k parts of an application.
pub open spec fn c_terms(c: Call, k: int, scope: Seq<Seq<char>>) -> Result<Seq<N>, CE>
    decreases c, k,
{
    if k <= 0 || k > c.0@.len() {
        Ok(seq![])
    } else {
        match c_terms(c, k - 1, scope) {
            Ok(s) => match c_term(c.0[k - 1], scope) { Ok(n) => Ok(s.push(n)), Err(e) => Err(e) },
            Err(e) => Err(e),
        }
    }
}

pub open spec fn c_call(c: Call, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases c, c.0@.len() + 1,
{
    if c.0@.len() == 0 {
        Err(CE::EmptyCall(span_of(c)))
    } else {
        match c_terms(c, c.0@.len() as int, scope) {
            Ok(s) => if s.len() == 1 {
                Ok(s[0])
            } else {
                Ok(N { name: None, span: span_of(c), e: X::Call(Box::new(s[0]), s.skip(1)) })
            },
            Err(e) => Err(e),
        }
    }
}

/// The first k parts of a sequence.
pub open spec fn c_calls(c: Cat, k: int, scope: Seq<Seq<char>>) -> Result<Seq<N>, CE>
    decreases c, k,
{
    if k <= 0 || k > c.0.len() {
        Ok(seq![])
    } else {
        match c_calls(c, k - 1, scope) {
            Ok(s) => match c_call(if k <= c.0.inner@.len() { c.0.inner[k - 1].0 } else { *c.0.last->0 }, scope) {
                Ok(n) => Ok(s.push(n)),
                Err(e) => Err(e),
            },
            Err(e) => Err(e),
        }
    }
}

pub open spec fn c_cat(c: Cat, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases c, c.0.len() + 1,
{
    if c.0.len() == 0 {
        Err(CE::EmptyCat(span_of(c)))
    } else {
        match c_calls(c, c.0.len() as int, scope) {
            Ok(s) => if s.len() == 1 {
                Ok(s[0])
            } else {
                Ok(N { name: None, span: span_of(c), e: X::Cat(Box::new(s[0]), separated(s, c.0.seps())) })
            },
            Err(e) => Err(e),
        }
    }
}

/// Each later part with the separator before it.
pub open spec fn separated(s: Seq<N>, seps: Seq<Span>) -> Seq<(Span, N)> {
    Seq::new((s.len() - 1) as nat, |i: int| (seps[i], s[i + 1]))
}

pub open spec fn c_labelled(l: Labelled, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases l, 0int,
{
    match c_cat(l.cat, scope) {
        Ok(n) => {
            let label = match l.label {
                Some(x) => Some(Name { content: Content::Spanned(x.label), kind: Kind::Label }),
                None => None,
            };
            Ok(N { name: merge2(label, n.name), span: span_of(l), e: n.e })
        },
        Err(e) => Err(e),
    }
}

/// The first k branches of a choice.
pub open spec fn c_labelleds(c: Alt, k: int, scope: Seq<Seq<char>>) -> Result<Seq<N>, CE>
    decreases c, k,
{
    if k <= 0 || k > c.0.len() {
        Ok(seq![])
    } else {
        match c_labelleds(c, k - 1, scope) {
            Ok(s) => match c_labelled(if k <= c.0.inner@.len() { c.0.inner[k - 1].0 } else { *c.0.last->0 }, scope) {
                Ok(n) => Ok(s.push(n)),
                Err(e) => Err(e),
            },
            Err(e) => Err(e),
        }
    }
}

pub open spec fn c_alt(c: Alt, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases c, c.0.len() + 1,
{
    if c.0.len() == 0 {
        Err(CE::EmptyAlt(span_of(c)))
    } else {
        match c_labelleds(c, c.0.len() as int, scope) {
            Ok(s) => if s.len() == 1 {
                Ok(s[0])
            } else {
                Ok(N { name: None, span: span_of(c), e: X::Alt(Box::new(s[0]), separated(s, c.0.seps())) })
            },
            Err(e) => Err(e),
        }
    }
}

pub open spec fn c_lambda(l: Lambda, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases l, 0int,
{
    match c_alt(l.expr, scope + texts_of(l.args@)) {
        Ok(n) => Ok(N { name: None, span: span_of(l), e: X::Lambda(names_of(l.args@), Box::new(n)) }),
        Err(e) => Err(e),
    }
}

pub open spec fn c_expr(e: Expression, scope: Seq<Seq<char>>) -> Result<N, CE>
    decreases e, 0int,
{
    match e {
        Expression::Alt(a) => c_alt(a, scope),
        Expression::Lambda(l) => c_lambda(l, scope),
    }
}

/// What a let names.
pub open spec fn c_bound(l: LetStatement, scope: Seq<Seq<char>>) -> Result<N, CE> {
    let name = Some(Name { content: Content::Spanned(l.name), kind: Kind::Let });
    if l.args@.len() == 0 {
        match c_expr(l.expr, scope) { Ok(n) => Ok(N { name, span: n.span, e: n.e }), Err(e) => Err(e) }
    } else {
        match c_expr(l.expr, scope + texts_of(l.args@)) {
            Ok(n) => Ok(N { name, span: span_of(l), e: X::Lambda(names_of(l.args@), Box::new(n)) }),
            Err(e) => Err(e),
        }
    }
}

/// r is the meaning of the statements s.
pub open spec fn is_stmt(s: Statement, scope: Seq<Seq<char>>, r: Result<N, CE>) -> bool
    decreases s, 0int,
{
    match s {
        Statement::Goal(g) => is_goal(g, scope, r),
        Statement::Let(l) => is_let(l, scope, r),
    }
}

pub open spec fn is_goal(g: GoalStatement, scope: Seq<Seq<char>>, r: Result<N, CE>) -> bool
{
    match (c_expr(g.expr, scope), r) {
        (Ok(n), Ok(m)) => {
            &&& m.e == n.e
            &&& m.span == span_of(g)
            &&& n.name is Some ==> m.name == n.name
            &&& n.name is None ==> m.name is Some && m.name->0.kind == Kind::Variable && m.name->0.content.text() == "Ast"@
        },
        (Err(e), Err(f)) => e == f,
        _ => false,
    }
}

pub open spec fn is_let(l: LetStatement, scope: Seq<Seq<char>>, r: Result<N, CE>) -> bool
    decreases l, 0int,
{
    match c_bound(l, scope) {
        Ok(b) => match r {
            Ok(m) => {
                &&& m.name is None
                &&& m.span == span_of(l)
                &&& m.e is Let
                &&& m.e->Let_0 == Name { content: Content::Spanned(l.name), kind: Kind::Let }
                &&& *m.e->Let_1 == b
                &&& is_stmt(*l.next, scope.push(unraw(l.name.text())), Ok(*m.e->Let_2))
            },
            Err(e) => is_stmt(*l.next, scope.push(unraw(l.name.text())), Err(e)),
        },
        Err(e) => r == Err::<N, CE>(e),
    }
}

// ------------------------------------------------------------ the scope
pub open spec fn at(o: Option<(usize, &Content)>) -> int {
    (o->0).0 as int
}
pub open spec fn texts(s: Seq<Content>) -> Seq<Seq<char>> {
    Seq::new(s.len(), |i: int| s[i].text())
}
pub open spec fn contents(s: Seq<Name>) -> Seq<Content> {
    Seq::new(s.len(), |i: int| s[i].content)
}
pub broadcast proof fn texts_push(s: Seq<Content>, c: Content)
    ensures #[trigger] texts(s.push(c)) == texts(s).push(c.text()),
{
    assert(texts(s.push(c)) =~= texts(s).push(c.text()));
}
pub broadcast proof fn texts_names(s: Seq<Content>, v: Seq<Ident>)
    ensures #[trigger] texts(s + contents(names_of(v))) == texts(s) + texts_of(v),
{
    assert(texts(s + contents(names_of(v))) =~= texts(s) + texts_of(v));
}

/// The first of several parts, and the others with what stands before them.
pub open spec fn parts(first: N, rest: Seq<(Span, N)>) -> Seq<N> {
    Seq::new(rest.len() + 1, |i: int| if i == 0 { first } else { rest[i - 1].1 })
}
pub broadcast proof fn parts_none(f: N)
    ensures #[trigger] parts(f, vrest(seq![])) == seq![f],
{
    assert(parts(f, vrest(seq![])) =~= seq![f]);
}
pub broadcast proof fn parts_push(f: N, v: Seq<(Span, NamedExpression)>, x: (Span, NamedExpression))
    ensures #[trigger] parts(f, vrest(v.push(x))) == parts(f, vrest(v)).push(vn(x.1)),
{
    assert(parts(f, vrest(v.push(x))) =~= parts(f, vrest(v)).push(vn(x.1)));
}
pub broadcast proof fn parts_separated(f: N, r: Seq<(Span, N)>, seps: Seq<Span>)
    requires forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == seps[i],
    ensures #[trigger] separated(parts(f, r), seps) == r,
{
    assert(separated(parts(f, r), seps) =~= r);
}
pub broadcast proof fn collected_push<T, E>(s: Seq<Result<T, E>>, x: Result<T, E>)
    ensures #[trigger] collected(s.push(x)) == match collected(s) {
        Ok(v) => match x { Ok(y) => Ok(v.push(y)), Err(e) => Err(e) },
        Err(e) => Err(e),
    },
{
    assert(s.push(x).drop_last() =~= s);
}
/// a and the first i items of s.
pub open spec fn upto<T>(a: Seq<T>, s: Seq<T>, i: int) -> Seq<T> {
    a + s.take(i)
}
pub broadcast proof fn upto_ends<T>(a: Seq<T>, s: Seq<T>, i: int)
    ensures i == 0 ==> #[trigger] upto(a, s, i) == a, i == s.len() ==> upto(a, s, i) == a + s,
{
    if i == 0 { assert(upto(a, s, i) =~= a); }
    if i == s.len() { assert(upto(a, s, i) =~= a + s); }
}
pub broadcast proof fn upto_push<T>(a: Seq<T>, s: Seq<T>, i: int, x: T)
    requires 0 <= i < s.len(), x == s[i],
    ensures #[trigger] upto(a, s, i).push(x) == upto(a, s, i + 1),
{
    assert(upto(a, s, i).push(x) =~= upto(a, s, i + 1));
}
pub broadcast proof fn upto_back<T>(a: Seq<T>, s: Seq<T>, i: int, n: int)
    requires n == a.len(), 0 <= i <= s.len(),
    ensures #[trigger] upto(a, s, i).take(n) == a,
{
    assert(upto(a, s, i).take(n) =~= a);
}
pub broadcast proof fn add_back<T>(a: Seq<T>, s: Seq<T>, n: int)
    requires n == a.len(),
    ensures #[trigger] (a + s).take(n) == a,
{
    assert((a + s).take(n) =~= a);
}
pub broadcast proof fn upto_nothing<T>(s: Seq<T>)
    ensures #[trigger] (Seq::<T>::empty() + s) == s,
{
    assert(Seq::<T>::empty() + s =~= s);
}
pub open spec fn applied(on: N, args: Seq<NamedExpression>) -> Seq<N> {
    seq![on] + vall(args)
}
pub broadcast proof fn applied_none(on: N)
    ensures #[trigger] applied(on, Seq::empty()) == seq![on],
{
    assert(applied(on, Seq::empty()) =~= seq![on]);
}
pub broadcast proof fn applied_push(on: N, s: Seq<NamedExpression>, x: NamedExpression)
    ensures #[trigger] applied(on, s.push(x)) == applied(on, s).push(vn(x)),
{
    assert(applied(on, s.push(x)) =~= applied(on, s).push(vn(x)));
}
pub broadcast proof fn applied_skip(on: N, s: Seq<NamedExpression>)
    ensures #[trigger] applied(on, s).skip(1) == vall(s),
{
    assert(applied(on, s).skip(1) =~= vall(s));
}

/// An error in the first part is the error of the whole.
pub proof fn terms_first(c: Call, k: int, scope: Seq<Seq<char>>)
    requires 1 <= k <= c.0@.len(), c_term(c.0[0], scope) is Err,
    ensures c_terms(c, k, scope) == Err::<Seq<N>, CE>(c_term(c.0[0], scope)->Err_0),
    decreases k,
{
    reveal_with_fuel(c_terms, 3);
    if k > 1 { terms_first(c, k - 1, scope); }
}
pub proof fn cat_is(c: Cat, scope: Seq<Seq<char>>)
    ensures c_cat(c, scope) == if c.0.len() == 0 { Err::<N, CE>(CE::EmptyCat(span_of(c))) } else {
        match c_calls(c, c.0.len() as int, scope) {
            Ok(s) => if s.len() == 1 {
                Ok(s[0])
            } else {
                Ok(N { name: None, span: span_of(c), e: X::Cat(Box::new(s[0]), separated(s, c.0.seps())) })
            },
            Err(e) => Err(e),
        }
    },
{
}
pub proof fn calls_step(c: Cat, k: int, scope: Seq<Seq<char>>)
    requires 0 <= k <= c.0.len(),
    ensures
        k == 0 ==> c_calls(c, k, scope) == Ok::<Seq<N>, CE>(seq![]),
        k > 0 ==> c_calls(c, k, scope) == match c_calls(c, k - 1, scope) {
            Ok(s) => match c_call(c.0.pairs()[k - 1].value(), scope) { Ok(n) => Ok(s.push(n)), Err(e) => Err(e) },
            Err(e) => Err(e),
        },
{
}
pub proof fn calls_first(c: Cat, k: int, scope: Seq<Seq<char>>)
    requires 1 <= k <= c.0.len(), c_call(c.0.pairs()[0].value(), scope) is Err,
    ensures c_calls(c, k, scope) == Err::<Seq<N>, CE>(c_call(c.0.pairs()[0].value(), scope)->Err_0),
    decreases k,
{
    reveal_with_fuel(c_calls, 3);
    if k > 1 { calls_first(c, k - 1, scope); }
}
pub proof fn alt_is(c: Alt, scope: Seq<Seq<char>>)
    ensures c_alt(c, scope) == if c.0.len() == 0 { Err::<N, CE>(CE::EmptyAlt(span_of(c))) } else {
        match c_labelleds(c, c.0.len() as int, scope) {
            Ok(s) => if s.len() == 1 {
                Ok(s[0])
            } else {
                Ok(N { name: None, span: span_of(c), e: X::Alt(Box::new(s[0]), separated(s, c.0.seps())) })
            },
            Err(e) => Err(e),
        }
    },
{
}
pub proof fn labelleds_step(c: Alt, k: int, scope: Seq<Seq<char>>)
    requires 0 <= k <= c.0.len(),
    ensures
        k == 0 ==> c_labelleds(c, k, scope) == Ok::<Seq<N>, CE>(seq![]),
        k > 0 ==> c_labelleds(c, k, scope) == match c_labelleds(c, k - 1, scope) {
            Ok(s) => match c_labelled(c.0.pairs()[k - 1].value(), scope) { Ok(n) => Ok(s.push(n)), Err(e) => Err(e) },
            Err(e) => Err(e),
        },
{
}
pub proof fn labelleds_first(c: Alt, k: int, scope: Seq<Seq<char>>)
    requires 1 <= k <= c.0.len(), c_labelled(c.0.pairs()[0].value(), scope) is Err,
    ensures c_labelleds(c, k, scope) == Err::<Seq<N>, CE>(c_labelled(c.0.pairs()[0].value(), scope)->Err_0),
    decreases k,
{
    reveal_with_fuel(c_labelleds, 3);
    if k > 1 { labelleds_first(c, k - 1, scope); }
}
/// The parts of an expression, one level down.
pub open spec fn level(n: NamedExpression) -> X {
    match n.expr {
        ast::Expression::Cat(c) => X::Cat(Box::new(vn(*c.first)), vrest(c.rest@)),
        ast::Expression::Alt(c) => X::Alt(Box::new(vn(*c.first)), vrest(c.rest@)),
        ast::Expression::Call(c) => X::Call(Box::new(vn(*c.on)), vall(c.args@)),
        ast::Expression::Lambda(l) => X::Lambda(l.args@, Box::new(vn(*l.inner))),
        ast::Expression::Let(l) => X::Let(l.name, Box::new(vn(*l.bound)), Box::new(vn(*l.body))),
        ast::Expression::Fix(f) => X::Fix(Box::new(vn(*f.inner))),
        e => vx(e),
    }
}
pub proof fn unfold(n: NamedExpression)
    ensures vn(n).name == n.name, vn(n).span == n.span, vn(n).e == level(n),
{
    broadcast use g_views;
    reveal_with_fuel(vn, 2);
    reveal_with_fuel(vx, 2);
    match n.expr {
        ast::Expression::Cat(c) => { assert(vx(n.expr) == vcat(c)); },
        ast::Expression::Alt(c) => { assert(vx(n.expr) == valt(c)); },
        ast::Expression::Call(c) => { assert(vx(n.expr) == vcall(c)); },
        ast::Expression::Lambda(c) => { assert(vx(n.expr) == vlambda(c)); },
        ast::Expression::Let(c) => { assert(vx(n.expr) == vlet(c)); },
        ast::Expression::Fix(c) => { assert(vx(n.expr) == vfix(c)); },
        _ => {},
    }
}
pub proof fn unfolded(r: Result<NamedExpression, ConvertError>)
    ensures r is Ok ==> vn(r->Ok_0) == (N { name: r->Ok_0.name, span: r->Ok_0.span, e: level(r->Ok_0) }),
        r is Ok && r->Ok_0.expr is Let ==> vn(*r->Ok_0.expr->Let_0.bound).e == vx(r->Ok_0.expr->Let_0.bound.expr),
{
    if r is Ok {
        unfold(r->Ok_0);
        if r->Ok_0.expr is Let { unfold(*r->Ok_0.expr->Let_0.bound); }
    }
}
pub broadcast group g_scope {
    upto_ends,
    upto_push,
    upto_back,
    add_back,
    upto_nothing,
    texts_push,
    texts_names,
}
pub broadcast group g_call {
    applied_none,
    applied_push,
    applied_skip,
}
pub broadcast group g_parts {
    parts_none,
    parts_push,
    parts_separated,
    collected_push,
}
impl Context {
    /// The texts of the names in scope, innermost last.
    pub open spec fn sc(&self) -> Seq<Seq<char>> {
        texts(self.bindings@)
    }

//@fn src/nibble/convert.rs Context::lookup
//@ spec
    ensures
        match r { Some(k) => innermost(self.sc(), name.content.text()) == Some(k as nat), None => innermost(self.sc(), name.content.text()) is None },
//@ loop 0
    invariant
        it0.seq().len() == self.bindings@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == self.bindings[self.bindings@.len() - 1 - i],
        __out0 is None ==> forall|j: int| self.bindings@.len() - 1 - it0.index@ < j < self.bindings@.len() ==> self.sc()[j] != name.content.text(),
        __out0 is Some ==> {
            &&& at(__out0) < self.bindings@.len()
            &&& self.sc()[self.bindings@.len() - 1 - at(__out0)] == name.content.text()
            &&& forall|j: int| self.bindings@.len() - 1 - at(__out0) < j < self.bindings@.len() ==> self.sc()[j] != name.content.text()
        },
//@ end
    proof { innermost_is(self.sc(), name.content.text()); }
//@endfn
//@fn src/nibble/convert.rs Context::push_variable
//@ spec
    ensures final(self).bindings@ == old(self).bindings@.push(name.content),
//@endfn
}

// ------------------------------------------------------------ conversion
//@set inline .with_variables src/nibble/convert.rs Context::with_variables
//@set resultfns convert convert_pair_cat convert_pair_alt convert_pair
//@set optionfns .label
impl Ident {
//@fn src/nibble/convert.rs <Ident as Convert>::convert
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_ident(self, old(context).sc()),
//@endfn
}
impl Fix {
//@fn src/nibble/convert.rs <Fix as Convert>::convert
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_fix(self, old(context).sc()),
    decreases self, 0int,
//@endfn
}
impl ParenExpression {
//@fn src/nibble/convert.rs <ParenExpression as Convert>::convert
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_expr(self.expr, old(context).sc()),
    decreases self, 0int,
//@endfn
}
impl Term {
//@fn src/nibble/convert.rs <Term as Convert>::convert
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_term(self, old(context).sc()),
    decreases self, 0int,
//@endfn
}
impl Call {
//@fn src/nibble/convert.rs <Call as Convert>::convert
//@ opt attr verifier::loop_isolation(false)
//@ opt veciter
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_call(self, old(context).sc()),
    decreases self, 0int,
//@ start
    let ghost s0 = context.sc();
    broadcast use g_call;
    reveal_with_fuel(c_terms, 3);
    proof { if self.0@.len() > 0 && c_term(self.0[0], s0) is Err { terms_first(self, self.0@.len() as int, s0); } }
//@ loop 0
    invariant
        it0.seq() == self.0@.skip(1),
        context.bindings@ == old(context).bindings@,
        __err0 is None ==> c_terms(self, it0.index@ + 1, s0) == Ok::<Seq<N>, CE>(applied(vn(on), __out0@)),
        __err0 is Some ==> c_terms(self, it0.index@ + 1, s0) == Err::<Seq<N>, CE>(ce(__err0->0)),
//@ end
    proof { unfolded(__r); }
//@endfn
}
impl Cat {
//@fn src/nibble/convert.rs <Cat as Convert>::convert::convert_pair
//@ opt name convert_pair_cat
//@ spec
    ensures
        final(context).bindings@ == old(context).bindings@,
        match r {
            Ok(x) => c_call(pair.value(), old(context).sc()) == Ok::<N, CE>(vn(x.0)) && (pair is Punctuated ==> x.1 == pair->Punctuated_1.span),
            Err(e) => c_call(pair.value(), old(context).sc()) == Err::<N, CE>(ce(e)),
        },
    decreases pair.value(), 1int,
//@endfn
//@fn src/nibble/convert.rs <Cat as Convert>::convert
//@ opt attr verifier::loop_isolation(false)
//@ opt veciter
//@ opt path convert_pair => Self::convert_pair_cat
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_cat(self, old(context).sc()),
    decreases self, 0int,
//@ start
    hide(c_cat);
    hide(c_alt);
    hide(c_calls);
    hide(c_labelleds);
    hide(c_call);
    hide(c_labelled);
    hide(vn);
    hide(vx);
    let ghost s0 = context.sc();
    let ghost all = self.0.pairs();
    broadcast use g_parts;
    proof {
        cat_is(self, s0);
        calls_step(self, 0, s0);
        if all.len() > 0 { calls_step(self, 1, s0); }
        if all.len() > 0 && c_call(all[0].value(), s0) is Err { calls_first(self, all.len() as int, s0); }
        self.0.smaller();
    }
//@ loop 0
    invariant
        it0.seq() == all.skip(1),
        context.bindings@ == old(context).bindings@,
        !__stop0 ==> {
            &&& collected(__out0@) is Ok
            &&& __out0@.len() == it0.index@
            &&& collected(__out0@)->Ok_0.len() == it0.index@
            &&& c_calls(self, it0.index@ + 1, s0) == Ok::<Seq<N>, CE>(parts(vn(first), vrest(collected(__out0@)->Ok_0)))
            &&& forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] collected(__out0@)->Ok_0[i]).0 == self.0.seps()[i]
            &&& it0.index@ < self.0.inner@.len() ==> punct == self.0.seps()[it0.index@]
        },
        __stop0 ==> {
            &&& __out0@.len() > 0
            &&& collected(__out0@) is Err
            &&& c_calls(self, it0.index@ + 1, s0) == Err::<Seq<N>, CE>(ce(collected(__out0@)->Err_0))
        },
//@ loopstart 0
    proof { calls_step(self, it0.index@ + 2, s0); }
//@ end
    proof { unfolded(__r); }
//@endfn
}
impl Labelled {
//@fn src/nibble/convert.rs <Labelled as Convert>::convert
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_labelled(self, old(context).sc()),
    decreases self, 0int,
//@endfn
}
impl Alt {
//@fn src/nibble/convert.rs <Alt as Convert>::convert::convert_pair
//@ opt name convert_pair_alt
//@ spec
    ensures
        final(context).bindings@ == old(context).bindings@,
        match r {
            Ok(x) => c_labelled(pair.value(), old(context).sc()) == Ok::<N, CE>(vn(x.0)) && (pair is Punctuated ==> x.1 == pair->Punctuated_1.span),
            Err(e) => c_labelled(pair.value(), old(context).sc()) == Err::<N, CE>(ce(e)),
        },
    decreases pair.value(), 1int,
//@endfn
//@fn src/nibble/convert.rs <Alt as Convert>::convert
//@ opt attr verifier::loop_isolation(false)
//@ opt veciter
//@ opt path convert_pair => Self::convert_pair_alt
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_alt(self, old(context).sc()),
    decreases self, 0int,
//@ start
    hide(c_cat);
    hide(c_alt);
    hide(c_calls);
    hide(c_labelleds);
    hide(c_call);
    hide(c_labelled);
    hide(vn);
    hide(vx);
    let ghost s0 = context.sc();
    let ghost all = self.0.pairs();
    broadcast use g_parts;
    proof {
        alt_is(self, s0);
        labelleds_step(self, 0, s0);
        if all.len() > 0 { labelleds_step(self, 1, s0); }
        if all.len() > 0 && c_labelled(all[0].value(), s0) is Err { labelleds_first(self, all.len() as int, s0); }
        self.0.smaller();
    }
//@ loop 0
    invariant
        it0.seq() == all.skip(1),
        context.bindings@ == old(context).bindings@,
        !__stop0 ==> {
            &&& collected(__out0@) is Ok
            &&& __out0@.len() == it0.index@
            &&& collected(__out0@)->Ok_0.len() == it0.index@
            &&& c_labelleds(self, it0.index@ + 1, s0) == Ok::<Seq<N>, CE>(parts(vn(first), vrest(collected(__out0@)->Ok_0)))
            &&& forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] collected(__out0@)->Ok_0[i]).0 == self.0.seps()[i]
            &&& it0.index@ < self.0.inner@.len() ==> punct == self.0.seps()[it0.index@]
        },
        __stop0 ==> {
            &&& __out0@.len() > 0
            &&& collected(__out0@) is Err
            &&& c_labelleds(self, it0.index@ + 1, s0) == Err::<Seq<N>, CE>(ce(collected(__out0@)->Err_0))
        },
//@ loopstart 0
    proof { labelleds_step(self, it0.index@ + 2, s0); }
//@ end
    proof { unfolded(__r); }
//@endfn
}
impl Lambda {
//@fn src/nibble/convert.rs <Lambda as Convert>::convert
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_lambda(self, old(context).sc()),
    decreases self, 0int,
//@ start
    broadcast use g_scope;
//@ loop 0
    invariant
        it0.seq() == self.args@, __out0@ == upto(Seq::empty(), names_of(self.args@), it0.index@),
//@ loop 1
    invariant
        it1.seq() == args@, context.bindings@ == upto(old(context).bindings@, contents(args@), it1.index@),
//@ end
    proof { unfolded(__r); }
//@endfn
}
impl Expression {
//@fn src/nibble/convert.rs <Expression as Convert>::convert
//@ spec
    ensures final(context).bindings@ == old(context).bindings@, rv(r) == c_expr(self, old(context).sc()),
    decreases self, 0int,
//@endfn
}
impl GoalStatement {
//@fn src/nibble/convert.rs <GoalStatement as Convert>::convert
//@ spec
    ensures is_goal(self, old(context).sc(), rv(r)),
    decreases self, 0int,
//@endfn
}
impl LetStatement {
//@fn src/nibble/convert.rs <LetStatement as Convert>::convert
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures is_let(self, old(context).sc(), rv(r)),
    decreases self, 0int,
//@ start
    broadcast use g_scope;
//@ loop 0
    invariant
        it0.seq() == self.args@, __out0@ == upto(Seq::empty(), names_of(self.args@), it0.index@),
//@ loop 1
    invariant
        it1.seq() == args@, context.bindings@ == upto(old(context).bindings@, contents(args@), it1.index@),
//@ end
    proof { unfolded(__r); }
//@endfn
}
impl Statement {
//@fn src/nibble/convert.rs <Statement as Convert>::convert
//@ spec
    ensures is_stmt(self, old(context).sc(), rv(r)),
    decreases self, 0int,
//@endfn
}
}
}
}
fn main() {}
