//@include prelude.inc
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use std::cmp::Ordering;
//@include vecs.inc
//@include token.inc
//@include nametypes.inc
//@include nameops.inc
//@include ast.inc
verus! {

//@item src/chomp/ast/substitute.rs Direction
//@item src/chomp/ast/substitute.rs RenameVars
//@item src/chomp/ast/substitute.rs Substitute
//@item src/chomp/ast/substitute.rs Reduce attr=derive(Clone,Copy)
//@item src/chomp/ast/error.rs ReductionError

// ------------------------------------------------------------ shifting
/// Every variable bound outside `d` binders moves outwards by `by`.
pub open spec fn shift(n: N, d: nat, by: int) -> N
    decreases n,
{
    N { name: n.name, span: n.span, e: shx(n.e, d, by) }
}

pub open spec fn shx(e: X, d: nat, by: int) -> X
    decreases e,
{
    match e {
        X::Eps => e,
        X::Lit(_) => e,
        X::Cat(f, r) => X::Cat(Box::new(shift(*f, d, by)), shps(r, d, by)),
        X::Alt(f, r) => X::Alt(Box::new(shift(*f, d, by)), shps(r, d, by)),
        X::Fix(f) => X::Fix(Box::new(shift(*f, d, by))),
        X::Var(i) => X::Var(if i >= d { (i + by) as nat } else { i }),
        X::Call(f, a) => X::Call(Box::new(shift(*f, d, by)), shs(a, d, by)),
        X::Lambda(a, f) => X::Lambda(a, Box::new(shift(*f, d + a.len(), by))),
        X::Let(n, b, f) => X::Let(n, Box::new(shift(*b, d, by)), Box::new(shift(*f, d + 1, by))),
    }
}

pub open spec fn shps(r: Seq<(Span, N)>, d: nat, by: int) -> Seq<(Span, N)>
    decreases r,
{
    Seq::new(r.len(), |i: int| if 0 <= i < r.len() { (r[i].0, shift(r[i].1, d, by)) } else { arbitrary() })
}

pub open spec fn shs(r: Seq<N>, d: nat, by: int) -> Seq<N>
    decreases r,
{
    Seq::new(r.len(), |i: int| if 0 <= i < r.len() { shift(r[i], d, by) } else { arbitrary() })
}

/// Shifting back by `by` keeps every variable on its side of `d`.
pub open spec fn low(n: N, d: nat, by: nat) -> bool
    decreases n,
{
    lowx(n.e, d, by)
}

pub open spec fn lowx(e: X, d: nat, by: nat) -> bool
    decreases e,
{
    match e {
        X::Eps => true,
        X::Lit(_) => true,
        X::Cat(f, r) => low(*f, d, by) && lowps(r, d, by),
        X::Alt(f, r) => low(*f, d, by) && lowps(r, d, by),
        X::Fix(f) => low(*f, d, by),
        X::Var(i) => i >= d ==> i >= d + by,
        X::Call(f, a) => low(*f, d, by) && lows(a, d, by),
        X::Lambda(a, f) => low(*f, d + a.len(), by),
        X::Let(n, b, f) => low(*b, d, by) && low(*f, d + 1, by),
    }
}

pub open spec fn lowps(r: Seq<(Span, N)>, d: nat, by: nat) -> bool
    decreases r,
{
    forall|i: int| 0 <= i < r.len() ==> low((#[trigger] r[i]).1, d, by)
}

pub open spec fn lows(r: Seq<N>, d: nat, by: nat) -> bool
    decreases r,
{
    forall|i: int| 0 <= i < r.len() ==> low(#[trigger] r[i], d, by)
}

pub proof fn shift_back(n: N, d: nat, by: nat)
    ensures
        low(shift(n, d, by as int), d, by),
        shift(shift(n, d, by as int), d, -by) == n,
    decreases n,
{
    match n.e {
        X::Cat(f, r) => {
            shift_back(*f, d, by);
            shift_back_ps(r, d, by);
        },
        X::Alt(f, r) => {
            shift_back(*f, d, by);
            shift_back_ps(r, d, by);
        },
        X::Fix(f) => shift_back(*f, d, by),
        X::Call(f, a) => {
            shift_back(*f, d, by);
            shift_back_s(a, d, by);
        },
        X::Lambda(a, f) => shift_back(*f, d + a.len(), by),
        X::Let(n, b, f) => {
            shift_back(*b, d, by);
            shift_back(*f, d + 1, by);
        },
        _ => {},
    }
}

pub proof fn shift_back_ps(r: Seq<(Span, N)>, d: nat, by: nat)
    ensures
        lowps(shps(r, d, by as int), d, by),
        shps(shps(r, d, by as int), d, -by) == r,
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] low(shift(r[i].1, d, by as int), d, by) && shift(shift(r[i].1, d, by as int), d, -by) == r[i].1 by {
        shift_back(r[i].1, d, by);
    }
    let s = shps(r, d, by as int);
    assert forall|i: int| 0 <= i < s.len() implies low((#[trigger] s[i]).1, d, by) by {
        assert(low(shift(r[i].1, d, by as int), d, by));
    }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] shps(s, d, -by)[i] == r[i] by {
        assert(low(shift(r[i].1, d, by as int), d, by));
    }
    assert(shps(s, d, -by) =~= r);
}

pub proof fn shift_back_s(r: Seq<N>, d: nat, by: nat)
    ensures
        lows(shs(r, d, by as int), d, by),
        shs(shs(r, d, by as int), d, -by) == r,
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] low(shift(r[i], d, by as int), d, by) && shift(shift(r[i], d, by as int), d, -by) == r[i] by {
        shift_back(r[i], d, by);
    }
    let s = shs(r, d, by as int);
    assert forall|i: int| 0 <= i < s.len() implies low(#[trigger] s[i], d, by) by {
        assert(low(shift(r[i], d, by as int), d, by));
    }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] shs(s, d, -by)[i] == r[i] by {
        assert(low(shift(r[i], d, by as int), d, by));
    }
    assert(shs(s, d, -by) =~= r);
}

impl RenameVars {
    pub open spec fn amount(self) -> int {
        match self.direction { Direction::Deepen => self.by as int, Direction::Shallow => -(self.by as int) }
    }

    pub open spec fn fits(self, e: X) -> bool {
        self.direction is Shallow ==> lowx(e, self.depth as nat, self.by as nat)
    }

    pub open spec fn on(self, e: X) -> X {
        shx(e, self.depth as nat, self.amount())
    }
}
//@set addcheck
//@set begin broadcast use g_views;
//@set visitors map fold
//@set ty Self::Out => ()
impl RenameVars {
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_epsilon
//@ opt path Self::Out => ()
//@ spec
    requires old(self).fits(X::Eps),
    ensures
        X::Eps == old(self).on(X::Eps),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(_eps),
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_literal
//@ opt path Self::Out => ()
//@ spec
    requires old(self).fits(X::Lit(old(_lit)@)),
    ensures
        X::Lit(final(_lit)@) == old(self).on(X::Lit(old(_lit)@)),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(_lit),
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_cat
//@ opt path Self::Out => ()
//@ opt attr verifier::loop_isolation(false)
//@ spec
    requires old(self).fits(vcat(*old(cat))),
    ensures
        vcat(*final(cat)) == old(self).on(vcat(*old(cat))),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(cat),
//@ loop 0
    invariant
        __i0 <= __v0@.len(), __v0@.len() == __orig0.len(), *self == *old(self), __orig0 == old(cat).rest@,
        forall|j: int| 0 <= j < __i0 ==> __v0@[j].0 == __orig0[j].0 && vn((#[trigger] __v0@[j]).1) == shift(vn(__orig0[j].1), self.depth as nat, self.amount()),
        forall|j: int| __i0 <= j < __v0@.len() ==> #[trigger] __v0@[j] == __orig0[j],
    decreases __v0@.len() - __i0,

//@ loopstart 0
    let ghost n = old(cat).rest[__i0 as int].1;
    proof { vstd::std_specs::vec::axiom_vec_index_decreases(old(cat).rest, __i0 as int); }
    proof {
        if self.direction is Shallow { assert(low(vrest(old(cat).rest@)[__i0 as int].1, self.depth as nat, self.by as nat)); }
    }
//@ end
    assert(vrest(final(cat).rest@) =~= shps(vrest(old(cat).rest@), self.depth as nat, self.amount()));
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_alt
//@ opt path Self::Out => ()
//@ opt attr verifier::loop_isolation(false)
//@ spec
    requires old(self).fits(valt(*old(alt))),
    ensures
        valt(*final(alt)) == old(self).on(valt(*old(alt))),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(alt),
//@ loop 0
    invariant
        __i0 <= __v0@.len(), __v0@.len() == __orig0.len(), *self == *old(self), __orig0 == old(alt).rest@,
        forall|j: int| 0 <= j < __i0 ==> __v0@[j].0 == __orig0[j].0 && vn((#[trigger] __v0@[j]).1) == shift(vn(__orig0[j].1), self.depth as nat, self.amount()),
        forall|j: int| __i0 <= j < __v0@.len() ==> #[trigger] __v0@[j] == __orig0[j],
    decreases __v0@.len() - __i0,

//@ loopstart 0
    let ghost n = old(alt).rest[__i0 as int].1;
    proof { vstd::std_specs::vec::axiom_vec_index_decreases(old(alt).rest, __i0 as int); }
    proof {
        if self.direction is Shallow { assert(low(vrest(old(alt).rest@)[__i0 as int].1, self.depth as nat, self.by as nat)); }
    }
//@ end
    assert(vrest(final(alt).rest@) =~= shps(vrest(old(alt).rest@), self.depth as nat, self.amount()));
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_fix
//@ opt path Self::Out => ()
//@ spec
    requires old(self).fits(vfix(*old(fix))),
    ensures
        vfix(*final(fix)) == old(self).on(vfix(*old(fix))),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(fix),
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_variable
//@ opt path Self::Out => ()
//@ spec
    requires old(self).fits(X::Var(old(var).index as nat)),
    ensures
        X::Var(final(var).index as nat) == old(self).on(X::Var(old(var).index as nat)),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(var),
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_call
//@ opt path Self::Out => ()
//@ opt attr verifier::loop_isolation(false)
//@ spec
    requires old(self).fits(vcall(*old(call))),
    ensures
        vcall(*final(call)) == old(self).on(vcall(*old(call))),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(call),
//@ loop 0
    invariant
        __i0 <= __v0@.len(), __v0@.len() == __orig0.len(), *self == *old(self), __orig0 == old(call).args@,
        forall|j: int| 0 <= j < __i0 ==> vn(#[trigger] __v0@[j]) == shift(vn(__orig0[j]), self.depth as nat, self.amount()),
        forall|j: int| __i0 <= j < __v0@.len() ==> #[trigger] __v0@[j] == __orig0[j],
    decreases __v0@.len() - __i0,

//@ loopstart 0
    let ghost n = old(call).args[__i0 as int];
    proof { vstd::std_specs::vec::axiom_vec_index_decreases(old(call).args, __i0 as int); }
    proof {
        if self.direction is Shallow { assert(low(vall(old(call).args@)[__i0 as int], self.depth as nat, self.by as nat)); }
    }
//@ end
    assert(vall(final(call).args@) =~= shs(vall(old(call).args@), self.depth as nat, self.amount()));
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_lambda
//@ opt path Self::Out => ()
//@ spec
    requires old(self).fits(vlambda(*old(lambda))),
    ensures
        vlambda(*final(lambda)) == old(self).on(vlambda(*old(lambda))),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(lambda),
//@endfn
//@fn src/chomp/ast/substitute.rs <RenameVars as Mapper>::map_let
//@ opt path Self::Out => ()
//@ spec
    requires old(self).fits(vlet(*old(stmt))),
    ensures
        vlet(*final(stmt)) == old(self).on(vlet(*old(stmt))),
        *final(self) == *old(self), *final(_name) == *old(_name),
    decreases *old(stmt),
//@endfn
}
//@set clear visitors
impl NamedExpression {
//@fn src/chomp/visit.rs <NamedExpression as Visitable>::map
//@ opt name map_RenameVars
//@ opt dropgen M
//@ opt ty M => RenameVars
//@ opt ty <M as Mapper>::Out => ()
//@ spec
    requires old(mapper).fits(vx(old(self).expr)),
    ensures
        vx(final(self).expr) == old(mapper).on(vx(old(self).expr)),
        final(self).name == old(self).name, final(self).span == old(self).span,
        *final(mapper) == *old(mapper),
    decreases *old(self),
//@endfn
}
}

verus! {
// ------------------------------------------------------------ substitution
/// Variable `x` (counted from here) becomes `a`; variables bound further out come one binder closer.
pub open spec fn subst(n: N, x: nat, a: N) -> N
    decreases n,
{
    if n.e == X::Var(x) {
        N { name: merge2(a.name, n.name), span: a.span, e: a.e }
    } else {
        N { name: n.name, span: n.span, e: subx(n.e, x, a) }
    }
}

pub open spec fn subx(e: X, x: nat, a: N) -> X
    decreases e,
{
    match e {
        X::Eps => e,
        X::Lit(_) => e,
        X::Cat(f, r) => X::Cat(Box::new(subst(*f, x, a)), subps(r, x, a)),
        X::Alt(f, r) => X::Alt(Box::new(subst(*f, x, a)), subps(r, x, a)),
        X::Fix(f) => X::Fix(Box::new(subst(*f, x, a))),
        X::Var(i) => X::Var(if i > x { (i - 1) as nat } else { i }),
        X::Call(f, v) => X::Call(Box::new(subst(*f, x, a)), subs(v, x, a)),
        X::Lambda(v, f) => X::Lambda(v, Box::new(subst(*f, x + v.len(), shift(a, 0, v.len() as int)))),
        X::Let(n, b, f) => X::Let(n, Box::new(subst(*b, x, a)), Box::new(subst(*f, x + 1, shift(a, 0, 1)))),
    }
}

pub open spec fn subps(r: Seq<(Span, N)>, x: nat, a: N) -> Seq<(Span, N)>
    decreases r,
{
    Seq::new(r.len(), |i: int| if 0 <= i < r.len() { (r[i].0, subst(r[i].1, x, a)) } else { arbitrary() })
}

pub open spec fn subs(r: Seq<N>, x: nat, a: N) -> Seq<N>
    decreases r,
{
    Seq::new(r.len(), |i: int| if 0 <= i < r.len() { subst(r[i], x, a) } else { arbitrary() })
}

impl Substitute {
    pub open spec fn same(self, o: Substitute) -> bool {
        self.index == o.index && vn(self.expr) == vn(o.expr)
    }

    pub open spec fn on(self, n: N) -> N {
        subst(n, self.index as nat, vn(self.expr))
    }
}

//@set visitors map fold
//@set clear ty
//@set ty Self::Out => NamedExpression
//@set ty <Self as Folder>::Out => NamedExpression
//@set ty V => Box<NamedExpression>
//@set dropgen V
impl Substitute {
//@fn src/chomp/ast/substitute.rs Substitute::with_args
//@ spec
    ensures
        vn(r) == subst(vn(*visitable), old(self).index as nat + args as nat, shift(vn(old(self).expr), 0, args as int)),
        final(self).same(*old(self)),
    decreases visitable, 1int,
//@ start
    proof { shift_back(vn(self.expr), 0, args as nat); }
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_epsilon
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: X::Eps }),
        final(self).same(*old(self)),
    decreases eps, 0int,
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_literal
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: X::Lit(lit@) }),
        final(self).same(*old(self)),
    decreases lit, 0int,
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_cat
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: vcat(cat) }),
        final(self).same(*old(self)),
    decreases cat, 0int,
//@ start
    let ghost c0 = cat;
    let ghost all = cat.rest@;
//@ loop 0
    invariant
        it0.seq() == all, __out0@.len() == it0.index@, self.same(*old(self)),
        forall|j: int| 0 <= j < it0.index@ ==> pvn(#[trigger] __out0@[j]) == (all[j].0, subst(vn(all[j].1), self.index as nat, vn(self.expr))),
//@ loopstart 0
    proof {
        assert(__x_0 == c0.rest[it0.index@]);
        vstd::std_specs::vec::axiom_vec_index_decreases(c0.rest, it0.index@);
    }
//@ end
    proof {
        let w = __r.expr->Cat_0;
        let (x, a) = (old(self).index as nat, vn(old(self).expr));
        assert(vrest(w.rest@) =~= subps(vrest(all), x, a));
        assert(vcat(w) == X::Cat(Box::new(vn(*w.first)), vrest(w.rest@)));
        assert(vcat(c0) == X::Cat(Box::new(vn(*c0.first)), vrest(all)));
        assert(vcat(w) == subx(vcat(c0), x, a));
    }
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_alt
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: valt(alt) }),
        final(self).same(*old(self)),
    decreases alt, 0int,
//@ start
    let ghost c0 = alt;
    let ghost all = alt.rest@;
//@ loop 0
    invariant
        it0.seq() == all, __out0@.len() == it0.index@, self.same(*old(self)),
        forall|j: int| 0 <= j < it0.index@ ==> pvn(#[trigger] __out0@[j]) == (all[j].0, subst(vn(all[j].1), self.index as nat, vn(self.expr))),
//@ loopstart 0
    proof {
        assert(__x_0 == c0.rest[it0.index@]);
        vstd::std_specs::vec::axiom_vec_index_decreases(c0.rest, it0.index@);
    }
//@ end
    proof {
        let w = __r.expr->Alt_0;
        let (x, a) = (old(self).index as nat, vn(old(self).expr));
        assert(vrest(w.rest@) =~= subps(vrest(all), x, a));
        assert(valt(w) == X::Alt(Box::new(vn(*w.first)), vrest(w.rest@)));
        assert(valt(c0) == X::Alt(Box::new(vn(*c0.first)), vrest(all)));
        assert(valt(w) == subx(valt(c0), x, a));
    }
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_fix
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: vfix(fix) }),
        final(self).same(*old(self)),
    decreases fix, 0int,
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_variable
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: X::Var(var.index as nat) }),
        final(self).same(*old(self)),
    decreases var, 0int,
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_call
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: vcall(call) }),
        final(self).same(*old(self)),
    decreases call, 0int,
//@ start
    let ghost c0 = call;
    let ghost all = call.args@;
//@ loop 0
    invariant
        it0.seq() == all, __out0@.len() == it0.index@, self.same(*old(self)),
        forall|j: int| 0 <= j < it0.index@ ==> vn(#[trigger] __out0@[j]) == subst(vn(all[j]), self.index as nat, vn(self.expr)),
//@ loopstart 0
    proof {
        assert(__x_0 == c0.args[it0.index@]);
        vstd::std_specs::vec::axiom_vec_index_decreases(c0.args, it0.index@);
    }
//@ end
    proof {
        let w = __r.expr->Call_0;
        let (x, a) = (old(self).index as nat, vn(old(self).expr));
        assert(vall(w.args@) =~= subs(vall(all), x, a));
        assert(vcall(w) == X::Call(Box::new(vn(*w.on)), vall(w.args@)));
        assert(vcall(c0) == X::Call(Box::new(vn(*c0.on)), vall(all)));
        assert(vcall(w) == subx(vcall(c0), x, a));
    }
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_lambda
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: vlambda(lambda) }),
        final(self).same(*old(self)),
    decreases lambda, 0int,
//@endfn
//@fn src/chomp/ast/substitute.rs <Substitute as Folder>::fold_let
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        vn(r) == old(self).on(N { name: name, span: span, e: vlet(stmt) }),
        final(self).same(*old(self)),
    decreases stmt, 0int,
//@endfn
}
//@set clear visitors
//@set clear dropgen
//@set clear ty
impl NamedExpression {
//@fn src/chomp/visit.rs <NamedExpression as Visitable>::fold
//@ opt name fold_Substitute
//@ opt dropgen F
//@ opt ty F => Substitute
//@ opt ty <F as Folder>::Out => NamedExpression
//@ spec
    ensures
        vn(r) == old(folder).on(vn(self)),
        final(folder).same(*old(folder)),
    decreases self, 0int,
//@endfn
}
//@set visitors map fold
//@fn src/chomp/visit.rs <Box as Visitable>::map
//@ opt freety Box<NamedExpression>
//@ opt name box_map_RenameVars
//@ opt paramvisitor RenameVars
//@ opt method as_mut => vx_box_mut
//@ opt dropgen M
//@ opt ty M => RenameVars
//@ opt ty <M as Mapper>::Out => ()
//@ spec
    requires old(mapper).fits(vx(old(this).expr)),
    ensures
        vn(**final(this)) == shift(vn(**old(this)), old(mapper).depth as nat, old(mapper).amount()),
        *final(mapper) == *old(mapper),
//@endfn
//@fn src/chomp/visit.rs <Box as Visitable>::fold
//@ opt freety Box<NamedExpression>
//@ opt name box_fold_Substitute
//@ opt paramvisitor Substitute
//@ opt dropgen F
//@ opt ty F => Substitute
//@ opt ty <F as Folder>::Out => NamedExpression
//@ spec
    ensures
        vn(r) == old(folder).on(vn(*this)),
        final(folder).same(*old(folder)),
//@endfn
}

verus! {
// ---- reduction
pub proof fn shift_zero(n: N, d: nat)
    ensures shift(n, d, 0) == n,
    decreases n,
{
    match n.e {
        X::Cat(f, r) => { shift_zero(*f, d); shift_zero_ps(r, d); },
        X::Alt(f, r) => { shift_zero(*f, d); shift_zero_ps(r, d); },
        X::Fix(f) => shift_zero(*f, d),
        X::Call(f, a) => { shift_zero(*f, d); shift_zero_s(a, d); },
        X::Lambda(a, f) => shift_zero(*f, d + a.len()),
        X::Let(n, b, f) => { shift_zero(*b, d); shift_zero(*f, d + 1); },
        _ => {},
    }
}
pub proof fn shift_zero_ps(r: Seq<(Span, N)>, d: nat)
    ensures shps(r, d, 0) == r,
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] shps(r, d, 0)[i] == r[i] by { shift_zero(r[i].1, d); }
    assert(shps(r, d, 0) =~= r);
}
pub proof fn shift_zero_s(r: Seq<N>, d: nat)
    ensures shs(r, d, 0) == r,
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] shs(r, d, 0)[i] == r[i] by { shift_zero(r[i], d); }
    assert(shs(r, d, 0) =~= r);
}

pub proof fn shift_add(n: N, d: nat, a: nat, b: nat)
    ensures shift(shift(n, d, a as int), d, b as int) == shift(n, d, (a + b) as int),
    decreases n,
{
    match n.e {
        X::Cat(f, r) => { shift_add(*f, d, a, b); shift_add_ps(r, d, a, b); },
        X::Alt(f, r) => { shift_add(*f, d, a, b); shift_add_ps(r, d, a, b); },
        X::Fix(f) => shift_add(*f, d, a, b),
        X::Call(f, v) => { shift_add(*f, d, a, b); shift_add_s(v, d, a, b); },
        X::Lambda(v, f) => shift_add(*f, d + v.len(), a, b),
        X::Let(n, c, f) => { shift_add(*c, d, a, b); shift_add(*f, d + 1, a, b); },
        _ => {},
    }
}
pub proof fn shift_add_ps(r: Seq<(Span, N)>, d: nat, a: nat, b: nat)
    ensures shps(shps(r, d, a as int), d, b as int) == shps(r, d, (a + b) as int),
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] shps(shps(r, d, a as int), d, b as int)[i] == shps(r, d, (a + b) as int)[i] by { shift_add(r[i].1, d, a, b); }
    assert(shps(shps(r, d, a as int), d, b as int) =~= shps(r, d, (a + b) as int));
}
pub proof fn shift_add_s(r: Seq<N>, d: nat, a: nat, b: nat)
    ensures shs(shs(r, d, a as int), d, b as int) == shs(r, d, (a + b) as int),
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] shs(shs(r, d, a as int), d, b as int)[i] == shs(r, d, (a + b) as int)[i] by { shift_add(r[i], d, a, b); }
    assert(shs(shs(r, d, a as int), d, b as int) =~= shs(r, d, (a + b) as int));
}

/// Substituting inside the gap that a shift opened only makes the gap smaller.
pub proof fn sub_shift(n: N, c: nat, m: nat, x: nat, y: N)
    requires c <= x <= c + m,
    ensures
        shx(n.e, c, (m + 1) as int) != X::Var(x),
        subx(shx(n.e, c, (m + 1) as int), x, y) == shx(n.e, c, m as int),
        subst(shift(n, c, (m + 1) as int), x, y) == shift(n, c, m as int),
    decreases n,
{
    match n.e {
        X::Cat(f, r) => { sub_shift(*f, c, m, x, y); sub_shift_ps(r, c, m, x, y); },
        X::Alt(f, r) => { sub_shift(*f, c, m, x, y); sub_shift_ps(r, c, m, x, y); },
        X::Fix(f) => sub_shift(*f, c, m, x, y),
        X::Call(f, v) => { sub_shift(*f, c, m, x, y); sub_shift_s(v, c, m, x, y); },
        X::Lambda(v, f) => sub_shift(*f, c + v.len(), m, x + v.len(), shift(y, 0, v.len() as int)),
        X::Let(n, b, f) => { sub_shift(*b, c, m, x, y); sub_shift(*f, c + 1, m, x + 1, shift(y, 0, 1)); },
        _ => {},
    }
}
pub proof fn sub_shift_ps(r: Seq<(Span, N)>, c: nat, m: nat, x: nat, y: N)
    requires c <= x <= c + m,
    ensures subps(shps(r, c, (m + 1) as int), x, y) == shps(r, c, m as int),
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] subps(shps(r, c, (m + 1) as int), x, y)[i] == shps(r, c, m as int)[i] by { sub_shift(r[i].1, c, m, x, y); }
    assert(subps(shps(r, c, (m + 1) as int), x, y) =~= shps(r, c, m as int));
}
pub proof fn sub_shift_s(r: Seq<N>, c: nat, m: nat, x: nat, y: N)
    requires c <= x <= c + m,
    ensures subs(shs(r, c, (m + 1) as int), x, y) == shs(r, c, m as int),
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] subs(shs(r, c, (m + 1) as int), x, y)[i] == shs(r, c, m as int)[i] by { sub_shift(r[i], c, m, x, y); }
    assert(subs(shs(r, c, (m + 1) as int), x, y) =~= shs(r, c, m as int));
}

/// All of `es` at once for the variables d, d+1, ... (the last one is variable d); `u` further binders lie in between.
pub open spec fn msub(n: N, d: nat, es: Seq<N>, u: nat) -> N
    decreases n,
{
    match n.e {
        X::Var(i) => if d <= i < d + es.len() {
            let t = shift(es[es.len() - 1 - (i - d)], 0, (d + u) as int);
            N { name: merge2(t.name, n.name), span: t.span, e: t.e }
        } else {
            N { name: n.name, span: n.span, e: X::Var(if i < d { i } else { (i - es.len()) as nat }) }
        },
        _ => N { name: n.name, span: n.span, e: msx(n.e, d, es, u) },
    }
}
pub open spec fn msx(e: X, d: nat, es: Seq<N>, u: nat) -> X
    decreases e,
{
    match e {
        X::Eps => e,
        X::Lit(_) => e,
        X::Cat(f, r) => X::Cat(Box::new(msub(*f, d, es, u)), msps(r, d, es, u)),
        X::Alt(f, r) => X::Alt(Box::new(msub(*f, d, es, u)), msps(r, d, es, u)),
        X::Fix(f) => X::Fix(Box::new(msub(*f, d, es, u))),
        X::Var(i) => e,
        X::Call(f, v) => X::Call(Box::new(msub(*f, d, es, u)), mss(v, d, es, u)),
        X::Lambda(v, f) => X::Lambda(v, Box::new(msub(*f, d + v.len(), es, u))),
        X::Let(n, b, f) => X::Let(n, Box::new(msub(*b, d, es, u)), Box::new(msub(*f, d + 1, es, u))),
    }
}
pub open spec fn msps(r: Seq<(Span, N)>, d: nat, es: Seq<N>, u: nat) -> Seq<(Span, N)>
    decreases r,
{
    Seq::new(r.len(), |i: int| if 0 <= i < r.len() { (r[i].0, msub(r[i].1, d, es, u)) } else { arbitrary() })
}
pub open spec fn mss(r: Seq<N>, d: nat, es: Seq<N>, u: nat) -> Seq<N>
    decreases r,
{
    Seq::new(r.len(), |i: int| if 0 <= i < r.len() { msub(r[i], d, es, u) } else { arbitrary() })
}

pub proof fn msub_none(n: N, d: nat, es: Seq<N>, u: nat)
    requires es.len() == 0,
    ensures msub(n, d, es, u) == n,
    decreases n,
{
    match n.e {
        X::Cat(f, r) => { msub_none(*f, d, es, u); msub_none_ps(r, d, es, u); },
        X::Alt(f, r) => { msub_none(*f, d, es, u); msub_none_ps(r, d, es, u); },
        X::Fix(f) => msub_none(*f, d, es, u),
        X::Call(f, v) => { msub_none(*f, d, es, u); msub_none_s(v, d, es, u); },
        X::Lambda(v, f) => msub_none(*f, d + v.len(), es, u),
        X::Let(n, b, f) => { msub_none(*b, d, es, u); msub_none(*f, d + 1, es, u); },
        _ => {},
    }
}
pub proof fn msub_none_ps(r: Seq<(Span, N)>, d: nat, es: Seq<N>, u: nat)
    requires es.len() == 0,
    ensures msps(r, d, es, u) == r,
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] msps(r, d, es, u)[i] == r[i] by { msub_none(r[i].1, d, es, u); }
    assert(msps(r, d, es, u) =~= r);
}
pub proof fn msub_none_s(r: Seq<N>, d: nat, es: Seq<N>, u: nat)
    requires es.len() == 0,
    ensures mss(r, d, es, u) == r,
    decreases r,
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] mss(r, d, es, u)[i] == r[i] by { msub_none(r[i], d, es, u); }
    assert(mss(r, d, es, u) =~= r);
}

/// One more argument: substituting it for the next variable is the same as having substituted it along with the others.
pub proof fn msub_step(n: N, d: nat, es: Seq<N>, a: N, u: nat)
    requires u > 0,
    ensures subst(msub(n, d, es, u), d, shift(a, 0, d + u - 1)) == msub(n, d, seq![a] + es, (u - 1) as nat),
    decreases n,
{
    let y = shift(a, 0, d + u - 1);
    match n.e {
        X::Cat(f, r) => { msub_step(*f, d, es, a, u); msub_step_ps(r, d, es, a, u); },
        X::Alt(f, r) => { msub_step(*f, d, es, a, u); msub_step_ps(r, d, es, a, u); },
        X::Fix(f) => msub_step(*f, d, es, a, u),
        X::Call(f, v) => { msub_step(*f, d, es, a, u); msub_step_s(v, d, es, a, u); },
        X::Lambda(v, f) => {
            msub_step(*f, d + v.len(), es, a, u);
            shift_add(a, 0, (d + u - 1) as nat, v.len());
        },
        X::Let(n, b, f) => {
            msub_step(*b, d, es, a, u);
            msub_step(*f, d + 1, es, a, u);
            shift_add(a, 0, (d + u - 1) as nat, 1);
        },
        X::Var(i) => {
            let k = es.len();
            let all = seq![a] + es;
            if d <= i < d + k {
                let e = es[k - 1 - (i - d)];
                assert(all[all.len() - 1 - (i - d)] == e);
                sub_shift(e, 0, (d + u - 1) as nat, d, y);
            } else if i == d + k {
                assert(all[all.len() - 1 - (i - d)] == a);
            }
        },
        _ => {},
    }
}
pub proof fn msub_step_ps(r: Seq<(Span, N)>, d: nat, es: Seq<N>, a: N, u: nat)
    requires u > 0,
    ensures subps(msps(r, d, es, u), d, shift(a, 0, d + u - 1)) == msps(r, d, seq![a] + es, (u - 1) as nat),
    decreases r,
{
    let l = subps(msps(r, d, es, u), d, shift(a, 0, d + u - 1));
    let m = msps(r, d, seq![a] + es, (u - 1) as nat);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] l[i] == m[i] by { msub_step(r[i].1, d, es, a, u); }
    assert(l =~= m);
}
pub proof fn msub_step_s(r: Seq<N>, d: nat, es: Seq<N>, a: N, u: nat)
    requires u > 0,
    ensures subs(mss(r, d, es, u), d, shift(a, 0, d + u - 1)) == mss(r, d, seq![a] + es, (u - 1) as nat),
    decreases r,
{
    let l = subs(mss(r, d, es, u), d, shift(a, 0, d + u - 1));
    let m = mss(r, d, seq![a] + es, (u - 1) as nat);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] l[i] == m[i] by { msub_step(r[i], d, es, a, u); }
    assert(l =~= m);
}

/// The arguments of a call, named after the parameters unless they have a better name.
pub open spec fn named(args: Seq<N>, ps: Seq<Name>) -> Seq<N> {
    Seq::new(args.len(), |i: int| N { name: merge2(args[i].name, Some(ps[i])), span: args[i].span, e: args[i].e })
}

/// The reduction error and the call it is about.
pub ghost enum RE {
    NotFunction(X, Span),
    WrongCount(Seq<Name>, N, Seq<N>, Span),
}

pub open spec fn verr(e: ReductionError) -> RE {
    match e {
        ReductionError::CallNotAFunction { on, span } => RE::NotFunction(vx(on), span),
        ReductionError::WrongArgCount { lambda, args, span } => RE::WrongCount(lambda.args@, vn(*lambda.inner), vall(args@), span),
    }
}

pub open spec fn vres(r: Result<NamedExpression, ReductionError>) -> Result<N, RE> {
    match r { Ok(n) => Ok(vn(n)), Err(e) => Err(verr(e)) }
}

/// The reduced grammar, if `fuel` nested steps are enough to find it.
pub open spec fn red(n: N, fuel: nat) -> Option<Result<N, RE>>
    decreases fuel, 0nat,
{
    if fuel == 0 {
        None
    } else {
        let k = (fuel - 1) as nat;
        match n.e {
            X::Cat(f, r) => match (red(*f, k), red_ps(r, k)) {
                (Some(Err(e)), _) => Some(Err(e)),
                (Some(Ok(g)), Some(Ok(s))) => Some(Ok(N { name: n.name, span: n.span, e: X::Cat(Box::new(g), s) })),
                (Some(Ok(_)), Some(Err(e))) => Some(Err(e)),
                _ => None,
            },
            X::Alt(f, r) => match (red(*f, k), red_ps(r, k)) {
                (Some(Err(e)), _) => Some(Err(e)),
                (Some(Ok(g)), Some(Ok(s))) => Some(Ok(N { name: n.name, span: n.span, e: X::Alt(Box::new(g), s) })),
                (Some(Ok(_)), Some(Err(e))) => Some(Err(e)),
                _ => None,
            },
            X::Fix(f) => match red(*f, k) {
                Some(Ok(g)) => match g.e {
                    X::Lambda(ps, b) => match red(*b, k) {
                        Some(Ok(c)) => Some(Ok(N { name: n.name, span: n.span, e: X::Fix(Box::new(N { name: g.name, span: g.span, e: X::Lambda(ps, Box::new(c)) })) })),
                        o => o,
                    },
                    _ => Some(Ok(N { name: n.name, span: n.span, e: X::Fix(Box::new(g)) })),
                },
                o => o,
            },
            X::Call(f, args) => match red(*f, k) {
                Some(Ok(g)) => match g.e {
                    X::Lambda(ps, b) => if ps.len() != args.len() {
                        Some(Err(RE::WrongCount(ps, *b, args, n.span)))
                    } else {
                        match red(msub(*b, 0, named(args, ps), 0), k) {
                            Some(Ok(o)) => Some(Ok(N { name: merge2(merge2(n.name, g.name), o.name), span: n.span, e: o.e })),
                            o => o,
                        }
                    },
                    _ => Some(Err(RE::NotFunction(g.e, n.span))),
                },
                o => o,
            },
            X::Let(_, b, f) => match red(subst(*f, 0, *b), k) {
                Some(Ok(o)) => Some(Ok(N { name: merge2(o.name, n.name), span: n.span, e: o.e })),
                o => o,
            },
            _ => Some(Ok(n)),
        }
    }
}

/// The parts, one after the other, up to the first error.
pub open spec fn red_ps(r: Seq<(Span, N)>, fuel: nat) -> Option<Result<Seq<(Span, N)>, RE>>
    decreases fuel, 1 + r.len(),
{
    if r.len() == 0 {
        Some(Ok(seq![]))
    } else {
        match red_ps(r.drop_last(), fuel) {
            Some(Ok(s)) => match red(r.last().1, fuel) {
                Some(Ok(g)) => Some(Ok(s.push((r.last().0, g)))),
                Some(Err(e)) => Some(Err(e)),
                None => None,
            },
            o => o,
        }
    }
}

pub proof fn red_more(n: N, f: nat, g: nat)
    requires f <= g, red(n, f) is Some,
    ensures red(n, g) == red(n, f),
    decreases f, 0nat,
{
    let k = (f - 1) as nat;
    let l = (g - 1) as nat;
    match n.e {
        X::Cat(a, r) => { red_more(*a, k, l); if red_ps(r, k) is Some { red_more_ps(r, k, l); } },
        X::Alt(a, r) => { red_more(*a, k, l); if red_ps(r, k) is Some { red_more_ps(r, k, l); } },
        X::Fix(a) => {
            red_more(*a, k, l);
            if let Ok(i) = red(*a, k)->0 {
                if let X::Lambda(ps, b) = i.e { red_more(*b, k, l); }
            }
        },
        X::Call(a, args) => {
            red_more(*a, k, l);
            if let Ok(i) = red(*a, k)->0 {
                if let X::Lambda(ps, b) = i.e {
                    if ps.len() == args.len() { red_more(msub(*b, 0, named(args, ps), 0), k, l); }
                }
            }
        },
        X::Let(_, b, a) => red_more(subst(*a, 0, *b), k, l),
        _ => {},
    }
}
pub proof fn red_more_ps(r: Seq<(Span, N)>, f: nat, g: nat)
    requires f <= g, red_ps(r, f) is Some,
    ensures red_ps(r, g) == red_ps(r, f),
    decreases f, 1 + r.len(),
{
    if r.len() > 0 {
        red_more_ps(r.drop_last(), f, g);
        if red_ps(r.drop_last(), f)->0 is Ok { red_more(r.last().1, f, g); }
    }
}

/// `r` is what reducing `n` yields.
pub open spec fn reduces(n: N, r: Result<N, RE>) -> bool {
    exists|f: nat| red(n, f) == Some(r)
}
pub open spec fn reduces_ps(s: Seq<(Span, N)>, r: Result<Seq<(Span, N)>, RE>) -> bool {
    exists|f: nat| red_ps(s, f) == Some(r)
}

/// Reducing has at most one result.
pub proof fn reduces_once(n: N, r: Result<N, RE>, s: Result<N, RE>)
    requires reduces(n, r), reduces(n, s),
    ensures r == s,
{
    let f = choose|f: nat| red(n, f) == Some(r);
    let g = choose|f: nat| red(n, f) == Some(s);
    red_more(n, f, f + g);
    red_more(n, g, f + g);
}

pub proof fn reduces_ps_once(n: Seq<(Span, N)>, r: Result<Seq<(Span, N)>, RE>, s: Result<Seq<(Span, N)>, RE>)
    requires reduces_ps(n, r), reduces_ps(n, s),
    ensures r == s,
{
    let f = choose|f: nat| red_ps(n, f) == Some(r);
    let g = choose|f: nat| red_ps(n, f) == Some(s);
    red_more_ps(n, f, f + g);
    red_more_ps(n, g, f + g);
}

/// What reducing yields, if it ever ends.
pub closed spec fn val(n: N) -> Option<Result<N, RE>> {
    if exists|r: Result<N, RE>| reduces(n, r) { Some(choose|r: Result<N, RE>| reduces(n, r)) } else { None }
}
pub closed spec fn val_ps(s: Seq<(Span, N)>) -> Option<Result<Seq<(Span, N)>, RE>> {
    if exists|r: Result<Seq<(Span, N)>, RE>| reduces_ps(s, r) { Some(choose|r: Result<Seq<(Span, N)>, RE>| reduces_ps(s, r)) } else { None }
}

pub proof fn val_is(n: N, r: Result<N, RE>)
    ensures reduces(n, r) <==> val(n) == Some(r),
{
    if reduces(n, r) { reduces_once(n, r, val(n)->0); }
}
pub proof fn val_ps_is(s: Seq<(Span, N)>, r: Result<Seq<(Span, N)>, RE>)
    ensures reduces_ps(s, r) <==> val_ps(s) == Some(r),
{
    if reduces_ps(s, r) { reduces_ps_once(s, r, val_ps(s)->0); }
}

/// How reducing the whole depends on reducing its parts.
pub open spec fn step(n: N) -> Option<Result<N, RE>> {
    match n.e {
        X::Cat(f, r) => match val(*f) {
            Some(Ok(g)) => match val_ps(r) {
                Some(Ok(s)) => Some(Ok(N { name: n.name, span: n.span, e: X::Cat(Box::new(g), s) })),
                Some(Err(e)) => Some(Err(e)),
                None => None,
            },
            o => o,
        },
        X::Alt(f, r) => match val(*f) {
            Some(Ok(g)) => match val_ps(r) {
                Some(Ok(s)) => Some(Ok(N { name: n.name, span: n.span, e: X::Alt(Box::new(g), s) })),
                Some(Err(e)) => Some(Err(e)),
                None => None,
            },
            o => o,
        },
        X::Fix(f) => match val(*f) {
            Some(Ok(g)) => match g.e {
                X::Lambda(ps, b) => match val(*b) {
                    Some(Ok(c)) => Some(Ok(N { name: n.name, span: n.span, e: X::Fix(Box::new(N { name: g.name, span: g.span, e: X::Lambda(ps, Box::new(c)) })) })),
                    o => o,
                },
                _ => Some(Ok(N { name: n.name, span: n.span, e: X::Fix(Box::new(g)) })),
            },
            o => o,
        },
        X::Call(f, args) => match val(*f) {
            Some(Ok(g)) => match g.e {
                X::Lambda(ps, b) => if ps.len() != args.len() {
                    Some(Err(RE::WrongCount(ps, *b, args, n.span)))
                } else {
                    match val(msub(*b, 0, named(args, ps), 0)) {
                        Some(Ok(o)) => Some(Ok(N { name: merge2(merge2(n.name, g.name), o.name), span: n.span, e: o.e })),
                        o => o,
                    }
                },
                _ => Some(Err(RE::NotFunction(g.e, n.span))),
            },
            o => o,
        },
        X::Let(_, b, f) => match val(subst(*f, 0, *b)) {
            Some(Ok(o)) => Some(Ok(N { name: merge2(o.name, n.name), span: n.span, e: o.e })),
            o => o,
        },
        _ => Some(Ok(n)),
    }
}

pub open spec fn fuel(n: N) -> nat {
    choose|f: nat| red(n, f) == val(n)
}
pub open spec fn fuel_ps(s: Seq<(Span, N)>) -> nat {
    choose|f: nat| red_ps(s, f) == val_ps(s)
}
pub proof fn fuel_is(n: N, g: nat)
    requires val(n) is Some, g >= fuel(n),
    ensures red(n, g) == val(n),
{
    val_is(n, val(n)->0);
    assert(exists|f: nat| red(n, f) == val(n));
    red_more(n, fuel(n), g);
}
pub proof fn fuel_ps_is(s: Seq<(Span, N)>, g: nat)
    requires val_ps(s) is Some, g >= fuel_ps(s),
    ensures red_ps(s, g) == val_ps(s),
{
    val_ps_is(s, val_ps(s)->0);
    assert(exists|f: nat| red_ps(s, f) == val_ps(s));
    red_more_ps(s, fuel_ps(s), g);
}

pub proof fn val_step(n: N)
    ensures step(n) is Some ==> val(n) == step(n),
{
    if step(n) is Some {
        let r = step(n)->0;
        let k = match n.e {
            X::Cat(f, r) | X::Alt(f, r) => {
                let k = fuel(*f) + fuel_ps(r);
                fuel_is(*f, k);
                if val(*f)->0 is Ok { fuel_ps_is(r, k); }
                k
            },
            X::Fix(f) => {
                let k = if val(*f)->0 is Ok && val(*f)->0->Ok_0.e is Lambda { fuel(*f) + fuel(*val(*f)->0->Ok_0.e->Lambda_1) } else { fuel(*f) };
                fuel_is(*f, k);
                if val(*f)->0 is Ok && val(*f)->0->Ok_0.e is Lambda { fuel_is(*val(*f)->0->Ok_0.e->Lambda_1, k); }
                k
            },
            X::Call(f, args) => {
                if val(*f)->0 is Ok && val(*f)->0->Ok_0.e is Lambda && val(*f)->0->Ok_0.e->Lambda_0.len() == args.len() {
                    let b = msub(*val(*f)->0->Ok_0.e->Lambda_1, 0, named(args, val(*f)->0->Ok_0.e->Lambda_0), 0);
                    let k = fuel(*f) + fuel(b);
                    fuel_is(*f, k);
                    fuel_is(b, k);
                    k
                } else {
                    fuel_is(*f, fuel(*f));
                    fuel(*f)
                }
            },
            X::Let(_, b, f) => {
                let k = fuel(subst(*f, 0, *b));
                fuel_is(subst(*f, 0, *b), k);
                k
            },
            _ => 0,
        };
        assert(red(n, k + 1) == Some(r));
        val_is(n, r);
    }
}

pub proof fn val_parts(s: Seq<(Span, N)>, j: int)
    requires 0 <= j < s.len(),
    ensures
        val_ps(s.take(0)) == Some(Ok::<Seq<(Span, N)>, RE>(seq![])),
        match val_ps(s.take(j)) {
            Some(Ok(p)) => match val(s[j].1) {
                Some(Ok(g)) => val_ps(s.take(j + 1)) == Some(Ok::<Seq<(Span, N)>, RE>(p.push((s[j].0, g)))),
                Some(Err(e)) => val_ps(s.take(j + 1)) == Some(Err::<Seq<(Span, N)>, RE>(e)),
                None => true,
            },
            Some(Err(e)) => val_ps(s.take(j + 1)) == Some(Err::<Seq<(Span, N)>, RE>(e)),
            None => true,
        },
{
    val_none(s);
    let t = s.take(j + 1);
    assert(t.drop_last() =~= s.take(j));
    assert(t.last() == s[j]);
    match val_ps(s.take(j)) {
        Some(Ok(p)) => {
            if val(s[j].1) is Some {
                let h = fuel_ps(s.take(j)) + fuel(s[j].1);
                fuel_ps_is(s.take(j), h);
                fuel_is(s[j].1, h);
                assert(red_ps(t, h) is Some);
                val_ps_is(t, red_ps(t, h)->0);
            }
        },
        Some(Err(e)) => {
            fuel_ps_is(s.take(j), fuel_ps(s.take(j)));
            assert(red_ps(t, fuel_ps(s.take(j))) is Some);
            val_ps_is(t, red_ps(t, fuel_ps(s.take(j)))->0);
        },
        None => {},
    }
}

pub proof fn val_none(s: Seq<(Span, N)>)
    ensures val_ps(s.take(0)) == Some(Ok::<Seq<(Span, N)>, RE>(seq![])),
{
    assert(red_ps(s.take(0), 1) == Some(Ok::<Seq<(Span, N)>, RE>(seq![])));
    val_ps_is(s.take(0), Ok(seq![]));
}

pub broadcast proof fn no_args(n: N, d: nat, es: Seq<N>, u: nat)
    requires es.len() == 0,
    ensures #[trigger] msub(n, d, es, u) == n,
{
    msub_none(n, d, es, u);
}
pub broadcast proof fn skip_none(s: Seq<N>, i: int)
    requires i == 0,
    ensures #[trigger] s.skip(i) == s,
{
    assert(s.skip(0) =~= s);
}
pub broadcast group g_args {
    no_args,
    skip_none,
    merge_seq_few,
}

impl Expression {
//@fn src/chomp/ast/mod.rs Expression::try_into_lambda
//@ spec
    ensures
        r is Ok ==> self == Expression::Lambda(r->Ok_0),
        r is Err ==> r == Err::<Lambda, Expression>(self) && !(self is Lambda),
//@endfn
}
//@set visitors map fold
//@set attr verifier::exec_allows_no_decreases_clause
//@set ty Self::Out => Result<NamedExpression, ReductionError>
impl Reduce {
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_epsilon
//@ spec
    ensures val(N { name: name, span: span, e: X::Eps }) == Some(vres(r)),
//@ start
    proof { val_step(N { name: name, span: span, e: X::Eps }); }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_literal
//@ spec
    ensures val(N { name: name, span: span, e: X::Lit(lit@) }) == Some(vres(r)),
//@ start
    proof { val_step(N { name: name, span: span, e: X::Lit(lit@) }); }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_variable
//@ spec
    ensures val(N { name: name, span: span, e: X::Var(var.index as nat) }) == Some(vres(r)),
//@ start
    proof { val_step(N { name: name, span: span, e: X::Var(var.index as nat) }); }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_lambda
//@ spec
    ensures val(N { name: name, span: span, e: vlambda(lambda) }) == Some(vres(r)),
//@ start
    proof { val_step(N { name: name, span: span, e: vlambda(lambda) }); }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_cat
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures val(N { name: name, span: span, e: vcat(cat) }) == Some(vres(r)),
//@ start
    let ghost c0 = cat;
    let ghost all = cat.rest@;
    proof {
        val_step(N { name: name, span: span, e: vcat(cat) });
        val_none(vrest(all));
        assert(vrest(Seq::empty()) =~= seq![]);
        assert(vrest(all).take(all.len() as int) =~= vrest(all));
        assert(vcat(c0) == X::Cat(Box::new(vn(*c0.first)), vrest(all)));
    }
//@ loop 0
    invariant
        it0.seq() == all,
        match __err0 {
            None => val_ps(vrest(all).take(it0.index@)) == Some(Ok::<Seq<(Span, N)>, RE>(vrest(__out0@))),
            Some(e) => val_ps(vrest(all).take(it0.index@)) == Some(Err::<Seq<(Span, N)>, RE>(verr(e))),
        },
//@ loopstart 0
    let ghost out0 = __out0@;
    proof { val_parts(vrest(all), it0.index@); }
//@ loopend 0
    proof { if __err0 is None { assert(vrest(__out0@) =~= vrest(out0).push(pvn(__out0@.last()))); } }
//@ end
    proof {
        let w = __r->Ok_0.expr->Cat_0;
        assert(vcat(w) == X::Cat(Box::new(vn(*w.first)), vrest(w.rest@)));
    }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_alt
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures val(N { name: name, span: span, e: valt(alt) }) == Some(vres(r)),
//@ start
    let ghost c0 = alt;
    let ghost all = alt.rest@;
    proof {
        val_step(N { name: name, span: span, e: valt(alt) });
        val_none(vrest(all));
        assert(vrest(Seq::empty()) =~= seq![]);
        assert(vrest(all).take(all.len() as int) =~= vrest(all));
        assert(valt(c0) == X::Alt(Box::new(vn(*c0.first)), vrest(all)));
    }
//@ loop 0
    invariant
        it0.seq() == all,
        match __err0 {
            None => val_ps(vrest(all).take(it0.index@)) == Some(Ok::<Seq<(Span, N)>, RE>(vrest(__out0@))),
            Some(e) => val_ps(vrest(all).take(it0.index@)) == Some(Err::<Seq<(Span, N)>, RE>(verr(e))),
        },
//@ loopstart 0
    let ghost out0 = __out0@;
    proof { val_parts(vrest(all), it0.index@); }
//@ loopend 0
    proof { if __err0 is None { assert(vrest(__out0@) =~= vrest(out0).push(pvn(__out0@.last()))); } }
//@ end
    proof {
        let w = __r->Ok_0.expr->Alt_0;
        assert(valt(w) == X::Alt(Box::new(vn(*w.first)), vrest(w.rest@)));
    }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_fix
//@ spec
    ensures val(N { name: name, span: span, e: vfix(fix) }) == Some(vres(r)),
//@ start
    proof { val_step(N { name: name, span: span, e: vfix(fix) }); }
//@ end
    proof {
        let w = __r->Ok_0.expr->Fix_0;
        assert(vfix(w) == X::Fix(Box::new(vn(*w.inner))));
        if w.inner.expr is Lambda {
            assert(vx(w.inner.expr) == vlambda(w.inner.expr->Lambda_0));
        }
    }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_call
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures val(N { name: name, span: span, e: vcall(call) }) == Some(vres(r)),
//@ start
    let ghost c0 = call;
    let ghost all = call.args@;
    proof {
        val_step(N { name: name, span: span, e: vcall(call) });
        assert(vcall(c0) == X::Call(Box::new(vn(*c0.on)), vall(all)));
        broadcast use g_args;
    }
//@ loop 0
    invariant
        all.len() == lambda.args@.len(),
        it0.seq() == zip2(Seq::new(all.len(), |i: int| (i as usize, all[i])), lambda.args@).reverse(),
        vn(out) == msub(vn(*lambda.inner), 0, named(vall(all), lambda.args@).skip(all.len() - it0.index@), (all.len() - it0.index@) as nat),
//@ loopstart 0
    let ghost nm = named(vall(all), lambda.args@);
    let ghost u = all.len() - it0.index@;
    proof {
        msub_step(vn(*lambda.inner), 0, nm.skip(u), nm[u - 1], u as nat);
        assert(seq![nm[u - 1]] + nm.skip(u) =~= nm.skip(u - 1));
    }
//@endfn
//@fn src/chomp/ast/substitute.rs <Reduce as Folder>::fold_let
//@ spec
    ensures val(N { name: name, span: span, e: vlet(stmt) }) == Some(vres(r)),
//@ start
    proof { val_step(N { name: name, span: span, e: vlet(stmt) }); }
//@endfn
}
//@set clear visitors
//@set clear attr
//@set clear ty
impl NamedExpression {
//@fn src/chomp/visit.rs <NamedExpression as Visitable>::fold
//@ opt name fold_Reduce
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt dropgen F
//@ opt ty F => Reduce
//@ opt ty <F as Folder>::Out => Result<NamedExpression, ReductionError>
//@ spec
    ensures val(vn(self)) == Some(vres(r)),
//@endfn
}
//@set visitors map fold
//@fn src/chomp/visit.rs <Box as Visitable>::fold
//@ opt freety Box<NamedExpression>
//@ opt name box_fold_Reduce
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt paramvisitor Reduce
//@ opt dropgen F
//@ opt ty F => Reduce
//@ opt ty <F as Folder>::Out => Result<NamedExpression, ReductionError>
//@ spec
    ensures val(vn(*this)) == Some(vres(r)),
//@endfn
//@set clear visitors
}
fn main() {}
