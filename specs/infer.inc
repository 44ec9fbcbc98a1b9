//@include prelude.inc
use std::collections::*;
use std::collections::btree_set;
use std::alloc::Allocator;
use std::cmp::Ordering;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::btree::*;
use vstd::pervasive::unreached as vx_unreached;
//@include btree.inc
//@include vecs.inc
//@include token.inc
//@include nametypes.inc
//@include nameops.inc
pub mod ast {
use super::*;
//@include ast.inc
}
pub use ast::*;
//@include typeset.inc
//@include typing.inc
//@set clear boolops
verus! {
impl PartialEqSpecImpl for Type {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Type) -> bool { self@ == other@ }
}
impl PartialEq for Type {
    #[verifier::external_body]
    fn eq(&self, other: &Type) -> bool { unimplemented!() }
}
}
pub mod context {
use super::*;
verus! {
//@item src/chomp/typed/context.rs Context
//@item src/chomp/typed/context.rs GetVariableError
//@include context.inc
}
}
pub use context::*;
pub mod typed {
use super::*;
//@include typed.inc
pub mod error {
use crate::*;
use super::TypedExpression;
verus! {
//@item src/chomp/typed/error.rs VariableError
//@item src/chomp/typed/error.rs CatError
//@item src/chomp/typed/error.rs AltError
//@item src/chomp/typed/error.rs TypeError
impl FromSpecImpl<CatError> for TypeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: CatError) -> TypeError { TypeError::Cat(v) }
}
impl From<CatError> for TypeError {
//@fn src/chomp/typed/error.rs <TypeError as From<CatError>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<AltError> for TypeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: AltError) -> TypeError { TypeError::Alt(v) }
}
impl From<AltError> for TypeError {
//@fn src/chomp/typed/error.rs <TypeError as From<AltError>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<VariableError> for TypeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: VariableError) -> TypeError { TypeError::Variable(v) }
}
impl From<VariableError> for TypeError {
//@fn src/chomp/typed/error.rs <TypeError as From<VariableError>>::from
//@ opt novis
//@endfn
}
}
}
pub mod infer {
use crate::*;
use super::{TypedExpression, RawTypedExpression, tn, tx, tcat, talt, tall, g_typed};
use super::error::*;
use crate::told::*;
verus! {
//@item src/chomp/typed/infer.rs TypeInfer

pub open spec fn tys(s: Seq<Type>) -> Seq<Ty> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub broadcast proof fn tys_push(s: Seq<Type>, t: Type)
    ensures #[trigger] tys(s.push(t)) == tys(s).push(t@),
{
    assert(tys(s.push(t)) =~= tys(s).push(t@));
}

impl Context {
    pub open spec fn tys(&self) -> Seq<Ty> { tys(self.vars@) }
    pub open spec fn guard(&self) -> int { guard_depth(self.unguard_points@) }
    /// What e is typed as here.
    pub open spec fn inf(&self, e: X, name: Option<Name>, span: Span) -> Option<TN> {
        inf(e, name, span, self.tys(), self.guard())
    }
}

impl TypeInfer<'_> {
    /// The context is as it was.
    #[verifier::prophetic]
    pub open spec fn kept(&self, o: &Self) -> bool {
        &&& self.context.vars@ =~= o.context.vars@
        &&& self.context.unguard_points@ =~= o.context.unguard_points@
        &&& *final(self.context) == *final(o.context)
    }
}

pub open spec fn ok(r: Result<TypedExpression, TypeError>) -> Option<TN> {
    match r { Ok(t) => Some(tn(t)), Err(_) => None }
}

//@set inline .with_unguard src/chomp/typed/context.rs Context::with_unguard
//@set inline .with_variable_type src/chomp/typed/context.rs Context::with_variable_type
//@set begin broadcast use {g_views, g_typed, tys_push, merge_seq_few};
//@set visitors fold
//@set ty Self::Out => Result<TypedExpression, TypeError>
impl TypeInfer<'_> {
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_epsilon
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(X::Eps, name, span) == ok(r),
        told(X::Eps, name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases eps, 0int,
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_literal
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(X::Lit(lit@), name, span) == ok(r),
        told(X::Lit(lit@), name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases lit, 0int,
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_variable
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(X::Var(var.index as nat), name, span) == ok(r),
        told(X::Var(var.index as nat), name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases var, 0int,
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_call
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(vcall(call), _name, span) == ok(r),
        told(vcall(call), _name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases call, 0int,
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_lambda
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(vlambda(lambda), _name, span) == ok(r),
        told(vlambda(lambda), _name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases lambda, 0int,
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_let
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(vlet(stmt), _name, span) == ok(r),
        told(vlet(stmt), _name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases stmt, 0int,
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_cat
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(vcat(cat), name, span) == ok(r),
        told(vcat(cat), name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases cat, 0int,
//@ start
    let ghost c0 = cat;
    let ghost all = cat.rest@;
    let ghost ctx = self.context.tys();
    let ghost vars = self.context.vars@;
    let ghost points = self.context.unguard_points@;
//@ loop 0
    invariant
        it0.seq() == all,
        infer.context.vars@ == vars, infer.context.unguard_points@ == points.push(vars.len() as usize),
        *final(infer.context) == *after_borrow(self.context),
        match __err0 {
            None => inf_cat(vrest(all), it0.index@, tty(tn(first)), ctx) == Some((tall(__out0@), ty@)),
            Some(e) => inf_cat(vrest(all), it0.index@, tty(tn(first)), ctx) is None && told_cat(vrest(all), tty(tn(first)), ctx, e),
        },
//@ loopstart 0
    proof {
        assert(part(it0.index@));
        assert(__x_0 == c0.rest[it0.index@]);
        vstd::std_specs::vec::axiom_vec_index_decreases(c0.rest, it0.index@);
    }
//@ end
    proof {
        let w = __r->Ok_0;
        assert(tn(w).e == tx(w.inner));
        assert(tx(w.inner) == tcat(w.inner->Cat_0));
    }
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_alt
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(valt(alt), name, span) == ok(r),
        told(valt(alt), name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases alt, 0int,
//@ start
    let ghost c0 = alt;
    let ghost all = alt.rest@;
    let ghost ctx = self.context.tys();
    let ghost guard = self.context.guard();
//@ loop 0
    invariant
        it0.seq() == all,
        self.kept(old(self)),
        match __err0 {
            None => inf_alt(vrest(all), it0.index@, tty(tn(first)), ctx, guard) == Some((tall(__out0@), ty@)),
            Some(e) => inf_alt(vrest(all), it0.index@, tty(tn(first)), ctx, guard) is None && told_alt(vrest(all), tty(tn(first)), ctx, guard, e),
        },
//@ loopstart 0
    proof {
        assert(part(it0.index@));
        assert(__x_0 == c0.rest[it0.index@]);
        vstd::std_specs::vec::axiom_vec_index_decreases(c0.rest, it0.index@);
    }
//@ end
    proof {
        let w = __r->Ok_0;
        assert(tn(w).e == tx(w.inner));
        assert(tx(w.inner) == talt(w.inner->Alt_0));
    }
//@endfn
//@fn src/chomp/typed/infer.rs <TypeInfer as Folder>::fold_fix
//@ opt liftguard
//@ opt attr verifier::loop_isolation(false)
//@ spec
    ensures
        final(self).kept(old(self)),
        old(self).context.inf(vfix(fix), name, span) == ok(r),
        told(vfix(fix), name, span, old(self).context.tys(), old(self).context.guard(), r),
    decreases fix, 0int,
//@ start
    let ghost c0 = fix;
    let ghost ctx = self.context.tys();
    let ghost guard = self.context.guard();
    let ghost x0 = if fix.inner.expr is Lambda { *fix.inner.expr->Lambda_0.inner } else { arbitrary() };
    let ghost nm = merge2(merge2(fix.inner.name, x0.name), name);
    let ghost g = fixbody(vn(x0), nm, ctx, guard);
    let ghost good = fix.inner.expr is Lambda && fix.inner.expr->Lambda_0.args@.len() == 1;
    proof {
        let f = vn(*c0.inner);
        assert(vfix(c0) == X::Fix(Box::new(f)));
        assert(f.e == vx(c0.inner.expr));
        if c0.inner.expr is Lambda { assert(vx(c0.inner.expr) == vlambda(c0.inner.expr->Lambda_0)); }
        assert(f.e is Lambda <==> c0.inner.expr is Lambda);
        climbed_none(g);
        assert(self.context.inf(vfix(c0), name, span) == if good && exists|t: Ty| least(g, t) {
            Some(TN { name, span, e: TX::Fix(Box::new(g(choose|t: Ty| least(g, t))->0)) })
        } else {
            None
        });
    }
//@ loop 0
    invariant
        self.kept(old(self)),
        good,
        body.expr == x0.expr, body.name == nm, body.span == x0.span,
        climbed(g, ty@),
        forall|s: Ty| #[trigger] fix_at(g, s) ==> le(ty@, s),
        g(ty@) is Some ==> le(ty@, tty(g(ty@)->0)),
    decreases room(ty@),
//@ loopstart 0
    let ghost t0 = ty@;
    proof {
        assert(tried(t0));
        fixbody_mono(vn(x0), nm, ctx, ctx, guard);
        assert(g(t0) == inf(vn(x0).e, nm, vn(x0).span, ctx.push(t0), guard));
        if g(t0) is None {
            assert forall|t: Ty| !#[trigger] least(g, t) by {
                if least(g, t) { assert(le(t0, t)); assert(g(t) is Some); }
            }
        }
        if fix_at(g, t0) {
            assert(least(g, t0));
            assert forall|t: Ty| #[trigger] least(g, t) implies t == t0 by { least_once(g, t, t0); }
        }
    }
//@ loopend 0
    proof {
        grows(t0, ty@);
        climbed_on(g, t0);
    }
//@endfn
}
//@set clear visitors
//@set clear ty
impl NamedExpression {
//@fn src/chomp/visit.rs <NamedExpression as Visitable>::fold
//@ opt name fold_TypeInfer
//@ opt dropgen F
//@ opt ty F => TypeInfer<'_>
//@ opt ty <F as Folder>::Out => Result<TypedExpression, TypeError>
//@ opt paramvisitor TypeInfer
//@ spec
    ensures
        final(folder).kept(old(folder)),
        old(folder).context.inf(vx(self.expr), self.name, self.span) == ok(r),
        told(vx(self.expr), self.name, self.span, old(folder).context.tys(), old(folder).context.guard(), r),
    decreases self.expr, 0int,
//@endfn
}
}
}
}
