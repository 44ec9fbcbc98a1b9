#![feature(allocator_api)]
//@include infer.inc
pub mod told {
use crate::*;
use crate::typed::*;
use crate::typed::error::*;
//@include blame.inc
verus! {
pub open spec fn tried(t: Ty) -> bool { true }
/// Names a part.
pub open spec fn part(k: int) -> bool { true }

/// From left to right and from the inside out, err is about the first part of e that breaks a rule.
pub open spec fn blames(e: X, name: Option<Name>, span: Span, ctx: Seq<Ty>, guard: int, err: TE) -> bool
    decreases e, 0int,
{
    match e {
        X::Cat(f, r) => match inf(f.e, f.name, f.span, ctx, guard) {
            Some(a) => if tty(a).nullable {
                err == TE::FirstEmpty(if r.len() > 0 { r[0].0 } else { Span::call_site_spec() })
            } else {
                exists|k: int| #[trigger] part(k) && cat_stops(r, k, tty(a), ctx, err)
            },
            None => blames(f.e, f.name, f.span, ctx, guard, err),
        },
        X::Alt(f, r) => match inf(f.e, f.name, f.span, ctx, guard) {
            Some(a) => exists|k: int| #[trigger] part(k) && alt_stops(r, k, tty(a), ctx, guard, err),
            None => blames(f.e, f.name, f.span, ctx, guard, err),
        },
        X::Fix(f) => match f.e {
            X::Lambda(ps, b) => if ps.len() == 1 {
                let nm = merge2(merge2(f.name, b.name), name);
                exists|t: Ty| #[trigger] tried(t) && climbed(fixbody(*b, nm, ctx, guard), t) && blames(b.e, nm, b.span, ctx.push(t), guard, err)
            } else {
                err == TE::NoLambda(span)
            },
            _ => err == TE::NoLambda(span),
        },
        X::Var(i) => err == if i < ctx.len() { TE::Guarded(i, name, span) } else { TE::Free(i, name, span) },
        X::Call(..) => err == TE::Call(span),
        X::Lambda(..) => err == TE::Lambda(span),
        X::Let(..) => err == TE::Let(span),
        _ => false,
    }
}

/// The parts of a concatenation before k are fine, and k is not.
pub open spec fn cat_stops(r: Seq<(Span, N)>, k: int, t0: Ty, ctx: Seq<Ty>, err: TE) -> bool
    decreases r, 0int,
{
    0 <= k < r.len() && match inf_cat(r, k, t0, ctx) {
        Some((_, t)) => match inf(r[k].1.e, r[k].1.name, r[k].1.span, ctx, ctx.len() as int) {
            Some(b) => !t.flast.disjoint(tty(b).first) && err == TE::Overlap(r[k].0),
            None => blames(r[k].1.e, r[k].1.name, r[k].1.span, ctx, ctx.len() as int, err),
        },
        None => false,
    }
}

pub open spec fn alt_stops(r: Seq<(Span, N)>, k: int, t0: Ty, ctx: Seq<Ty>, guard: int, err: TE) -> bool
    decreases r, 0int,
{
    0 <= k < r.len() && match inf_alt(r, k, t0, ctx, guard) {
        Some((_, t)) => match inf(r[k].1.e, r[k].1.name, r[k].1.span, ctx, guard) {
            // a branch that breaks both rules may be blamed by either
            Some(b) => t.nullable && tty(b).nullable && err == TE::BothEmpty(r[k].0)
                || !t.first.disjoint(tty(b).first) && err == TE::BothStart(r[k].0),
            None => blames(r[k].1.e, r[k].1.name, r[k].1.span, ctx, guard, err),
        },
        None => false,
    }
}

pub open spec fn told(e: X, name: Option<Name>, span: Span, ctx: Seq<Ty>, guard: int, r: Result<TypedExpression, TypeError>) -> bool {
    r is Err ==> blames(e, name, span, ctx, guard, te(r->Err_0))
}
pub open spec fn told_cat(r: Seq<(Span, N)>, t0: Ty, ctx: Seq<Ty>, e: TypeError) -> bool {
    exists|k: int| #[trigger] part(k) && cat_stops(r, k, t0, ctx, te(e))
}
pub open spec fn told_alt(r: Seq<(Span, N)>, t0: Ty, ctx: Seq<Ty>, guard: int, e: TypeError) -> bool {
    exists|k: int| #[trigger] part(k) && alt_stops(r, k, t0, ctx, guard, te(e))
}
}
}
fn main() {}
