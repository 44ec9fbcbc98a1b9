#![feature(allocator_api)]
//@include infer.inc
// Nothing is said about which error is reported (unit blame does).
pub mod told {
use crate::*;
use crate::typed::*;
use crate::typed::error::*;
verus! {
pub open spec fn tried(t: Ty) -> bool { true }
pub open spec fn part(k: int) -> bool { true }
pub open spec fn told(e: X, name: Option<Name>, span: Span, ctx: Seq<Ty>, guard: int, r: Result<TypedExpression, TypeError>) -> bool { true }
pub open spec fn told_cat(r: Seq<(Span, N)>, t0: Ty, ctx: Seq<Ty>, e: TypeError) -> bool { true }
pub open spec fn told_alt(r: Seq<(Span, N)>, t0: Ty, ctx: Seq<Ty>, guard: int, e: TypeError) -> bool { true }
}
}
fn main() {}
