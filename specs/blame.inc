// Which rule a grammar that is not well typed breaks, and where.
verus! {
/// A type error without the trees it carries.
pub ghost enum TE {
    /// The first part of a concatenation may be empty; blamed on the first separator.
    FirstEmpty(Span),
    /// What may follow the parts so far overlaps with the beginning of the next.
    Overlap(Span),
    /// Both sides of an alternation may be empty.
    BothEmpty(Span),
    /// Both sides may start alike.
    BothStart(Span),
    Free(nat, Option<Name>, Span),
    Guarded(nat, Option<Name>, Span),
    Call(Span),
    Lambda(Span),
    Let(Span),
    /// A fixed point of something else than a function of one argument.
    NoLambda(Span),
}

pub open spec fn te(e: TypeError) -> TE {
    match e {
        TypeError::Cat(CatError::FirstNullable { punct, .. }) => TE::FirstEmpty(punct),
        TypeError::Cat(CatError::FirstFlastOverlap { punct, .. }) => TE::Overlap(punct),
        TypeError::Alt(AltError::BothNullable { punct, .. }) => TE::BothEmpty(punct),
        TypeError::Alt(AltError::FirstOverlap { punct, .. }) => TE::BothStart(punct),
        TypeError::Variable(v) => match v.inner {
            GetVariableError::FreeVariable => TE::Free(v.var.index as nat, v.name, v.span),
            GetVariableError::GuardedVariable => TE::Guarded(v.var.index as nat, v.name, v.span),
        },
        TypeError::UnexpectedCall { span, .. } => TE::Call(span),
        TypeError::UnexpectedLambda { span, .. } => TE::Lambda(span),
        TypeError::UnexpectedLet { span, .. } => TE::Let(span),
        TypeError::ExpectedLambda { span, .. } => TE::NoLambda(span),
    }
}
}
