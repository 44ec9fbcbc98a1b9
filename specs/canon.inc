// What a typed grammar is, apart from where it stands in the text.
verus! {
/// A typed grammar without spans; two of them are equal as keys exactly if these agree.
pub ghost struct CN {
    pub name: Option<(Kind, Str)>,
    pub e: CX,
}

pub ghost enum CX {
    Eps(crate::Ty),
    Lit(Str, crate::Ty),
    Cat(Seq<CN>, crate::Ty),
    Alt(Seq<CN>, crate::Ty),
    Fix(Box<CN>),
    Var(usize, crate::Ty),
}

pub open spec fn cname(n: Option<Name>) -> Option<(Kind, Str)> {
    match n { Some(n) => Some((n.kind, n.content.text())), None => None }
}
pub open spec fn cn(t: TypedExpression) -> CN
    decreases t,
{
    CN { name: cname(t.name), e: cx(t.inner) }
}
pub open spec fn cx(r: RawTypedExpression) -> CX
    decreases r,
{
    match r {
        RawTypedExpression::Epsilon(e) => CX::Eps(e.ty@),
        RawTypedExpression::Literal(l) => CX::Lit(l.inner@, l.ty@),
        RawTypedExpression::Cat(c) => ccat(c),
        RawTypedExpression::Alt(a) => calt(a),
        RawTypedExpression::Fix(f) => CX::Fix(Box::new(cn(*f.inner))),
        RawTypedExpression::Variable(v) => CX::Var(v.inner.index, v.ty@),
    }
}
pub open spec fn ccat(c: Cat) -> CX
    decreases c,
{
    CX::Cat(Seq::new(c.terms@.len(), |i: int| if 0 <= i < c.terms@.len() { cn(c.terms[i]) } else { arbitrary() }), c.ty@)
}
pub open spec fn calt(c: Alt) -> CX
    decreases c,
{
    CX::Alt(Seq::new(c.terms@.len(), |i: int| if 0 <= i < c.terms@.len() { cn(c.terms[i]) } else { arbitrary() }), c.ty@)
}
pub open spec fn call(s: Seq<TypedExpression>) -> Seq<CN> {
    Seq::new(s.len(), |i: int| cn(s[i]))
}
pub broadcast proof fn ccat_is(c: Cat)
    ensures #[trigger] ccat(c) == CX::Cat(call(c.terms@), c.ty@),
{
    assert(ccat(c)->Cat_0 =~= call(c.terms@));
}
pub broadcast proof fn calt_is(c: Alt)
    ensures #[trigger] calt(c) == CX::Alt(call(c.terms@), c.ty@),
{
    assert(calt(c)->Alt_0 =~= call(c.terms@));
}
pub proof fn cx_is(r: RawTypedExpression)
    ensures
        match r {
            RawTypedExpression::Cat(c) => cx(r) == CX::Cat(call(c.terms@), c.ty@),
            RawTypedExpression::Alt(c) => cx(r) == CX::Alt(call(c.terms@), c.ty@),
            _ => true,
        },
{
    match r {
        RawTypedExpression::Cat(c) => { ccat_is(c); }
        RawTypedExpression::Alt(c) => { calt_is(c); }
        _ => {}
    }
}
}
