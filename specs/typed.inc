verus! {
//@item src/chomp/typed/mod.rs Epsilon
//@item src/chomp/typed/mod.rs Literal
//@item src/chomp/typed/mod.rs Cat
//@item src/chomp/typed/mod.rs Alt
//@item src/chomp/typed/mod.rs Fix
//@item src/chomp/typed/mod.rs Variable
//@item src/chomp/typed/mod.rs RawTypedExpression
//@item src/chomp/typed/mod.rs TypedExpression

pub open spec fn tn(t: TypedExpression) -> TN
    decreases t,
{
    TN { name: t.name, span: t.span, e: tx(t.inner) }
}
pub open spec fn tx(r: RawTypedExpression) -> TX
    decreases r,
{
    match r {
        RawTypedExpression::Epsilon(e) => TX::Eps(e.ty@),
        RawTypedExpression::Literal(l) => TX::Lit(l.inner@, l.ty@),
        RawTypedExpression::Cat(c) => tcat(c),
        RawTypedExpression::Alt(a) => talt(a),
        RawTypedExpression::Fix(f) => TX::Fix(Box::new(tn(*f.inner))),
        RawTypedExpression::Variable(v) => TX::Var(v.inner.index as nat, v.ty@),
    }
}
pub open spec fn tcat(c: Cat) -> TX
    decreases c,
{
    TX::Cat(Seq::new(c.terms@.len(), |i: int| if 0 <= i < c.terms@.len() { tn(c.terms[i]) } else { arbitrary() }), c.ty@)
}
pub open spec fn talt(c: Alt) -> TX
    decreases c,
{
    TX::Alt(Seq::new(c.terms@.len(), |i: int| if 0 <= i < c.terms@.len() { tn(c.terms[i]) } else { arbitrary() }), c.ty@)
}
pub open spec fn tall(s: Seq<TypedExpression>) -> Seq<TN> {
    Seq::new(s.len(), |i: int| tn(s[i]))
}
pub broadcast proof fn tcat_is(c: Cat)
    ensures #[trigger] tcat(c) == TX::Cat(tall(c.terms@), c.ty@),
{
    assert(tcat(c)->Cat_0 =~= tall(c.terms@));
}
pub broadcast proof fn talt_is(c: Alt)
    ensures #[trigger] talt(c) == TX::Alt(tall(c.terms@), c.ty@),
{
    assert(talt(c)->Alt_0 =~= tall(c.terms@));
}
pub broadcast proof fn tall_chain(a: Seq<TypedExpression>, b: Seq<TypedExpression>)
    ensures #[trigger] tall(a + b) == tall(a) + tall(b),
{
    assert(tall(a + b) =~= tall(a) + tall(b));
}
pub broadcast proof fn tall_one(a: TypedExpression)
    ensures #[trigger] tall(seq![a]) == seq![tn(a)],
{
    assert(tall(seq![a]) =~= seq![tn(a)]);
}
pub broadcast proof fn tall_push(a: Seq<TypedExpression>, b: TypedExpression)
    ensures #[trigger] tall(a.push(b)) == tall(a).push(tn(b)),
{
    assert(tall(a.push(b)) =~= tall(a).push(tn(b)));
}
pub broadcast proof fn tall_none()
    ensures #[trigger] tall(Seq::empty()) == Seq::<TN>::empty(),
{
    assert(tall(Seq::empty()) =~= Seq::<TN>::empty());
}
pub broadcast group g_typed {
    tcat_is,
    talt_is,
    tall_chain,
    tall_one,
    tall_push,
    tall_none,
}

impl Epsilon {
//@fn src/chomp/typed/mod.rs <Epsilon as From<ast::Epsilon>>::from
//@ spec
    ensures r.ty@ == ty_eps(),
//@endfn
//@fn src/chomp/typed/mod.rs <Epsilon as Typed>::get_type
//@ spec
    ensures *r == self.ty,
//@endfn
}
impl Literal {
//@fn src/chomp/typed/mod.rs <Literal as From<ast::Literal>>::from
//@ spec
    ensures r.inner@ == inner@, r.ty@ == ty_str(inner@),
//@endfn
//@fn src/chomp/typed/mod.rs <Literal as Typed>::get_type
//@ spec
    ensures *r == self.ty,
//@endfn
}
impl Cat {
//@fn src/chomp/typed/mod.rs <Cat as Typed>::get_type
//@ spec
    ensures *r == self.ty,
//@endfn
}
impl Alt {
//@fn src/chomp/typed/mod.rs <Alt as Typed>::get_type
//@ spec
    ensures *r == self.ty,
//@endfn
}
impl Variable {
//@fn src/chomp/typed/mod.rs <Variable as Typed>::get_type
//@ spec
    ensures *r == self.ty,
//@endfn
}
impl Fix {
//@fn src/chomp/typed/mod.rs <Fix as Typed>::get_type
//@ spec
    ensures r@ == tty(tn(*self.inner)),
    decreases *self, 0int,
//@endfn
}
impl TypedExpression {
//@fn src/chomp/typed/mod.rs <TypedExpression as Typed>::get_type
//@ spec
    ensures r@ == tty(tn(*self)),
    decreases *self, 1int,
//@ start
    broadcast use g_typed;
    proof {
        assert(tn(*self).e == tx(self.inner));
        if self.inner is Fix { assert(tx(self.inner) == TX::Fix(Box::new(tn(*self.inner->Fix_0.inner)))); }
    }
//@endfn
}
impl FromSpecImpl<Epsilon> for RawTypedExpression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Epsilon) -> RawTypedExpression { RawTypedExpression::Epsilon(v) }
}
impl From<Epsilon> for RawTypedExpression {
//@fn src/chomp/typed/mod.rs <RawTypedExpression as From<Epsilon>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Literal> for RawTypedExpression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Literal) -> RawTypedExpression { RawTypedExpression::Literal(v) }
}
impl From<Literal> for RawTypedExpression {
//@fn src/chomp/typed/mod.rs <RawTypedExpression as From<Literal>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Cat> for RawTypedExpression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Cat) -> RawTypedExpression { RawTypedExpression::Cat(v) }
}
impl From<Cat> for RawTypedExpression {
//@fn src/chomp/typed/mod.rs <RawTypedExpression as From<Cat>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Alt> for RawTypedExpression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Alt) -> RawTypedExpression { RawTypedExpression::Alt(v) }
}
impl From<Alt> for RawTypedExpression {
//@fn src/chomp/typed/mod.rs <RawTypedExpression as From<Alt>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Fix> for RawTypedExpression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Fix) -> RawTypedExpression { RawTypedExpression::Fix(v) }
}
impl From<Fix> for RawTypedExpression {
//@fn src/chomp/typed/mod.rs <RawTypedExpression as From<Fix>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Variable> for RawTypedExpression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Variable) -> RawTypedExpression { RawTypedExpression::Variable(v) }
}
impl From<Variable> for RawTypedExpression {
//@fn src/chomp/typed/mod.rs <RawTypedExpression as From<Variable>>::from
//@ opt novis
//@endfn
}
}
