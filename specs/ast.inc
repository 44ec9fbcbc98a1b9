// The syntax trees of /repo and their ghost mirror.
verus! {
//@item src/chomp/ast/mod.rs Epsilon attr=derive(Clone,Copy)
//@item src/chomp/ast/mod.rs Literal
//@item src/chomp/ast/mod.rs Cat
//@item src/chomp/ast/mod.rs Alt
//@item src/chomp/ast/mod.rs Fix
//@item src/chomp/ast/mod.rs Variable attr=derive(Clone,Copy)
//@item src/chomp/ast/mod.rs Call
//@item src/chomp/ast/mod.rs Lambda
//@item src/chomp/ast/mod.rs Let
//@item src/chomp/ast/mod.rs Expression
//@item src/chomp/ast/mod.rs NamedExpression

pub ghost struct N {
    pub name: Option<Name>,
    pub span: Span,
    pub e: X,
}

pub ghost enum X {
    Eps,
    Lit(Seq<char>),
    Cat(Box<N>, Seq<(Span, N)>),
    Alt(Box<N>, Seq<(Span, N)>),
    Fix(Box<N>),
    Var(nat),
    Call(Box<N>, Seq<N>),
    Lambda(Seq<Name>, Box<N>),
    Let(Name, Box<N>, Box<N>),
}

pub open spec fn vn(n: NamedExpression) -> N
    decreases n,
{
    N { name: n.name, span: n.span, e: vx(n.expr) }
}

pub open spec fn vx(e: Expression) -> X
    decreases e,
{
    match e {
        Expression::Epsilon(_) => X::Eps,
        Expression::Literal(l) => X::Lit(l@),
        Expression::Cat(c) => vcat(c),
        Expression::Alt(c) => valt(c),
        Expression::Fix(f) => vfix(f),
        Expression::Variable(v) => X::Var(v.index as nat),
        Expression::Call(c) => vcall(c),
        Expression::Lambda(l) => vlambda(l),
        Expression::Let(l) => vlet(l),
    }
}

pub open spec fn vcat(c: Cat) -> X
    decreases c,
{
    X::Cat(Box::new(vn(*c.first)), Seq::new(c.rest@.len(), |i: int| if 0 <= i < c.rest@.len() { (c.rest[i].0, vn(c.rest[i].1)) } else { arbitrary() }))
}

pub open spec fn valt(c: Alt) -> X
    decreases c,
{
    X::Alt(Box::new(vn(*c.first)), Seq::new(c.rest@.len(), |i: int| if 0 <= i < c.rest@.len() { (c.rest[i].0, vn(c.rest[i].1)) } else { arbitrary() }))
}

pub open spec fn vcall(c: Call) -> X
    decreases c,
{
    X::Call(Box::new(vn(*c.on)), Seq::new(c.args@.len(), |i: int| if 0 <= i < c.args@.len() { vn(c.args[i]) } else { arbitrary() }))
}

pub open spec fn vfix(f: Fix) -> X
    decreases f,
{
    X::Fix(Box::new(vn(*f.inner)))
}

pub open spec fn vlet(l: Let) -> X
    decreases l,
{
    X::Let(l.name, Box::new(vn(*l.bound)), Box::new(vn(*l.body)))
}

pub open spec fn vlambda(l: Lambda) -> X
    decreases l,
{
    X::Lambda(l.args@, Box::new(vn(*l.inner)))
}

pub open spec fn pvn(p: (Span, NamedExpression)) -> (Span, N) {
    (p.0, vn(p.1))
}

/// The parts after the first of a concatenation or alternative.
pub open spec fn vrest(s: Seq<(Span, NamedExpression)>) -> Seq<(Span, N)> {
    Seq::new(s.len(), |i: int| (s[i].0, vn(s[i].1)))
}

pub open spec fn vall(s: Seq<NamedExpression>) -> Seq<N> {
    Seq::new(s.len(), |i: int| vn(s[i]))
}

pub broadcast proof fn vcat_is(c: Cat)
    ensures #[trigger] vcat(c) == X::Cat(Box::new(vn(*c.first)), vrest(c.rest@)),
{
    assert(vcat(c)->Cat_1 =~= vrest(c.rest@));
}

pub broadcast proof fn valt_is(c: Alt)
    ensures #[trigger] valt(c) == X::Alt(Box::new(vn(*c.first)), vrest(c.rest@)),
{
    assert(valt(c)->Alt_1 =~= vrest(c.rest@));
}

pub broadcast proof fn vcall_is(c: Call)
    ensures #[trigger] vcall(c) == X::Call(Box::new(vn(*c.on)), vall(c.args@)),
{
    assert(vcall(c)->Call_1 =~= vall(c.args@));
}

pub broadcast group g_views {
    vcat_is,
    valt_is,
    vcall_is,
}


impl Clone for NamedExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: NamedExpression)
        ensures r == *self,
    { unimplemented!() }
}

impl Clone for Expression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Expression)
        ensures r == *self,
    { unimplemented!() }
}

impl FromSpecImpl<Epsilon> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Epsilon) -> Expression { Expression::Epsilon(v) }
}
impl From<Epsilon> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Epsilon>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Literal> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Literal) -> Expression { Expression::Literal(v) }
}
impl From<Literal> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Literal>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Cat> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Cat) -> Expression { Expression::Cat(v) }
}
impl From<Cat> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Cat>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Alt> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Alt) -> Expression { Expression::Alt(v) }
}
impl From<Alt> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Alt>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Fix> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Fix) -> Expression { Expression::Fix(v) }
}
impl From<Fix> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Fix>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Variable> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Variable) -> Expression { Expression::Variable(v) }
}
impl From<Variable> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Variable>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Lambda> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Lambda) -> Expression { Expression::Lambda(v) }
}
impl From<Lambda> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Lambda>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Call> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Call) -> Expression { Expression::Call(v) }
}
impl From<Call> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Call>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<Let> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Let) -> Expression { Expression::Let(v) }
}
impl From<Let> for Expression {
//@fn src/chomp/ast/mod.rs <Expression as From<Let>>::from
//@ opt novis
//@endfn
}
}
