#![feature(allocator_api)]
//@include prelude.inc
use std::collections::*;
use std::collections::btree_set;
use std::alloc::Allocator;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::btree::*;
use vstd::pervasive::unreached as vx_unreached;
//@include btree.inc
//@include strings.inc
//@include vecs.inc
//@include token.inc
//@include nametypes.inc
//@include contenteq.inc
verus! {
pub type Str = Seq<char>;

// ---------------------------------------------------------------- comparing and hashing
/// Values that are compared with `==` and fed to hashers. `a == b` and `a.hash(s)` in the functions below stand for the
/// type's own implementation (or the library's, for numbers, strings, boxes, references, vectors, options and sets),
/// which is verified with the others.
pub trait VxEq {
    spec fn same_as(&self, other: &Self) -> bool;
}

#[verifier::external_body]
pub fn vx_eq<T: VxEq>(a: &T, b: &T) -> (r: bool)
    ensures r == a.same_as(b),
{ unimplemented!() }

pub trait VxSink {
    /// What was fed to the hasher.
    spec fn fed(&self) -> Seq<int>;
}

pub uninterp spec fn feed<T>(x: T) -> Seq<int>;

#[verifier::external_body]
pub fn vx_feed<T: VxEq, H: VxSink>(x: &T, state: &mut H)
    ensures final(state).fed() == old(state).fed() + feed(*x),
{ unimplemented!() }

/// Equal values feed the same to a hasher.
#[verifier::external_body]
pub broadcast proof fn feed_same<T: VxEq>(a: T, b: T)
    ensures #![trigger feed(a), feed(b)] a.same_as(&b) ==> feed(a) == feed(b),
{ unimplemented!() }

/// `x.clone()` on a part stands for the part's own implementation, verified with the others, or the library's.
#[verifier::external_body]
pub fn vx_clone<T>(x: &T) -> (r: T)
    ensures r == *x,
{ unimplemented!() }

pub trait VxDefault: Sized {
    spec fn is_default(&self) -> bool;
}

#[verifier::external_body]
pub fn vx_default<T: VxDefault>() -> (r: T)
    ensures r.is_default(),
{ unimplemented!() }

impl VxDefault for bool {
    open spec fn is_default(&self) -> bool { !*self }
}
impl VxDefault for BTreeSet<char> {
    open spec fn is_default(&self) -> bool { self@ == Set::<char>::empty() }
}

impl VxEq for bool {
    open spec fn same_as(&self, other: &bool) -> bool { *self == *other }
}
impl VxEq for usize {
    open spec fn same_as(&self, other: &usize) -> bool { *self == *other }
}
impl VxEq for String {
    open spec fn same_as(&self, other: &String) -> bool { self@ == other@ }
}
impl VxEq for BTreeSet<char> {
    open spec fn same_as(&self, other: &BTreeSet<char>) -> bool { self@ == other@ }
}
impl<'a, T: VxEq> VxEq for &'a T {
    open spec fn same_as(&self, other: &&'a T) -> bool { (**self).same_as(*other) }
}
impl<T: VxEq> VxEq for Box<T> {
    open spec fn same_as(&self, other: &Box<T>) -> bool { (**self).same_as(&**other) }
}

// ---------------------------------------------------------------- names
pub open spec fn nm(n: Name) -> (Kind, Str) {
    (n.kind, n.content.text())
}

impl VxEq for Kind {
    open spec fn same_as(&self, other: &Kind) -> bool { *self == *other }
}
impl VxEq for Content {
    open spec fn same_as(&self, other: &Content) -> bool { same(*self, *other) }
}
impl VxEq for Name {
    open spec fn same_as(&self, other: &Name) -> bool { nm(*self) == nm(*other) }
}
impl VxEq for Option<Name> {
    open spec fn same_as(&self, other: &Option<Name>) -> bool {
        match (*self, *other) { (None, None) => true, (Some(a), Some(b)) => nm(a) == nm(b), _ => false }
    }
}
pub open spec fn nms(s: Seq<Name>) -> Seq<(Kind, Str)> {
    Seq::new(s.len(), |i: int| nm(s[i]))
}
impl VxEq for Vec<Name> {
    open spec fn same_as(&self, other: &Vec<Name>) -> bool { nms(self@) == nms(other@) }
}
}
//@set eqcall
//@set path hash::Hasher => VxSink
//@set path Hasher => VxSink
//@set method hash => & vx_feed
//@set method clone => & vx_clone
//@set path Default::default => vx_default
verus! {
impl Kind {
//@fn src/chomp/name.rs <Kind as PartialEq>::eq
//@ opt name same_kind
//@ spec
    ensures r == self.same_as(other),
//@endfn
}
//@fn src/chomp/name.rs <Kind as Hash>::hash
//@ opt freety Kind
//@ opt twin
//@ opt name hash_kind
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same;
//@endfn
impl Name {
//@fn src/chomp/name.rs <Name as PartialEq>::eq
//@ opt name same_name
//@ spec
    ensures r == self.same_as(other),
//@endfn
}
//@fn src/chomp/name.rs <Name as Hash>::hash
//@ opt freety Name
//@ opt twin
//@ opt name hash_name
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same;
//@endfn
impl Content {
//@fn src/chomp/name.rs <Content as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Kind {
//@fn src/chomp/name.rs <Kind as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Name {
//@fn src/chomp/name.rs <Name as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
}

// ---------------------------------------------------------------- grammars before types
pub mod ast {
use super::*;
verus! {
//@item src/chomp/ast/mod.rs Epsilon attr=derive(Clone,Copy)
//@item src/chomp/ast/mod.rs Literal
//@item src/chomp/ast/mod.rs Cat
//@item src/chomp/ast/mod.rs Alt
//@item src/chomp/ast/mod.rs Fix
//@item src/chomp/ast/mod.rs Variable attr=derive(Clone,Copy)
//@item src/chomp/ast/mod.rs Call
//@item src/chomp/ast/mod.rs Lambda
//@item src/chomp/ast/mod.rs Let
//@item src/chomp/ast/mod.rs Expression
//@item src/chomp/ast/mod.rs NamedExpression

/// A grammar without spans and without the names its parts carry.
pub ghost enum EX {
    Eps,
    Lit(Str),
    Cat(Box<EX>, Seq<EX>),
    Alt(Box<EX>, Seq<EX>),
    Fix(Box<EX>),
    Var(usize),
    Call(Box<EX>, Seq<EX>),
    Lambda(Seq<(Kind, Str)>, Box<EX>),
    Let((Kind, Str), Box<EX>, Box<EX>),
}

pub open spec fn en(n: NamedExpression) -> EX
    decreases n,
{
    ex(n.expr)
}
pub open spec fn ex(e: Expression) -> EX
    decreases e,
{
    match e {
        Expression::Epsilon(_) => EX::Eps,
        Expression::Literal(l) => EX::Lit(l@),
        Expression::Cat(c) => ecat(c),
        Expression::Alt(c) => ealt(c),
        Expression::Fix(f) => efix(f),
        Expression::Variable(v) => EX::Var(v.index),
        Expression::Call(c) => ecall(c),
        Expression::Lambda(l) => elambda(l),
        Expression::Let(l) => elet(l),
    }
}
pub open spec fn ecat(c: Cat) -> EX
    decreases c,
{
    EX::Cat(Box::new(en(*c.first)), Seq::new(c.rest@.len(), |i: int| if 0 <= i < c.rest@.len() { en(c.rest[i].1) } else { arbitrary() }))
}
pub open spec fn ealt(c: Alt) -> EX
    decreases c,
{
    EX::Alt(Box::new(en(*c.first)), Seq::new(c.rest@.len(), |i: int| if 0 <= i < c.rest@.len() { en(c.rest[i].1) } else { arbitrary() }))
}
pub open spec fn efix(f: Fix) -> EX
    decreases f,
{
    EX::Fix(Box::new(en(*f.inner)))
}
pub open spec fn ecall(c: Call) -> EX
    decreases c,
{
    EX::Call(Box::new(en(*c.on)), Seq::new(c.args@.len(), |i: int| if 0 <= i < c.args@.len() { en(c.args[i]) } else { arbitrary() }))
}
pub open spec fn elambda(l: Lambda) -> EX
    decreases l,
{
    EX::Lambda(nms(l.args@), Box::new(en(*l.inner)))
}
pub open spec fn elet(l: Let) -> EX
    decreases l,
{
    EX::Let(nm(l.name), Box::new(en(*l.bound)), Box::new(en(*l.body)))
}

pub open spec fn erest(s: Seq<(Span, NamedExpression)>) -> Seq<EX> {
    Seq::new(s.len(), |i: int| en(s[i].1))
}
pub open spec fn eall(s: Seq<NamedExpression>) -> Seq<EX> {
    Seq::new(s.len(), |i: int| en(s[i]))
}
pub broadcast proof fn ecat_is(c: Cat)
    ensures #[trigger] ecat(c) == EX::Cat(Box::new(en(*c.first)), erest(c.rest@)),
{
    assert(ecat(c)->Cat_1 =~= erest(c.rest@));
}
pub broadcast proof fn ealt_is(c: Alt)
    ensures #[trigger] ealt(c) == EX::Alt(Box::new(en(*c.first)), erest(c.rest@)),
{
    assert(ealt(c)->Alt_1 =~= erest(c.rest@));
}
pub broadcast proof fn ecall_is(c: Call)
    ensures #[trigger] ecall(c) == EX::Call(Box::new(en(*c.on)), eall(c.args@)),
{
    assert(ecall(c)->Call_1 =~= eall(c.args@));
}
pub broadcast group g_canon {
    ecat_is,
    ealt_is,
    ecall_is,
}

/// Two lists agree exactly if they have the same length and agree everywhere.
pub proof fn rest_agrees(a: Seq<(Span, NamedExpression)>, b: Seq<(Span, NamedExpression)>)
    ensures (erest(a) == erest(b)) == (a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> en((#[trigger] a[i]).1) == en(b[i].1)),
{
    if a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> en((#[trigger] a[i]).1) == en(b[i].1)) {
        assert(erest(a) =~= erest(b));
    }
    if erest(a) == erest(b) {
        assert(a.len() == erest(a).len() && b.len() == erest(b).len());
        assert forall|i: int| 0 <= i < a.len() implies en((#[trigger] a[i]).1) == en(b[i].1) by {
            assert(erest(a)[i] == erest(b)[i]);
        }
    }
}

impl VxEq for Epsilon {
    open spec fn same_as(&self, other: &Epsilon) -> bool { true }
}
impl VxEq for Variable {
    open spec fn same_as(&self, other: &Variable) -> bool { self.index == other.index }
}
impl VxEq for Cat {
    open spec fn same_as(&self, other: &Cat) -> bool { ecat(*self) == ecat(*other) }
}
impl VxEq for Alt {
    open spec fn same_as(&self, other: &Alt) -> bool { ealt(*self) == ealt(*other) }
}
impl VxEq for Fix {
    open spec fn same_as(&self, other: &Fix) -> bool { efix(*self) == efix(*other) }
}
impl VxEq for Call {
    open spec fn same_as(&self, other: &Call) -> bool { ecall(*self) == ecall(*other) }
}
impl VxEq for Lambda {
    open spec fn same_as(&self, other: &Lambda) -> bool { elambda(*self) == elambda(*other) }
}
impl VxEq for Let {
    open spec fn same_as(&self, other: &Let) -> bool { elet(*self) == elet(*other) }
}
impl VxEq for Expression {
    open spec fn same_as(&self, other: &Expression) -> bool { ex(*self) == ex(*other) }
}
impl VxEq for NamedExpression {
    open spec fn same_as(&self, other: &NamedExpression) -> bool { en(*self) == en(*other) }
}
impl VxEq for Vec<NamedExpression> {
    open spec fn same_as(&self, other: &Vec<NamedExpression>) -> bool { eall(self@) == eall(other@) }
}
impl Epsilon {
//@fn src/chomp/ast/mod.rs <ast::Epsilon as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
impl Variable {
//@fn src/chomp/ast/mod.rs <ast::Variable as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
impl Cat {
//@fn src/chomp/ast/mod.rs <ast::Cat as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
    proof { rest_agrees(self.rest@, other.rest@); }
//@ loop 0
    invariant
        it0.seq().len() == (if self.rest@.len() < other.rest@.len() { self.rest@.len() } else { other.rest@.len() }),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == self.rest@[i] && *it0.seq()[i].1 == other.rest@[i],
        __out0 == (forall|i: int| 0 <= i < it0.index@ ==> en((#[trigger] self.rest@[i]).1) == en(other.rest@[i].1)),
//@endfn
}
impl Alt {
//@fn src/chomp/ast/mod.rs <ast::Alt as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
    proof { rest_agrees(self.rest@, other.rest@); }
//@ loop 0
    invariant
        it0.seq().len() == (if self.rest@.len() < other.rest@.len() { self.rest@.len() } else { other.rest@.len() }),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == self.rest@[i] && *it0.seq()[i].1 == other.rest@[i],
        __out0 == (forall|i: int| 0 <= i < it0.index@ ==> en((#[trigger] self.rest@[i]).1) == en(other.rest@[i].1)),
//@endfn
}
impl Fix {
//@fn src/chomp/ast/mod.rs <ast::Fix as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
impl Call {
//@fn src/chomp/ast/mod.rs <ast::Call as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
impl Lambda {
//@fn src/chomp/ast/mod.rs <ast::Lambda as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
impl Let {
//@fn src/chomp/ast/mod.rs <ast::Let as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
impl Expression {
//@fn src/chomp/ast/mod.rs <ast::Expression as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
impl NamedExpression {
//@fn src/chomp/ast/mod.rs <ast::NamedExpression as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use g_canon;
//@endfn
}
//@fn src/chomp/ast/mod.rs <ast::Epsilon as Hash>::hash
//@ opt freety Epsilon
//@ opt twin
//@ opt name hash_epsilon
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same;
//@endfn
//@fn src/chomp/ast/mod.rs <ast::Variable as Hash>::hash
//@ opt freety Variable
//@ opt twin
//@ opt name hash_variable
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same;
//@endfn
impl Epsilon {
//@fn src/chomp/ast/mod.rs <ast::Epsilon as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Variable {
//@fn src/chomp/ast/mod.rs <ast::Variable as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Cat {
//@fn src/chomp/ast/mod.rs <ast::Cat as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Alt {
//@fn src/chomp/ast/mod.rs <ast::Alt as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Fix {
//@fn src/chomp/ast/mod.rs <ast::Fix as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Call {
//@fn src/chomp/ast/mod.rs <ast::Call as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Lambda {
//@fn src/chomp/ast/mod.rs <ast::Lambda as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Let {
//@fn src/chomp/ast/mod.rs <ast::Let as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Expression {
//@fn src/chomp/ast/mod.rs <ast::Expression as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl NamedExpression {
//@fn src/chomp/ast/mod.rs <ast::NamedExpression as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
}
}

// ---------------------------------------------------------------- types
//@set clear eqcall
//@set clear path
//@set clear method
//@include typeset.inc
//@set eqcall
//@set path hash::Hasher => VxSink
//@set path Hasher => VxSink
//@set method hash => & vx_feed
//@set method clone => & vx_clone
//@set path Default::default => vx_default
verus! {
impl VxEq for FirstSet {
    open spec fn same_as(&self, other: &FirstSet) -> bool { self@ == other@ }
}
impl FirstSet {
//@fn src/chomp/set.rs <FirstSet as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@endfn
}
//@fn src/chomp/set.rs <FirstSet as Hash>::hash
//@ opt freety FirstSet
//@ opt twin
//@ opt name hash_firstset
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same;
//@endfn
impl VxEq for FlastSet {
    open spec fn same_as(&self, other: &FlastSet) -> bool { self@ == other@ }
}
impl FlastSet {
//@fn src/chomp/set.rs <FlastSet as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@endfn
}
//@fn src/chomp/set.rs <FlastSet as Hash>::hash
//@ opt freety FlastSet
//@ opt twin
//@ opt name hash_flastset
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same;
//@endfn
impl VxEq for Type {
    open spec fn same_as(&self, other: &Type) -> bool { self@ == other@ }
}
impl Type {
//@fn src/chomp/typed/mod.rs <Type as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    assert(self@ == other@ <==> self@ =~= other@);
//@endfn
}
//@fn src/chomp/typed/mod.rs <Type as Hash>::hash
//@ opt freety Type
//@ opt twin
//@ opt name hash_type
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same;
//@endfn
impl FirstSet {
//@fn src/chomp/set.rs <FirstSet as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl VxDefault for FirstSet {
    open spec fn is_default(&self) -> bool { self@ == Set::<char>::empty() }
}
impl FirstSet {
//@fn src/chomp/set.rs <FirstSet as Default>::default
//@ opt name vx_defaulted
//@ spec
    ensures r@ == Set::<char>::empty(),
//@endfn
}
impl FlastSet {
//@fn src/chomp/set.rs <FlastSet as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl VxDefault for FlastSet {
    open spec fn is_default(&self) -> bool { self@ == Set::<char>::empty() }
}
impl FlastSet {
//@fn src/chomp/set.rs <FlastSet as Default>::default
//@ opt name vx_defaulted
//@ spec
    ensures r@ == Set::<char>::empty(),
//@endfn
}
impl Type {
//@fn src/chomp/typed/mod.rs <Type as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl VxDefault for Type {
    open spec fn is_default(&self) -> bool { self@ == ty_bot() }
}
impl Type {
//@fn src/chomp/typed/mod.rs <Type as Default>::default
//@ opt name vx_defaulted
//@ spec
    ensures r@ == ty_bot(),
//@endfn
}
}
// ---------------------------------------------------------------- grammars with types
pub mod typed {
use super::*;
verus! {
//@item src/chomp/typed/mod.rs Epsilon
//@item src/chomp/typed/mod.rs Literal
//@item src/chomp/typed/mod.rs Cat
//@item src/chomp/typed/mod.rs Alt
//@item src/chomp/typed/mod.rs Fix
//@item src/chomp/typed/mod.rs Variable
//@item src/chomp/typed/mod.rs RawTypedExpression
//@item src/chomp/typed/mod.rs TypedExpression
}
//@include canon.inc
verus! {
impl VxEq for Vec<TypedExpression> {
    open spec fn same_as(&self, other: &Vec<TypedExpression>) -> bool { call(self@) == call(other@) }
}
impl VxEq for Epsilon {
    open spec fn same_as(&self, other: &Epsilon) -> bool { self.ty@ == other.ty@ }
}
impl VxEq for Literal {
    open spec fn same_as(&self, other: &Literal) -> bool { self.inner@ == other.inner@ && self.ty@ == other.ty@ }
}
impl VxEq for Cat {
    open spec fn same_as(&self, other: &Cat) -> bool { ccat(*self) == ccat(*other) }
}
impl VxEq for Alt {
    open spec fn same_as(&self, other: &Alt) -> bool { calt(*self) == calt(*other) }
}
impl VxEq for Fix {
    open spec fn same_as(&self, other: &Fix) -> bool { cn(*self.inner) == cn(*other.inner) }
}
impl VxEq for Variable {
    open spec fn same_as(&self, other: &Variable) -> bool { self.inner.index == other.inner.index && self.ty@ == other.ty@ }
}
impl VxEq for RawTypedExpression {
    open spec fn same_as(&self, other: &RawTypedExpression) -> bool { cx(*self) == cx(*other) }
}
impl VxEq for TypedExpression {
    open spec fn same_as(&self, other: &TypedExpression) -> bool { cn(*self) == cn(*other) }
}
impl Epsilon {
//@fn src/chomp/typed/mod.rs <typed::Epsilon as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::Epsilon as Hash>::hash
//@ opt freety Epsilon
//@ opt twin
//@ opt name hash_epsilon
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl Literal {
//@fn src/chomp/typed/mod.rs <typed::Literal as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::Literal as Hash>::hash
//@ opt freety Literal
//@ opt twin
//@ opt name hash_literal
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl Cat {
//@fn src/chomp/typed/mod.rs <typed::Cat as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::Cat as Hash>::hash
//@ opt freety Cat
//@ opt twin
//@ opt name hash_cat
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl Alt {
//@fn src/chomp/typed/mod.rs <typed::Alt as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::Alt as Hash>::hash
//@ opt freety Alt
//@ opt twin
//@ opt name hash_alt
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl Fix {
//@fn src/chomp/typed/mod.rs <typed::Fix as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::Fix as Hash>::hash
//@ opt freety Fix
//@ opt twin
//@ opt name hash_fix
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl Variable {
//@fn src/chomp/typed/mod.rs <typed::Variable as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::Variable as Hash>::hash
//@ opt freety Variable
//@ opt twin
//@ opt name hash_variable
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl RawTypedExpression {
//@fn src/chomp/typed/mod.rs <typed::RawTypedExpression as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::RawTypedExpression as Hash>::hash
//@ opt freety RawTypedExpression
//@ opt twin
//@ opt name hash_rawtypedexpression
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl TypedExpression {
//@fn src/chomp/typed/mod.rs <typed::TypedExpression as PartialEq>::eq
//@ opt name vx_equal
//@ spec
    ensures r == self.same_as(other),
//@ start
    broadcast use ccat_is, calt_is;
//@endfn
}
//@fn src/chomp/typed/mod.rs <typed::TypedExpression as Hash>::hash
//@ opt freety TypedExpression
//@ opt twin
//@ opt name hash_typedexpression
//@ spec
    requires this_a.same_as(this_b), old(state_a).fed() == old(state_b).fed(),
    ensures final(state_a).fed() == final(state_b).fed(),
//@ start
    broadcast use feed_same, ccat_is, calt_is;
//@endfn
impl Epsilon {
//@fn src/chomp/typed/mod.rs <typed::Epsilon as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Literal {
//@fn src/chomp/typed/mod.rs <typed::Literal as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Cat {
//@fn src/chomp/typed/mod.rs <typed::Cat as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Alt {
//@fn src/chomp/typed/mod.rs <typed::Alt as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Fix {
//@fn src/chomp/typed/mod.rs <typed::Fix as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl Variable {
//@fn src/chomp/typed/mod.rs <typed::Variable as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl RawTypedExpression {
//@fn src/chomp/typed/mod.rs <typed::RawTypedExpression as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
impl TypedExpression {
//@fn src/chomp/typed/mod.rs <typed::TypedExpression as Clone>::clone
//@ opt name vx_cloned
//@ spec
    ensures r == *self,
//@endfn
}
}
}
fn main() {}
