//@include prelude.inc
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
//@include vecs.inc
//@include strings.inc
//@include token.inc
//@include nametypes.inc
verus! {
pub type Str = Seq<char>;

// ---------------------------------------------------------------- writing text
/// Stand-in for fmt::Formatter: the text written so far, and how often the sink behind it has failed.
#[verifier::external_body]
pub struct Formatter(u8);
#[verifier::external_body]
pub struct FmtError(u8);
pub type FmtResult = Result<(), FmtError>;

impl Formatter {
    pub uninterp spec fn text(&self) -> Str;
    pub uninterp spec fn failures(&self) -> nat;
}

pub broadcast proof fn text_assoc(a: Str, b: Str, c: Str)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}

/// Either all of the text was written, or the sink failed.
pub open spec fn wrote(before: Formatter, after: Formatter, r: FmtResult, t: Str) -> bool {
    match r {
        Ok(_) => after.failures() == before.failures() && after.text() == before.text() + t,
        Err(_) => after.failures() > before.failures(),
    }
}

#[verifier::external_body]
pub fn vx_put(f: &mut Formatter, s: &str) -> (r: FmtResult)
    ensures wrote(*old(f), *final(f), r, s@),
{ unimplemented!() }

impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures wrote(*old(self), *final(self), r, s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult)
        ensures wrote(*old(self), *final(self), r, seq![c]),
    { unimplemented!() }
}

/// Values that are shown. `{}` and `x.fmt(f)` in the functions below stand for the type's own implementation (or the
/// library's, for numbers, strings, boxes and references), which is verified with the others.
pub trait VxShow {
    spec fn shown(&self) -> Str;
}

#[verifier::external_body]
pub fn vx_show<T: VxShow + ?Sized>(x: &T, f: &mut Formatter) -> (r: FmtResult)
    ensures wrote(*old(f), *final(f), r, x.shown()),
{ unimplemented!() }

/// `format!("{}", x)` and `x.to_string()`.
#[verifier::external_body]
pub fn vx_text<T: VxShow + ?Sized>(x: &T) -> (r: String)
    ensures r@ == x.shown(),
{ unimplemented!() }

/// What `{:?}` shows.
pub uninterp spec fn debugged<T>(x: T) -> Str;

/// Characters and strings, which `{:?}` quotes.
pub trait VxQuote {
    spec fn quoted(&self) -> Str;
}

#[verifier::external_body]
pub fn vx_debug<T: VxQuote>(x: &T, f: &mut Formatter) -> (r: FmtResult)
    ensures wrote(*old(f), *final(f), r, x.quoted()),
{ unimplemented!() }

pub uninterp spec fn quoted_char(c: char) -> Str;
pub uninterp spec fn quoted_text(s: Str) -> Str;
pub uninterp spec fn decimal(n: int) -> Str;

impl VxQuote for char {
    open spec fn quoted(&self) -> Str { quoted_char(*self) }
}
impl VxQuote for String {
    open spec fn quoted(&self) -> Str { quoted_text(self@) }
}
impl<'a> VxQuote for &'a str {
    open spec fn quoted(&self) -> Str { quoted_text(self@) }
}
impl<'a, T: VxQuote> VxQuote for &'a T {
    open spec fn quoted(&self) -> Str { (**self).quoted() }
}
impl VxShow for usize {
    open spec fn shown(&self) -> Str { decimal(*self as int) }
}
impl VxShow for str {
    open spec fn shown(&self) -> Str { self@ }
}
impl VxShow for char {
    open spec fn shown(&self) -> Str { seq![*self] }
}
impl VxShow for String {
    open spec fn shown(&self) -> Str { self@ }
}
impl<'a, T: VxShow + ?Sized> VxShow for &'a T {
    open spec fn shown(&self) -> Str { (**self).shown() }
}
impl<T: VxShow> VxShow for Box<T> {
    open spec fn shown(&self) -> Str { (**self).shown() }
}
impl VxShow for Ident {
    open spec fn shown(&self) -> Str { self.text() }
}
}
//@set fmtwrite
//@set begin broadcast use text_assoc;
//@set ty fmt::Result => FmtResult
//@set ty fmt::Formatter<'_> => Formatter
//@set ty fmt::Formatter => Formatter
//@set method fmt => & vx_show
//@set method to_string => & vx_text

// ---------------------------------------------------------------- what went wrong while a text was read
verus! {
//@item chewed/src/position.rs LineCol attr=derive(Clone,Copy)
//@item chewed/src/error.rs TakeError
//@item chewed/src/error.rs ParseError

/// Line and column.
pub open spec fn place(p: LineCol) -> Str {
    decimal(p.line as int) + ":"@ + decimal(p.col as int)
}

/// The expected characters after the first, each after a comma.
pub open spec fn others(s: Seq<char>, k: nat) -> Str
    decreases k,
{
    if k <= 1 || k > s.len() { Seq::empty() } else { others(s, (k - 1) as nat) + ", "@ + quoted_char(s[k - 1]) }
}

pub open spec fn wanted(s: Seq<char>) -> Str {
    if s.len() == 0 {
        "Expected end of input."@
    } else if s.len() == 1 {
        "Expected character "@ + quoted_char(s[0]) + "."@
    } else {
        "Expected one of "@ + quoted_char(s[0]) + others(s, s.len())
    }
}

pub open spec fn take_error(e: TakeError) -> Str {
    match e {
        TakeError::BadBranch(p, c, s) => place(p) + ": Unexpected character "@ + quoted_char(c) + ". "@ + wanted(s@),
        TakeError::BadString(p, got, want) => place(p) + ": Unexpected string "@ + quoted_text(got@) + ". Expected "@ + quoted_text(want@),
        TakeError::EndOfStream(p) => place(p) + ": Unexpected end of input"@,
    }
}

pub open spec fn parse_error(e: ParseError) -> Str {
    match e {
        ParseError::TakeError(e) => take_error(e),
        ParseError::InputContinues(p) => place(p) + ": Expected end of input"@,
    }
}

impl VxShow for LineCol {
    open spec fn shown(&self) -> Str { place(*self) }
}
impl VxShow for TakeError {
    open spec fn shown(&self) -> Str { take_error(*self) }
}
impl VxShow for ParseError {
    open spec fn shown(&self) -> Str { parse_error(*self) }
}

//@fn chewed/src/position.rs <LineCol as Display>::fmt
//@ opt freety LineCol
//@ opt name show_linecol
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn

//@fn chewed/src/error.rs <TakeError as Display>::fmt
//@ opt veciter
//@ opt attr verifier::loop_isolation(false)
//@ opt freety TakeError
//@ opt name show_take_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@ loop 0
    invariant
        it0.seq().len() == expected@.len() - 1,
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == expected@[i + 1],
        f.failures() == old(f).failures(),
        f.text() == old(f).text() + (place(*pos) + ": Unexpected character "@ + quoted_char(*got) + ". "@
            + ("Expected one of "@ + quoted_char(expected@[0]) + others(expected@, (it0.index@ + 1) as nat))),
//@endfn

//@fn chewed/src/error.rs <ParseError as Display>::fmt
//@ opt freety ParseError
//@ opt name show_parse_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
}

// ---------------------------------------------------------------- names
verus! {
impl VxShow for Content {
    open spec fn shown(&self) -> Str {
        match self { Content::Spanned(i) => i.text(), Content::Spanless(s) => s@ }
    }
}
impl VxShow for Name {
    open spec fn shown(&self) -> Str { self.content.shown() }
}

//@fn src/chomp/name.rs <Content as Display>::fmt
//@ opt freety Content
//@ opt name show_content
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/name.rs <Name as Display>::fmt
//@ opt freety Name
//@ opt name show_name
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
impl Content {
    pub open spec fn place(&self) -> Span {
        match *self { Content::Spanned(i) => i.sp(), Content::Spanless(_) => Span::call_site_spec() }
    }
//@fn src/chomp/name.rs <Content as Spanned>::span
//@ spec
    ensures r == self.place(),
//@endfn
}
impl Name {
//@fn src/chomp/name.rs <Name as Spanned>::span
//@ spec
    ensures r == self.place(),
//@endfn
}
}

// ---------------------------------------------------------------- why a grammar is rejected
pub mod ast {
use super::*;
//@include ast.inc
}
pub use ast::*;
verus! {
#[verifier::external_body]
pub struct Type(u8);
#[verifier::external_body]
pub struct TypedExpression(u8);

//@item src/chomp/typed/context.rs GetVariableError attr=derive(Clone,Copy)
//@item src/chomp/typed/error.rs VariableError
//@item src/chomp/typed/error.rs CatError
//@item src/chomp/typed/error.rs AltError
//@item src/chomp/typed/error.rs TypeError
//@item src/chomp/ast/error.rs ReductionError
//@item src/nibble/convert.rs ConvertError
}
//@include blame.inc
verus! {
/// Stand-in for syn::Error: a place and a message.
#[verifier::external_body]
pub struct SynError(u8);
impl SynError {
    pub uninterp spec fn sp(&self) -> Span;
    pub uninterp spec fn msg(&self) -> Str;

    #[verifier::external_body]
    pub fn new(span: Span, msg: String) -> (r: SynError)
        ensures r.sp() == span, r.msg() == msg@,
    { unimplemented!() }
}

pub open spec fn te_place(e: TE) -> Span {
    match e {
        TE::FirstEmpty(s) => s,
        TE::Overlap(s) => s,
        TE::BothEmpty(s) => s,
        TE::BothStart(s) => s,
        TE::Free(_, _, s) => s,
        TE::Guarded(_, _, s) => s,
        TE::Call(s) => s,
        TE::Lambda(s) => s,
        TE::Let(s) => s,
        TE::NoLambda(s) => s,
    }
}

pub open spec fn who(i: nat, name: Option<Name>) -> Str {
    match name {
        Some(n) => "`"@ + n.shown() + "`"@,
        None => "'"@ + decimal(i as int),
    }
}

pub open spec fn te_text(e: TE) -> Str {
    match e {
        TE::FirstEmpty(_) => "first part of concatenation is nullable"@,
        TE::Overlap(_) => "first set overlaps with preceding flast set"@,
        TE::BothEmpty(_) => "both branches are nullable"@,
        TE::BothStart(_) => "first sets of both branches overlap"@,
        TE::Free(i, n, _) => "unbound variable: "@ + who(i, n),
        TE::Guarded(i, n, _) => "usage of guarded variable: "@ + who(i, n),
        TE::Call(_) => "unexpected call"@,
        TE::Lambda(_) => "unexpected lambda"@,
        TE::Let(_) => "unexpected let"@,
        TE::NoLambda(_) => "expected a lambda expression"@,
    }
}

pub open spec fn re_place(e: ReductionError) -> Span {
    match e {
        ReductionError::CallNotAFunction { span, .. } => span,
        ReductionError::WrongArgCount { span, .. } => span,
    }
}

pub open spec fn re_text(e: ReductionError) -> Str {
    match e {
        ReductionError::CallNotAFunction { .. } => "call expected a function"@,
        ReductionError::WrongArgCount { lambda, args, .. } => {
            let m = lambda.args@.len() as int;
            let n = args@.len() as int;
            if m == 1 {
                "this function takes 1 argument but "@ + decimal(n) + " were supplied"@
            } else if n == 1 {
                "this function takes "@ + decimal(m) + " arguments but 1 was supplied"@
            } else {
                "this function takes "@ + decimal(m) + " arguments but "@ + decimal(n) + " were supplied"@
            }
        },
    }
}

pub open spec fn ce_place(e: ConvertError) -> Span {
    match e {
        ConvertError::UndeclaredName(n) => n.place(),
        ConvertError::EmptyCat(s) => s,
        ConvertError::EmptyAlt(s) => s,
        ConvertError::EmptyCall(s) => s,
    }
}

pub open spec fn ce_text(e: ConvertError) -> Str {
    match e {
        ConvertError::UndeclaredName(n) => "undeclared name: `"@ + n.shown() + "`"@,
        ConvertError::EmptyCat(_) => "concatenation has no elements"@,
        ConvertError::EmptyAlt(_) => "alternation has no elements"@,
        ConvertError::EmptyCall(_) => "call has no function"@,
    }
}

impl VxShow for VariableError {
    open spec fn shown(&self) -> Str { te_text(te(TypeError::Variable(*self))) }
}
impl VxShow for CatError {
    open spec fn shown(&self) -> Str { te_text(te(TypeError::Cat(*self))) }
}
impl VxShow for AltError {
    open spec fn shown(&self) -> Str { te_text(te(TypeError::Alt(*self))) }
}
impl VxShow for TypeError {
    open spec fn shown(&self) -> Str { te_text(te(*self)) }
}
impl VxShow for ReductionError {
    open spec fn shown(&self) -> Str { re_text(*self) }
}
impl VxShow for ConvertError {
    open spec fn shown(&self) -> Str { ce_text(*self) }
}

//@fn src/chomp/typed/error.rs <VariableError as Display>::fmt
//@ opt freety VariableError
//@ opt name show_variable_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/typed/error.rs <CatError as Display>::fmt
//@ opt freety CatError
//@ opt name show_cat_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/typed/error.rs <AltError as Display>::fmt
//@ opt freety AltError
//@ opt name show_alt_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/typed/error.rs <TypeError as Display>::fmt
//@ opt freety TypeError
//@ opt name show_type_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/ast/error.rs <ReductionError as Display>::fmt
//@ opt freety ReductionError
//@ opt name show_reduction_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/nibble/convert.rs <ConvertError as Display>::fmt
//@ opt freety ConvertError
//@ opt name show_convert_error
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn

impl CatError {
//@fn src/chomp/typed/error.rs CatError::span
//@ spec
    ensures r == te_place(te(TypeError::Cat(*self))),
//@endfn
}
impl AltError {
//@fn src/chomp/typed/error.rs AltError::span
//@ spec
    ensures r == te_place(te(TypeError::Alt(*self))),
//@endfn
}
impl TypeError {
//@fn src/chomp/typed/error.rs TypeError::span
//@ spec
    ensures r == te_place(te(*self)),
//@endfn
}
impl SynError {
//@fn src/chomp/typed/error.rs <Error as From<TypeError>>::from
//@ opt name type_error_into
//@ spec
    ensures r.sp() == te_place(te(other)), r.msg() == te_text(te(other)),
//@endfn
//@fn src/chomp/ast/error.rs <Error as From<ReductionError>>::from
//@ opt name reduction_error_into
//@ spec
    ensures r.sp() == re_place(e), r.msg() == re_text(e),
//@endfn
//@fn src/nibble/convert.rs <Error as From<ConvertError>>::from
//@ opt name convert_error_into
//@ spec
    ensures r.sp() == ce_place(e), r.msg() == ce_text(e),
//@endfn
}
}

// ---------------------------------------------------------------- grammars
verus! {
pub open spec fn shown_n(n: N) -> Str
    decreases n,
{
    match n.name {
        Some(name) => if n.e is Var {
            name.shown()
        } else {
            "("@ + shown_x(n.e) + " : "@ + name.shown() + ")"@
        },
        None => shown_x(n.e),
    }
}

pub open spec fn shown_x(e: X) -> Str
    decreases e,
{
    match e {
        X::Eps => "_"@,
        X::Lit(s) => s,
        X::Cat(f, r) => "("@ + shown_n(*f) + shown_rest(" . "@, r, r.len()) + ")"@,
        X::Alt(f, r) => "("@ + shown_n(*f) + shown_rest(" | "@, r, r.len()) + ")"@,
        X::Fix(f) => "!"@ + shown_n(*f),
        X::Var(i) => "'"@ + decimal(i as int),
        X::Call(f, r) => "("@ + shown_n(*f) + shown_args(r, r.len()) + ")"@,
        X::Lambda(ps, b) => "/"@ + shown_params(ps, ps.len()) + "/ "@ + shown_n(*b),
        X::Let(n, d, b) => "let "@ + n.shown() + " = "@ + shown_n(*d) + "; "@ + shown_n(*b),
    }
}

/// The first k later parts, each after the separator.
pub open spec fn shown_rest(sep: Str, r: Seq<(Span, N)>, k: nat) -> Str
    decreases r, k,
{
    if k == 0 || k > r.len() { Seq::empty() } else { shown_rest(sep, r, (k - 1) as nat) + sep + shown_n(r[k - 1].1) }
}

pub open spec fn shown_args(r: Seq<N>, k: nat) -> Str
    decreases r, k,
{
    if k == 0 || k > r.len() { Seq::empty() } else { shown_args(r, (k - 1) as nat) + " "@ + shown_n(r[k - 1]) }
}

pub open spec fn shown_params(ps: Seq<Name>, k: nat) -> Str
    decreases k,
{
    if k == 0 || k > ps.len() {
        Seq::empty()
    } else if k == 1 {
        ps[0].shown()
    } else {
        shown_params(ps, (k - 1) as nat) + ", "@ + ps[k - 1].shown()
    }
}

impl VxShow for NamedExpression {
    open spec fn shown(&self) -> Str { shown_n(vn(*self)) }
}
impl VxShow for Expression {
    open spec fn shown(&self) -> Str { shown_x(vx(*self)) }
}
impl VxShow for Cat {
    open spec fn shown(&self) -> Str { shown_x(vcat(*self)) }
}
impl VxShow for Alt {
    open spec fn shown(&self) -> Str { shown_x(valt(*self)) }
}
impl VxShow for Fix {
    open spec fn shown(&self) -> Str { shown_x(vfix(*self)) }
}
impl VxShow for Variable {
    open spec fn shown(&self) -> Str { "'"@ + decimal(self.index as int) }
}
impl VxShow for Call {
    open spec fn shown(&self) -> Str { shown_x(vcall(*self)) }
}
impl VxShow for Lambda {
    open spec fn shown(&self) -> Str { shown_x(vlambda(*self)) }
}
impl VxShow for Let {
    open spec fn shown(&self) -> Str { shown_x(vlet(*self)) }
}
}
//@set clear begin
//@set begin broadcast use {text_assoc, g_views};
verus! {
//@fn src/chomp/ast/mod.rs <Cat as Display>::fmt
//@ opt veciter
//@ opt attr verifier::loop_isolation(false)
//@ opt freety Cat
//@ opt name show_cat
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@ loop 0
    invariant
        it0.seq().len() == this.rest@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == this.rest@[i],
        f.failures() == old(f).failures(),
        f.text() == old(f).text() + ("("@ + shown_n(vn(*this.first)) + shown_rest(" . "@, vrest(this.rest@), it0.index@ as nat)),
//@endfn
//@fn src/chomp/ast/mod.rs <Alt as Display>::fmt
//@ opt veciter
//@ opt attr verifier::loop_isolation(false)
//@ opt freety Alt
//@ opt name show_alt
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@ loop 0
    invariant
        it0.seq().len() == this.rest@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == this.rest@[i],
        f.failures() == old(f).failures(),
        f.text() == old(f).text() + ("("@ + shown_n(vn(*this.first)) + shown_rest(" | "@, vrest(this.rest@), it0.index@ as nat)),
//@endfn
//@fn src/chomp/ast/mod.rs <Fix as Display>::fmt
//@ opt freety Fix
//@ opt name show_fix
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/ast/mod.rs <Variable as Display>::fmt
//@ opt freety Variable
//@ opt name show_variable
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/ast/mod.rs <Call as Display>::fmt
//@ opt veciter
//@ opt attr verifier::loop_isolation(false)
//@ opt freety Call
//@ opt name show_call
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@ loop 0
    invariant
        it0.seq().len() == this.args@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == this.args@[i],
        f.failures() == old(f).failures(),
        f.text() == old(f).text() + ("("@ + shown_n(vn(*this.on)) + shown_args(vall(this.args@), it0.index@ as nat)),
//@endfn
//@fn src/chomp/ast/mod.rs <Lambda as Display>::fmt
//@ opt veciter
//@ opt attr verifier::loop_isolation(false)
//@ opt freety Lambda
//@ opt name show_lambda
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@ loop 0
    invariant
        it0.seq().len() == this.args@.len() - 1,
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == this.args@[i + 1],
        f.failures() == old(f).failures(),
        f.text() == old(f).text() + ("/"@ + shown_params(this.args@, (it0.index@ + 1) as nat)),
//@endfn
//@fn src/chomp/ast/mod.rs <Let as Display>::fmt
//@ opt freety Let
//@ opt name show_let
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/ast/mod.rs <Expression as Display>::fmt
//@ opt freety Expression
//@ opt name show_expression
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
//@fn src/chomp/ast/mod.rs <NamedExpression as Display>::fmt
//@ opt freety NamedExpression
//@ opt name show_named
//@ spec
    ensures wrote(*old(f), *final(f), r, this.shown()),
//@endfn
}
//@set clear begin
//@set clear fmtwrite
fn main() {}
