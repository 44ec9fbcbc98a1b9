// Names as identifiers, and their change of case.
verus! {
pub uninterp spec fn alphabetic(c: char) -> bool;

/// A character that can be part of an identifier.
pub uninterp spec fn wordy(c: char) -> bool;

#[verifier::external_body]
pub broadcast proof fn wordy_is(c: char)
    ensures #[trigger] wordy(c) ==> c != '#', wordy('_'),
{
}

pub open spec fn all_wordy(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> wordy(#[trigger] s[i])
}

pub open spec fn ident_start(c: char) -> bool { c == '_' || alphabetic(c) }

/// A text that is an identifier.
pub open spec fn ident_ok(s: Seq<char>) -> bool {
    s.len() > 0 && ident_start(s[0]) && all_wordy(s)
}

#[verifier::external_body]
pub fn vx_alphabetic(c: char) -> (r: bool)
    ensures r == alphabetic(c),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_format1(fmt: &str, s: String) -> (r: String)
    ensures fmt@ =~= seq!['_', '{', '}'] ==> r@ == seq!['_'] + s@,
{ unimplemented!() }

/// Assumed: heck's conversions give letters, digits and underscores.
#[verifier::external_body]
pub fn vx_camel(s: &String) -> (r: String)
    ensures all_wordy(r@),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_snake(s: &String) -> (r: String)
    ensures all_wordy(r@),
{ unimplemented!() }

impl Ident {
    pub uninterp spec fn make(s: Seq<char>, sp: Span) -> Ident;

    #[verifier::external_body]
    pub broadcast proof fn make_is(s: Seq<char>, sp: Span)
        ensures (#[trigger] Ident::make(s, sp)).text() == s, Ident::make(s, sp).sp() == sp,
    {
    }

    /// Panics unless the text is an identifier.
    #[verifier::external_body]
    pub fn new(s: &String, span: Span) -> (r: Ident)
        requires ident_ok(s@),
        ensures r == Ident::make(s@, span),
    { unimplemented!() }
}

/// The same where the text may be anything; a panic does not return.
#[verifier::external_body]
pub fn vx_ident_new(s: &String, span: Span) -> (r: Ident)
    ensures r == Ident::make(s@, span),
{ unimplemented!() }

pub open spec fn ident_of(c: Content) -> Ident {
    match c { Content::Spanned(i) => i, Content::Spanless(s) => Ident::make(s@, Span::call_site_spec()) }
}

impl FromSpecImpl<Content> for Ident {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Content) -> Ident { ident_of(v) }
}
impl From<Content> for Ident {
//@fn src/chomp/name.rs <Ident as From<Content>>::from
//@ opt novis
//@ opt path Ident::new => vx_ident_new
//@endfn
}
impl FromSpecImpl<Name> for Ident {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Name) -> Ident { ident_of(v.content) }
}
impl From<Name> for Ident {
//@fn src/chomp/name.rs <Ident as From<Name>>::from
//@ opt novis
//@endfn
}

//@fn src/chomp/name.rs fn make_ident
//@ opt method is_alphabetic => vx_alphabetic
//@ opt macro format vx_format1
//@ spec
    requires all_wordy(name@),
    ensures ident_ok(r@), name@.len() > 0 && ident_start(name@[0]) ==> r@ == name@,
//@ start
    broadcast use wordy_is;
    proof { reveal_strlit("_{}"); }
//@endfn

impl Content {
//@fn src/chomp/name.rs <Content as Spanned>::span
//@endfn
//@fn src/chomp/name.rs <Content as CamelCase>::to_camel_case
//@ opt ty Self::Owned => Content
//@ opt method to_camel_case => & vx_camel
//@ spec
    ensures ident_ok(ident_of(r).text()),
//@ start
    broadcast use Ident::make_is;
//@endfn
//@fn src/chomp/name.rs <Content as SnakeCase>::to_snake_case
//@ opt ty Self::Owned => Content
//@ opt method to_snake_case => & vx_snake
//@ spec
    ensures ident_ok(ident_of(r).text()),
//@ start
    broadcast use Ident::make_is;
//@endfn
}
impl Name {
//@fn src/chomp/name.rs <Name as Spanned>::span
//@endfn
//@fn src/chomp/name.rs <Name as CamelCase>::to_camel_case
//@ opt ty Self::Owned => Name
//@ spec
    ensures ident_ok(ident_of(r.content).text()),
//@endfn
//@fn src/chomp/name.rs <Name as SnakeCase>::to_snake_case
//@ opt ty Self::Owned => Name
//@ spec
    ensures ident_ok(ident_of(r.content).text()),
//@endfn
}
}
