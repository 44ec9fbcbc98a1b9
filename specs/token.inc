// Stand-ins for proc_macro2's identifiers and spans; the contracts of their operations are assumed.
verus! {
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Span(u8);

impl Span {
    pub uninterp spec fn call_site_spec() -> Span;

    #[verifier::external_body]
    pub fn call_site() -> (r: Span)
        ensures r == Self::call_site_spec(),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Ident(u8);

/// A raw identifier's text starts with r#; no other identifier contains a number sign.
pub open spec fn unraw(s: Seq<char>) -> Seq<char> {
    if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { s.skip(2) } else { s }
}

impl Ident {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> Span;

    #[verifier::external_body]
    pub fn unraw(&self) -> (r: Ident)
        ensures r.text() == unraw(self.text()), r.sp() == self.sp(), !r.text().contains('#'),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures r@ == self.text(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn span(&self) -> (r: Span)
        ensures r == self.sp(),
    { unimplemented!() }
}

impl Clone for Ident {
    #[verifier::external_body]
    fn clone(&self) -> (r: Ident)
        ensures r == *self,
    { unimplemented!() }
}

impl PartialEqSpecImpl for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Ident) -> bool { self.text() == other.text() }
}
impl PartialEq for Ident {
    #[verifier::external_body]
    fn eq(&self, other: &Ident) -> bool { unimplemented!() }
}

/// Things with a text, as AsRef<str>.
pub trait VxStr {
    spec fn str_text(&self) -> Seq<char>;

    fn as_ref(&self) -> (r: &str)
        ensures r@ == self.str_text();
}
impl VxStr for String {
    open spec fn str_text(&self) -> Seq<char> { self@ }

    #[verifier::external_body]
    fn as_ref(&self) -> &str { unimplemented!() }
}
impl<T: VxStr> PartialEqSpecImpl<&T> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&T) -> bool { self.text() == (*other).str_text() }
}
impl<T: VxStr> PartialEq<&T> for Ident {
    #[verifier::external_body]
    fn eq(&self, other: &&T) -> bool { unimplemented!() }
}

pub trait VxHasher {
    /// The texts fed to the hasher.
    spec fn fed(&self) -> Seq<Seq<char>>;
}

#[verifier::external_body]
pub fn vx_hash<H: VxHasher>(s: &String, state: &mut H)
    ensures final(state).fed() == old(state).fed().push(s@),
{ unimplemented!() }
}
