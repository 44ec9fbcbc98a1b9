verus! {
impl Content {
    /// The text without any raw prefix.
    pub open spec fn text(&self) -> Seq<char> {
        match self { Content::Spanned(i) => unraw(i.text()), Content::Spanless(s) => s@ }
    }
}

pub open spec fn same(a: Content, b: Content) -> bool {
    a.text() == b.text()
}

impl PartialEqSpecImpl for Content {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Content) -> bool { same(*self, *other) }
}
impl PartialEq for Content {
//@fn src/chomp/name.rs <Content as PartialEq>::eq
//@ opt novis
//@ start
    broadcast use g_strings;
//@endfn
}
impl FromSpecImpl<Ident> for Content {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Ident) -> Content { Content::Spanned(v) }
}
impl From<Ident> for Content {
//@fn src/chomp/name.rs <Content as From<Ident>>::from
//@ opt novis
//@endfn
}
impl FromSpecImpl<String> for Content {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String) -> Content { Content::Spanless(v) }
}
impl From<String> for Content {
//@fn src/chomp/name.rs <Content as From<String>>::from
//@ opt novis
//@endfn
}
}
