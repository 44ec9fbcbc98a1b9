verus! {
impl PartialEqSpecImpl for Kind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Kind) -> bool { *self == *other }
}
impl PartialEq for Kind {
    #[verifier::external_body]
    fn eq(&self, other: &Kind) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for Kind {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Kind) -> Option<Ordering> {
        Some(if rank(*self) == rank(*other) { Ordering::Equal } else if rank(*self) > rank(*other) { Ordering::Greater } else { Ordering::Less })
    }
}
impl PartialOrd for Kind {
//@fn src/chomp/name.rs <Kind as PartialOrd>::partial_cmp
//@ opt novis
//@endfn
}

/// What a text becomes, for the kinds of text whose conversion is specified.
pub open spec fn content_of<C: Into<Content>>(c: C) -> Option<Content> {
    if <C as IntoSpec<Content>>::obeys_into_spec() { Some(<C as IntoSpec<Content>>::into_spec(c)) } else { None }
}

impl Name {
//@fn src/chomp/name.rs Name::new_variable
//@ spec
    ensures r.kind == Kind::Variable, content_of(content) is Some ==> content_of(content) == Some(r.content),
//@endfn
//@fn src/chomp/name.rs Name::new_let
//@ spec
    ensures r.kind == Kind::Let, content_of(content) is Some ==> content_of(content) == Some(r.content),
//@endfn
//@fn src/chomp/name.rs Name::new_label
//@ spec
    ensures r.kind == Kind::Label, content_of(content) is Some ==> content_of(content) == Some(r.content),
//@endfn
//@fn src/chomp/name.rs Name::merge
//@ spec
    ensures r == merge2(this, that),
//@endfn
//@fn src/chomp/name.rs Name::merge_all
//@ opt ty I => Vec<Option<Name>>
//@ opt dropgen I
//@ spec
    ensures r == merge_seq(iter@),
//@ start
    let ghost all = iter@;
//@ loop 0
    invariant __acc0 == merge_seq(all.take(it0.index@)), it0.seq() == all,
//@ loopstart 0
    assert(all.take(it0.index@ + 1).drop_last() =~= all.take(it0.index@));
//@ end
    assert(all.take(all.len() as int) =~= all);
//@endfn
}
}
