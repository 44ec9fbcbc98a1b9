verus! {
//@item src/chomp/name.rs Content
//@item src/chomp/name.rs Kind attr=derive(Clone,Copy)
//@item src/chomp/name.rs Name

impl Clone for Content {
    #[verifier::external_body]
    fn clone(&self) -> (r: Content)
        ensures r == *self,
    { unimplemented!() }
}

impl Clone for Name {
    #[verifier::external_body]
    fn clone(&self) -> (r: Name)
        ensures r == *self,
    { unimplemented!() }
}

impl Name {
    /// Where the name is written; a name made up by the tool is blamed on the whole grammar.
    pub open spec fn place(&self) -> Span {
        match self.content { Content::Spanned(i) => i.sp(), Content::Spanless(_) => Span::call_site_spec() }
    }
}

/// The more significant of two names, the first on ties.
pub open spec fn rank(k: Kind) -> int {
    match k { Kind::Label => 2, Kind::Let => 1, Kind::Variable => 0 }
}

pub open spec fn merge2(a: Option<Name>, b: Option<Name>) -> Option<Name> {
    match (a, b) {
        (None, b) => b,
        (a, None) => a,
        (Some(x), Some(y)) => if rank(x.kind) >= rank(y.kind) { Some(x) } else { Some(y) },
    }
}

pub open spec fn merge_seq(s: Seq<Option<Name>>) -> Option<Name>
    decreases s.len(),
{
    if s.len() == 0 { None } else { merge2(merge_seq(s.drop_last()), s.last()) }
}

/// Two or three names, written out.
pub broadcast proof fn merge_seq_few(s: Seq<Option<Name>>)
    ensures
        s.len() == 2 ==> #[trigger] merge_seq(s) == merge2(s[0], s[1]),
        s.len() == 3 ==> merge_seq(s) == merge2(merge2(s[0], s[1]), s[2]),
{
    reveal_with_fuel(merge_seq, 4);
}
}
