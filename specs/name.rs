//@include prelude.inc
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use std::cmp::Ordering;
//@include strings.inc
//@include token.inc
//@include nametypes.inc
verus! {
// ------------------------------------------------------------ merging
pub proof fn merge_is_associative(a: Option<Name>, b: Option<Name>, c: Option<Name>)
    ensures
        merge2(merge2(a, b), c) == merge2(a, merge2(b, c)),
        merge2(a, None) == a,
        merge2(None, a) == a,
{
}

/// s[i] is the leftmost of the most significant names in s.
pub open spec fn best_at(s: Seq<Option<Name>>, i: int) -> bool {
    &&& 0 <= i < s.len()
    &&& s[i] is Some
    &&& forall|j: int| 0 <= j < s.len() && s[j] is Some ==> rank((#[trigger] s[j])->0.kind) <= rank(s[i]->0.kind)
    &&& forall|j: int| 0 <= j < i && s[j] is Some ==> rank((#[trigger] s[j])->0.kind) < rank(s[i]->0.kind)
}

pub open spec fn all_absent(s: Seq<Option<Name>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is None
}

pub proof fn merge_seq_is_best(s: Seq<Option<Name>>) -> (i: int)
    ensures
        merge_seq(s) is None <==> all_absent(s),
        merge_seq(s) is Some ==> best_at(s, i) && merge_seq(s) == s[i],
    decreases s.len(),
{
    if s.len() == 0 {
        return 0;
    }
    let t = s.drop_last();
    let i = merge_seq_is_best(t);
    let n = s.len() - 1;
    let m = merge_seq(t);
    assert(s[n] == s.last());
    if m is None {
        assert(forall|k: int| 0 <= k < n ==> #[trigger] s[k] == t[k]);
        n
    } else {
        assert(s[i] == t[i]);
        assert forall|j: int| 0 <= j < s.len() && s[j] is Some && j != n implies rank((#[trigger] s[j])->0.kind) <= rank(s[i]->0.kind) by {
            assert(t[j] == s[j]);
        }
        assert forall|j: int| 0 <= j < i && s[j] is Some implies rank((#[trigger] s[j])->0.kind) < rank(s[i]->0.kind) by {
            assert(t[j] == s[j]);
        }
        if merge_seq(s) == m { i } else { n }
    }
}
}
//@include nameops.inc
verus! {
// ------------------------------------------------------------ equality
impl Content {
    /// The text without any raw prefix.
    pub open spec fn text(&self) -> Seq<char> {
        match self { Content::Spanned(i) => unraw(i.text()), Content::Spanless(s) => s@ }
    }

//@fn src/chomp/name.rs <Content as Hash>::hash
//@ opt path hash::Hasher => VxHasher
//@ opt method hash => & vx_hash
//@ spec
    ensures final(state).fed() == old(state).fed().push(self.text()),
//@endfn
}

pub open spec fn same(a: Content, b: Content) -> bool {
    a.text() == b.text()
}

impl PartialEqSpecImpl for Content {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Content) -> bool { same(*self, *other) }
}
impl PartialEq for Content {
//@fn src/chomp/name.rs <Content as PartialEq>::eq
//@ opt novis
//@ start
    broadcast use g_strings;
//@endfn
}
impl Content {
//@fn src/chomp/name.rs <Content as PartialEq<T>>::eq
//@ opt name eq_str
//@ opt gen T: VxStr
//@ spec
    ensures r == (self.text() == other.str_text()),
//@ start
    broadcast use g_strings;
//@endfn
}

/// Equality is an equivalence, and equal contents hash the same.
pub proof fn equality_laws(a: Content, b: Content, c: Content)
    ensures
        same(a, a),
        same(a, b) == same(b, a),
        same(a, b) && same(b, c) ==> same(a, c),
        same(a, b) ==> a.text() == b.text(),
{
}
}
fn main() {}
