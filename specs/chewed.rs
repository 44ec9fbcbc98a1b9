//@include prelude.inc
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
verus! {

//@item chewed/src/position.rs LineCol attr=derive(Clone,Copy)
//@item chewed/src/error.rs TakeError
//@item chewed/src/error.rs ParseError

//@include parser.inc

//@item chewed/src/parse.rs IterWrapper

impl<T: Iterator<Item = char>> IterWrapper<T> {
//@fn chewed/src/parse.rs IterWrapper::new
//@ opt path LineCol::default => linecol_default
//@ spec
    requires iter.obeys_prophetic_iter_laws(),
    ensures
        r.wf(),
        r.rest() == iter.remaining(),
        r.at() == (LineCol { line: 1, col: 0 }),
//@endfn
}

impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
    #[verifier::prophetic]
    open spec fn rest(&self) -> Seq<char> {
        match self.next {
            Some(c) => seq![c] + self.iter.remaining(),
            None => self.iter.remaining(),
        }
    }

    open spec fn at(&self) -> LineCol {
        self.pos
    }

    #[verifier::prophetic]
    open spec fn wf(&self) -> bool {
        self.iter.obeys_prophetic_iter_laws()
    }

//@set optionfns .next
//@fn chewed/src/parse.rs <IterWrapper as Parser>::next
//@ opt novis
//@ start
        proof { let s = self.rest(); if self.next is Some { assert(s.skip(1) =~= self.iter.remaining()); assert(s[0] == self.next->0); } else { assert(self.iter.remaining().len() > 0 ==> s.skip(1) =~= self.iter.remaining().drop_first()); } }
//@endfn

//@fn chewed/src/parse.rs <IterWrapper as Parser>::peek
//@ opt novis
//@ end
        proof { assert(old(self).next is None && old(self).iter.remaining().len() > 0 ==> seq![old(self).iter.remaining()[0]] + old(self).iter.remaining().drop_first() =~= old(self).iter.remaining()); }
//@endfn

//@fn chewed/src/parse.rs <IterWrapper as Parser>::pos
//@ opt novis
//@endfn
//@set clear optionfns
}

//@include parserhelp.inc

// ---------------------------------------------------------------- separated lists
//@item chewed/src/parse.rs Iter

//@fn chewed/src/parse.rs trait Parser::iter_strict
//@ opt ty Iter<Self,F> => Iter<'vxs,Self,F>
//@ opt free X: Parser + ?Sized
//@ spec
    ensures
        r.iter.rest() == old(this).rest(), r.iter.at() == old(this).at(), r.iter.wf() == old(this).wf(),
        final(r.iter).rest() == final(this).rest(), final(r.iter).at() == final(this).at(), final(r.iter).wf() == final(this).wf(),
        r.parse == item_parse, r.strict_sep, r.sep == sep, r.stop == stop, r.sep_stop_set == sep_stop_set, r.first == first,
//@endfn

/// What a call of the item parser may do: consume some characters and give a result.
#[verifier::prophetic]
pub open spec fn item_ok<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R>(f: F) -> bool {
    &&& forall|p: &mut P| (*p).wf() && fits((*p).at(), (*p).rest().len()) ==> #[trigger] f.requires((p,))
    &&& forall|p: &mut P, r: Result<R, TakeError>| #[trigger] f.ensures((p,), r) ==> final(p).wf()
        && consumed((*p).rest(), (*p).at(), final(p).rest(), final(p).at(), ate((*p).rest(), final(p).rest()))
}

/// What one step of the iteration yields and leaves, given what the item parser did:
/// it returned `item` and left `(s1, a1)`.
pub open spec fn after_item<R>(
    item: Result<R, TakeError>, s1: Seq<char>, a1: LineCol,
    strict: bool, sep: char, stop: char, sep_stop_set: &'static [char], first: &'static [char],
    r: Option<Result<R, TakeError>>, s2: Seq<char>, a2: LineCol,
) -> bool {
    if item is Err || s1.len() == 0 || s1[0] != sep {
        // nothing consumed after the item
        &&& s2 == s1
        &&& a2 == a1
        &&& item is Err ==> r == Some(item)
        &&& item is Ok && s1.len() == 0 ==> r == Some(Err::<R, TakeError>(TakeError::EndOfStream(a1)))
        &&& item is Ok && s1.len() > 0 && s1[0] == stop ==> r == Some(item)
        &&& item is Ok && s1.len() > 0 && s1[0] != stop ==> r == Some(Err::<R, TakeError>(TakeError::BadBranch(a1, s1[0], sep_stop_set)))
    } else {
        // exactly the separator consumed
        &&& s2 == s1.skip(1)
        &&& a2 == step(a1, s1)
        &&& if s2.len() == 0 {
            r == Some(Err::<R, TakeError>(TakeError::EndOfStream(a2)))
        } else if first@.contains(s2[0]) || (!strict && s2[0] == stop) {
            r == Some(item)
        } else {
            r == Some(Err::<R, TakeError>(TakeError::BadBranch(a2, s2[0], first)))
        }
    }
}

impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iter<'_, P, F> {
//@fn chewed/src/parse.rs <Iter as Iterator>::next
//@ opt ty Self::Item => Result<R, TakeError>
//@ opt resultfns parse
//@ spec
    requires
        old(self).iter.wf(), fits(old(self).iter.at(), old(self).iter.rest().len()),
        item_ok::<P, F, R>(old(self).parse),
    ensures
        final(self).iter.wf(),
        final(self).parse == old(self).parse,
        final(self).strict_sep == old(self).strict_sep, final(self).sep == old(self).sep, final(self).stop == old(self).stop,
        final(self).sep_stop_set == old(self).sep_stop_set, final(self).first == old(self).first,
        ({
            let s0 = old(self).iter.rest();
            let a0 = old(self).iter.at();
            let s2 = final(self).iter.rest();
            let a2 = final(self).iter.at();
            if s0.len() == 0 || s0[0] == old(self).stop {
                r is None && s2 == s0 && a2 == a0
            } else {
                exists|p: &mut P, item: Result<R, TakeError>| #[trigger] old(self).parse.ensures((p,), item)
                    && (*p).rest() == s0 && (*p).at() == a0
                    && after_item(item, final(p).rest(), final(p).at(), old(self).strict_sep, old(self).sep, old(self).stop,
                        old(self).sep_stop_set, old(self).first, r, s2, a2)
            }
        }),
//@ start
        broadcast use g_consumed;
//@endfn
}

// ---------------------------------------------------------------- whole-input parsing
impl FromSpecImpl<TakeError> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TakeError) -> Self { ParseError::TakeError(e) }
}

impl From<TakeError> for ParseError {
//@fn chewed/src/error.rs <ParseError as From<TakeError>>::from
//@ opt novis
//@endfn
}

pub trait Parse: Sized {
    /// What taking a value from `(s0, a0)` may return and leave.
    spec fn takes(s0: Seq<char>, a0: LineCol, r: Result<Self, TakeError>, s1: Seq<char>, a1: LineCol) -> bool;

    fn take<P: Parser + ?Sized>(input: &mut P) -> (r: Result<Self, TakeError>)
        requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
        ensures
            final(input).wf(),
            consumed(old(input).rest(), old(input).at(), final(input).rest(), final(input).at(), ate(old(input).rest(), final(input).rest())),
            Self::takes(old(input).rest(), old(input).at(), r, final(input).rest(), final(input).at()),
    ;

//@fn chewed/src/parse.rs trait Parse::parse
//@ opt novis
//@ opt qmark
//@ spec
        requires input.wf(), fits(input.at(), input.rest().len()),
        ensures exists|t: Result<Self, TakeError>, s1: Seq<char>, a1: LineCol| #[trigger] Self::takes(input.rest(), input.at(), t, s1, a1)
            && consumed(input.rest(), input.at(), s1, a1, ate(input.rest(), s1)) && r == whole(t, s1, a1),
//@endfn

//@fn chewed/src/parse.rs trait Parse::take_str
//@ opt novis
//@ spec
        requires input@.len() < usize::MAX,
        ensures exists|s1: Seq<char>, a1: LineCol| #[trigger] Self::takes(input@, LineCol { line: 1, col: 0 }, r, s1, a1)
            && consumed(input@, LineCol { line: 1, col: 0 }, s1, a1, ate(input@, s1)),
//@endfn

//@fn chewed/src/parse.rs trait Parse::parse_str
//@ opt novis
//@ spec
        requires input@.len() < usize::MAX,
        ensures exists|t: Result<Self, TakeError>, s1: Seq<char>, a1: LineCol| #[trigger] Self::takes(input@, LineCol { line: 1, col: 0 }, t, s1, a1)
            && consumed(input@, LineCol { line: 1, col: 0 }, s1, a1, ate(input@, s1)) && r == whole(t, s1, a1),
//@endfn
}

/// The whole-input result for what taking a value returned and left.
pub open spec fn whole<T>(t: Result<T, TakeError>, s1: Seq<char>, a1: LineCol) -> Result<T, ParseError> {
    match t {
        Err(e) => Err::<T, ParseError>(ParseError::TakeError(e)),
        Ok(v) => if s1.len() == 0 { Ok::<T, ParseError>(v) } else { Err::<T, ParseError>(ParseError::InputContinues(a1)) },
    }
}

//@item chewed/src/parse.rs Epsilon

impl Parse for Epsilon {
    open spec fn takes(s0: Seq<char>, a0: LineCol, r: Result<Self, TakeError>, s1: Seq<char>, a1: LineCol) -> bool {
        r == Ok::<Epsilon, TakeError>(Epsilon) && s1 == s0 && a1 == a0
    }

//@fn chewed/src/parse.rs <Epsilon as Parse>::take
//@ opt novis
//@ start
        broadcast use g_consumed;
//@endfn
}

//@fn chewed/src/parse.rs trait Parser::take
//@ opt free X: Parser + ?Sized
//@ opt name parser_take
//@ spec
    requires old(this).wf(), fits(old(this).at(), old(this).rest().len()),
    ensures
        final(this).wf(),
        consumed(old(this).rest(), old(this).at(), final(this).rest(), final(this).at(), ate(old(this).rest(), final(this).rest())),
        P::takes(old(this).rest(), old(this).at(), r, final(this).rest(), final(this).at()),
//@endfn

//@fn chewed/src/parse.rs trait Parser::parse
//@ opt free X: Parser
//@ opt name parser_parse
//@ spec
    requires this.wf(), fits(this.at(), this.rest().len()),
    ensures exists|t: Result<P, TakeError>, s1: Seq<char>, a1: LineCol| #[trigger] P::takes(this.rest(), this.at(), t, s1, a1)
            && consumed(this.rest(), this.at(), s1, a1, ate(this.rest(), s1)) && r == whole(t, s1, a1),
//@endfn

pub open spec fn boxed<T>(t: Result<T, TakeError>) -> Result<Box<T>, TakeError> {
    match t {
        Ok(v) => Ok(Box::new(v)),
        Err(e) => Err(e),
    }
}

impl<T: Parse + Sized> Parse for Box<T> {
    open spec fn takes(s0: Seq<char>, a0: LineCol, r: Result<Self, TakeError>, s1: Seq<char>, a1: LineCol) -> bool {
        match r {
            Ok(b) => T::takes(s0, a0, Ok(*b), s1, a1),
            Err(e) => T::takes(s0, a0, Err(e), s1, a1),
        }
    }

//@fn chewed/src/parse.rs <Box as Parse>::take
//@ opt novis
//@ opt method take => parser_take
//@endfn

//@fn chewed/src/parse.rs <Box as Parse>::parse
//@ opt novis
//@ opt method parse => parser_parse
//@ start
        proof {
            assert forall|t: Result<T, TakeError>, s1: Seq<char>, a1: LineCol| #[trigger] T::takes(input.rest(), input.at(), t, s1, a1)
                implies Self::takes(input.rest(), input.at(), boxed(t), s1, a1) by {}
        }
//@endfn
}
}
fn main() {}
