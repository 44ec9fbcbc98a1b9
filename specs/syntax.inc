// Stand-ins for syn's tokens, literals and punctuated sequences.
verus! {
pub struct Token {
    pub span: Span,
}

/// Where something stands, as syn computes it from its tokens.
pub uninterp spec fn span_of<T>(t: T) -> Span;

pub trait Spanned: Sized {
    fn span(&self) -> (r: Span)
        ensures r == span_of(*self);
}
impl<T> Spanned for T {
    #[verifier::external_body]
    fn span(&self) -> Span { unimplemented!() }
}

#[verifier::external_body]
pub struct LitStr(u8);

impl LitStr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> Span;

    #[verifier::external_body]
    pub fn value(&self) -> (r: String)
        ensures r@ == self.text(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn span(&self) -> (r: Span)
        ensures r == self.sp(),
    { unimplemented!() }
}

/// The same fields as syn's.
pub struct Punctuated<T, P> {
    pub inner: Vec<(T, P)>,
    pub last: Option<Box<T>>,
}

pub enum Pair<T, P> {
    Punctuated(T, P),
    End(T),
}

impl<T, P> Pair<T, P> {
    pub open spec fn value(&self) -> T {
        match self { Pair::Punctuated(t, _) => *t, Pair::End(t) => *t }
    }
}

impl<T, P> Punctuated<T, P> {
    pub open spec fn len(&self) -> nat {
        self.inner@.len() + if self.last is Some { 1nat } else { 0nat }
    }

    pub open spec fn pairs(&self) -> Seq<Pair<T, P>> {
        Seq::new(self.len(), |i: int| if i < self.inner@.len() {
            Pair::Punctuated(self.inner[i].0, self.inner[i].1)
        } else {
            Pair::End(*self.last->0)
        })
    }

    pub proof fn smaller(&self)
        ensures forall|i: int| 0 <= i < self.len() ==> decreases_to!(self => (#[trigger] self.pairs()[i]).value()),
    {
        broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
        assert forall|i: int| 0 <= i < self.len() implies decreases_to!(self => (#[trigger] self.pairs()[i]).value()) by {
            if i < self.inner@.len() {
                assert(decreases_to!(self.inner => self.inner[i]));
                assert(decreases_to!(self => self.inner));
            } else {
            }
        }
    }

    pub fn into_pairs(self) -> (r: Vec<Pair<T, P>>)
        ensures r@ == self.pairs(),
    {
        let ghost s = self;
        let mut out = Vec::new();
        for x in it: self.inner
            invariant it.seq() == s.inner@, out@.len() == it.index@,
                forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == s.pairs()[i],
        {
            out.push(Pair::Punctuated(x.0, x.1));
        }
        match self.last {
            Some(b) => out.push(Pair::End(*b)),
            None => {},
        }
        assert(out@ =~= s.pairs());
        out
    }
}

impl<T> Punctuated<T, Token> {
    pub open spec fn seps(&self) -> Seq<Span> {
        Seq::new(self.inner@.len(), |i: int| self.inner[i].1.span)
    }
}
}
