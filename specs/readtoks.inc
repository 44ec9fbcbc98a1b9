// Stand-ins for syn's tokens, parse streams and quote's token streams; their contracts are assumed.
verus! {
pub type Str = Seq<char>;

/// A token. Punctuation without its spacing, which neither reading nor writing looks at; Group is a group in parentheses,
/// Other is any other token or group.
pub ghost enum Tk {
    Word(Str, Span),
    Punct(char, Span),
    Lit(LitStr),
    Group(Span, Seq<Tk>),
    Other(int),
}

/// What a stream of tokens holds, where it is read, and whether something was left over in a group that was read.
pub ghost struct St {
    pub s: Seq<Tk>,
    pub i: nat,
    pub bad: bool,
}

pub open spec fn at(s: Seq<Tk>, i: int) -> bool { 0 <= i < s.len() }
pub open spec fn is_p(s: Seq<Tk>, i: int, c: char) -> bool { at(s, i) && s[i] is Punct && s[i]->Punct_0 == c }
pub open spec fn is_word(s: Seq<Tk>, i: int) -> bool { at(s, i) && s[i] is Word }
pub open spec fn is_w(s: Seq<Tk>, i: int, w: Str) -> bool { is_word(s, i) && s[i]->Word_0 == w }
/// Rust's keywords and the underscore.
pub uninterp spec fn reserved(w: Str) -> bool;
pub open spec fn plain(s: Seq<Tk>, i: int) -> bool { is_word(s, i) && !reserved(s[i]->Word_0) }

/// What can be read and written.
pub trait Reads: Sized {
    /// the tokens that are written
    spec fn toks(&self) -> Seq<Tk>;
    /// what reading can give
    spec fn good(&self) -> bool;
    /// where reading from i on ends, if it succeeds
    spec fn p(s: Seq<Tk>, i: int) -> Option<int>;
}
pub trait Sep: Reads {
    spec fn ch() -> char;
}

#[verifier::external_body]
pub struct Error(u8);

/// Reading a T from o on gave r and left n: exactly the tokens of what was read were consumed. What was left in a group may
/// be noted only later.
pub open spec fn reads<T: Reads>(o: St, n: St, r: Result<T, Error>) -> bool {
    &&& n.s == o.s
    &&& o.bad ==> n.bad
    &&& !o.bad && n.bad ==> T::p(o.s, o.i as int) is None
    &&& !n.bad ==> match r {
        Ok(x) => T::p(o.s, o.i as int) == Some(n.i as int) && x.good() && o.i < n.i <= o.s.len() && x.toks() == o.s.subrange(o.i as int, n.i as int),
        Err(_) => T::p(o.s, o.i as int) is None,
    }
    &&& r is Ok ==> o.i < n.i <= o.s.len()
}

pub enum Pk { Underscore, Bang, Dot, Bar, Colon, Slash, Semi, Eq, Match, Let, Lit, Paren, AnyIdent, Ident }

pub open spec fn looks(s: Seq<Tk>, i: int, k: Pk) -> bool {
    match k {
        Pk::Underscore => is_w(s, i, "_"@),
        Pk::Bang => is_p(s, i, '!'),
        Pk::Dot => is_p(s, i, '.'),
        Pk::Bar => is_p(s, i, '|'),
        Pk::Colon => is_p(s, i, ':'),
        Pk::Slash => is_p(s, i, '/'),
        Pk::Semi => is_p(s, i, ';'),
        Pk::Eq => is_p(s, i, '='),
        Pk::Match => is_w(s, i, "match"@),
        Pk::Let => is_w(s, i, "let"@),
        Pk::Lit => at(s, i) && s[i] is Lit,
        Pk::Paren => at(s, i) && s[i] is Group,
        Pk::AnyIdent => is_word(s, i),
        Pk::Ident => plain(s, i),
    }
}

/// A parse stream. The real one advances through a shared reference.
#[verifier::external_body]
pub struct Stream(u8);
impl View for Stream {
    type V = St;
    uninterp spec fn view(&self) -> St;
}
#[verifier::external_body]
pub struct Lookahead(u8);
impl Lookahead {
    pub uninterp spec fn st(&self) -> St;

    #[verifier::external_body]
    pub fn peek(&self, k: Pk) -> (r: bool)
        ensures r == looks(self.st().s, self.st().i as int, k),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn error(self) -> Error { unimplemented!() }
}
impl Stream {
    /// The parse function of T is called; what it does is its own contract.
    #[verifier::external_body]
    pub fn parse<T: Reads>(&mut self) -> (r: Result<T, Error>)
        ensures reads::<T>(old(self)@, final(self)@, r),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn peek(&self, k: Pk) -> (r: bool)
        ensures r == looks(self@.s, self@.i as int, k),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn peek_sep<P: Sep>(&self) -> (r: bool)
        ensures r == is_p(self@.s, self@.i as int, P::ch()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn lookahead1(&self) -> (r: Lookahead)
        ensures r.st() == self@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.i >= self@.s.len()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn error(&self, s: &str) -> Error { unimplemented!() }
}

pub struct Paren {
    pub span: Span,
}
/// A group in parentheses, read from within.
#[verifier::external_body]
pub fn vx_open(input: &mut Stream) -> (r: Result<(Paren, Stream), Error>)
    ensures
        final(input)@.s == old(input)@.s, final(input)@.bad == old(input)@.bad,
        match r {
            Ok((p, g)) => {
                &&& at(old(input)@.s, old(input)@.i as int)
                &&& old(input)@.s[old(input)@.i as int] == Tk::Group(p.span, g@.s)
                &&& g@.i == 0 && !g@.bad
                &&& final(input)@.i == old(input)@.i + 1
            },
            Err(_) => !(at(old(input)@.s, old(input)@.i as int) && old(input)@.s[old(input)@.i as int] is Group),
        },
{ unimplemented!() }

/// Dropping a group's stream notes what is left in it.
#[verifier::external_body]
pub fn vx_close(input: &mut Stream, group: Stream)
    ensures
        final(input)@.s == old(input)@.s, final(input)@.i == old(input)@.i,
        final(input)@.bad == (old(input)@.bad || group@.bad || group@.i < group@.s.len()),
{ unimplemented!() }

pub open spec fn word(i: Ident) -> Tk { Tk::Word(i.text(), i.sp()) }
impl Reads for Ident {
    open spec fn toks(&self) -> Seq<Tk> { seq![word(*self)] }
    open spec fn good(&self) -> bool { !reserved(self.text()) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if plain(s, i) { Some(i + 1) } else { None } }
}
impl Ident {
    /// Reads any identifier, also a keyword.
    #[verifier::external_body]
    pub fn parse_any(input: &mut Stream) -> (r: Result<Ident, Error>)
        ensures
            final(input)@.s == old(input)@.s, final(input)@.bad == old(input)@.bad,
            match r {
                Ok(x) => is_word(old(input)@.s, old(input)@.i as int) && old(input)@.s[old(input)@.i as int] == word(x) && final(input)@.i == old(input)@.i + 1,
                Err(_) => !is_word(old(input)@.s, old(input)@.i as int),
            },
    { unimplemented!() }
}
impl Reads for LitStr {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Lit(*self)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if at(s, i) && s[i] is Lit { Some(i + 1) } else { None } }
}
impl<T: Reads> Reads for Box<T> {
    open spec fn toks(&self) -> Seq<Tk> { (**self).toks() }
    open spec fn good(&self) -> bool { (**self).good() }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { T::p(s, i) }
}
impl<T: Reads> Reads for &T {
    open spec fn toks(&self) -> Seq<Tk> { (**self).toks() }
    open spec fn good(&self) -> bool { (**self).good() }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { T::p(s, i) }
}

// ---------------------------------------------------------------- punctuated sequences
/// The first k items, each with the separator after it, if any.
pub open spec fn first_toks<T: Reads, P: Reads>(c: Punctuated<T, P>, k: int) -> Seq<Tk>
    decreases k,
{
    if k <= 0 || k > c.len() {
        seq![]
    } else {
        first_toks(c, k - 1) + (if k <= c.inner@.len() { c.inner[k - 1].0.toks() + c.inner[k - 1].1.toks() } else { c.last->0.toks() })
    }
}
pub open spec fn items_good<T: Reads, P: Reads>(c: Punctuated<T, P>) -> bool {
    &&& c.last is Some && (*c.last->0).good()
    &&& forall|k: int| 0 <= k < c.inner@.len() ==> (#[trigger] c.inner[k]).0.good()
}
pub open spec fn p_items<T: Reads, P: Sep>(s: Seq<Tk>, i: int) -> Option<int>
    decreases s.len() - i,
{
    match T::p(s, i) {
        Some(j) => if i < j && is_p(s, j, P::ch()) { p_items::<T, P>(s, j + 1) } else { Some(j) },
        None => None,
    }
}
impl<T: Reads, P: Sep> Reads for Punctuated<T, P> {
    open spec fn toks(&self) -> Seq<Tk> { first_toks(*self, self.len() as int) }
    open spec fn good(&self) -> bool { items_good(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_items::<T, P>(s, i) }
}
pub open spec fn sep_is<P: Sep>() -> bool {
    forall|s: Seq<Tk>, i: int| #[trigger] P::p(s, i) == (if is_p(s, i, P::ch()) { Some(i + 1) } else { None })
}
pub proof fn first_toks_same<T: Reads, P: Reads>(a: Punctuated<T, P>, b: Punctuated<T, P>, k: int)
    requires
        k <= a.inner@.len(), k <= b.inner@.len(),
        forall|j: int| 0 <= j < k ==> #[trigger] a.inner[j] == b.inner[j],
    ensures first_toks(a, k) == first_toks(b, k),
    decreases k,
{
    if k > 0 { first_toks_same(a, b, k - 1); }
}
impl<T: Reads, P: Sep> Punctuated<T, P> {
    /// What syn's function of this name does.
    pub fn parse_separated_nonempty(input: &mut Stream) -> (r: Result<Self, Error>)
        requires sep_is::<P>(),
        ensures reads::<Self>(old(input)@, final(input)@, r),
    {
        broadcast use sub_add;
        let ghost o = input@;
        let mut inner: Vec<(T, P)> = Vec::new();
        loop
            invariant
                sep_is::<P>(), o == old(input)@,
                input@.s == o.s, if inner@.len() == 0 { input@.i == o.i } else { o.i < input@.i <= o.s.len() },
                o.bad ==> input@.bad,
                !o.bad && input@.bad ==> p_items::<T, P>(o.s, o.i as int) is None,
                !input@.bad ==> {
                    &&& p_items::<T, P>(o.s, o.i as int) == p_items::<T, P>(o.s, input@.i as int)
                    &&& forall|k: int| 0 <= k < inner@.len() ==> (#[trigger] inner@[k]).0.good()
                    &&& first_toks(Punctuated { inner: inner, last: None }, inner@.len() as int) == (if inner@.len() == 0 { seq![] } else { o.s.subrange(o.i as int, input@.i as int) })
                },
            decreases o.s.len() - input@.i,
        {
            broadcast use sub_add;
            let ghost a = input@;
            let value: T = match input.parse::<T>() { Ok(v) => v, Err(e) => return Err(e) };
            let ghost b = input@;
            if !input.peek_sep::<P>() {
                let ghost before = Punctuated { inner: inner, last: None };
                let r = Punctuated { inner: inner, last: Some(Box::new(value)) };
                proof {
                    first_toks_same(before, r, inner@.len() as int);
                    if !b.bad {
                        assert(r.inner@ == inner@);
                        assert(r.len() == inner@.len() + 1);
                        assert(r.toks() == first_toks(r, inner@.len() as int) + value.toks());
                        if inner@.len() == 0 {
                            assert(r.toks() =~= value.toks());
                        }
                        assert(value.toks() == o.s.subrange(a.i as int, b.i as int));
                        assert(first_toks(r, inner@.len() as int) == (if inner@.len() == 0 { seq![] } else { o.s.subrange(o.i as int, a.i as int) }));
                        assert(r.toks() == o.s.subrange(o.i as int, b.i as int));
                        assert(r.good());
                        assert(p_items::<T, P>(o.s, o.i as int) == Some(b.i as int));
                    }
                }
                return Ok(r);
            }
            let punct: P = match input.parse::<P>() { Ok(v) => v, Err(e) => return Err(e) };
            let ghost before = Punctuated { inner: inner, last: None };
            inner.push((value, punct));
            proof {
                let after = Punctuated { inner: inner, last: None };
                first_toks_same(before, after, inner@.len() - 1);
                if !input@.bad {
                    assert(first_toks(after, inner@.len() as int) == first_toks(after, inner@.len() - 1) + (value.toks() + punct.toks()));
                    if inner@.len() == 1 {
                        assert(first_toks(after, 1) =~= value.toks() + punct.toks());
                    }
                    assert(first_toks(after, inner@.len() as int) == o.s.subrange(o.i as int, input@.i as int));
                    assert(p_items::<T, P>(o.s, o.i as int) == p_items::<T, P>(o.s, input@.i as int));
                    assert(forall|k: int| 0 <= k < inner@.len() ==> (#[trigger] inner@[k]).0.good());
                }
            }
        }
    }
}
pub broadcast proof fn sub_add(s: Seq<Tk>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len(),
    ensures #[trigger] (s.subrange(a, b) + s.subrange(b, c)) == s.subrange(a, c),
{
    assert(s.subrange(a, b) + s.subrange(b, c) =~= s.subrange(a, c));
}
pub broadcast proof fn sub_one(s: Seq<Tk>, a: int, b: int)
    requires 0 <= a < s.len(), b == a + 1,
    ensures #[trigger] s.subrange(a, b) == seq![s[a]],
{
    assert(s.subrange(a, b) =~= seq![s[a]]);
}
pub broadcast proof fn sub_all(s: Seq<Tk>, a: int, b: int)
    requires a == 0, b == s.len(),
    ensures #[trigger] s.subrange(a, b) == s,
{
    assert(s.subrange(a, b) =~= s);
}
pub broadcast proof fn sub_two(s: Seq<Tk>, a: int, b: int)
    requires 0 <= a, b == a + 2, b <= s.len(),
    ensures #[trigger] s.subrange(a, b) == seq![s[a]] + seq![s[a + 1]],
{
    assert(s.subrange(a, b) =~= seq![s[a]] + seq![s[a + 1]]);
}
pub broadcast proof fn sub_nil(s: Seq<Tk>, a: int)
    requires 0 <= a <= s.len(),
    ensures #[trigger] s.subrange(a, a) == Seq::<Tk>::empty(),
{
    assert(s.subrange(a, a) =~= Seq::<Tk>::empty());
}
pub broadcast proof fn nil_add(s: Seq<Tk>)
    ensures #[trigger] (Seq::<Tk>::empty() + s) == s,
{
    assert(Seq::<Tk>::empty() + s =~= s);
}
pub broadcast proof fn add_add(a: Seq<Tk>, b: Seq<Tk>, c: Seq<Tk>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}

// ---------------------------------------------------------------- writing
#[verifier::external_body]
pub struct TokenStream(u8);
impl View for TokenStream {
    type V = Seq<Tk>;
    uninterp spec fn view(&self) -> Seq<Tk>;
}
pub open spec fn all_toks<T: Reads>(v: Seq<T>, k: int) -> Seq<Tk>
    decreases k,
{
    if k <= 0 || k > v.len() { seq![] } else { all_toks(v, k - 1) + v[k - 1].toks() }
}
pub proof fn all_toks_same<T: Reads>(a: Seq<T>, b: Seq<T>, k: int)
    requires k <= a.len(), k <= b.len(), forall|j: int| 0 <= j < k ==> #[trigger] a[j] == b[j],
    ensures all_toks(a, k) == all_toks(b, k),
    decreases k,
{
    if k > 0 { all_toks_same(a, b, k - 1); }
}
pub broadcast proof fn toks_push<T: Reads>(v: Seq<T>, x: T, n: int)
    requires n == v.len() + 1,
    ensures #[trigger] all_toks(v.push(x), n) == all_toks(v, v.len() as int) + x.toks(),
{
    all_toks_same(v, v.push(x), v.len() as int);
}
pub broadcast proof fn toks_one<T: Reads>(v: Seq<T>, n: int)
    requires v.len() == 1, n == 1,
    ensures #[trigger] all_toks(v, n) == v[0].toks(),
{
    assert(all_toks(v, 0) + v[0].toks() =~= v[0].toks());
    assert(all_toks(v, 1) == all_toks(v, 0) + v[0].toks());
}
pub broadcast proof fn toks_none<T: Reads>(v: Seq<T>)
    ensures #[trigger] all_toks(v, 0) == Seq::<Tk>::empty(),
{
}
pub broadcast group seqs {
    sub_add, sub_one, sub_two, sub_all, sub_nil, nil_add, toks_push, toks_none, toks_one,
}
impl TokenStream {
    #[verifier::external_body]
    pub fn new() -> (r: TokenStream)
        ensures r@ == Seq::<Tk>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn append_all<T: Reads>(&mut self, v: &Vec<T>)
        ensures final(self)@ == old(self)@ + all_toks(v@, v@.len() as int),
    { unimplemented!() }
}
/// The to_tokens function of T is called; what it does is its own contract.
#[verifier::external_body]
pub fn vx_write<T: Reads>(t: &T, tokens: &mut TokenStream)
    ensures final(tokens)@ == old(tokens)@ + t.toks(),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_surround(paren: &Paren, tokens: &mut TokenStream, inner: TokenStream)
    ensures final(tokens)@ == old(tokens)@.push(Tk::Group(paren.span, inner@)),
{ unimplemented!() }

pub struct Underscore {
    pub span: Span,
}
impl Reads for Underscore {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Word("_"@, self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_w(s, i, "_"@) { Some(i + 1) } else { None } }
}
pub struct Bang {
    pub span: Span,
}
impl Reads for Bang {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Punct('!', self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, '!') { Some(i + 1) } else { None } }
}
impl Sep for Bang {
    open spec fn ch() -> char { '!' }
}
pub struct Dot {
    pub span: Span,
}
impl Reads for Dot {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Punct('.', self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, '.') { Some(i + 1) } else { None } }
}
impl Sep for Dot {
    open spec fn ch() -> char { '.' }
}
pub struct Bar {
    pub span: Span,
}
impl Reads for Bar {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Punct('|', self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, '|') { Some(i + 1) } else { None } }
}
impl Sep for Bar {
    open spec fn ch() -> char { '|' }
}
pub struct Colon {
    pub span: Span,
}
impl Reads for Colon {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Punct(':', self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, ':') { Some(i + 1) } else { None } }
}
impl Sep for Colon {
    open spec fn ch() -> char { ':' }
}
pub struct Slash {
    pub span: Span,
}
impl Reads for Slash {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Punct('/', self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, '/') { Some(i + 1) } else { None } }
}
impl Sep for Slash {
    open spec fn ch() -> char { '/' }
}
pub struct Semi {
    pub span: Span,
}
impl Reads for Semi {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Punct(';', self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, ';') { Some(i + 1) } else { None } }
}
impl Sep for Semi {
    open spec fn ch() -> char { ';' }
}
pub struct Eq {
    pub span: Span,
}
impl Reads for Eq {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Punct('=', self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, '=') { Some(i + 1) } else { None } }
}
impl Sep for Eq {
    open spec fn ch() -> char { '=' }
}
pub struct MatchTok {
    pub span: Span,
}
impl Reads for MatchTok {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Word("match"@, self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_w(s, i, "match"@) { Some(i + 1) } else { None } }
}
pub struct LetTok {
    pub span: Span,
}
impl Reads for LetTok {
    open spec fn toks(&self) -> Seq<Tk> { seq![Tk::Word("let"@, self.span)] }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_w(s, i, "let"@) { Some(i + 1) } else { None } }
}
}
