// Stand-ins for the token streams, maps and sets the generator uses; their contracts are assumed.
verus! {
pub type Str = Seq<char>;

/// What is kept of generated code: the type definitions, and words and applications of words for types.
pub ghost enum Tok {
    Word(Str),
    Generic(Str, Seq<Tok>),
    Def(Def),
    /// How a type is printed and parsed.
    Print(Str, Print),
    Take(Str, Take),
    /// A pattern for these characters.
    Somes(Seq<char>),
    Other,
}

/// What a type's Display prints: a text, its fields one after another, or whatever is in its variants.
pub ghost enum Print {
    Text(Str),
    Fields(Seq<Sel>),
    Variants(Seq<Str>),
}
pub ghost enum Sel {
    Named(Str),
    Number(int),
}

/// What a type's Parse does: consume a text, take values for its fields one after another, or take the value of a variant
/// that it selects by the next character.
pub ghost enum Take {
    Text(Str),
    /// binding these names, and giving each field the value of a name
    Fields { lets: Seq<Str>, fields: Seq<Str>, vals: Seq<Str> },
    Tuple { lets: Seq<Str>, vals: Seq<Str> },
    /// the first variant whose pattern matches, or else this one, if any
    Switch { pats: Seq<Seq<Tok>>, variants: Seq<Str>, other: Option<Str> },
}

pub ghost enum Shape { Unit, Tuple, Struct, Enum, Alias }

/// A type definition with the names of its fields or variants and their types.
pub ghost struct Def {
    pub name: Str,
    pub shape: Shape,
    pub parts: Seq<Str>,
    pub tys: Seq<Seq<Tok>>,
}

/// The definitions in a piece of code.
pub open spec fn defs(s: Seq<Tok>) -> Seq<Def>
    decreases s.len(),
{
    if s.len() == 0 {
        seq![]
    } else {
        match s.last() {
            Tok::Def(d) => defs(s.drop_last()).push(d),
            _ => defs(s.drop_last()),
        }
    }
}

pub broadcast proof fn defs_push(s: Seq<Tok>, t: Tok)
    ensures
        #[trigger] defs(s.push(t)) == (match t { Tok::Def(d) => defs(s).push(d), _ => defs(s) }),
{
    assert(s.push(t).drop_last() =~= s);
}
pub broadcast proof fn defs_add(a: Seq<Tok>, b: Seq<Tok>)
    ensures #[trigger] defs(a + b) == defs(a) + defs(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(defs(b) =~= seq![]);
        assert(defs(a) + defs(b) =~= defs(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        defs_add(a, b.drop_last());
        match b.last() {
            Tok::Def(d) => { assert(defs(a) + defs(b) =~= (defs(a) + defs(b.drop_last())).push(d)); }
            _ => {}
        }
    }
}
pub broadcast proof fn defs_none()
    ensures #[trigger] defs(Seq::empty()) == Seq::<Def>::empty(),
{
}

/// The Display implementations in a piece of code.
pub open spec fn prints(s: Seq<Tok>) -> Seq<(Str, Print)>
    decreases s.len(),
{
    if s.len() == 0 {
        seq![]
    } else {
        match s.last() {
            Tok::Print(n, p) => prints(s.drop_last()).push((n, p)),
            _ => prints(s.drop_last()),
        }
    }
}
pub broadcast proof fn prints_push(s: Seq<Tok>, t: Tok)
    ensures
        #[trigger] prints(s.push(t)) == (match t { Tok::Print(n, p) => prints(s).push((n, p)), _ => prints(s) }),
{
    assert(s.push(t).drop_last() =~= s);
}
pub broadcast proof fn prints_add(a: Seq<Tok>, b: Seq<Tok>)
    ensures #[trigger] prints(a + b) == prints(a) + prints(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(prints(b) =~= seq![]);
        assert(prints(a) + prints(b) =~= prints(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        prints_add(a, b.drop_last());
        match b.last() {
            Tok::Print(n, p) => { assert(prints(a) + prints(b) =~= (prints(a) + prints(b.drop_last())).push((n, p))); }
            _ => {}
        }
    }
}
pub broadcast proof fn prints_none()
    ensures #[trigger] prints(Seq::empty()) == Seq::<(Str, Print)>::empty(),
{
}

/// The Parse implementations in a piece of code.
pub open spec fn takes(s: Seq<Tok>) -> Seq<(Str, Take)>
    decreases s.len(),
{
    if s.len() == 0 {
        seq![]
    } else {
        match s.last() {
            Tok::Take(n, p) => takes(s.drop_last()).push((n, p)),
            _ => takes(s.drop_last()),
        }
    }
}
pub broadcast proof fn takes_push(s: Seq<Tok>, t: Tok)
    ensures
        #[trigger] takes(s.push(t)) == (match t { Tok::Take(n, p) => takes(s).push((n, p)), _ => takes(s) }),
{
    assert(s.push(t).drop_last() =~= s);
}
pub broadcast proof fn takes_add(a: Seq<Tok>, b: Seq<Tok>)
    ensures #[trigger] takes(a + b) == takes(a) + takes(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(takes(b) =~= seq![]);
        assert(takes(a) + takes(b) =~= takes(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        takes_add(a, b.drop_last());
        match b.last() {
            Tok::Take(n, p) => { assert(takes(a) + takes(b) =~= (takes(a) + takes(b.drop_last())).push((n, p))); }
            _ => {}
        }
    }
}
pub broadcast proof fn takes_none()
    ensures #[trigger] takes(Seq::empty()) == Seq::<(Str, Take)>::empty(),
{
}
pub broadcast group g_defs {
    defs_push,
    defs_add,
    defs_none,
    prints_push,
    prints_add,
    prints_none,
    takes_push,
    takes_add,
    takes_none,
}

#[verifier::external_body]
pub struct TokenStream(u8);

impl View for TokenStream {
    type V = Seq<Tok>;
    uninterp spec fn view(&self) -> Seq<Tok>;
}

impl Clone for TokenStream {
    #[verifier::external_body]
    fn clone(&self) -> (r: TokenStream)
        ensures r@ == self@,
    { unimplemented!() }
}

impl TokenStream {
    #[verifier::external_body]
    pub fn new() -> (r: TokenStream)
        ensures r@ == Seq::<Tok>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn extend(&mut self, t: TokenStream)
        ensures final(self)@ == old(self)@ + t@,
    { unimplemented!() }

    pub uninterp spec fn of(s: Seq<Tok>) -> TokenStream;

    #[verifier::external_body]
    pub proof fn of_is(s: Seq<Tok>)
        ensures Self::of(s)@ == s,
    {
    }
}

/// A single token.
#[verifier::external_body]
pub struct TokenTree(u8);

impl TokenTree {
    pub uninterp spec fn tok(&self) -> Tok;

    #[verifier::external_body]
    pub fn from(i: Ident) -> (r: TokenTree)
        ensures r.tok() == Tok::Word(i.text()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn into(self) -> (r: TokenStream)
        ensures r@ == seq![self.tok()],
    { unimplemented!() }
}

/// What can fill a hole in a template.
pub trait VxTok {
    spec fn toks(&self) -> Seq<Tok>;
}
impl VxTok for Ident {
    open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Word(self.text())] }
}
impl VxTok for TokenStream {
    open spec fn toks(&self) -> Seq<Tok> { self@ }
}
/// What can name a definition.
pub trait VxWord {
    spec fn word(&self) -> Str;
}
impl VxWord for Ident {
    open spec fn word(&self) -> Str { self.text() }
}

#[verifier::external_body]
pub fn vx_word(s: &str) -> (r: Ident)
    ensures r.text() == s@,
{ unimplemented!() }

pub open spec fn texts(v: Seq<Ident>) -> Seq<Str> {
    Seq::new(v.len(), |i: int| v[i].text())
}
pub broadcast proof fn texts_push(v: Seq<Ident>, x: Ident)
    ensures
        #[trigger] texts(v.push(x)) == texts(v).push(x.text()),
        texts(v).no_duplicates() && !texts(v).contains(x.text()) ==> texts(v.push(x)).no_duplicates(),
{
    assert(texts(v.push(x)) =~= texts(v).push(x.text()));
}
pub open spec fn all_toks<T: VxTok>(v: Seq<T>) -> Seq<Seq<Tok>> {
    Seq::new(v.len(), |i: int| v[i].toks())
}
/// A repetition over two sequences goes as far as the shorter one.
pub open spec fn upto_shorter<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<A> {
    if a.len() <= b.len() { a } else { a.take(b.len() as int) }
}

#[verifier::external_body]
pub fn vx_def_unit<N: VxWord>(q: &mut TokenStream, name: &N)
    ensures final(q)@ == old(q)@.push(Tok::Def(Def { name: name.word(), shape: Shape::Unit, parts: seq![], tys: seq![] })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_def_tuple<N: VxWord, T: VxTok>(q: &mut TokenStream, name: &N, tys: &Vec<T>)
    ensures final(q)@ == old(q)@.push(Tok::Def(Def { name: name.word(), shape: Shape::Tuple, parts: seq![], tys: all_toks(tys@) })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_def_struct<N: VxWord, T: VxTok>(q: &mut TokenStream, name: &N, parts: &Vec<Ident>, tys: &Vec<T>)
    ensures final(q)@ == old(q)@.push(Tok::Def(Def {
        name: name.word(), shape: Shape::Struct, parts: upto_shorter(texts(parts@), all_toks(tys@)), tys: upto_shorter(all_toks(tys@), texts(parts@)),
    })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_def_enum<N: VxWord, T: VxTok>(q: &mut TokenStream, name: &N, parts: &Vec<Ident>, tys: &Vec<T>)
    ensures final(q)@ == old(q)@.push(Tok::Def(Def {
        name: name.word(), shape: Shape::Enum, parts: upto_shorter(texts(parts@), all_toks(tys@)), tys: upto_shorter(all_toks(tys@), texts(parts@)),
    })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_def_alias<N: VxWord, T: VxTok>(q: &mut TokenStream, name: &N, ty: &T)
    ensures final(q)@ == old(q)@.push(Tok::Def(Def { name: name.word(), shape: Shape::Alias, parts: seq![], tys: seq![ty.toks()] })),
{ unimplemented!() }

pub trait VxSel {
    spec fn sel(&self) -> Sel;
}
impl VxSel for Ident {
    open spec fn sel(&self) -> Sel { Sel::Named(self.text()) }
}
impl VxSel for Index {
    open spec fn sel(&self) -> Sel { Sel::Number(self.index as int) }
}
pub open spec fn sels<T: VxSel>(v: Seq<T>) -> Seq<Sel> {
    Seq::new(v.len(), |i: int| v[i].sel())
}

#[verifier::external_body]
pub fn vx_print_text<N: VxWord>(q: &mut TokenStream, name: &N, s: &LitStr)
    ensures final(q)@ == old(q)@.push(Tok::Print(name.word(), Print::Text(s.val()))),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_print_fields<N: VxWord, T: VxSel>(q: &mut TokenStream, name: &N, parts: &Vec<T>)
    ensures final(q)@ == old(q)@.push(Tok::Print(name.word(), Print::Fields(sels(parts@)))),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_print_variants<N: VxWord>(q: &mut TokenStream, name: &N, parts: &Vec<Ident>)
    ensures final(q)@ == old(q)@.push(Tok::Print(name.word(), Print::Variants(texts(parts@)))),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_take_text<N: VxWord>(q: &mut TokenStream, name: &N, s: &LitStr)
    ensures final(q)@ == old(q)@.push(Tok::Take(name.word(), Take::Text(s.val()))),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_take_fields<N: VxWord>(q: &mut TokenStream, name: &N, lets: &Vec<Ident>, parts: &Vec<Ident>, vals: &Vec<Ident>)
    ensures final(q)@ == old(q)@.push(Tok::Take(name.word(), Take::Fields {
        lets: texts(lets@), fields: upto_shorter(texts(parts@), texts(vals@)), vals: upto_shorter(texts(vals@), texts(parts@)),
    })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_take_tuple<N: VxWord>(q: &mut TokenStream, name: &N, lets: &Vec<Ident>, vals: &Vec<Ident>)
    ensures final(q)@ == old(q)@.push(Tok::Take(name.word(), Take::Tuple { lets: texts(lets@), vals: texts(vals@) })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_take_switch_or<N: VxWord>(q: &mut TokenStream, name: &N, pats: &Vec<TokenStream>, parts: &Vec<Ident>, other: &Ident)
    ensures final(q)@ == old(q)@.push(Tok::Take(name.word(), Take::Switch {
        pats: upto_shorter(all_toks(pats@), texts(parts@)), variants: upto_shorter(texts(parts@), all_toks(pats@)), other: Some(other.text()),
    })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_take_switch<N: VxWord>(q: &mut TokenStream, name: &N, pats: &Vec<TokenStream>, parts: &Vec<Ident>)
    ensures final(q)@ == old(q)@.push(Tok::Take(name.word(), Take::Switch {
        pats: upto_shorter(all_toks(pats@), texts(parts@)), variants: upto_shorter(texts(parts@), all_toks(pats@)), other: None,
    })),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_put_somes(q: &mut TokenStream, cs: &Vec<char>)
    ensures final(q)@ == old(q)@.push(Tok::Somes(cs@)),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_put<T: VxTok>(q: &mut TokenStream, t: &T)
    ensures final(q)@ == old(q)@ + t.toks(),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_put_generic<T: VxTok>(q: &mut TokenStream, w: &str, t: &T)
    ensures final(q)@ == old(q)@.push(Tok::Generic(w@, t.toks())),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_put_other(q: &mut TokenStream)
    ensures final(q)@ == old(q)@.push(Tok::Other),
{ unimplemented!() }

#[verifier::external_body]
pub struct LitStr(u8);

impl LitStr {
    pub uninterp spec fn val(&self) -> Str;

    #[verifier::external_body]
    pub fn new(s: &String, span: Span) -> (r: LitStr)
        ensures r.val() == s@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn value(&self) -> (r: String)
        ensures r@ == self.val(),
    { unimplemented!() }
}

pub struct Index {
    pub index: u32,
    pub span: Span,
}

pub fn vx_or_zero(o: Option<usize>) -> (r: usize)
    ensures r == (match o { Some(n) => n, None => 0 }),
{
    match o { Some(n) => n, None => 0 }
}

/// The order of numbers is a total order, as vstd's contracts of BTreeSet require.
#[verifier::external_body]
pub broadcast proof fn usize_order()
    ensures #[trigger] key_obeys_cmp_spec::<usize>(),
{
}

#[verifier::external_body]
pub fn vx_format() -> (r: String)
{ unimplemented!() }

pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }

pub open spec fn ends_with_digit(s: Str) -> bool { s.len() > 0 && is_digit(s.last()) }

/// A number appended to a base.
pub uninterp spec fn numbered(fmt: Str, base: Str, n: usize) -> Str;

/// Assumed: different numbers are written differently.
#[verifier::external_body]
pub broadcast proof fn numbered_once(fmt: Str, base: Str, m: usize, n: usize)
    requires fmt =~= seq!['{', '}', '{', '}'],
    ensures (#[trigger] numbered(fmt, base, m) == #[trigger] numbered(fmt, base, n)) ==> m == n,
{
}

#[verifier::external_body]
pub fn vx_format_ident(fmt: &str, base: &str, n: usize, span: Span) -> (r: Ident)
    ensures
        r.text() == numbered(fmt@, base@, n),
        fmt@ =~= seq!['{', '}', '{', '}'] ==> ends_with_digit(r.text()),
        fmt@ =~= seq!['{', '}', '{', '}'] && !base@.contains('#') ==> !r.text().contains('#'),
{ unimplemented!() }

// ---------------------------------------------------------------- maps and sets
/// A key of a hash map: keys are the same if they are equal, which is what `canon` tells.
pub trait VxKey {
    type C;
    spec fn canon(&self) -> Self::C;
}
impl VxKey for String {
    type C = Str;
    open spec fn canon(&self) -> Str { self@ }
}
impl VxKey for Ident {
    type C = Str;
    open spec fn canon(&self) -> Str { self.text() }
}
impl VxKey for usize {
    type C = usize;
    open spec fn canon(&self) -> usize { *self }
}
impl VxKey for Vec<usize> {
    type C = Seq<usize>;
    open spec fn canon(&self) -> Seq<usize> { self@ }
}
impl<A: VxKey, B: VxKey> VxKey for (A, B) {
    type C = (A::C, B::C);
    open spec fn canon(&self) -> (A::C, B::C) { (self.0.canon(), self.1.canon()) }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V>(core::marker::PhantomData<(K, V)>);

impl<K: VxKey, V> View for HashMap<K, V> {
    type V = Map<K::C, V>;
    uninterp spec fn view(&self) -> Map<K::C, V>;
}

impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>)
        ensures r@ == Map::<K::C, V>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures
            r is Some <==> self@.dom().contains(k.canon()),
            r is Some ==> *r->0 == self@[k.canon()],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(k.canon()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.canon(), v),
    { unimplemented!() }
}

/// entry(k).or_insert(v)
#[verifier::external_body]
pub fn vx_entry<K: VxKey, V>(m: &mut HashMap<K, V>, k: K, v: V) -> (r: &mut V)
    ensures
        *r == (if old(m)@.dom().contains(k.canon()) { old(m)@[k.canon()] } else { v }),
        final(m)@ == old(m)@.insert(k.canon(), *final(r)),
{ unimplemented!() }

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct HashSet<K>(core::marker::PhantomData<K>);

impl<K: VxKey> View for HashSet<K> {
    type V = Set<K::C>;
    uninterp spec fn view(&self) -> Set<K::C>;
}

impl<K: VxKey> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: HashSet<K>)
        ensures r@ == Set::<K::C>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures
            final(self)@ == old(self)@.insert(k.canon()),
            r == !old(self)@.contains(k.canon()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool)
        ensures r == self@.contains(k.canon()),
    { unimplemented!() }
}

// ---------------------------------------------------------------- iteration
/// The elements of a set, ascending.
pub uninterp spec fn sorted<T>(s: Set<T>) -> Seq<T>;

#[verifier::external_body]
pub broadcast proof fn sorted_is<T>(s: Set<T>)
    ensures
        #[trigger] sorted(s).no_duplicates(),
        sorted(s).to_set() == s,
        forall|x: T| sorted(s).contains(x) <==> s.contains(x),
{
}

/// Assumed: iterating over a set gives its elements in ascending order.
#[verifier::external_body]
pub fn vx_sorted<T>(s: BTreeSet<T>) -> (r: Vec<T>)
    ensures r@ == sorted(s@),
{ unimplemented!() }

pub trait VxSeq: Sized {
    type T;
    spec fn items(&self) -> Seq<Self::T>;
    fn vx_seq(self) -> (r: Vec<Self::T>)
        ensures r@ == self.items();
}
impl<T> VxSeq for Vec<T> {
    type T = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    fn vx_seq(self) -> Vec<T> { self }
}
impl<T> VxSeq for BTreeSet<T> {
    type T = T;
    open spec fn items(&self) -> Seq<T> { sorted(self@) }
    fn vx_seq(self) -> Vec<T> { vx_sorted(self) }
}
pub fn vx_seq<S: VxSeq>(s: S) -> (r: Vec<S::T>)
    ensures r@ == s.items(),
{
    s.vx_seq()
}

pub broadcast proof fn only_one(v: Seq<usize>)
    requires v.len() == 1,
    ensures #[trigger] v.to_set() == Set::empty().insert(v[0]),
{
    assert(v =~= seq![v[0]]);
    assert(v.to_set() =~= Set::empty().insert(v[0])) by {
        assert forall|x: usize| #[trigger] v.to_set().contains(x) == (x == v[0]) by {
            if x == v[0] { assert(v.contains(v[0])); }
        }
    }
}
pub trait VxInto<T>: Sized {
    spec fn got(v: Seq<T>, r: Self) -> bool;
    fn from_vec(v: Vec<T>) -> (r: Self)
        ensures Self::got(v@, r);
}
impl<T> VxInto<T> for Vec<T> {
    open spec fn got(v: Seq<T>, r: Vec<T>) -> bool { v == r@ }
    fn from_vec(v: Vec<T>) -> Vec<T> { v }
}
impl VxInto<usize> for BTreeSet<usize> {
    open spec fn got(v: Seq<usize>, r: BTreeSet<usize>) -> bool { r@ == v.to_set() }
    fn from_vec(v: Vec<usize>) -> BTreeSet<usize> {
        let mut r = BTreeSet::new();
        vx_extend(&mut r, v);
        assert(r@ =~= v@.to_set());
        r
    }
}
pub fn vx_into<T, C: VxInto<T>>(v: Vec<T>) -> (r: C)
    ensures C::got(v@, r),
{
    C::from_vec(v)
}

#[verifier::external_body]
pub fn vx_extend(s: &mut BTreeSet<usize>, v: Vec<usize>)
    ensures final(s)@ == old(s)@.union(v@.to_set()),
{ unimplemented!() }

pub fn vx_same<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@,
{
    v
}

pub open spec fn firsts<A, B>(v: Seq<(A, B)>) -> Seq<A> {
    Seq::new(v.len(), |i: int| v[i].0)
}
pub open spec fn seconds<A, B>(v: Seq<(A, B)>) -> Seq<B> {
    Seq::new(v.len(), |i: int| v[i].1)
}
pub fn vx_unzip<A, B>(v: Vec<(A, B)>) -> (r: (Vec<A>, Vec<B>))
    ensures
        r.0@ == firsts(v@), r.1@ == seconds(v@),
{
    let ghost all = v@;
    let mut a = Vec::new();
    let mut b = Vec::new();
    for p in it: v
        invariant
            it.seq() == all, a@.len() == it.index@, b@.len() == it.index@,
            forall|j: int| 0 <= j < it.index@ ==> #[trigger] a@[j] == all[j].0,
            forall|j: int| 0 <= j < it.index@ ==> #[trigger] b@[j] == all[j].1,
    {
        let (x, y) = p;
        a.push(x);
        b.push(y);
    }
    assert(a@ =~= firsts(all));
    assert(b@ =~= seconds(all));
    (a, b)
}

pub fn vx_copied<T: Copy>(v: Vec<&T>) -> (r: Vec<T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == *v@[i],
{
    let ghost all = v@;
    let mut a = Vec::new();
    for p in it: v
        invariant it.seq() == all, a@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> #[trigger] a@[j] == *all[j],
    {
        a.push(*p);
    }
    a
}

pub fn vx_cloned<T: Clone>(v: Vec<&T>) -> (r: Vec<T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> cloned(*v@[i], #[trigger] r@[i]),
{
    let ghost all = v@;
    let mut a = Vec::new();
    for p in it: v
        invariant it.seq() == all, a@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> cloned(*all[j], #[trigger] a@[j]),
    {
        a.push(p.clone());
    }
    a
}

pub fn vx_only<T: Copy>(v: &Vec<T>) -> (r: Option<T>)
    ensures r is Some <==> v@.len() == 1, r is Some ==> r->0 == v@[0],
{
    if v.len() == 1 { Some(v[0]) } else { None }
}

#[verifier::external_body]
pub fn vx_chars(s: &String) -> (r: Vec<char>)
    ensures r@ == s@,
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_first_char(s: &String) -> (r: Option<char>)
    ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }),
{ unimplemented!() }

/// A number that does not fit is taken not to return.
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_u32(n: usize) -> (r: u32)
    ensures r == n,
{
    if n > 0xffff_ffff { loop {} }
    n as u32
}
pub fn vx_id<T>(v: T) -> (r: T)
    ensures r == v,
{
    v
}
pub fn vx_same_u32(n: u32) -> (r: u32)
    ensures r == n,
{
    n
}
}
