//@include canon.inc
// What the generator's state means.
verus! {
impl Clone for TypedExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: TypedExpression)
        ensures r == *self,
    { unimplemented!() }
}
impl PartialEqSpecImpl for RawTypedExpression {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &RawTypedExpression) -> bool { cx(*self) == cx(*other) }
}
impl PartialEq for RawTypedExpression {
    #[verifier::external_body]
    fn eq(&self, other: &RawTypedExpression) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for Name {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Name) -> bool { cname(Some(*self)) == cname(Some(*other)) }
}
impl PartialEq for Name {
    #[verifier::external_body]
    fn eq(&self, other: &Name) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for TypedExpression {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TypedExpression) -> bool { cn(*self) == cn(*other) }
}
impl PartialEq for TypedExpression {
//@fn src/chomp/typed/mod.rs <TypedExpression as PartialEq>::eq
//@ opt novis
//@endfn
}

// ---------------------------------------------------------------- free variables
/// The free variables of e under d binders, counted from outside those.
pub open spec fn fv(e: CX, d: int) -> Set<usize>
    decreases e, 0int,
{
    match e {
        CX::Cat(s, _) => fvs(s, s.len() as int, d),
        CX::Alt(s, _) => fvs(s, s.len() as int, d),
        CX::Fix(b) => fv(b.e, d + 1),
        CX::Var(i, _) => if i >= d { Set::empty().insert((i - d) as usize) } else { Set::empty() },
        _ => Set::empty(),
    }
}
pub open spec fn fvs(s: Seq<CN>, k: int, d: int) -> Set<usize>
    decreases s, k,
{
    if k <= 0 || k > s.len() { Set::empty() } else { fvs(s, k - 1, d).union(fv(s[k - 1].e, d)) }
}

impl Variable {
//@fn src/chomp/typed/mod.rs Variable::index
//@ spec
    ensures r == self.inner.index,
//@endfn
}
impl Fix {
//@fn src/chomp/typed/mod.rs Fix::unwrap
//@ spec
    ensures r == *self.inner,
//@endfn
}
impl Cat {
//@fn src/chomp/typed/mod.rs <Cat as IntoIterator>::into_iter
//@ opt ty Self::IntoIter => Vec<TypedExpression>
//@ opt method into_iter => vx_id
//@ spec
    ensures r == self.terms,
//@endfn
}
impl Alt {
//@fn src/chomp/typed/mod.rs <Alt as IntoIterator>::into_iter
//@ opt ty Self::IntoIter => Vec<TypedExpression>
//@ opt method into_iter => vx_id
//@ spec
    ensures r == self.terms,
//@endfn
}
impl FromSpecImpl<Literal> for ast::Literal {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Literal) -> ast::Literal { v.inner }
}
impl From<Literal> for ast::Literal {
//@fn src/chomp/typed/mod.rs <Literal as From<Literal>>::from
//@ opt novis
//@endfn
}
impl TypedExpression {
//@fn src/chomp/typed/mod.rs TypedExpression::free_variables
//@ spec
    ensures r@ == fv(cx(self.inner), 0),
//@ end
    assert(__r@ =~= fv(cx(self.inner), 0));
//@endfn
//@fn src/chomp/typed/mod.rs TypedExpression::add_free_variables
//@ opt addcheck
//@ spec
    ensures final(free)@ == old(free)@.union(fv(cx(self.inner), depth as int)),
    decreases *self,
//@ start
    broadcast use {ccat_is, calt_is};
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    let ghost e = cx(self.inner);
    proof { cx_is(self.inner); }
//@ loop 0
    invariant
        self.inner is Cat, *c == self.inner->Cat_0,
        it0.seq().len() == c.terms@.len(),
        forall|i: int| 0 <= i < c.terms@.len() ==> *(#[trigger] it0.seq()[i]) == c.terms@[i],
        free@ =~= old(free)@.union(fvs(call(c.terms@), it0.index@, depth as int)),
//@ loopstart 0
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    assert(decreases_to!(self => c.terms));
    assert(decreases_to!(c.terms => c.terms[it0.index@]));
    assert(call(c.terms@)[it0.index@] == cn(c.terms[it0.index@]));
//@ loop 1
    invariant
        self.inner is Alt, *a == self.inner->Alt_0,
        it1.seq().len() == a.terms@.len(),
        forall|i: int| 0 <= i < a.terms@.len() ==> *(#[trigger] it1.seq()[i]) == a.terms@[i],
        free@ =~= old(free)@.union(fvs(call(a.terms@), it1.index@, depth as int)),
//@ loopstart 1
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    assert(decreases_to!(self => a.terms));
    assert(decreases_to!(a.terms => a.terms[it1.index@]));
    assert(call(a.terms@)[it1.index@] == cn(a.terms[it1.index@]));
//@ end
    proof {
        match &self.inner {
            RawTypedExpression::Cat(c) => { assert(fv(e, depth as int) == fvs(call(c.terms@), call(c.terms@).len() as int, depth as int)); }
            RawTypedExpression::Alt(c) => { assert(fv(e, depth as int) == fvs(call(c.terms@), call(c.terms@).len() as int, depth as int)); }
            RawTypedExpression::Fix(f) => { assert(fv(e, depth as int) == fv(cn(*f.inner).e, depth + 1)); }
            _ => {}
        }
    }
    assert(free@ =~= old(free)@.union(fv(e, depth as int)));
//@endfn
}

pub proof fn fv_shift(e: CX, d: int, j: usize)
    requires d >= 0, j < usize::MAX,
    ensures fv(e, d + 1).contains(j) == fv(e, d).contains((j + 1) as usize),
    decreases e, 0int,
{
    match e {
        CX::Cat(s, _) => fvs_shift(s, s.len() as int, d, j),
        CX::Alt(s, _) => fvs_shift(s, s.len() as int, d, j),
        CX::Fix(b) => fv_shift(b.e, d + 1, j),
        _ => {}
    }
}
pub proof fn fvs_shift(s: Seq<CN>, k: int, d: int, j: usize)
    requires d >= 0, j < usize::MAX,
    ensures fvs(s, k, d + 1).contains(j) == fvs(s, k, d).contains((j + 1) as usize),
    decreases s, k,
{
    if k <= 0 || k > s.len() {
    } else {
        fvs_shift(s, k - 1, d, j);
        fv_shift(s[k - 1].e, d, j);
    }
}
pub proof fn fvs_has(s: Seq<CN>, k: int, d: int, i: int, j: usize)
    requires 0 <= i < k <= s.len(), fv(s[i].e, d).contains(j),
    ensures fvs(s, k, d).contains(j),
    decreases k,
{
    if i < k - 1 { fvs_has(s, k - 1, d, i, j); }
}
pub proof fn fv_max(e: CX, d: int)
    requires d > 0,
    ensures !fv(e, d).contains(usize::MAX),
    decreases e, 0int,
{
    match e {
        CX::Cat(s, _) => fvs_max(s, s.len() as int, d),
        CX::Alt(s, _) => fvs_max(s, s.len() as int, d),
        CX::Fix(b) => fv_max(b.e, d + 1),
        _ => {}
    }
}
pub proof fn fvs_max(s: Seq<CN>, k: int, d: int)
    requires d > 0,
    ensures !fvs(s, k, d).contains(usize::MAX),
    decreases s, k,
{
    if k <= 0 || k > s.len() {
    } else {
        fvs_max(s, k - 1, d);
        fv_max(s[k - 1].e, d);
    }
}

/// All variables are bound by e or by one of n binders around it.
pub open spec fn scoped(e: CX, n: int) -> bool {
    forall|j: usize| #[trigger] fv(e, 0).contains(j) ==> j < n
}
pub proof fn scoped_part(s: Seq<CN>, t: crate::Ty, n: int)
    requires scoped(CX::Cat(s, t), n) || scoped(CX::Alt(s, t), n),
    ensures forall|i: int| 0 <= i < s.len() ==> scoped(#[trigger] s[i].e, n),
{
    assert forall|i: int| 0 <= i < s.len() implies scoped(#[trigger] s[i].e, n) by {
        assert forall|j: usize| #[trigger] fv(s[i].e, 0).contains(j) implies j < n by {
            fvs_has(s, s.len() as int, 0, i, j);
            assert(fv(CX::Cat(s, t), 0).contains(j));
            assert(fv(CX::Alt(s, t), 0).contains(j));
        }
    }
}
pub proof fn scoped_fix(b: CN, n: int)
    requires n >= 0, scoped(CX::Fix(Box::new(b)), n),
    ensures scoped(b.e, n + 1),
{
    let f = CX::Fix(Box::new(b));
    assert(fv(f, 0) == fv(b.e, 1));
    assert forall|j: usize| #[trigger] fv(b.e, 0).contains(j) implies j < n + 1 by {
        if j > 0 {
            fv_shift(b.e, 0, (j - 1) as usize);
            assert(fv(f, 0).contains((j - 1) as usize));
        }
    }
}

/// Its type; a fixed point has its body's.
pub open spec fn cty(t: CN) -> crate::Ty
    decreases t,
{
    match t.e {
        CX::Eps(t) => t,
        CX::Lit(_, t) => t,
        CX::Cat(_, t) => t,
        CX::Alt(_, t) => t,
        CX::Fix(b) => cty(*b),
        CX::Var(_, t) => t,
    }
}
pub open spec fn ctys(s: Seq<CN>) -> Seq<crate::Ty> {
    Seq::new(s.len(), |i: int| cty(s[i]))
}
/// The type of the first k in a row ...
pub open spec fn cat_ty(ts: Seq<crate::Ty>, k: int) -> crate::Ty
    decreases k,
{
    if k <= 1 { ts[0] } else { ty_cat(cat_ty(ts, k - 1), ts[k - 1]) }
}
/// ... and of a choice among them.
pub open spec fn alt_ty(ts: Seq<crate::Ty>, k: int) -> crate::Ty
    decreases k,
{
    if k <= 1 { ts[0] } else { ty_alt(alt_ty(ts, k - 1), ts[k - 1]) }
}
pub open spec fn cats_ok(ts: Seq<crate::Ty>) -> bool {
    &&& ts.len() >= 1
    &&& !ts[0].nullable
    &&& forall|k: int| 1 <= k < ts.len() ==> (#[trigger] cat_ty(ts, k)).flast.disjoint(ts[k].first)
}
pub open spec fn alts_ok(ts: Seq<crate::Ty>) -> bool {
    &&& ts.len() >= 1
    &&& forall|k: int| 1 <= k < ts.len() ==> alt_ok(#[trigger] alt_ty(ts, k), ts[k])
}
/// The types in e are right if its free variables have the types tc (innermost last).
pub open spec fn wt(e: CX, tc: Seq<crate::Ty>) -> bool
    decreases e, 0int,
{
    match e {
        CX::Eps(t) => t == ty_eps(),
        CX::Lit(s, t) => t == ty_str(s),
        CX::Cat(s, t) => wts(s, s.len() as int, tc) && cats_ok(ctys(s)) && t == cat_ty(ctys(s), s.len() as int),
        CX::Alt(s, t) => wts(s, s.len() as int, tc) && alts_ok(ctys(s)) && t == alt_ty(ctys(s), s.len() as int),
        CX::Fix(b) => wt(b.e, tc.push(cty(*b))),
        CX::Var(i, t) => i < tc.len() && t == tc[tc.len() - 1 - i],
    }
}
pub open spec fn wts(s: Seq<CN>, k: int, tc: Seq<crate::Ty>) -> bool
    decreases s, k,
{
    if k <= 0 || k > s.len() { true } else { wts(s, k - 1, tc) && wt(s[k - 1].e, tc) }
}
pub proof fn wts_at(s: Seq<CN>, k: int, tc: Seq<crate::Ty>, i: int)
    requires wts(s, k, tc), 0 <= i < k <= s.len(),
    ensures wt(s[i].e, tc),
    decreases k,
{
    if i < k - 1 { wts_at(s, k - 1, tc, i); }
}
pub proof fn wt_scoped(e: CX, tc: Seq<crate::Ty>)
    requires wt(e, tc),
    ensures scoped(e, tc.len() as int),
    decreases e, 0int,
{
    match e {
        CX::Cat(s, _) => { wts_scoped(s, s.len() as int, tc); assert(fv(e, 0) == fvs(s, s.len() as int, 0)); }
        CX::Alt(s, _) => { wts_scoped(s, s.len() as int, tc); assert(fv(e, 0) == fvs(s, s.len() as int, 0)); }
        CX::Fix(b) => {
            assert(fv(e, 0) == fv(b.e, 1));
            wt_scoped(b.e, tc.push(cty(*b)));
            assert forall|j: usize| #[trigger] fv(e, 0).contains(j) implies j < tc.len() by {
                fv_max(b.e, 1);
                assert(j != usize::MAX);
                fv_shift(b.e, 0, j);
            }
        }
        _ => {}
    }
}
pub proof fn wts_scoped(s: Seq<CN>, k: int, tc: Seq<crate::Ty>)
    requires wts(s, k, tc),
    ensures forall|j: usize| #[trigger] fvs(s, k, 0).contains(j) ==> j < tc.len(),
    decreases s, k,
{
    if k <= 0 || k > s.len() {
    } else {
        wts_scoped(s, k - 1, tc);
        wt_scoped(s[k - 1].e, tc);
        assert forall|j: usize| #[trigger] fvs(s, k, 0).contains(j) implies j < tc.len() by {
            assert(fvs(s, k - 1, 0).contains(j) || fv(s[k - 1].e, 0).contains(j));
        }
    }
}

/// What the free variables of a fixed point's body stand for, other than the fixed point itself, among the first k of
/// them.
pub open spec fn scope_to(free: Seq<usize>, k: int, ctx: Seq<usize>) -> Seq<usize>
    decreases k,
{
    if k <= 0 || k > free.len() {
        seq![]
    } else if free[k - 1] > 0 {
        scope_to(free, k - 1, ctx).push(ctx[ctx.len() - free[k - 1]])
    } else {
        scope_to(free, k - 1, ctx)
    }
}
pub open spec fn scope(body: CX, ctx: Seq<usize>) -> Seq<usize> {
    let free = sorted(fv(body, 0));
    scope_to(free, free.len() as int, ctx)
}
/// The scope determines what each free variable stands for.
pub proof fn scope_tells(free: Seq<usize>, k: int, a: Seq<usize>, b: Seq<usize>)
    requires 0 <= k <= free.len(), scope_to(free, k, a) == scope_to(free, k, b),
    ensures forall|i: int| 0 <= i < k && free[i] > 0 ==> a[a.len() - #[trigger] free[i]] == b[b.len() - free[i]],
    decreases k,
{
    if k > 0 {
        scope_len(free, k - 1, a, b);
        let (x, y) = (scope_to(free, k - 1, a), scope_to(free, k - 1, b));
        if free[k - 1] > 0 {
            let (p, q) = (a[a.len() - free[k - 1]], b[b.len() - free[k - 1]]);
            assert(x.push(p).last() == y.push(q).last());
            assert(x.push(p).drop_last() =~= x);
            assert(y.push(q).drop_last() =~= y);
        }
        scope_tells(free, k - 1, a, b);
    }
}
pub proof fn scope_len(free: Seq<usize>, k: int, a: Seq<usize>, b: Seq<usize>)
    ensures scope_to(free, k, a).len() == scope_to(free, k, b).len(),
    decreases k,
{
    if k > 0 && k <= free.len() { scope_len(free, k - 1, a, b); }
}

// ---------------------------------------------------------------- the state
pub ghost struct TyV {
    pub name: Seq<Tok>,
    pub rest: Seq<Tok>,
    pub deps: Set<usize>,
}

/// What a generated type stands for: a literal, a sequence or choice of components, a fixed point with this body where
/// the body's free variables are these fixed points, or a reference to a fixed point.
pub ghost enum Part {
    Lit(Str),
    Cat(Seq<usize>),
    Alt(Seq<usize>),
    Fix(CN, Seq<usize>),
    Var(usize),
}

pub ghost struct B {
    pub data: Seq<TyV>,
    pub lit: Map<Str, usize>,
    pub cat: Map<Seq<usize>, usize>,
    pub alt: Map<Seq<usize>, usize>,
    pub fix: Map<(CN, Seq<usize>), usize>,
    pub var: Map<usize, usize>,
    pub used: Set<Str>,
    pub ctx: Seq<usize>,
    pub eps: Option<usize>,
}

pub open spec fn tyv(t: Ty) -> TyV {
    TyV { name: t.name@, rest: t.rest@, deps: t.deps@ }
}
pub open spec fn tyvs(s: Seq<Ty>) -> Seq<TyV> {
    Seq::new(s.len(), |i: int| tyv(s[i]))
}
pub broadcast proof fn tyvs_push(s: Seq<Ty>, t: Ty)
    ensures #[trigger] tyvs(s.push(t)) == tyvs(s).push(tyv(t)),
{
    assert(tyvs(s.push(t)) =~= tyvs(s).push(tyv(t)));
}

impl VxKey for TypedExpression {
    type C = CN;
    open spec fn canon(&self) -> CN { cn(*self) }
}

impl View for RustBackend {
    type V = B;
    open spec fn view(&self) -> B {
        B {
            data: tyvs(self.data@), lit: self.lit_map@, cat: self.cat_map@, alt: self.alt_map@, fix: self.fix_map@, var: self.var_map@,
            used: self.used_names@, ctx: self.context@, eps: self.eps_id,
        }
    }
}

impl B {
    /// There is a type for this part ...
    pub open spec fn has(self, p: Part) -> bool {
        match p {
            Part::Lit(s) => self.lit.dom().contains(s),
            Part::Cat(i) => self.cat.dom().contains(i),
            Part::Alt(i) => self.alt.dom().contains(i),
            Part::Fix(k, s) => self.fix.dom().contains((k, s)),
            Part::Var(i) => self.var.dom().contains(i),
        }
    }
    /// ... which is this one.
    pub open spec fn at(self, p: Part) -> usize {
        match p {
            Part::Lit(s) => self.lit[s],
            Part::Cat(i) => self.cat[i],
            Part::Alt(i) => self.alt[i],
            Part::Fix(k, s) => self.fix[(k, s)],
            Part::Var(i) => self.var[i],
        }
    }
    pub open spec fn is(self, p: Part, id: usize) -> bool {
        self.has(p) && self.at(p) == id
    }
    pub open spec fn len(self) -> int { self.data.len() as int }
}

/// The name of type i, where it is a plain one.
pub open spec fn word(b: B, i: usize) -> Str { b.data[i as int].name[0]->Word_0 }

pub open spec fn named(b: B, i: usize) -> bool {
    &&& b.data[i as int].name == seq![Tok::Word(word(b, i))]
    &&& b.used.contains(word(b, i))
    &&& ends_with_digit(word(b, i))
}

pub open spec fn names(b: B, ids: Seq<usize>) -> Seq<Seq<Tok>> {
    Seq::new(ids.len(), |k: int| b.data[ids[k] as int].name)
}

pub open spec fn all_in(ids: Seq<usize>, n: int) -> bool {
    forall|k: int| 0 <= k < ids.len() ==> #[trigger] ids[k] < n
}

/// Type id is the one that the grammar e denotes where its free variables refer to the fixed points ctx (innermost last).
pub open spec fn means(b: B, ctx: Seq<usize>, e: CX, id: usize) -> bool
    decreases e, 0int,
{
    match e {
        CX::Eps(_) => b.data[id as int].name == seq![Tok::Word(eps_word())] && id < b.len(),
        CX::Lit(s, _) => b.is(Part::Lit(s), id),
        CX::Cat(s, _) => exists|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), id) && ids.len() == s.len() && mean(b, ctx, s, s.len() as int, ids),
        CX::Alt(s, _) => exists|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), id) && ids.len() == s.len() && mean(b, ctx, s, s.len() as int, ids),
        CX::Fix(k) => b.is(Part::Fix(*k, scope(k.e, ctx)), id),
        CX::Var(i, _) => i < ctx.len() && b.is(Part::Var(ctx[ctx.len() - 1 - i]), id),
    }
}
pub open spec fn mean(b: B, ctx: Seq<usize>, s: Seq<CN>, k: int, ids: Seq<usize>) -> bool
    decreases s, k,
{
    if k <= 0 || k > s.len() { true } else { mean(b, ctx, s, k - 1, ids) && means(b, ctx, s[k - 1].e, ids[k - 1]) }
}

pub open spec fn eps_word() -> Str { "Epsilon"@ }

pub open spec fn is_fix(b: B, id: usize) -> bool {
    exists|k: CN, s: Seq<usize>| #[trigger] b.is(Part::Fix(k, s), id)
}
pub open spec fn all_fix(b: B, ctx: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < ctx.len() ==> is_fix(b, #[trigger] ctx[i])
}
/// The type of a fixed point, which its variable has, too.
pub open spec fn typ(b: B, f: usize) -> crate::Ty {
    let p = choose|p: (CN, Seq<usize>)| b.is(Part::Fix(p.0, p.1), f);
    cty(p.0)
}
pub open spec fn tcs(b: B, ctx: Seq<usize>) -> Seq<crate::Ty> {
    Seq::new(ctx.len(), |i: int| typ(b, ctx[i]))
}

/// How the fields of a type are named in its Display.
pub open spec fn printer(d: Def) -> Print {
    match d.shape {
        Shape::Tuple => Print::Fields(Seq::new(d.tys.len(), |i: int| Sel::Number(i))),
        Shape::Struct => Print::Fields(Seq::new(d.parts.len(), |i: int| Sel::Named(d.parts[i]))),
        _ => Print::Variants(d.parts),
    }
}
/// All fields are taken, in order.
pub open spec fn taker(d: Def, t: Take) -> bool {
    match t {
        Take::Tuple { lets, vals } => d.shape is Tuple && lets == vals && lets.no_duplicates() && lets.len() == d.tys.len(),
        Take::Fields { lets, fields, vals } => {
            d.shape is Struct && fields == d.parts && lets == vals && lets.no_duplicates() && lets.len() == d.tys.len()
        },
        _ => false,
    }
}
/// The branches of types ts that start with some character, among the first k.
pub open spec fn starting(ts: Seq<crate::Ty>, k: int) -> Seq<int>
    decreases k,
{
    if k <= 0 {
        seq![]
    } else if ts[k - 1].first == Set::<char>::empty() {
        starting(ts, k - 1)
    } else {
        starting(ts, k - 1).push(k - 1)
    }
}
pub open spec fn empty_one(ts: Seq<crate::Ty>, k: int) -> Option<int>
    decreases k,
{
    if k <= 0 {
        None
    } else if empty_one(ts, k - 1) is Some {
        empty_one(ts, k - 1)
    } else if ts[k - 1].nullable {
        Some(k - 1)
    } else {
        None
    }
}
pub proof fn starting_in(ts: Seq<crate::Ty>, k: int)
    requires 0 <= k <= ts.len(),
    ensures
        forall|j: int| 0 <= j < starting(ts, k).len() ==> 0 <= #[trigger] starting(ts, k)[j] < k && ts[starting(ts, k)[j]].first != Set::<char>::empty(),
        starting(ts, k).len() <= k,
    decreases k,
{
    if k > 0 { starting_in(ts, k - 1); }
}
pub proof fn empty_in(ts: Seq<crate::Ty>, k: int)
    requires 0 <= k <= ts.len(),
    ensures empty_one(ts, k) is Some ==> 0 <= empty_one(ts, k)->0 < k && ts[empty_one(ts, k)->0].nullable,
    decreases k,
{
    if k > 0 { empty_in(ts, k - 1); }
}
/// A branch is chosen by its first characters, or else the one that can be empty.
pub open spec fn chooser(d: Def, t: Take, ts: Seq<crate::Ty>) -> bool {
    let on = starting(ts, ts.len() as int);
    match t {
        Take::Switch { pats, variants, other } => {
            &&& pats == Seq::new(on.len(), |j: int| seq![Tok::Somes(sorted(ts[on[j]].first))])
            &&& variants == Seq::new(on.len(), |j: int| d.parts[on[j]])
            &&& other == (match empty_one(ts, ts.len() as int) { Some(i) => Some(d.parts[i]), None => None })
        },
        _ => false,
    }
}
/// The components ids of a choice have the types ts.
pub open spec fn choice(b: B, ids: Seq<usize>, ts: Seq<crate::Ty>, c: Seq<usize>, s: Seq<CN>) -> bool {
    &&& s.len() == ids.len()
    &&& mean(b, c, s, s.len() as int, ids)
    &&& all_fix(b, c)
    &&& wts(s, s.len() as int, tcs(b, c))
    &&& alts_ok(ts)
    &&& ts == ctys(s)
}

/// The definition of a type whose components are ids.
pub open spec fn composed(b: B, id: usize, ids: Seq<usize>, alt: bool) -> bool {
    let t = b.data[id as int];
    let d = defs(t.rest);
    let w = word(b, id);
    &&& named(b, id)
    &&& all_in(ids, b.len())
    &&& t.deps == ids.to_set()
    &&& d.len() == 1
    &&& d[0].name == w
    &&& d[0].tys == names(b, ids)
    &&& if alt { d[0].shape is Enum } else { d[0].shape is Struct || d[0].shape is Tuple }
    &&& !(d[0].shape is Tuple) ==> d[0].parts.len() == ids.len() && d[0].parts.no_duplicates()
    &&& prints(t.rest) == seq![(w, printer(d[0]))]
    &&& takes(t.rest).len() == 1
    &&& takes(t.rest)[0].0 == w
    &&& if alt {
        exists|ts: Seq<crate::Ty>, c: Seq<usize>, s: Seq<CN>| chooser(d[0], takes(t.rest)[0].1, ts) && #[trigger] choice(b, ids, ts, c, s)
    } else {
        taker(d[0], takes(t.rest)[0].1)
    }
}

/// Type id has the definition and the dependencies of the part it stands for.
pub open spec fn right(b: B, p: Part, id: usize) -> bool {
    let t = b.data[id as int];
    let d = defs(t.rest);
    match p {
        Part::Lit(s) => {
            &&& named(b, id)
            &&& t.deps == Set::<usize>::empty()
            &&& d.len() == 1 && d[0].name == word(b, id) && d[0].shape is Unit && d[0].tys.len() == 0
            &&& prints(t.rest) == seq![(word(b, id), Print::Text(s))]
            &&& takes(t.rest) == seq![(word(b, id), Take::Text(s))]
        },
        Part::Cat(ids) => composed(b, id, ids, false),
        Part::Alt(ids) => composed(b, id, ids, true),
        Part::Fix(k, s) => {
            &&& named(b, id)
            &&& if b.ctx.contains(id) {
                t.rest.len() == 0 && t.deps == Set::<usize>::empty()
            } else {
                exists|x: usize, c: Seq<usize>| fixed(b, k, s, id, x, c)
            }
        },
        Part::Var(f) => {
            &&& f < b.len()
            &&& is_fix(b, f)
            &&& t.name == seq![Tok::Generic("Box"@, b.data[f as int].name)]
            &&& t.deps == Set::<usize>::empty()
            &&& t.rest.len() == 0
        },
    }
}
/// The finished fixed point id is an alias of x, which is its body.
pub open spec fn fixed(b: B, k: CN, s: Seq<usize>, id: usize, x: usize, c: Seq<usize>) -> bool {
    let t = b.data[id as int];
    let d = defs(t.rest);
    &&& x < b.len()
    &&& scope(k.e, c) == s
    &&& all_fix(b, c)
    &&& wt(k.e, tcs(b, c).push(cty(k)))
    &&& means(b, c.push(id), k.e, x)
    &&& t.deps == Set::empty().insert(x)
    &&& d.len() == 1 && d[0].name == word(b, id) && d[0].shape is Alias && d[0].tys == seq![b.data[x as int].name]
    &&& prints(t.rest).len() == 0 && takes(t.rest).len() == 0
}

/// A type stands for one part only.
pub open spec fn once(b: B) -> bool {
    forall|p: Part, q: Part| #[trigger] b.has(p) && #[trigger] b.has(q) && b.at(p) == b.at(q) ==> p == q
}
pub open spec fn all_right(b: B) -> bool {
    forall|p: Part| #[trigger] b.has(p) ==> b.at(p) < b.len() && right(b, p, b.at(p))
}
/// Different parts' types have different names.
pub open spec fn apart(b: B) -> bool {
    forall|p: Part, q: Part| #[trigger] b.has(p) && #[trigger] b.has(q) && !(p is Var) && !(q is Var) && word(b, b.at(p)) == word(b, b.at(q)) ==> p == q
}
/// Whatever has a definition stands for a part.
pub open spec fn known(b: B) -> bool {
    forall|i: usize| i < b.len() && (#[trigger] b.data[i as int]).rest.len() > 0 ==> exists|p: Part| #[trigger] b.is(p, i)
}
pub open spec fn deps_in(b: B) -> bool {
    forall|i: usize, j: usize| i < b.len() && #[trigger] b.data[i as int].deps.contains(j) ==> j < b.len()
}
pub open spec fn eps_right(b: B) -> bool {
    b.eps is Some ==> b.eps->0 < b.len() && b.data[b.eps->0 as int].name == seq![Tok::Word(eps_word())]
}

/// The types that generated code does not define have no components, either.
pub open spec fn plain(b: B) -> bool {
    forall|i: usize| i < b.len() && (#[trigger] b.data[i as int]).name == seq![Tok::Word(eps_word())] ==> b.data[i as int].rest.len() == 0 && b.data[i as int].deps == Set::<usize>::empty()
}

pub open spec fn inv(b: B) -> bool {
    &&& once(b)
    &&& all_right(b)
    &&& apart(b)
    &&& all_fix(b, b.ctx)
    &&& b.ctx.no_duplicates()
    &&& known(b)
    &&& deps_in(b)
    &&& eps_right(b)
    &&& plain(b)
}

/// Parts have the types they had, and those have the names they had.
pub open spec fn grew(o: B, b: B) -> bool {
    &&& o.len() <= b.len()
    &&& forall|i: int| 0 <= i < o.len() ==> (#[trigger] b.data[i]).name == o.data[i].name
    &&& forall|p: Part| #[trigger] o.has(p) ==> b.has(p) && b.at(p) == o.at(p)
    &&& o.used.subset_of(b.used)
}
/// What there was in o is still there in b, and the enclosing fixed points are the same.
pub open spec fn kept(o: B, b: B) -> bool {
    &&& grew(o, b)
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] b.data[i] == o.data[i]
    &&& b.ctx == o.ctx
}
pub proof fn kept_kept(a: B, b: B, c: B)
    requires kept(a, b), kept(b, c),
    ensures kept(a, c),
{
}

pub proof fn means_kept(o: B, b: B, ctx: Seq<usize>, e: CX, id: usize)
    requires
        means(o, ctx, e, id), grew(o, b),
    ensures means(b, ctx, e, id),
    decreases e, 0int,
{
    match e {
        CX::Cat(s, _) => {
            let ids = choose|ids: Seq<usize>| #[trigger] o.is(Part::Cat(ids), id) && ids.len() == s.len() && mean(o, ctx, s, s.len() as int, ids);
            mean_kept(o, b, ctx, s, s.len() as int, ids);
            assert(b.is(Part::Cat(ids), id));
        }
        CX::Alt(s, _) => {
            let ids = choose|ids: Seq<usize>| #[trigger] o.is(Part::Alt(ids), id) && ids.len() == s.len() && mean(o, ctx, s, s.len() as int, ids);
            mean_kept(o, b, ctx, s, s.len() as int, ids);
            assert(b.is(Part::Alt(ids), id));
        }
        CX::Lit(s, _) => { assert(o.has(Part::Lit(s))); }
        CX::Fix(k) => { assert(o.has(Part::Fix(*k, scope(k.e, ctx)))); }
        CX::Var(i, _) => { assert(o.has(Part::Var(ctx[ctx.len() - 1 - i]))); }
        CX::Eps(_) => {}
    }
}
pub proof fn mean_kept(o: B, b: B, ctx: Seq<usize>, s: Seq<CN>, k: int, ids: Seq<usize>)
    requires
        mean(o, ctx, s, k, ids), grew(o, b),
    ensures mean(b, ctx, s, k, ids),
    decreases s, k,
{
    if k <= 0 || k > s.len() {
    } else {
        mean_kept(o, b, ctx, s, k - 1, ids);
        means_kept(o, b, ctx, s[k - 1].e, ids[k - 1]);
    }
}
pub proof fn mean_upto(b: B, ctx: Seq<usize>, s: Seq<CN>, k: int, x: Seq<usize>, y: Seq<usize>)
    requires mean(b, ctx, s, k, x), forall|i: int| 0 <= i < k ==> #[trigger] x[i] == y[i],
    ensures mean(b, ctx, s, k, y),
    decreases k,
{
    if k <= 0 || k > s.len() {
    } else {
        mean_upto(b, ctx, s, k - 1, x, y);
        assert(x[k - 1] == y[k - 1]);
    }
}
/// The meaning depends only on what the free variables stand for.
pub proof fn means_scope(b: B, c: Seq<usize>, d: Seq<usize>, e: CX, id: usize)
    requires
        means(b, c, e, id),
        forall|j: usize| #[trigger] fv(e, 0).contains(j) ==> j < c.len() && j < d.len() && c[c.len() - 1 - j] == d[d.len() - 1 - j],
    ensures means(b, d, e, id),
    decreases e, 0int,
{
    match e {
        CX::Cat(s, _) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), id) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            assert(fv(e, 0) == fvs(s, s.len() as int, 0));
            mean_scope(b, c, d, s, s.len() as int, ids);
            assert(b.is(Part::Cat(ids), id));
        }
        CX::Alt(s, _) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), id) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            assert(fv(e, 0) == fvs(s, s.len() as int, 0));
            mean_scope(b, c, d, s, s.len() as int, ids);
            assert(b.is(Part::Alt(ids), id));
        }
        CX::Fix(k) => {
            let free = sorted(fv(k.e, 0));
            assert forall|i: int| 0 <= i < free.len() && free[i] > 0 implies c[c.len() - #[trigger] free[i]] == d[d.len() - free[i]] by {
                sorted_is(fv(k.e, 0));
                assert(free.contains(free[i]));
                fv_shift(k.e, 0, (free[i] - 1) as usize);
                assert(fv(e, 0).contains((free[i] - 1) as usize));
            }
            scope_same(free, free.len() as int, c, d);
        }
        CX::Var(i, _) => { assert(fv(e, 0).contains(i)); }
        _ => {}
    }
}
pub proof fn mean_scope(b: B, c: Seq<usize>, d: Seq<usize>, s: Seq<CN>, k: int, ids: Seq<usize>)
    requires
        mean(b, c, s, k, ids),
        forall|j: usize| #[trigger] fvs(s, k, 0).contains(j) ==> j < c.len() && j < d.len() && c[c.len() - 1 - j] == d[d.len() - 1 - j],
    ensures mean(b, d, s, k, ids),
    decreases s, k,
{
    if k <= 0 || k > s.len() {
    } else {
        assert(fvs(s, k, 0) == fvs(s, k - 1, 0).union(fv(s[k - 1].e, 0)));
        assert forall|j: usize| #[trigger] fvs(s, k - 1, 0).contains(j) implies j < c.len() && j < d.len() && c[c.len() - 1 - j] == d[d.len() - 1 - j] by {
            assert(fvs(s, k, 0).contains(j));
        }
        assert forall|j: usize| #[trigger] fv(s[k - 1].e, 0).contains(j) implies j < c.len() && j < d.len() && c[c.len() - 1 - j] == d[d.len() - 1 - j] by {
            assert(fvs(s, k, 0).contains(j));
        }
        mean_scope(b, c, d, s, k - 1, ids);
        means_scope(b, c, d, s[k - 1].e, ids[k - 1]);
    }
}
pub proof fn scope_same(free: Seq<usize>, k: int, a: Seq<usize>, b: Seq<usize>)
    requires forall|i: int| 0 <= i < k && i < free.len() && free[i] > 0 ==> a[a.len() - #[trigger] free[i]] == b[b.len() - free[i]],
    ensures scope_to(free, k, a) == scope_to(free, k, b),
    decreases k,
{
    if k > 0 && k <= free.len() { scope_same(free, k - 1, a, b); }
}
/// A finished fixed point is an alias of its body here, too, wherever it was generated.
pub proof fn fixed_here(b: B, ctx: Seq<usize>, k: CN, id: usize) -> (x: usize)
    requires
        inv(b), means(b, ctx, CX::Fix(Box::new(k)), id), !b.ctx.contains(id), scoped(k.e, ctx.len() as int + 1),
    ensures
        means(b, ctx.push(id), k.e, x),
        b.data[id as int].deps == Set::empty().insert(x),
        x < b.len(),
        defs(b.data[id as int].rest)[0].tys == seq![b.data[x as int].name],
{
    let s = scope(k.e, ctx);
    assert(b.has(Part::Fix(k, s)));
    assert(right(b, Part::Fix(k, s), id));
    let (x, c) = choose|x: usize, c: Seq<usize>| fixed(b, k, s, id, x, c);
    let free = sorted(fv(k.e, 0));
    scope_tells(free, free.len() as int, ctx, c);
    wt_scoped(k.e, tcs(b, c).push(cty(k)));
    assert forall|j: usize| #[trigger] fv(k.e, 0).contains(j) implies
        j < c.push(id).len() && j < ctx.push(id).len() && c.push(id)[c.push(id).len() - 1 - j] == ctx.push(id)[ctx.push(id).len() - 1 - j] by {
        sorted_is(fv(k.e, 0));
        assert(free.contains(j));
        let i = choose|i: int| 0 <= i < free.len() && free[i] == j;
        assert(free[i] == j);
    }
    means_scope(b, c.push(id), ctx.push(id), k.e, x);
    x
}

// ---------------------------------------------------------------- keeping the state right
pub proof fn typ_is(b: B, k: CN, s: Seq<usize>, f: usize)
    requires once(b), b.is(Part::Fix(k, s), f),
    ensures typ(b, f) == cty(k),
{
    let w = (k, s);
    assert(b.is(Part::Fix(w.0, w.1), f));
    let p = choose|p: (CN, Seq<usize>)| b.is(Part::Fix(p.0, p.1), f);
    assert(b.has(Part::Fix(p.0, p.1)));
}
pub proof fn tcs_grew(o: B, b: B, c: Seq<usize>)
    requires grew(o, b), once(o), once(b), all_fix(o, c),
    ensures tcs(b, c) == tcs(o, c), all_fix(b, c),
{
    assert forall|i: int| 0 <= i < c.len() implies is_fix(b, #[trigger] c[i]) && typ(b, c[i]) == typ(o, c[i]) by {
        assert(is_fix(o, c[i]));
        let (k, s) = choose|k: CN, s: Seq<usize>| #[trigger] o.is(Part::Fix(k, s), c[i]);
        assert(o.has(Part::Fix(k, s)));
        assert(b.is(Part::Fix(k, s), c[i]));
        typ_is(o, k, s, c[i]);
        typ_is(b, k, s, c[i]);
    }
    assert(tcs(b, c) =~= tcs(o, c));
}
pub proof fn fix_grew(o: B, b: B, f: usize)
    requires grew(o, b), is_fix(o, f),
    ensures is_fix(b, f),
{
    let (k, s) = choose|k: CN, s: Seq<usize>| #[trigger] o.is(Part::Fix(k, s), f);
    assert(o.has(Part::Fix(k, s)));
    assert(b.is(Part::Fix(k, s), f));
}
pub proof fn fix_in(b: B, f: usize)
    requires all_right(b), is_fix(b, f),
    ensures f < b.len(),
{
    let (k, s) = choose|k: CN, s: Seq<usize>| #[trigger] b.is(Part::Fix(k, s), f);
    assert(b.has(Part::Fix(k, s)));
}
/// The type for a part that has one is there.
pub proof fn there(b: B, p: Part)
    requires all_right(b),
    ensures b.has(p) ==> b.at(p) < b.len() && b.is(p, b.at(p)),
{
}
pub proof fn right_grew(o: B, b: B, p: Part, id: usize)
    requires
        grew(o, b), once(o), once(b), deps_in(o), id < o.len(), right(o, p, id),
        b.data[id as int] == o.data[id as int],
        o.ctx.contains(id) <==> b.ctx.contains(id),
    ensures right(b, p, id),
{
    match p {
        Part::Lit(s) => {}
        Part::Cat(ids) => { assert(names(b, ids) =~= names(o, ids)); }
        Part::Alt(ids) => {
            assert(names(b, ids) =~= names(o, ids));
            let t = o.data[id as int];
            let d = defs(t.rest);
            let (ts, c, s) = choose|ts: Seq<crate::Ty>, c: Seq<usize>, s: Seq<CN>| chooser(d[0], takes(t.rest)[0].1, ts) && #[trigger] choice(o, ids, ts, c, s);
            tcs_grew(o, b, c);
            mean_kept(o, b, c, s, s.len() as int, ids);
            assert(choice(b, ids, ts, c, s));
        }
        Part::Fix(k, s) => {
            if !o.ctx.contains(id) {
                let (x, c) = choose|x: usize, c: Seq<usize>| fixed(o, k, s, id, x, c);
                tcs_grew(o, b, c);
                means_kept(o, b, c.push(id), k.e, x);
                assert(fixed(b, k, s, id, x, c));
            }
        }
        Part::Var(f) => {
            let (k, s) = choose|k: CN, s: Seq<usize>| #[trigger] o.is(Part::Fix(k, s), f);
            assert(o.has(Part::Fix(k, s)));
            assert(b.is(Part::Fix(k, s), f));
        }
    }
}

impl B {
    /// The state in which id is the type for p.
    pub open spec fn put(self, p: Part, id: usize) -> B {
        match p {
            Part::Lit(s) => B { lit: self.lit.insert(s, id), ..self },
            Part::Cat(i) => B { cat: self.cat.insert(i, id), ..self },
            Part::Alt(i) => B { alt: self.alt.insert(i, id), ..self },
            Part::Fix(k, s) => B { fix: self.fix.insert((k, s), id), ..self },
            Part::Var(i) => B { var: self.var.insert(i, id), ..self },
        }
    }
}
pub proof fn put_is(b: B, p: Part, id: usize)
    ensures
        forall|q: Part| #[trigger] b.put(p, id).has(q) == (q == p || b.has(q)),
        forall|q: Part| b.has(q) && q != p ==> #[trigger] b.put(p, id).at(q) == b.at(q),
        b.put(p, id).at(p) == id,
{
}

pub proof fn eps_no_digit()
    ensures !ends_with_digit(eps_word()),
{
    reveal_strlit("Epsilon");
}
/// A new type for a part.
#[verifier::spinoff_prover]
pub proof fn added(o: B, b: B, p: Part, t: TyV)
    requires
        inv(o), !o.has(p), !(p is Fix),
        o.len() <= usize::MAX,
        b == (B { data: o.data.push(t), used: b.used, ..o }).put(p, o.len() as usize),
        o.used.subset_of(b.used),
        once(b) && grew(o, b) ==> right(b, p, o.len() as usize),
        !(p is Var) ==> !o.used.contains(word(b, o.len() as usize)),
        forall|j: usize| t.deps.contains(j) ==> j < o.len(),
    ensures inv(b), kept(o, b), b.is(p, o.len() as usize),
{
    let id = o.len() as usize;
    eps_no_digit();
    put_is(B { data: o.data.push(t), used: b.used, ..o }, p, id);
    assert forall|q: Part| #[trigger] o.has(q) implies b.has(q) && b.at(q) == o.at(q) && o.at(q) < id by {
        assert((B { data: o.data.push(t), used: b.used, ..o }).has(q) == o.has(q));
        assert((B { data: o.data.push(t), used: b.used, ..o }).at(q) == o.at(q));
    }
    assert forall|q: Part| #[trigger] b.has(q) implies q == p || o.has(q) by {
        assert((B { data: o.data.push(t), used: b.used, ..o }).has(q) == o.has(q));
    }
    assert(grew(o, b));
    assert(once(b));
    assert(right(b, p, id));
    assert forall|q: Part| #[trigger] b.has(q) implies b.at(q) < b.len() && right(b, q, b.at(q)) by {
        if q != p { right_grew(o, b, q, b.at(q)); }
    }
    assert(apart(b)) by {
        assert forall|q: Part, r: Part| #[trigger] b.has(q) && #[trigger] b.has(r) && !(q is Var) && !(r is Var) && word(b, b.at(q)) == word(b, b.at(r)) implies q == r by {
            if q != p { assert(right(o, q, o.at(q))); assert(named(o, o.at(q))); }
            if r != p { assert(right(o, r, o.at(r))); assert(named(o, o.at(r))); }
        }
    }
    tcs_grew(o, b, o.ctx);
    assert(b.is(p, id));
    assert forall|i: usize| i < b.len() && (#[trigger] b.data[i as int]).rest.len() > 0 implies exists|p: Part| #[trigger] b.is(p, i) by {
        if i < id {
            assert(b.data[i as int] == o.data[i as int]);
            let q = choose|q: Part| #[trigger] o.is(q, i);
            assert(b.is(q, i));
        }
    }
}
/// A new type that is for no part.
pub proof fn added_plain(o: B, b: B, t: TyV)
    requires
        inv(o), o.len() <= usize::MAX,
        b == (B { data: o.data.push(t), ..o }),
        t.deps == Set::<usize>::empty(), t.rest.len() == 0,
    ensures inv(b), kept(o, b),
{
    assert forall|q: Part| #[trigger] b.has(q) == o.has(q) && b.at(q) == o.at(q) by {}
    assert(grew(o, b));
    assert(once(b)) by {
        assert forall|p: Part, q: Part| #[trigger] b.has(p) && #[trigger] b.has(q) && b.at(p) == b.at(q) implies p == q by {
            assert(o.has(p) && o.has(q));
        }
    }
    assert forall|q: Part| #[trigger] b.has(q) implies b.at(q) < b.len() && right(b, q, b.at(q)) by {
        assert(o.has(q));
        right_grew(o, b, q, b.at(q));
    }
    assert(apart(b)) by {
        assert forall|q: Part, r: Part| #[trigger] b.has(q) && #[trigger] b.has(r) && !(q is Var) && !(r is Var) && word(b, b.at(q)) == word(b, b.at(r)) implies q == r by {
            assert(o.has(q) && o.has(r));
        }
    }
    tcs_grew(o, b, o.ctx);
    assert forall|i: usize| i < b.len() && (#[trigger] b.data[i as int]).rest.len() > 0 implies exists|p: Part| #[trigger] b.is(p, i) by {
        if i < o.len() {
            assert(b.data[i as int] == o.data[i as int]);
            let q = choose|q: Part| #[trigger] o.is(q, i);
            assert(b.is(q, i));
        }
    }
}
/// A fixed point has been entered.
pub proof fn pushed(o: B, b: B, k: CN, s: Seq<usize>, t: TyV)
    requires
        inv(o), !o.has(Part::Fix(k, s)), o.len() <= usize::MAX,
        b == (B { data: o.data.push(t), used: b.used, ctx: o.ctx.push(o.len() as usize), ..o }).put(Part::Fix(k, s), o.len() as usize),
        o.used.subset_of(b.used),
        named(b, o.len() as usize),
        t.deps == Set::<usize>::empty(), t.rest.len() == 0,
        !o.used.contains(word(b, o.len() as usize)),
    ensures
        inv(b), grew(o, b), b.is(Part::Fix(k, s), o.len() as usize),
        tcs(b, b.ctx) == tcs(o, o.ctx).push(cty(k)),
        forall|i: int| 0 <= i < o.len() ==> #[trigger] b.data[i] == o.data[i],
        !o.ctx.contains(o.len() as usize),
{
    let id = o.len() as usize;
    let p = Part::Fix(k, s);
    eps_no_digit();
    let m = B { data: o.data.push(t), used: b.used, ctx: o.ctx.push(id), ..o };
    put_is(m, p, id);
    assert forall|q: Part| #[trigger] o.has(q) implies b.has(q) && b.at(q) == o.at(q) && o.at(q) < id by {
        assert(m.has(q) == o.has(q));
        assert(m.at(q) == o.at(q));
    }
    assert forall|q: Part| #[trigger] b.has(q) implies q == p || o.has(q) by {
        assert(m.has(q) == o.has(q));
    }
    assert(grew(o, b));
    assert(once(b));
    assert forall|i: int| 0 <= i < o.ctx.len() implies #[trigger] o.ctx[i] < id by {
        assert(is_fix(o, o.ctx[i]));
        let (k1, s1) = choose|k: CN, s: Seq<usize>| #[trigger] o.is(Part::Fix(k, s), o.ctx[i]);
        assert(o.has(Part::Fix(k1, s1)));
    }
    assert(b.ctx == o.ctx.push(id));
    assert(b.ctx[o.ctx.len() as int] == id);
    assert forall|i: usize| i != id implies (#[trigger] b.ctx.contains(i) <==> o.ctx.contains(i)) by {
        if o.ctx.contains(i) {
            let j = choose|j: int| 0 <= j < o.ctx.len() && o.ctx[j] == i;
            assert(b.ctx[j] == i);
        }
    }
    assert forall|q: Part| #[trigger] b.has(q) implies b.at(q) < b.len() && right(b, q, b.at(q)) by {
        if q != p { right_grew(o, b, q, b.at(q)); }
    }
    assert(apart(b)) by {
        assert forall|q: Part, r: Part| #[trigger] b.has(q) && #[trigger] b.has(r) && !(q is Var) && !(r is Var) && word(b, b.at(q)) == word(b, b.at(r)) implies q == r by {
            if q != p { assert(right(o, q, o.at(q))); assert(named(o, o.at(q))); }
            if r != p { assert(right(o, r, o.at(r))); assert(named(o, o.at(r))); }
        }
    }
    tcs_grew(o, b, o.ctx);
    assert(b.is(p, id));
    typ_is(b, k, s, id);
    assert(tcs(b, b.ctx) =~= tcs(b, o.ctx).push(cty(k)));
    assert forall|i: int| 0 <= i < b.ctx.len() implies is_fix(b, #[trigger] b.ctx[i]) by {
        if i < o.ctx.len() { assert(b.ctx[i] == o.ctx[i]); }
    }
    assert forall|i: usize| i < b.len() && (#[trigger] b.data[i as int]).rest.len() > 0 implies exists|p: Part| #[trigger] b.is(p, i) by {
        if i < id {
            assert(b.data[i as int] == o.data[i as int]);
            let q = choose|q: Part| #[trigger] o.is(q, i);
            assert(b.is(q, i));
        }
    }
}
/// The innermost fixed point is finished.
#[verifier::spinoff_prover]
pub proof fn finished(o: B, b: B, k: CN, s: Seq<usize>, id: usize, x: usize, t: TyV)
    requires
        inv(o), o.ctx.len() > 0, o.ctx.last() == id, o.is(Part::Fix(k, s), id),
        b == (B { data: o.data.update(id as int, t), ctx: o.ctx.drop_last(), ..o }),
        t.name == o.data[id as int].name,
        scope(k.e, b.ctx) == s,
        wt(k.e, tcs(o, o.ctx)),
        means(o, o.ctx, k.e, x), x < o.len(),
        t.deps == Set::empty().insert(x),
        defs(t.rest).len() == 1, defs(t.rest)[0].name == word(o, id), defs(t.rest)[0].shape is Alias,
        defs(t.rest)[0].tys == seq![o.data[x as int].name],
        prints(t.rest).len() == 0, takes(t.rest).len() == 0,
    ensures
        inv(b), grew(o, b), b.is(Part::Fix(k, s), id),
        forall|i: int| 0 <= i < o.len() && i != id ==> #[trigger] b.data[i] == o.data[i],
{
    let p = Part::Fix(k, s);
    eps_no_digit();
    assert(o.has(p));
    assert(right(o, p, id));
    assert forall|q: Part| #[trigger] b.has(q) == o.has(q) && b.at(q) == o.at(q) by {}
    assert(grew(o, b));
    assert(once(b)) by {
        assert forall|p: Part, q: Part| #[trigger] b.has(p) && #[trigger] b.has(q) && b.at(p) == b.at(q) implies p == q by {
            assert(o.has(p) && o.has(q));
        }
    }
    assert forall|i: usize| i != id implies (#[trigger] b.ctx.contains(i) <==> o.ctx.contains(i)) by {
        if o.ctx.contains(i) {
            let j = choose|j: int| 0 <= j < o.ctx.len() && o.ctx[j] == i;
            assert(b.ctx[j] == i);
        }
    }
    assert(!b.ctx.contains(id)) by {
        if b.ctx.contains(id) {
            let j = choose|j: int| 0 <= j < b.ctx.len() && b.ctx[j] == id;
            assert(o.ctx[j] == o.ctx[o.ctx.len() - 1]);
        }
    }
    assert(all_fix(o, b.ctx)) by {
        assert forall|i: int| 0 <= i < b.ctx.len() implies is_fix(o, #[trigger] b.ctx[i]) by { assert(is_fix(o, o.ctx[i])); }
    }
    tcs_grew(o, b, b.ctx);
    typ_is(o, k, s, id);
    assert(tcs(o, o.ctx) =~= tcs(o, b.ctx).push(cty(k)));
    assert(o.ctx =~= b.ctx.push(id));
    means_kept(o, b, o.ctx, k.e, x);
    assert(fixed(b, k, s, id, x, b.ctx));
    assert forall|q: Part| #[trigger] b.has(q) implies b.at(q) < b.len() && right(b, q, b.at(q)) by {
        assert(o.has(q));
        if q != p { right_grew(o, b, q, b.at(q)); }
    }
    assert(apart(b)) by {
        assert forall|q: Part, r: Part| #[trigger] b.has(q) && #[trigger] b.has(r) && !(q is Var) && !(r is Var) && word(b, b.at(q)) == word(b, b.at(r)) implies q == r by {
            assert(o.has(q) && o.has(r));
        }
    }
    assert(b.is(p, id));
    assert forall|i: usize| i < b.len() && (#[trigger] b.data[i as int]).rest.len() > 0 implies exists|p: Part| #[trigger] b.is(p, i) by {
        if i != id {
            assert(b.data[i as int] == o.data[i as int]);
            let q = choose|q: Part| #[trigger] o.is(q, i);
            assert(b.is(q, i));
        }
    }
    assert forall|i: usize, j: usize| i < b.len() && #[trigger] b.data[i as int].deps.contains(j) implies j < b.len() by {
        if i != id { assert(o.data[i as int].deps.contains(j)); }
    }
}

pub proof fn cty_is(t: TypedExpression)
    ensures cty(cn(t)) == tty(tn(t)),
    decreases t,
{
    broadcast use {crate::typed::g_typed, ccat_is, calt_is};
    match t.inner {
        RawTypedExpression::Fix(f) => {
            assert(cn(t).e == CX::Fix(Box::new(cn(*f.inner))));
            assert(tn(t).e == TX::Fix(Box::new(tn(*f.inner))));
            cty_is(*f.inner);
        }
        RawTypedExpression::Cat(c) => {
            assert(cn(t).e == ccat(c));
            assert(tn(t).e == tcat(c));
        }
        RawTypedExpression::Alt(c) => {
            assert(cn(t).e == calt(c));
            assert(tn(t).e == talt(c));
        }
        _ => {}
    }
}
pub proof fn numbers_apart(s: Seq<Str>, fmt: Str, base: Str)
    requires
        fmt =~= seq!['{', '}', '{', '}'], s.len() <= usize::MAX,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == numbered(fmt, base, i as usize),
    ensures s.no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        numbered_once(fmt, base, i as usize, j as usize);
    }
}
}
