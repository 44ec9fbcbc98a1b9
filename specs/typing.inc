// Which grammars are well typed, and with which type.
verus! {
/// A grammar with its types.
pub ghost struct TN {
    pub name: Option<Name>,
    pub span: Span,
    pub e: TX,
}

pub ghost enum TX {
    Eps(Ty),
    Lit(Seq<char>, Ty),
    Cat(Seq<TN>, Ty),
    Alt(Seq<TN>, Ty),
    Fix(Box<TN>),
    Var(nat, Ty),
}

/// The type of a typed grammar; a fixed point has its body's.
pub open spec fn tty(t: TN) -> Ty
    decreases t,
{
    match t.e {
        TX::Eps(t) => t,
        TX::Lit(_, t) => t,
        TX::Cat(_, t) => t,
        TX::Alt(_, t) => t,
        TX::Fix(b) => tty(*b),
        TX::Var(_, t) => t,
    }
}

pub open spec fn le(a: Ty, b: Ty) -> bool {
    &&& a.nullable ==> b.nullable
    &&& a.first.subset_of(b.first)
    &&& a.flast.subset_of(b.flast)
}

/// t is a type that the body f has when its variable has that type.
pub open spec fn fix_at(f: spec_fn(Ty) -> Option<TN>, t: Ty) -> bool {
    f(t) is Some && tty(f(t)->0) == t
}

/// ... and the least such type.
pub open spec fn least(f: spec_fn(Ty) -> Option<TN>, t: Ty) -> bool {
    fix_at(f, t) && forall|s: Ty| #[trigger] fix_at(f, s) ==> le(t, s)
}

/// The typed grammar for e where the variables have the types ctx (innermost last) and those before `guard` may be
/// used; None if e is not well typed.
pub open spec fn inf(e: X, name: Option<Name>, span: Span, ctx: Seq<Ty>, guard: int) -> Option<TN>
    decreases e, 0int,
{
    match e {
        X::Eps => Some(TN { name, span, e: TX::Eps(ty_eps()) }),
        X::Lit(s) => Some(TN { name, span, e: TX::Lit(s, ty_str(s)) }),
        X::Cat(f, r) => match inf(f.e, f.name, f.span, ctx, guard) {
            Some(a) => if tty(a).nullable {
                None
            } else {
                match inf_cat(r, r.len() as int, tty(a), ctx) {
                    Some((ts, t)) => Some(TN { name, span, e: TX::Cat(seq![a] + ts, t) }),
                    None => None,
                }
            },
            None => None,
        },
        X::Alt(f, r) => match inf(f.e, f.name, f.span, ctx, guard) {
            Some(a) => match inf_alt(r, r.len() as int, tty(a), ctx, guard) {
                Some((ts, t)) => Some(TN { name, span, e: TX::Alt(seq![a] + ts, t) }),
                None => None,
            },
            None => None,
        },
        X::Fix(f) => match f.e {
            X::Lambda(ps, b) => if ps.len() == 1 {
                let g = fixbody(*b, merge2(merge2(f.name, b.name), name), ctx, guard);
                if exists|t: Ty| least(g, t) {
                    Some(TN { name, span, e: TX::Fix(Box::new(g(choose|t: Ty| least(g, t))->0)) })
                } else {
                    None
                }
            } else {
                None
            },
            _ => None,
        },
        X::Var(i) => if i < ctx.len() && ctx.len() - 1 - i < guard {
            Some(TN { name, span, e: TX::Var(i, ctx[ctx.len() - 1 - i]) })
        } else {
            None
        },
        _ => None,
    }
}

/// The body of a fixed point, as a function of the variable's type.
pub open spec fn fixbody(b: N, name: Option<Name>, ctx: Seq<Ty>, guard: int) -> spec_fn(Ty) -> Option<TN>
    decreases b.e, 1int,
{
    |t: Ty| inf(b.e, name, b.span, ctx.push(t), guard)
}

/// The first k of the later parts of a concatenation that starts with type t0.
pub open spec fn inf_cat(r: Seq<(Span, N)>, k: int, t0: Ty, ctx: Seq<Ty>) -> Option<(Seq<TN>, Ty)>
    decreases r, k,
{
    if k <= 0 || k > r.len() {
        Some((seq![], t0))
    } else {
        match inf_cat(r, k - 1, t0, ctx) {
            Some((ts, t)) => match inf(r[k - 1].1.e, r[k - 1].1.name, r[k - 1].1.span, ctx, ctx.len() as int) {
                Some(b) => if t.flast.disjoint(tty(b).first) { Some((ts.push(b), ty_cat(t, tty(b)))) } else { None },
                None => None,
            },
            None => None,
        }
    }
}

pub open spec fn inf_alt(r: Seq<(Span, N)>, k: int, t0: Ty, ctx: Seq<Ty>, guard: int) -> Option<(Seq<TN>, Ty)>
    decreases r, k,
{
    if k <= 0 || k > r.len() {
        Some((seq![], t0))
    } else {
        match inf_alt(r, k - 1, t0, ctx, guard) {
            Some((ts, t)) => match inf(r[k - 1].1.e, r[k - 1].1.name, r[k - 1].1.span, ctx, guard) {
                Some(b) => if alt_ok(t, tty(b)) { Some((ts.push(b), ty_alt(t, tty(b)))) } else { None },
                None => None,
            },
            None => None,
        }
    }
}

/// Once a part fails, so does the whole.
pub proof fn inf_cat_fails(r: Seq<(Span, N)>, k: int, t0: Ty, ctx: Seq<Ty>)
    requires 0 <= k <= r.len(), inf_cat(r, k, t0, ctx) is None,
    ensures inf_cat(r, r.len() as int, t0, ctx) is None,
    decreases r.len() - k,
{
    if k < r.len() { inf_cat_fails(r, k + 1, t0, ctx); }
}
pub proof fn inf_alt_fails(r: Seq<(Span, N)>, k: int, t0: Ty, ctx: Seq<Ty>, guard: int)
    requires 0 <= k <= r.len(), inf_alt(r, k, t0, ctx, guard) is None,
    ensures inf_alt(r, r.len() as int, t0, ctx, guard) is None,
    decreases r.len() - k,
{
    if k < r.len() { inf_alt_fails(r, k + 1, t0, ctx, guard); }
}

// ------------------------------------------------------------ there are finitely many types
pub open spec fn size(t: Ty) -> nat {
    t.first.len() + t.flast.len() + if t.nullable { 1nat } else { 0nat }
}

pub open spec fn room(t: Ty) -> int {
    0x220001 - size(t)
}

pub proof fn chars_bound(s: Set<char>)
    ensures s.len() <= 0x110000,
{
    let m = s.map(|c: char| c as int);
    vstd::set_lib::lemma_map_size(s, m, |c: char| c as int);
    vstd::set_lib::lemma_int_range(0, 0x110000);
    vstd::set_lib::lemma_len_subset(m, vstd::set_lib::set_int_range(0, 0x110000));
}

pub proof fn grows(a: Ty, b: Ty)
    requires le(a, b), a != b,
    ensures 0 <= room(b) < room(a),
{
    chars_bound(b.first);
    chars_bound(b.flast);
    vstd::set_lib::lemma_len_subset(a.first, b.first);
    vstd::set_lib::lemma_len_subset(a.flast, b.flast);
    if a.first.len() == b.first.len() { vstd::set_lib::lemma_subset_equality(a.first, b.first); }
    if a.flast.len() == b.flast.len() { vstd::set_lib::lemma_subset_equality(a.flast, b.flast); }
}

// ------------------------------------------------------------ monotonicity
pub open spec fn ctx_le(a: Seq<Ty>, b: Seq<Ty>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> le(#[trigger] a[i], b[i])
}

/// Smaller types are accepted more often, and give smaller types.
pub open spec fn mono(f: spec_fn(Ty) -> Option<TN>, g: spec_fn(Ty) -> Option<TN>) -> bool {
    forall|a: Ty, b: Ty| le(a, b) && #[trigger] g(b) is Some ==> #[trigger] f(a) is Some && le(tty(f(a)->0), tty(g(b)->0))
}

/// Climbing from t ends in the least fixed point, below any type that is not increased.
pub proof fn climb(f: spec_fn(Ty) -> Option<TN>, t: Ty, top: Ty)
    requires
        mono(f, f),
        f(top) is Some, le(tty(f(top)->0), top),
        le(t, top),
        f(t) is Some ==> le(t, tty(f(t)->0)),
        forall|s: Ty| #[trigger] fix_at(f, s) ==> le(t, s),
    ensures
        exists|l: Ty| least(f, l) && le(l, top),
    decreases room(t),
{
    assert(f(t) is Some && le(tty(f(t)->0), tty(f(top)->0)));
    let u = tty(f(t)->0);
    if u == t {
        assert(least(f, t));
    } else {
        grows(t, u);
        assert(f(u) is Some ==> le(u, tty(f(u)->0)));
        assert forall|s: Ty| #[trigger] fix_at(f, s) implies le(u, s) by {
            assert(le(t, s));
            assert(le(tty(f(t)->0), tty(f(s)->0)));
        }
        climb(f, u, top);
    }
}

pub proof fn least_once(f: spec_fn(Ty) -> Option<TN>, a: Ty, b: Ty)
    requires least(f, a), least(f, b),
    ensures a == b,
{
    assert(le(a, b) && le(b, a));
    assert(a.first =~= b.first);
    assert(a.flast =~= b.flast);
}

pub proof fn fixbody_mono(b: N, name: Option<Name>, c1: Seq<Ty>, c2: Seq<Ty>, guard: int)
    requires ctx_le(c1, c2),
    ensures mono(fixbody(b, name, c1, guard), fixbody(b, name, c2, guard)),
    decreases b.e, 1int,
{
    let f = fixbody(b, name, c1, guard);
    let g = fixbody(b, name, c2, guard);
    assert forall|s: Ty, t: Ty| le(s, t) && #[trigger] g(t) is Some implies #[trigger] f(s) is Some && le(tty(f(s)->0), tty(g(t)->0)) by {
        inf_mono(b.e, name, b.span, c1.push(s), c2.push(t), guard);
    }
}

pub proof fn inf_mono(e: X, name: Option<Name>, span: Span, c1: Seq<Ty>, c2: Seq<Ty>, guard: int)
    requires ctx_le(c1, c2),
    ensures
        inf(e, name, span, c2, guard) is Some ==> {
            &&& inf(e, name, span, c1, guard) is Some
            &&& le(tty(inf(e, name, span, c1, guard)->0), tty(inf(e, name, span, c2, guard)->0))
        },
    decreases e, 0int,
{
    if inf(e, name, span, c2, guard) is Some {
        match e {
            X::Cat(f, r) => {
                inf_mono(f.e, f.name, f.span, c1, c2, guard);
                inf_cat_mono(r, r.len() as int, tty(inf(f.e, f.name, f.span, c1, guard)->0), tty(inf(f.e, f.name, f.span, c2, guard)->0), c1, c2);
            },
            X::Alt(f, r) => {
                inf_mono(f.e, f.name, f.span, c1, c2, guard);
                inf_alt_mono(r, r.len() as int, tty(inf(f.e, f.name, f.span, c1, guard)->0), tty(inf(f.e, f.name, f.span, c2, guard)->0), c1, c2, guard);
            },
            X::Fix(f) => {
                if let X::Lambda(ps, b) = f.e {
                    let nm = merge2(merge2(f.name, b.name), name);
                    let g1 = fixbody(*b, nm, c1, guard);
                    let g2 = fixbody(*b, nm, c2, guard);
                    fixbody_mono(*b, nm, c1, c2, guard);
                    fixbody_mono(*b, nm, c1, c1, guard);
                    let t2 = choose|t: Ty| least(g2, t);
                    assert(g1(t2) is Some && le(tty(g1(t2)->0), tty(g2(t2)->0)));
                    climb(g1, ty_bot(), t2);
                    let t1 = choose|l: Ty| least(g1, l) && le(l, t2);
                    least_once(g1, t1, choose|t: Ty| least(g1, t));
                }
            },
            _ => {},
        }
    }
}

pub proof fn inf_cat_mono(r: Seq<(Span, N)>, k: int, t1: Ty, t2: Ty, c1: Seq<Ty>, c2: Seq<Ty>)
    requires ctx_le(c1, c2), le(t1, t2),
    ensures
        inf_cat(r, k, t2, c2) is Some ==> {
            &&& inf_cat(r, k, t1, c1) is Some
            &&& le((inf_cat(r, k, t1, c1)->0).1, (inf_cat(r, k, t2, c2)->0).1)
        },
    decreases r, k,
{
    if 0 < k <= r.len() {
        inf_cat_mono(r, k - 1, t1, t2, c1, c2);
        inf_mono(r[k - 1].1.e, r[k - 1].1.name, r[k - 1].1.span, c1, c2, c1.len() as int);
    }
}

pub proof fn inf_alt_mono(r: Seq<(Span, N)>, k: int, t1: Ty, t2: Ty, c1: Seq<Ty>, c2: Seq<Ty>, guard: int)
    requires ctx_le(c1, c2), le(t1, t2),
    ensures
        inf_alt(r, k, t2, c2, guard) is Some ==> {
            &&& inf_alt(r, k, t1, c1, guard) is Some
            &&& le((inf_alt(r, k, t1, c1, guard)->0).1, (inf_alt(r, k, t2, c2, guard)->0).1)
        },
    decreases r, k,
{
    if 0 < k <= r.len() {
        inf_alt_mono(r, k - 1, t1, t2, c1, c2, guard);
        inf_mono(r[k - 1].1.e, r[k - 1].1.name, r[k - 1].1.span, c1, c2, guard);
    }
}

/// A grammar is well typed if its body has any fixed point at all.
pub proof fn any_fix(b: N, name: Option<Name>, ctx: Seq<Ty>, guard: int, t: Ty)
    requires fix_at(fixbody(b, name, ctx, guard), t),
    ensures exists|l: Ty| least(fixbody(b, name, ctx, guard), l),
{
    fixbody_mono(b, name, ctx, ctx, guard);
    climb(fixbody(b, name, ctx, guard), ty_bot(), t);
}

// ------------------------------------------------------------ the types tried for a fixed point
/// The n-th type tried for the variable of a fixed point, the first being the empty one.
pub open spec fn nth(f: spec_fn(Ty) -> Option<TN>, n: nat) -> Option<Ty>
    decreases n,
{
    if n == 0 {
        Some(ty_bot())
    } else {
        match nth(f, (n - 1) as nat) {
            Some(t) => match f(t) { Some(b) => Some(tty(b)), None => None },
            None => None,
        }
    }
}

pub open spec fn climbed(f: spec_fn(Ty) -> Option<TN>, t: Ty) -> bool {
    exists|n: nat| #[trigger] nth(f, n) == Some(t)
}

pub proof fn climbed_none(f: spec_fn(Ty) -> Option<TN>)
    ensures climbed(f, ty_bot()),
{
    assert(nth(f, 0) == Some(ty_bot()));
}

pub proof fn climbed_on(f: spec_fn(Ty) -> Option<TN>, t: Ty)
    requires climbed(f, t), f(t) is Some,
    ensures climbed(f, tty(f(t)->0)),
{
    let n = choose|n: nat| #[trigger] nth(f, n) == Some(t);
    assert(nth(f, n + 1) == Some(tty(f(t)->0)));
}
}
