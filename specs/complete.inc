// The emitted code accepts all of the language.
verus! {
// ---------------------------------------------------------------- what a type says about the language
pub open spec fn typed_env(env: Seq<CN>, tc: Seq<crate::Ty>) -> bool {
    &&& env.len() == tc.len()
    &&& forall|j: int| 0 <= j < env.len() ==> #[trigger] typed_at(env, tc, j)
}
pub open spec fn typed_at(env: Seq<CN>, tc: Seq<crate::Ty>, j: int) -> bool {
    wt(CX::Fix(Box::new(env[j])), tc.take(j)) && tc[j] == cty(env[j])
}
pub proof fn typed_push(env: Seq<CN>, tc: Seq<crate::Ty>, k: CN)
    requires typed_env(env, tc), wt(CX::Fix(Box::new(k)), tc),
    ensures typed_env(env.push(k), tc.push(cty(k))), wt(k.e, tc.push(cty(k))),
{
    let (e2, t2) = (env.push(k), tc.push(cty(k)));
    assert forall|j: int| 0 <= j < e2.len() implies #[trigger] typed_at(e2, t2, j) by {
        if j < env.len() {
            assert(typed_at(env, tc, j));
            assert(t2.take(j) =~= tc.take(j));
        } else {
            assert(t2.take(j) =~= tc);
        }
    }
}
pub proof fn typed_take(env: Seq<CN>, tc: Seq<crate::Ty>, n: int)
    requires typed_env(env, tc), 0 <= n <= env.len(),
    ensures typed_env(env.take(n), tc.take(n)),
{
    assert forall|j: int| 0 <= j < n implies #[trigger] typed_at(env.take(n), tc.take(n), j) by {
        assert(typed_at(env, tc, j));
        assert(tc.take(n).take(j) =~= tc.take(j));
    }
}
pub proof fn cat_first(ts: Seq<crate::Ty>, k: int)
    requires cats_ok(ts), 1 <= k <= ts.len(),
    ensures !cat_ty(ts, k).nullable, cat_ty(ts, k).first == ts[0].first,
    decreases k,
{
    if k > 1 { cat_first(ts, k - 1); }
}
pub proof fn alt_has(ts: Seq<crate::Ty>, k: int, i: int)
    requires 0 <= i < k <= ts.len(),
    ensures le(ts[i], alt_ty(ts, k)),
    decreases k,
{
    if k > 1 && i < k - 1 { alt_has(ts, k - 1, i); }
}
/// No two branches can start the same way.
pub proof fn branches_apart(ts: Seq<crate::Ty>, i: int, j: int)
    requires alts_ok(ts), 0 <= i < ts.len(), 0 <= j < ts.len(), i != j,
    ensures ts[i].first.disjoint(ts[j].first), !(ts[i].nullable && ts[j].nullable),
{
    let (x, y) = if i < j { (i, j) } else { (j, i) };
    alt_has(ts, y, x);
    assert(alt_ok(alt_ty(ts, y), ts[y]));
}
/// A word of e starts with one of its first characters, or else e is nullable.
pub open spec fn starts_right(ty: crate::Ty, w: Str) -> bool {
    if w.len() == 0 { ty.nullable } else { ty.first.contains(w[0]) }
}
pub proof fn first_of(e: CX, env: Seq<CN>, tc: Seq<crate::Ty>, n: nat, v: V, w: Str)
    requires fits(e, env, n, v, w), wt(e, tc), typed_env(env, tc),
    ensures starts_right(ety(e), w),
    decreases n, e,
{
    match e {
        CX::Eps(_) => {}
        CX::Lit(s, _) => {}
        CX::Cat(es, _) => {
            let ts = ctys(es);
            assert(fit_from(es, 0, env, n, v->Fields_1, w));
            let vs = v->Fields_1;
            let i = choose|i: int| #[trigger] cut(w, i) && fits(es[0].e, env, n, vs[0], w.take(i)) && fit_from(es, 1, env, n, vs.skip(1), w.skip(i));
            wts_at(es, es.len() as int, tc, 0);
            first_of(es[0].e, env, tc, n, vs[0], w.take(i));
            ety_is(es[0]);
            cat_first(ts, ts.len() as int);
            assert(ts[0] == ety(es[0].e));
            assert(w.take(i)[0] == w[0]);
        }
        CX::Alt(es, _) => {
            let ts = ctys(es);
            let m = v->Variant_1;
            wts_at(es, es.len() as int, tc, m);
            first_of(es[m].e, env, tc, n, *v->Variant_2, w);
            ety_is(es[m]);
            alt_has(ts, ts.len() as int, m);
            assert(ts[m] == ety(es[m].e));
        }
        CX::Fix(k) => {
            assert(e == CX::Fix(Box::new(*k)));
            typed_push(env, tc, *k);
            ety_is(*k);
            first_of(k.e, env.push(*k), tc.push(cty(*k)), n, v, w);
        }
        CX::Var(i, _) => {
            let j = env.len() - 1 - i;
            assert(typed_at(env, tc, j));
            typed_take(env, tc, j);
            typed_push(env.take(j), tc.take(j), env[j]);
            assert(env.take(j).push(env[j]) =~= env.take(j + 1));
            ety_is(env[j]);
            first_of(env[j].e, env.take(j + 1), tc.take(j).push(cty(env[j])), (n - 1) as nat, v, w);
        }
    }
}
/// What comes after a word does not continue it.
pub open spec fn follow_ok(r: Str, ty: crate::Ty) -> bool {
    r.len() > 0 ==> !ty.flast.contains(r[0]) && (ty.nullable ==> !ty.first.contains(r[0]))
}
pub open spec fn not_in(r: Str, s: Set<char>) -> bool { r.len() > 0 ==> !s.contains(r[0]) }
pub proof fn ahead(es: Seq<CN>, k: int, env: Seq<CN>, tc: Seq<crate::Ty>, n: nat, vs: Seq<V>, w: Str, r: Str)
    requires
        1 <= k <= es.len(), fit_from(es, k, env, n, vs, w), wts(es, es.len() as int, tc), typed_env(env, tc), cats_ok(ctys(es)),
        not_in(r, cat_ty(ctys(es), es.len() as int).flast),
    ensures not_in(w + r, cat_ty(ctys(es), k).flast),
    decreases es.len() - k,
{
    let ts = ctys(es);
    if k < es.len() {
        let i = choose|i: int| #[trigger] cut(w, i) && fits(es[k].e, env, n, vs[0], w.take(i)) && fit_from(es, k + 1, env, n, vs.skip(1), w.skip(i));
        ahead(es, k + 1, env, tc, n, vs.skip(1), w.skip(i), r);
        wts_at(es, es.len() as int, tc, k);
        first_of(es[k].e, env, tc, n, vs[0], w.take(i));
        ety_is(es[k]);
        assert(ts[k] == ety(es[k].e));
        assert(cat_ty(ts, k).flast.disjoint(ts[k].first));
        assert(cat_ty(ts, k + 1) == ty_cat(cat_ty(ts, k), ts[k]));
        if i == 0 {
            assert(w.skip(0) =~= w);
        } else {
            assert(w.take(i)[0] == w[0]);
            assert((w + r)[0] == w[0]);
        }
    } else {
        assert(w + r =~= r);
    }
}

// ---------------------------------------------------------------- choosing a branch
pub proof fn arm_is(pats: Seq<Seq<Tok>>, s: Str, j: int)
    requires 0 <= j,
    ensures match arm(pats, s, j) {
        Some(x) => j <= x < pats.len() && hit(pats[x], s),
        None => forall|x: int| j <= x < pats.len() ==> !hit(#[trigger] pats[x], s),
    },
    decreases pats.len() - j,
{
    if j < pats.len() && !hit(pats[j], s) { arm_is(pats, s, j + 1); }
}
pub proof fn starting_has(ts: Seq<crate::Ty>, k: int, m: int) -> (x: int)
    requires 0 <= m < k <= ts.len(), ts[m].first != Set::<char>::empty(),
    ensures 0 <= x < starting(ts, k).len(), starting(ts, k)[x] == m,
    decreases k,
{
    if m == k - 1 {
        starting(ts, k).len() - 1
    } else {
        starting_has(ts, k - 1, m)
    }
}
pub proof fn empty_is(ts: Seq<crate::Ty>, k: int, m: int)
    requires 0 <= m < ts.len(), 0 <= k <= ts.len(), ts[m].nullable, forall|j: int| 0 <= j < ts.len() && j != m ==> !(#[trigger] ts[j]).nullable,
    ensures empty_one(ts, k) == (if m < k { Some(m) } else { None }),
    decreases k,
{
    if k > 0 { empty_is(ts, k - 1, m); }
}
pub proof fn selects(d: Def, k: Take, ts: Seq<crate::Ty>, m: int, s: Str)
    requires
        chooser(d, k, ts), alts_ok(ts), 0 <= m < ts.len(),
        s.len() > 0 && ts[m].first.contains(s[0])
        || ts[m].nullable && (s.len() > 0 ==> forall|j: int| 0 <= j < ts.len() ==> !(#[trigger] ts[j]).first.contains(s[0])),
    ensures
        k is Switch, plain_pats(k->pats), k->variants.len() == k->pats.len(),
        selected(k->pats, k->variants, k->other, s) == Some(d.parts[m]),
{
    let on = starting(ts, ts.len() as int);
    let pats = k->pats;
    starting_in(ts, ts.len() as int);
    assert forall|j: int| 0 <= j < pats.len() implies (#[trigger] pats[j]).len() == 1 && pats[j][0] is Somes && pats[j][0]->Somes_0.len() > 0 by {
        let f = ts[on[j]].first;
        sorted_is(f);
        if sorted(f).len() == 0 {
            assert(f =~= Set::<char>::empty()) by {
                assert forall|c: char| !f.contains(c) by { assert(sorted(f).contains(c) == f.contains(c)); }
            }
        }
    }
    assert forall|j: int| 0 <= j < pats.len() && hit(#[trigger] pats[j], s) implies ts[on[j]].first.contains(s[0]) by {
        sorted_is(ts[on[j]].first);
    }
    arm_is(pats, s, 0);
    if s.len() > 0 && ts[m].first.contains(s[0]) {
        assert(ts[m].first != Set::<char>::empty());
        let x = starting_has(ts, ts.len() as int, m);
        sorted_is(ts[m].first);
        assert(sorted(ts[m].first).contains(s[0]));
        assert(hit(pats[x], s));
        let y = arm(pats, s, 0)->0;
        assert(hit(pats[y], s));
        if on[y] != m { branches_apart(ts, on[y], m); }
    } else {
        assert forall|j: int| 0 <= j < ts.len() && j != m implies !(#[trigger] ts[j]).nullable by { branches_apart(ts, j, m); }
        empty_is(ts, ts.len() as int, m);
        if arm(pats, s, 0) is Some {
            let y = arm(pats, s, 0)->0;
            assert(hit(pats[y], s));
            assert(0 <= on[y] < ts.len());
            assert(!ts[on[y]].first.contains(s[0]));
        }
    }
}

// ---------------------------------------------------------------- a generated type has one grammar type
#[verifier::spinoff_prover]
pub proof fn one_type(b: B, c: Seq<usize>, e: CX, c2: Seq<usize>, e2: CX, i: usize)
    requires
        inv(b), b.ctx.len() == 0, means(b, c, e, i), means(b, c2, e2, i), wt(e, tcs(b, c)), wt(e2, tcs(b, c2)),
    ensures ety(e) == ety(e2),
    decreases e,
{
    let p = stands(b, c, e, i);
    let q = stands(b, c2, e2, i);
    match (e, e2) {
        (CX::Cat(s, _), CX::Cat(s2, _)) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), i) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            let ids2 = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), i) && ids.len() == s2.len() && mean(b, c2, s2, s2.len() as int, ids);
            assert(b.has(Part::Cat(ids)) && b.has(Part::Cat(ids2)));
            one_types(b, c, s, c2, s2, ids, e);
            assert(ids == ids2);
        }
        (CX::Alt(s, _), CX::Alt(s2, _)) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), i) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            let ids2 = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), i) && ids.len() == s2.len() && mean(b, c2, s2, s2.len() as int, ids);
            assert(b.has(Part::Alt(ids)) && b.has(Part::Alt(ids2)));
            assert(ids == ids2);
            one_types(b, c, s, c2, s2, ids, e);
        }
        (CX::Fix(k), CX::Fix(k2)) => {
            assert(b.has(Part::Fix(*k, scope(k.e, c))) && b.has(Part::Fix(*k2, scope(k2.e, c2))));
        }
        (CX::Var(j, _), CX::Var(j2, _)) => {
            assert(b.has(Part::Var(c[c.len() - 1 - j])) && b.has(Part::Var(c2[c2.len() - 1 - j2])));
        }
        _ => {}
    }
}
/// The part that a grammar's type stands for, if it is not an Epsilon.
pub proof fn stands(b: B, c: Seq<usize>, e: CX, i: usize) -> (p: Option<Part>)
    requires inv(b), b.ctx.len() == 0, means(b, c, e, i),
    ensures
        p is Some == !(e is Eps),
        match p {
            Some(p) => b.is(p, i) && b.has(p) && match e {
                CX::Lit(s, _) => p == Part::Lit(s),
                CX::Cat(..) => p is Cat,
                CX::Alt(..) => p is Alt,
                CX::Fix(k) => p == Part::Fix(*k, scope(k.e, c)),
                CX::Var(j, _) => p == Part::Var(c[c.len() - 1 - j]),
                CX::Eps(_) => false,
            } && b.data[i as int].name != seq![Tok::Word(eps_word())],
            None => b.data[i as int].name == seq![Tok::Word(eps_word())],
        },
{
    eps_no_digit();
    let p = match e {
        CX::Eps(_) => None,
        CX::Lit(s, _) => Some(Part::Lit(s)),
        CX::Cat(s, _) => Some(Part::Cat(choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), i) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids))),
        CX::Alt(s, _) => Some(Part::Alt(choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), i) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids))),
        CX::Fix(k) => Some(Part::Fix(*k, scope(k.e, c))),
        CX::Var(j, _) => Some(Part::Var(c[c.len() - 1 - j])),
    };
    if p is Some {
        assert(b.has(p->0));
        assert(right(b, p->0, i));
        let x = seq![Tok::Word(eps_word())];
        assert(x[0] == Tok::Word(eps_word()));
        if b.data[i as int].name == x {
            if !(p->0 is Var) { assert(word(b, i) == eps_word()); }
            else { assert(b.data[i as int].name[0] is Generic); }
        }
    }
    p
}
#[verifier::spinoff_prover]
pub proof fn one_types(b: B, c: Seq<usize>, s: Seq<CN>, c2: Seq<usize>, s2: Seq<CN>, ids: Seq<usize>, e: CX)
    requires
        inv(b), b.ctx.len() == 0, ids.len() == s.len() == s2.len(),
        mean(b, c, s, s.len() as int, ids), mean(b, c2, s2, s2.len() as int, ids),
        wts(s, s.len() as int, tcs(b, c)), wts(s2, s2.len() as int, tcs(b, c2)),
        e is Cat && e->Cat_0 == s || e is Alt && e->Alt_0 == s,
    ensures ctys(s) == ctys(s2),
    decreases e, 0int,
{
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] ctys(s)[k] == ctys(s2)[k] by {
        mean_at(b, c, s, s.len() as int, ids, k);
        mean_at(b, c2, s2, s.len() as int, ids, k);
        wts_at(s, s.len() as int, tcs(b, c), k);
        wts_at(s2, s.len() as int, tcs(b, c2), k);
        one_type(b, c, s[k].e, c2, s2[k].e, ids[k]);
        ety_is(s[k]);
        ety_is(s2[k]);
    }
    assert(ctys(s) =~= ctys(s2));
}
pub proof fn ready_typed(b: B, o: Seq<usize>, ctx: Seq<usize>, env: Seq<CN>)
    requires ready(b, o, ctx, env), inv(b),
    ensures typed_env(env, tcs(b, ctx)), all_fix(b, ctx),
{
    let tc = tcs(b, ctx);
    assert forall|j: int| 0 <= j < env.len() implies #[trigger] typed_at(env, tc, j) && is_fix(b, ctx[j]) by {
        assert(bound(b, o, ctx, env, j));
        assert(tc.take(j) =~= tcs(b, ctx.take(j)));
        typ_is(b, env[j], scope(env[j].e, ctx.take(j)), ctx[j]);
    }
    assert forall|j: int| 0 <= j < ctx.len() implies is_fix(b, #[trigger] ctx[j]) by { assert(typed_at(env, tc, j)); }
}

// ---------------------------------------------------------------- every word is read
pub open spec fn reads(t: Seq<Tok>, ty: Seq<Tok>, s: Str, r: Str, n: nat) -> bool {
    match run(t, ty, s, n) { Out::Done(_, q) => q == r, _ => false }
}
pub open spec fn reads_all(t: Seq<Tok>, tys: Seq<Seq<Tok>>, k: int, s: Str, r: Str, n: nat) -> bool {
    match run_all(t, tys, k, s, n) { Outs::Done(_, q) => q == r, _ => false }
}
pub open spec fn ground(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, i: usize) -> bool {
    code(b, id, t, o, w) && ready(b, o, ctx, env) && o.contains(i) && means(b, ctx, e, i) && wt(e, tcs(b, ctx))
}
pub proof fn complete(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, i: usize, v: V, w: Str, r: Str, n: nat,
) -> (m: nat)
    requires ground(b, id, t, o, g, ctx, env, e, i), fits(e, env, n, v, w), follow_ok(r, ety(e)),
    ensures reads(t, b.data[i as int].name, w + r, r, m),
    decreases n, e, 1int,
{
    match e {
        CX::Eps(_) => {
            eps_at_hand(b, id, t, o, g);
            assert(w + r =~= r);
            1
        }
        CX::Lit(x, _) => {
            run_word(b, id, t, o, g, Part::Lit(x), i, w + r, 1);
            at_hand(b, id, t, o, g, Part::Lit(x), i);
            assert((w + r).take(x.len() as int) =~= x);
            assert((w + r).skip(x.len() as int) =~= r);
            1
        }
        CX::Cat(es, _) => complete_cat(b, id, t, o, g, ctx, env, e, es, i, v, w, r, n),
        CX::Alt(es, _) => complete_alt(b, id, t, o, g, ctx, env, e, es, i, v, w, r, n),
        CX::Fix(k) => complete_fix(b, id, t, o, g, ctx, env, e, *k, i, v, w, r, n),
        CX::Var(x, _) => complete_var(b, id, t, o, g, ctx, env, e, x, i, v, w, r, n),
    }
}
#[verifier::spinoff_prover]
pub proof fn complete_fix(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, k: CN, i: usize, v: V, w: Str, r: Str, n: nat,
) -> (m: nat)
    requires e == CX::Fix(Box::new(k)), ground(b, id, t, o, g, ctx, env, e, i), fits(e, env, n, v, w), follow_ok(r, ety(e)),
    ensures reads(t, b.data[i as int].name, w + r, r, m),
    decreases n, e, 0int,
{
    at_hand(b, id, t, o, g, Part::Fix(k, scope(k.e, ctx)), i);
    let x = body_of(b, ctx, k, i);
    assert(b.data[i as int].deps.contains(x));
    ready_push(b, o, ctx, env, i, k);
    ety_is(k);
    let m = complete(b, id, t, o, g, ctx.push(i), env.push(k), k.e, x, v, w, r, n);
    run_word(b, id, t, o, g, Part::Fix(k, scope(k.e, ctx)), i, w + r, m + 1);
    m + 1
}
pub proof fn complete_var(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, x: usize, i: usize, v: V, w: Str, r: Str, n: nat,
) -> (m: nat)
    requires e is Var, e->Var_0 == x, ground(b, id, t, o, g, ctx, env, e, i), fits(e, env, n, v, w), follow_ok(r, ety(e)),
    ensures reads(t, b.data[i as int].name, w + r, r, m),
    decreases n, e, 0int,
{
    let j = ctx.len() - 1 - x;
    let f = ctx[j];
    there(b, Part::Var(f));
    assert(right(b, Part::Var(f), i));
    assert(bound(b, o, ctx, env, j));
    ready_typed(b, o, ctx, env);
    assert(typed_at(env, tcs(b, ctx), j));
    ready_take(b, o, ctx, env, j);
    assert(env.take(j).push(env[j]) =~= env.take(j + 1));
    ety_is(env[j]);
    let m = complete(b, id, t, o, g, ctx.take(j), env.take(j), CX::Fix(Box::new(env[j])), f, v, w, r, (n - 1) as nat);
    let ty = b.data[i as int].name;
    assert(ty.len() == 1 && ty[0] == Tok::Generic("Box"@, b.data[f as int].name));
    assert(run(t, ty, w + r, m + 1) == run(t, b.data[f as int].name, w + r, m));
    m + 1
}
#[verifier::spinoff_prover]
pub proof fn complete_alt(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, es: Seq<CN>, i: usize, v: V, w: Str, r: Str, n: nat,
) -> (m: nat)
    requires e is Alt, e->Alt_0 == es, ground(b, id, t, o, g, ctx, env, e, i), fits(e, env, n, v, w), follow_ok(r, ety(e)),
    ensures reads(t, b.data[i as int].name, w + r, r, m),
    decreases n, e, 0int,
{
    let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), i) && ids.len() == es.len() && mean(b, ctx, es, es.len() as int, ids);
    at_hand(b, id, t, o, g, Part::Alt(ids), i);
    let d = defs(b.data[i as int].rest)[0];
    let k = takes(b.data[i as int].rest)[0].1;
    let (ts, c2, s2) = choose|ts: Seq<crate::Ty>, c: Seq<usize>, s: Seq<CN>| chooser(d, k, ts) && #[trigger] choice(b, ids, ts, c, s);
    assert(choice(b, ids, ts, c2, s2));
    one_types(b, ctx, es, c2, s2, ids, e);
    assert(ts == ctys(es));
    let x = v->Variant_1;
    let tc = tcs(b, ctx);
    wts_at(es, es.len() as int, tc, x);
    ready_typed(b, o, ctx, env);
    first_of(es[x].e, env, tc, n, *v->Variant_2, w);
    ety_is(es[x]);
    assert(ts[x] == ety(es[x].e));
    alt_has(ts, ts.len() as int, x);
    let s = w + r;
    if w.len() > 0 {
        assert(s[0] == w[0]);
    } else {
        assert(s =~= r);
        assert forall|j: int| 0 <= j < ts.len() && s.len() > 0 implies !(#[trigger] ts[j]).first.contains(s[0]) by { alt_has(ts, ts.len() as int, j); }
    }
    selects(d, k, ts, x, s);
    mean_at(b, ctx, es, es.len() as int, ids, x);
    assert(ids.to_set().contains(ids[x]));
    assert(b.data[i as int].deps.contains(ids[x]));
    let m = complete(b, id, t, o, g, ctx, env, es[x].e, ids[x], *v->Variant_2, w, r, n);
    run_word(b, id, t, o, g, Part::Alt(ids), i, s, m + 1);
    assert(d.parts.contains(d.parts[x]));
    assert(part_index(d, d.parts[x]) == Some(x));
    assert(d.tys[x] == b.data[ids[x] as int].name);
    m + 1
}
#[verifier::spinoff_prover]
pub proof fn complete_cat(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, es: Seq<CN>, i: usize, v: V, w: Str, r: Str, n: nat,
) -> (m: nat)
    requires e is Cat, e->Cat_0 == es, ground(b, id, t, o, g, ctx, env, e, i), fits(e, env, n, v, w), follow_ok(r, ety(e)),
    ensures reads(t, b.data[i as int].name, w + r, r, m),
    decreases n, e, 0int,
{
    let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), i) && ids.len() == es.len() && mean(b, ctx, es, es.len() as int, ids);
    at_hand(b, id, t, o, g, Part::Cat(ids), i);
    assert forall|k: int| 0 <= k < ids.len() implies o.contains(#[trigger] ids[k]) by {
        assert(ids.to_set().contains(ids[k]));
        assert(b.data[i as int].deps.contains(ids[k]));
    }
    let m = complete_all(b, id, t, o, g, ctx, env, es, ids, 0, v->Fields_1, w, r, n);
    run_word(b, id, t, o, g, Part::Cat(ids), i, w + r, m + 1);
    let d = defs(b.data[i as int].rest)[0];
    assert(d.tys == names(b, ids));
    m + 1
}
/// What follows a term of a sequence does not continue it.
pub proof fn follows(ts: Seq<crate::Ty>, k: int, r: Str)
    requires cats_ok(ts), 0 <= k < ts.len(), not_in(r, cat_ty(ts, k + 1).flast),
    ensures follow_ok(r, ts[k]),
{
    if k > 0 { assert(cat_ty(ts, k + 1) == ty_cat(cat_ty(ts, k), ts[k])); } else { assert(cat_ty(ts, 1) == ts[0]); }
}
pub proof fn reads_on(t: Seq<Tok>, tys: Seq<Seq<Tok>>, k: int, s: Str, q: Str, r: Str, m1: nat, m2: nat) -> (m: nat)
    requires 0 <= k < tys.len(), reads(t, tys[k], s, q, m1), reads_all(t, tys, k + 1, q, r, m2),
    ensures reads_all(t, tys, k, s, r, m),
{
    let m = if m1 < m2 { m2 } else { m1 };
    run_more(t, tys[k], s, m1, m);
    run_all_more(t, tys, k + 1, q, m2, m);
    m
}
#[verifier::spinoff_prover]
pub proof fn complete_all(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, es: Seq<CN>, ids: Seq<usize>, k: int, vs: Seq<V>, w: Str, r: Str,
    n: nat,
) -> (m: nat)
    requires
        code(b, id, t, o, g), ready(b, o, ctx, env), wts(es, es.len() as int, tcs(b, ctx)), cats_ok(ctys(es)),
        ids.len() == es.len(), mean(b, ctx, es, es.len() as int, ids), 0 <= k <= es.len(),
        forall|k: int| 0 <= k < ids.len() ==> o.contains(#[trigger] ids[k]),
        fit_from(es, k, env, n, vs, w), not_in(r, cat_ty(ctys(es), es.len() as int).flast),
    ensures reads_all(t, names(b, ids), k, w + r, r, m),
    decreases n, es, es.len() - k,
{
    hide(lower::inv);
    hide(emits);
    hide(ready);
    hide(run);
    hide(run_all);
    hide(cat_ty);
    hide(cats_ok);
    hide(follow_ok);
    let tys = names(b, ids);
    let ts = ctys(es);
    let tc = tcs(b, ctx);
    if k < es.len() {
        let i = choose|i: int| #[trigger] cut(w, i) && fits(es[k].e, env, n, vs[0], w.take(i)) && fit_from(es, k + 1, env, n, vs.skip(1), w.skip(i));
        let (x, y) = (w.take(i), w.skip(i));
        ready_typed(b, o, ctx, env);
        ahead(es, k + 1, env, tc, n, vs.skip(1), y, r);
        mean_at(b, ctx, es, es.len() as int, ids, k);
        wts_at(es, es.len() as int, tc, k);
        assert(o.contains(ids[k]));
        ety_is(es[k]);
        assert(ts[k] == ety(es[k].e));
        follows(ts, k, y + r);
        let m1 = complete(b, id, t, o, g, ctx, env, es[k].e, ids[k], vs[0], x, y + r, n);
        let m2 = complete_all(b, id, t, o, g, ctx, env, es, ids, k + 1, vs.skip(1), y, r, n);
        assert(x + (y + r) =~= w + r);
        reads_on(t, tys, k, w + r, y + r, r, m1, m2)
    } else {
        reveal_with_fuel(run_all, 2);
        assert(w + r =~= r);
        0
    }
}
}
