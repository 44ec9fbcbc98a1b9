// Parsing ends on every text.
verus! {
/// Variables are used only once input has been consumed since their fixed point was entered: those bound at depths below
/// `guard` may be used.
pub open spec fn gd(e: CX, len: int, guard: int) -> bool
    decreases e, 0int,
{
    match e {
        CX::Cat(s, _) => gd_cat(s, s.len() as int, len, guard),
        CX::Alt(s, _) => gd_alt(s, s.len() as int, len, guard),
        CX::Fix(k) => gd(k.e, len + 1, guard),
        CX::Var(i, _) => i < len && len - 1 - i < guard,
        _ => true,
    }
}
pub open spec fn gd_cat(s: Seq<CN>, k: int, len: int, guard: int) -> bool
    decreases s, k,
{
    if k <= 0 || k > s.len() { true } else { gd_cat(s, k - 1, len, guard) && gd(s[k - 1].e, len, if k == 1 { guard } else { len }) }
}
pub open spec fn gd_alt(s: Seq<CN>, k: int, len: int, guard: int) -> bool
    decreases s, k,
{
    if k <= 0 || k > s.len() { true } else { gd_alt(s, k - 1, len, guard) && gd(s[k - 1].e, len, guard) }
}
pub proof fn gd_cat_at(s: Seq<CN>, k: int, len: int, guard: int, i: int)
    requires gd_cat(s, k, len, guard), 0 <= i < k <= s.len(),
    ensures gd(s[i].e, len, if i == 0 { guard } else { len }),
    decreases k,
{
    if i < k - 1 { gd_cat_at(s, k - 1, len, guard, i); }
}
pub proof fn gd_alt_at(s: Seq<CN>, k: int, len: int, guard: int, i: int)
    requires gd_alt(s, k, len, guard), 0 <= i < k <= s.len(),
    ensures gd(s[i].e, len, guard),
    decreases k,
{
    if i < k - 1 { gd_alt_at(s, k - 1, len, guard, i); }
}
pub proof fn gd_cat_all(s: Seq<CN>, k: int, len: int, guard: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> gd((#[trigger] s[i]).e, len, if i == 0 { guard } else { len }),
    ensures gd_cat(s, k, len, guard),
    decreases k,
{
    if k > 0 { gd_cat_all(s, k - 1, len, guard); assert(gd(s[k - 1].e, len, if k == 1 { guard } else { len })); }
}
pub proof fn gd_alt_all(s: Seq<CN>, k: int, len: int, guard: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> gd((#[trigger] s[i]).e, len, guard),
    ensures gd_alt(s, k, len, guard),
    decreases k,
{
    if k > 0 { gd_alt_all(s, k - 1, len, guard); assert(gd(s[k - 1].e, len, guard)); }
}
/// What type inference accepts is guarded.
#[verifier::spinoff_prover]
pub proof fn inf_gd(e: X, name: Option<Name>, span: Span, ctx: Seq<crate::Ty>, guard: int, t: TypedExpression)
    requires inf(e, name, span, ctx, guard) == Some(tn(t)),
    ensures gd(cx(t.inner), ctx.len() as int, guard),
    decreases t,
{
    cx_is(t.inner);
    broadcast use {crate::typed::tcat_is, crate::typed::talt_is};
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    match t.inner {
        RawTypedExpression::Cat(c) => {
            assert(tn(t).e == tcat(c));
            if let X::Cat(f, r) = e {
                let a = inf(f.e, f.name, f.span, ctx, guard)->0;
                let (ts, ty) = inf_cat(r, r.len() as int, tty(a), ctx)->0;
                inf_cat_is(r, r.len() as int, tty(a), ctx);
                assert(tall(c.terms@) =~= seq![a] + ts);
                let s = call(c.terms@);
                assert(s.len() == tall(c.terms@).len() == ts.len() + 1 == r.len() + 1);
                assert forall|i: int| 0 <= i < s.len() implies gd((#[trigger] s[i]).e, ctx.len() as int, if i == 0 { guard } else { ctx.len() as int }) by {
                    assert(tall(c.terms@)[i] == tn(c.terms@[i]));
                    assert(s[i].e == cx(c.terms@[i].inner));
                    if i == 0 {
                        assert(tn(c.terms@[0]) == a);
                        inf_gd(f.e, f.name, f.span, ctx, guard, c.terms[0]);
                    } else {
                        assert((seq![a] + ts)[i] == ts[i - 1]);
                        assert(tn(c.terms@[i]) == ts[i - 1]);
                        let q = r[i - 1].1;
                        inf_gd(q.e, q.name, q.span, ctx, ctx.len() as int, c.terms[i]);
                    }
                }
                gd_cat_all(s, s.len() as int, ctx.len() as int, guard);
            }
        }
        RawTypedExpression::Alt(c) => {
            assert(tn(t).e == talt(c));
            if let X::Alt(f, r) = e {
                let a = inf(f.e, f.name, f.span, ctx, guard)->0;
                let (ts, ty) = inf_alt(r, r.len() as int, tty(a), ctx, guard)->0;
                inf_alt_is(r, r.len() as int, tty(a), ctx, guard);
                assert(tall(c.terms@) =~= seq![a] + ts);
                let s = call(c.terms@);
                assert(s.len() == tall(c.terms@).len() == ts.len() + 1 == r.len() + 1);
                assert forall|i: int| 0 <= i < s.len() implies gd((#[trigger] s[i]).e, ctx.len() as int, guard) by {
                    assert(tall(c.terms@)[i] == tn(c.terms@[i]));
                    assert(s[i].e == cx(c.terms@[i].inner));
                    if i == 0 {
                        assert(tn(c.terms@[0]) == a);
                        inf_gd(f.e, f.name, f.span, ctx, guard, c.terms[0]);
                    } else {
                        assert((seq![a] + ts)[i] == ts[i - 1]);
                        assert(tn(c.terms@[i]) == ts[i - 1]);
                        let q = r[i - 1].1;
                        inf_gd(q.e, q.name, q.span, ctx, guard, c.terms[i]);
                    }
                }
                gd_alt_all(s, s.len() as int, ctx.len() as int, guard);
            }
        }
        RawTypedExpression::Fix(f) => {
            assert(tn(t).e == TX::Fix(Box::new(tn(*f.inner))));
            assert(cx(t.inner) == CX::Fix(Box::new(cn(*f.inner))));
            if let X::Fix(p) = e {
                if let X::Lambda(ps, b) = p.e {
                    let nm = merge2(merge2(p.name, b.name), name);
                    let g = fixbody(*b, nm, ctx, guard);
                    let y = choose|y: crate::Ty| least(g, y);
                    assert(g(y)->0 == tn(*f.inner));
                    assert(fix_at(g, y));
                    inf_gd(b.e, nm, b.span, ctx.push(y), guard, *f.inner);
                }
            }
        }
        _ => {}
    }
}

/// The fixed points around a grammar are guarded as they were where they were entered.
pub open spec fn guards(env: Seq<CN>, gs: Seq<int>) -> bool {
    env.len() == gs.len() && forall|j: int| 0 <= j < env.len() ==> #[trigger] guarded(env, gs, j)
}
pub open spec fn guarded(env: Seq<CN>, gs: Seq<int>, j: int) -> bool {
    0 <= gs[j] <= j && gd(CX::Fix(Box::new(env[j])), j, gs[j])
}
pub proof fn guards_push(env: Seq<CN>, gs: Seq<int>, k: CN, g: int)
    requires guards(env, gs), 0 <= g <= env.len(), gd(CX::Fix(Box::new(k)), env.len() as int, g),
    ensures guards(env.push(k), gs.push(g)), gd(k.e, env.len() as int + 1, g),
{
    assert forall|j: int| 0 <= j < env.push(k).len() implies #[trigger] guarded(env.push(k), gs.push(g), j) by {
        if j < env.len() { assert(guarded(env, gs, j)); }
    }
}
pub proof fn guards_take(env: Seq<CN>, gs: Seq<int>, n: int)
    requires guards(env, gs), 0 <= n <= env.len(),
    ensures guards(env.take(n), gs.take(n)),
{
    assert forall|j: int| 0 <= j < n implies #[trigger] guarded(env.take(n), gs.take(n), j) by { assert(guarded(env, gs, j)); }
}
/// Whatever branch is taken is one of the branches.
pub proof fn selects_one(d: Def, k: Take, ts: Seq<crate::Ty>, s: Str) -> (x: int)
    requires chooser(d, k, ts), d.parts.len() == ts.len(), d.parts.no_duplicates(),
    ensures
        k is Switch, plain_pats(k->pats), k->variants.len() == k->pats.len(),
        selected(k->pats, k->variants, k->other, s) is Some ==> {
            &&& 0 <= x < ts.len()
            &&& part_index(d, selected(k->pats, k->variants, k->other, s)->0) == Some(x)
        },
{
    let on = starting(ts, ts.len() as int);
    let pats = k->pats;
    starting_in(ts, ts.len() as int);
    empty_in(ts, ts.len() as int);
    assert forall|j: int| 0 <= j < pats.len() implies (#[trigger] pats[j]).len() == 1 && pats[j][0] is Somes && pats[j][0]->Somes_0.len() > 0 by {
        let f = ts[on[j]].first;
        sorted_is(f);
        if sorted(f).len() == 0 {
            assert(f =~= Set::<char>::empty()) by {
                assert forall|c: char| !f.contains(c) by { assert(sorted(f).contains(c) == f.contains(c)); }
            }
        }
    }
    arm_is(pats, s, 0);
    let x = match arm(pats, s, 0) {
        Some(j) => on[j],
        None => match empty_one(ts, ts.len() as int) { Some(i) => i, None => 0 },
    };
    if selected(k->pats, k->variants, k->other, s) is Some {
        assert(d.parts.contains(d.parts[x]));
    }
    x
}

#[verifier::spinoff_prover]
pub proof fn ends(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, i: usize, guard: int, s: Str,
) -> (m: nat)
    requires ground(b, id, t, o, g, ctx, env, e, i), guards(env, gs), 0 <= guard <= ctx.len(), gd(e, ctx.len() as int, guard),
    ensures !(run(t, b.data[i as int].name, s, m) is Open),
    decreases s.len(), guard, e, 1int,
{
    match e {
        CX::Eps(_) => {
            eps_at_hand(b, id, t, o, g);
            1
        }
        CX::Lit(x, _) => {
            run_word(b, id, t, o, g, Part::Lit(x), i, s, 1);
            at_hand(b, id, t, o, g, Part::Lit(x), i);
            1
        }
        CX::Cat(es, _) => ends_cat(b, id, t, o, g, ctx, env, gs, e, es, i, guard, s),
        CX::Alt(es, _) => ends_alt(b, id, t, o, g, ctx, env, gs, e, es, i, guard, s),
        CX::Fix(k) => {
            assert(e == CX::Fix(Box::new(*k)));
            at_hand(b, id, t, o, g, Part::Fix(*k, scope(k.e, ctx)), i);
            let x = body_of(b, ctx, *k, i);
            assert(b.data[i as int].deps.contains(x));
            ready_push(b, o, ctx, env, i, *k);
            guards_push(env, gs, *k, guard);
            let m = ends(b, id, t, o, g, ctx.push(i), env.push(*k), gs.push(guard), k.e, x, guard, s);
            run_word(b, id, t, o, g, Part::Fix(*k, scope(k.e, ctx)), i, s, m + 1);
            m + 1
        }
        CX::Var(x, _) => ends_var(b, id, t, o, g, ctx, env, gs, e, x, i, guard, s),
    }
}
pub proof fn ends_var(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, x: usize, i: usize, guard: int, s: Str,
) -> (m: nat)
    requires
        e is Var, e->Var_0 == x, ground(b, id, t, o, g, ctx, env, e, i), guards(env, gs), 0 <= guard <= ctx.len(), gd(e, ctx.len() as int, guard),
    ensures !(run(t, b.data[i as int].name, s, m) is Open),
    decreases s.len(), guard, e, 0int,
{
    let j = ctx.len() - 1 - x;
    let f = ctx[j];
    there(b, Part::Var(f));
    assert(right(b, Part::Var(f), i));
    assert(bound(b, o, ctx, env, j));
    assert(guarded(env, gs, j));
    ready_take(b, o, ctx, env, j);
    guards_take(env, gs, j);
    let m = ends(b, id, t, o, g, ctx.take(j), env.take(j), gs.take(j), CX::Fix(Box::new(env[j])), f, gs[j], s);
    let ty = b.data[i as int].name;
    assert(ty.len() == 1 && ty[0] == Tok::Generic("Box"@, b.data[f as int].name));
    assert(run(t, ty, s, m + 1) == run(t, b.data[f as int].name, s, m));
    m + 1
}
#[verifier::spinoff_prover]
pub proof fn ends_alt(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, es: Seq<CN>, i: usize, guard: int, s: Str,
) -> (m: nat)
    requires
        e is Alt, e->Alt_0 == es, ground(b, id, t, o, g, ctx, env, e, i), guards(env, gs), 0 <= guard <= ctx.len(), gd(e, ctx.len() as int, guard),
    ensures !(run(t, b.data[i as int].name, s, m) is Open),
    decreases s.len(), guard, e, 0int,
{
    let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), i) && ids.len() == es.len() && mean(b, ctx, es, es.len() as int, ids);
    at_hand(b, id, t, o, g, Part::Alt(ids), i);
    let d = defs(b.data[i as int].rest)[0];
    let k = takes(b.data[i as int].rest)[0].1;
    let (ts, c2, s2) = choose|ts: Seq<crate::Ty>, c: Seq<usize>, s: Seq<CN>| chooser(d, k, ts) && #[trigger] choice(b, ids, ts, c, s);
    assert(choice(b, ids, ts, c2, s2));
    let x = selects_one(d, k, ts, s);
    if selected(k->pats, k->variants, k->other, s) is Some {
        wts_at(es, es.len() as int, tcs(b, ctx), x);
        gd_alt_at(es, es.len() as int, ctx.len() as int, guard, x);
        mean_at(b, ctx, es, es.len() as int, ids, x);
        assert(ids.to_set().contains(ids[x]));
        assert(b.data[i as int].deps.contains(ids[x]));
        let m = ends(b, id, t, o, g, ctx, env, gs, es[x].e, ids[x], guard, s);
        run_word(b, id, t, o, g, Part::Alt(ids), i, s, m + 1);
        assert(d.tys[x] == b.data[ids[x] as int].name);
        m + 1
    } else {
        run_word(b, id, t, o, g, Part::Alt(ids), i, s, 1);
        1
    }
}
#[verifier::spinoff_prover]
pub proof fn ends_cat(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, es: Seq<CN>, i: usize, guard: int, s: Str,
) -> (m: nat)
    requires
        e is Cat, e->Cat_0 == es, ground(b, id, t, o, g, ctx, env, e, i), guards(env, gs), 0 <= guard <= ctx.len(), gd(e, ctx.len() as int, guard),
    ensures !(run(t, b.data[i as int].name, s, m) is Open),
    decreases s.len(), guard, e, 0int,
{
    let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), i) && ids.len() == es.len() && mean(b, ctx, es, es.len() as int, ids);
    at_hand(b, id, t, o, g, Part::Cat(ids), i);
    assert forall|k: int| 0 <= k < ids.len() implies o.contains(#[trigger] ids[k]) by {
        assert(ids.to_set().contains(ids[k]));
        assert(b.data[i as int].deps.contains(ids[k]));
    }
    let d = defs(b.data[i as int].rest)[0];
    let tys = names(b, ids);
    let tc = tcs(b, ctx);
    assert(d.tys == tys);
    mean_at(b, ctx, es, es.len() as int, ids, 0);
    wts_at(es, es.len() as int, tc, 0);
    gd_cat_at(es, es.len() as int, ctx.len() as int, guard, 0);
    assert(o.contains(ids[0]));
    let m1 = ends(b, id, t, o, g, ctx, env, gs, es[0].e, ids[0], guard, s);
    let m = if let Out::Done(v, q) = run(t, tys[0], s, m1) {
        sound(b, id, t, o, g, ctx, env, es[0].e, ids[0], s, m1);
        ready_typed(b, o, ctx, env);
        first_of(es[0].e, env, tc, m1, v, eaten(s, q));
        ety_is(es[0]);
        assert(ctys(es)[0] == ety(es[0].e));
        assert(q.len() < s.len());
        let m2 = ends_all(b, id, t, o, g, ctx, env, gs, es, ids, 1, guard, q);
        let m = if m1 < m2 { m2 } else { m1 };
        run_more(t, tys[0], s, m1, m);
        run_all_more(t, tys, 1, q, m2, m);
        m
    } else {
        m1
    };
    assert(!(run_all(t, tys, 0, s, m) is Open));
    run_word(b, id, t, o, g, Part::Cat(ids), i, s, m + 1);
    m + 1
}
pub proof fn ends_all(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, es: Seq<CN>, ids: Seq<usize>, k: int, guard: int,
    s: Str,
) -> (m: nat)
    requires
        code(b, id, t, o, g), ready(b, o, ctx, env), wts(es, es.len() as int, tcs(b, ctx)),
        ids.len() == es.len(), mean(b, ctx, es, es.len() as int, ids), 1 <= k <= es.len(),
        forall|k: int| 0 <= k < ids.len() ==> o.contains(#[trigger] ids[k]),
        guards(env, gs), gd_cat(es, es.len() as int, ctx.len() as int, guard),
    ensures !(run_all(t, names(b, ids), k, s, m) is Open),
    decreases s.len(), ctx.len() as int, es, es.len() - k,
{
    let tys = names(b, ids);
    let tc = tcs(b, ctx);
    if k < es.len() {
        mean_at(b, ctx, es, es.len() as int, ids, k);
        wts_at(es, es.len() as int, tc, k);
        gd_cat_at(es, es.len() as int, ctx.len() as int, guard, k);
        assert(o.contains(ids[k]));
        let m1 = ends(b, id, t, o, g, ctx, env, gs, es[k].e, ids[k], ctx.len() as int, s);
        if let Out::Done(v, q) = run(t, tys[k], s, m1) {
            sound(b, id, t, o, g, ctx, env, es[k].e, ids[k], s, m1);
            let m2 = ends_all(b, id, t, o, g, ctx, env, gs, es, ids, k + 1, guard, q);
            let m = if m1 < m2 { m2 } else { m1 };
            run_more(t, tys[k], s, m1, m);
            run_all_more(t, tys, k + 1, q, m2, m);
            m
        } else {
            m1
        }
    } else {
        0
    }
}

// ---------------------------------------------------------------- the whole parser
/// Running the parser for the goal g, which is defined last.
pub open spec fn goal_of(t: Seq<Tok>) -> Seq<Tok> { seq![Tok::Word(defs(t).last().name)] }
/// Whatever it returns prints as what it consumed, which is a word of the grammar.
pub open spec fn prints_back(t: Seq<Tok>, e: CX) -> bool {
    forall|s: Str, n: nat| fine(t, e, seq![], n, s, #[trigger] run(t, goal_of(t), s, n))
}
/// It ends on every text.
pub open spec fn ended(t: Seq<Tok>, s: Str, n: nat) -> bool { !(run(t, goal_of(t), s, n) is Open) }
pub open spec fn ends_on(t: Seq<Tok>, s: Str) -> bool { exists|n: nat| #[trigger] ended(t, s, n) }
pub open spec fn terminates(t: Seq<Tok>) -> bool {
    forall|s: Str| #[trigger] ends_on(t, s)
}
/// It reads all of a text exactly if that is a word of the grammar.
pub open spec fn accepts(t: Seq<Tok>, s: Str) -> bool {
    exists|n: nat| #[trigger] reads(t, goal_of(t), s, seq![], n)
}
pub open spec fn recognizes(t: Seq<Tok>, e: CX) -> bool {
    forall|s: Str| #[trigger] accepts(t, s) == derives(e, s)
}
pub proof fn goal_runs(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, s: Str, n: nat)
    requires code(b, id, t, o, g),
    ensures
        run(t, goal_of(t), s, 0) is Open,
        run(t, goal_of(t), s, n + 1) == run(t, b.data[id as int].name, s, n),
{
    names_once(b, id, t, o, g);
    let d = goal(b, id, g)->Def_0;
    find_def_push(defs(rests(b, o)), d, g);
    assert(defs(t).last() == d);
    assert(goal_of(t)[0] == Tok::Word(g));
    assert(d.tys[0] == b.data[id as int].name);
}
pub proof fn goal_sound(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, e: CX)
    requires code(b, id, t, o, g), means(b, seq![], e, id), wt(e, seq![]),
    ensures prints_back(t, e),
{
    ready_none(b, o);
    assert(tcs(b, seq![]) =~= seq![]);
    assert forall|s: Str, n: nat| fine(t, e, seq![], n, s, #[trigger] run(t, goal_of(t), s, n)) by {
        if n == 0 {
            goal_runs(b, id, t, o, g, s, 0);
        } else {
            let m = (n - 1) as nat;
            goal_runs(b, id, t, o, g, s, m);
            sound(b, id, t, o, g, seq![], seq![], e, id, s, m);
            if let Out::Done(v, r) = run(t, goal_of(t), s, n) { fits_more(e, seq![], m, n, v, eaten(s, r)); }
        }
    }
}
pub proof fn goal_complete(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, e: CX)
    requires code(b, id, t, o, g), means(b, seq![], e, id), wt(e, seq![]),
    ensures recognizes(t, e),
{
    ready_none(b, o);
    goal_sound(b, id, t, o, g, e);
    assert(tcs(b, seq![]) =~= seq![]);
    assert forall|s: Str| #[trigger] accepts(t, s) == derives(e, s) by {
        if accepts(t, s) {
            let n = choose|n: nat| #[trigger] reads(t, goal_of(t), s, seq![], n);
            assert(fine(t, e, seq![], n, s, run(t, goal_of(t), s, n)));
            if let Out::Done(v, r) = run(t, goal_of(t), s, n) {
                assert(eaten(s, r) =~= s);
                assert(fits(e, seq![], n, v, s));
            }
        }
        if derives(e, s) {
            let (n, v) = choose|n: nat, v: V| fits(e, seq![], n, v, s);
            let m = complete(b, id, t, o, g, seq![], seq![], e, id, v, s, seq![], n);
            assert(s + seq![] =~= s);
            goal_runs(b, id, t, o, g, s, m);
            assert(reads(t, goal_of(t), s, seq![], m + 1));
        }
    }
}
pub proof fn goal_ends(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, e: CX)
    requires code(b, id, t, o, g), means(b, seq![], e, id), wt(e, seq![]), gd(e, 0, 0),
    ensures terminates(t),
{
    ready_none(b, o);
    assert(tcs(b, seq![]) =~= seq![]);
    assert forall|s: Str| #[trigger] ends_on(t, s) by {
        let m = ends(b, id, t, o, g, seq![], seq![], seq![], e, id, 0, s);
        goal_runs(b, id, t, o, g, s, m);
        assert(ended(t, s, m + 1));
    }
}

// ---------------------------------------------------------------- the parser of every emitted type
/// Where type i occurs in the grammar.
pub open spec fn stage(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, i: usize, guard: int,
) -> bool {
    ground(b, id, t, o, g, ctx, env, e, i) && guards(env, gs) && 0 <= guard <= ctx.len() && gd(e, ctx.len() as int, guard)
}
pub open spec fn staged(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, i: usize) -> bool {
    exists|ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, guard: int| #[trigger] stage(b, id, t, o, g, ctx, env, gs, e, i, guard)
}
pub proof fn staged_on(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, j: usize, i: usize)
    requires staged(b, id, t, o, g, j), part_of(b, j, i),
    ensures staged(b, id, t, o, g, i),
{
    let (ctx, env, gs, e, guard) =
        choose|ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, guard: int| #[trigger] stage(b, id, t, o, g, ctx, env, gs, e, j, guard);
    assert(stage(b, id, t, o, g, ctx, env, gs, e, j, guard));
    let tc = tcs(b, ctx);
    let len = ctx.len() as int;
    assert(o.contains(i));
    match e {
        CX::Eps(_) => {}
        CX::Lit(s, _) => { there(b, Part::Lit(s)); }
        CX::Cat(s, _) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), j) && ids.len() == s.len() && mean(b, ctx, s, s.len() as int, ids);
            at_hand(b, id, t, o, g, Part::Cat(ids), j);
            assert(ids.contains(i));
            let k = choose|k: int| 0 <= k < ids.len() && ids[k] == i;
            mean_at(b, ctx, s, s.len() as int, ids, k);
            wts_at(s, s.len() as int, tc, k);
            gd_cat_at(s, s.len() as int, len, guard, k);
            assert(stage(b, id, t, o, g, ctx, env, gs, s[k].e, i, if k == 0 { guard } else { len }));
        }
        CX::Alt(s, _) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), j) && ids.len() == s.len() && mean(b, ctx, s, s.len() as int, ids);
            at_hand(b, id, t, o, g, Part::Alt(ids), j);
            assert(ids.contains(i));
            let k = choose|k: int| 0 <= k < ids.len() && ids[k] == i;
            mean_at(b, ctx, s, s.len() as int, ids, k);
            wts_at(s, s.len() as int, tc, k);
            gd_alt_at(s, s.len() as int, len, guard, k);
            assert(stage(b, id, t, o, g, ctx, env, gs, s[k].e, i, guard));
        }
        CX::Fix(k) => {
            assert(e == CX::Fix(Box::new(*k)));
            wt_scoped(e, tc);
            scoped_fix(*k, len);
            let x = fixed_here(b, ctx, *k, j);
            assert(x == i);
            ready_push(b, o, ctx, env, j, *k);
            guards_push(env, gs, *k, guard);
            assert(stage(b, id, t, o, g, ctx.push(j), env.push(*k), gs.push(guard), k.e, i, guard));
        }
        CX::Var(v, _) => {
            there(b, Part::Var(ctx[ctx.len() - 1 - v]));
            assert(right(b, Part::Var(ctx[ctx.len() - 1 - v]), j));
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn all_staged(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, p: Seq<usize>)
    requires staged(b, id, t, o, g, id), path(b, p), p[0] == id,
    ensures staged(b, id, t, o, g, p.last()),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert(path(b, q)) by {
            assert forall|k: int| 0 < k < q.len() implies #[trigger] part_of(b, q[k - 1], q[k]) by {
                assert(part_of(b, p[k - 1], p[k]));
            }
        }
        all_staged(b, id, t, o, g, q);
        assert(part_of(b, p[p.len() - 2], p[p.len() - 1]));
        staged_on(b, id, t, o, g, q.last(), p.last());
    } else {
        assert(p.last() == id);
    }
}
/// A value of the type named w prints as what was consumed.
pub open spec fn echoes(t: Seq<Tok>, w: Str, s: Str, n: nat) -> bool {
    match run(t, seq![Tok::Word(w)], s, n) {
        Out::Done(v, r) => splits(s, r) && show(t, v) == Some(eaten(s, r)),
        _ => true,
    }
}
pub open spec fn finishes(t: Seq<Tok>, w: Str, s: Str) -> bool { exists|n: nat| !(#[trigger] run(t, seq![Tok::Word(w)], s, n) is Open) }
/// The parser of each emitted type ends on every text, with an error or with a value that prints as what was consumed.
pub open spec fn each_prints_back(t: Seq<Tok>) -> bool {
    forall|w: Str, s: Str, n: nat| def_names(defs(t)).contains(w) ==> #[trigger] echoes(t, w, s, n)
}
pub open spec fn each_terminates(t: Seq<Tok>) -> bool {
    forall|w: Str, s: Str| def_names(defs(t)).contains(w) ==> #[trigger] finishes(t, w, s)
}
pub proof fn word_works(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, e: CX, w: Str, s: Str, n: nat)
    requires code(b, id, t, o, g), means(b, seq![], e, id), wt(e, seq![]), gd(e, 0, 0), def_names(defs(t)).contains(w),
    ensures echoes(t, w, s, n), finishes(t, w, s),
{
    let r = rests(b, o);
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] o[k] < b.len() by { assert(o.to_set().contains(o[k])); }
    names_once(b, id, t, o, g);
    once_each(b, o);
    let d = goal(b, id, g)->Def_0;
    assert(defs(t).last() == d);
    if w == g {
        assert(goal_of(t) == seq![Tok::Word(w)]);
        goal_sound(b, id, t, o, g, e);
        assert(fine(t, e, seq![], n, s, run(t, goal_of(t), s, n)));
        goal_ends(b, id, t, o, g, e);
        assert(ends_on(t, s));
        let m = choose|m: nat| #[trigger] ended(t, s, m);
        assert(!(run(t, seq![Tok::Word(w)], s, m) is Open));
    } else {
        let k = choose|k: int| 0 <= k < def_names(defs(t)).len() && def_names(defs(t))[k] == w;
        assert(k < defs(r).len());
        assert(def_names(defs(r))[k] == w);
        assert(def_names(defs(r)).contains(w));
        let i = called(b, o, w)->0;
        assert(o.contains(i) && defined(b, i) && word(b, i) == w);
        assert(o.to_set().contains(i));
        let p = choose|p: Seq<usize>| #[trigger] path(b, p) && p[0] == id && p.last() == i;
        ready_none(b, o);
        assert(tcs(b, seq![]) =~= seq![]);
        assert(stage(b, id, t, o, g, seq![], seq![], seq![], e, id, 0));
        all_staged(b, id, t, o, g, p);
        own(b, i);
        assert(b.data[i as int].name =~= seq![Tok::Word(w)]);
        let (ctx, env, gs, x, guard) =
            choose|ctx: Seq<usize>, env: Seq<CN>, gs: Seq<int>, e: CX, guard: int| #[trigger] stage(b, id, t, o, g, ctx, env, gs, e, i, guard);
        sound(b, id, t, o, g, ctx, env, x, i, s, n);
        let m = ends(b, id, t, o, g, ctx, env, gs, x, i, guard, s);
        assert(!(run(t, seq![Tok::Word(w)], s, m) is Open));
    }
}
pub proof fn words_work(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, g: Str, e: CX)
    requires code(b, id, t, o, g), means(b, seq![], e, id), wt(e, seq![]), gd(e, 0, 0),
    ensures each_prints_back(t), each_terminates(t),
{
    assert forall|w: Str, s: Str, n: nat| def_names(defs(t)).contains(w) implies #[trigger] echoes(t, w, s, n) by {
        word_works(b, id, t, o, g, e, w, s, n);
    }
    assert forall|w: Str, s: Str| def_names(defs(t)).contains(w) implies #[trigger] finishes(t, w, s) by {
        word_works(b, id, t, o, g, e, w, s, 0);
    }
}
}
