// What the emitted code accepts is in the language, and prints as what was consumed.
verus! {
/// The type of a grammar, whatever its name.
pub open spec fn ety(e: CX) -> crate::Ty { cty(CN { name: None, e }) }
pub proof fn ety_is(k: CN)
    ensures cty(k) == ety(k.e), ety(CX::Fix(Box::new(k))) == cty(k),
{
}
/// The fixed points around a grammar are the types ctx, which are emitted.
pub open spec fn bound(b: B, o: Seq<usize>, ctx: Seq<usize>, env: Seq<CN>, j: int) -> bool {
    &&& o.contains(ctx[j])
    &&& means(b, ctx.take(j), CX::Fix(Box::new(env[j])), ctx[j])
    &&& wt(CX::Fix(Box::new(env[j])), tcs(b, ctx.take(j)))
}
pub open spec fn ready(b: B, o: Seq<usize>, ctx: Seq<usize>, env: Seq<CN>) -> bool {
    &&& ctx.len() == env.len()
    &&& forall|j: int| 0 <= j < ctx.len() ==> #[trigger] bound(b, o, ctx, env, j)
}
pub proof fn ready_none(b: B, o: Seq<usize>)
    ensures ready(b, o, seq![], seq![]),
{
}
pub proof fn ready_take(b: B, o: Seq<usize>, ctx: Seq<usize>, env: Seq<CN>, n: int)
    requires ready(b, o, ctx, env), 0 <= n <= ctx.len(),
    ensures ready(b, o, ctx.take(n), env.take(n)),
{
    assert forall|j: int| 0 <= j < n implies #[trigger] bound(b, o, ctx.take(n), env.take(n), j) by {
        assert(bound(b, o, ctx, env, j));
        assert(ctx.take(n).take(j) =~= ctx.take(j));
    }
}
pub proof fn ready_push(b: B, o: Seq<usize>, ctx: Seq<usize>, env: Seq<CN>, i: usize, k: CN)
    requires
        ready(b, o, ctx, env), o.contains(i), means(b, ctx, CX::Fix(Box::new(k)), i), wt(CX::Fix(Box::new(k)), tcs(b, ctx)), once(b),
    ensures
        ready(b, o, ctx.push(i), env.push(k)),
        wt(k.e, tcs(b, ctx.push(i))),
{
    let (c, v) = (ctx.push(i), env.push(k));
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] bound(b, o, c, v, j) by {
        if j < ctx.len() {
            assert(bound(b, o, ctx, env, j));
            assert(c.take(j) =~= ctx.take(j));
        } else {
            assert(c.take(j) =~= ctx);
        }
    }
    typ_is(b, k, scope(k.e, ctx), i);
    assert(tcs(b, c) =~= tcs(b, ctx).push(cty(k)));
}

pub open spec fn eaten(s: Str, r: Str) -> Str { s.take(s.len() - r.len()) }
pub open spec fn splits(s: Str, r: Str) -> bool { r.len() <= s.len() && s == eaten(s, r) + r }

pub proof fn eaten_on(s: Str, q: Str, r: Str)
    requires splits(s, q), splits(q, r),
    ensures splits(s, r), eaten(s, r) == eaten(s, q) + eaten(q, r), cut(eaten(s, r), (s.len() - q.len()) as int),
        eaten(s, r).take(s.len() - q.len()) == eaten(s, q), eaten(s, r).skip(s.len() - q.len()) == eaten(q, r),
{
    assert(s =~= (eaten(s, q) + eaten(q, r)) + r);
    assert(eaten(s, r) =~= eaten(s, q) + eaten(q, r));
    assert(eaten(s, r).take(s.len() - q.len()) =~= eaten(s, q));
    assert(eaten(s, r).skip(s.len() - q.len()) =~= eaten(q, r));
}
/// The fields are printed as they were parsed.
pub proof fn shown(t: Seq<Tok>, d: Def, sels: Seq<Sel>, k: int, vs: Seq<V>)
    requires sels.len() == vs.len(), 0 <= k <= vs.len(), forall|i: int| 0 <= i < sels.len() ==> pick(d, #[trigger] sels[i]) == i,
    ensures show_from(t, d, sels, k, vs) == shows(t, vs.skip(k)),
    decreases vs.len() - k,
{
    if k < vs.len() {
        shown(t, d, sels, k + 1, vs);
        assert(pick(d, sels[k]) == k);
        assert(vs.skip(k)[0] == vs[k]);
        assert(vs.skip(k).skip(1) =~= vs.skip(k + 1));
    }
}
pub proof fn printer_picks(d: Def)
    requires d.shape is Tuple || d.shape is Struct, d.shape is Struct ==> d.parts.no_duplicates() && d.parts.len() == d.tys.len(),
    ensures
        printer(d) is Fields,
        printer(d)->Fields_0.len() == d.tys.len(),
        forall|i: int| 0 <= i < d.tys.len() ==> pick(d, #[trigger] printer(d)->Fields_0[i]) == i,
{
    if d.shape is Struct {
        assert forall|i: int| 0 <= i < d.tys.len() implies pick(d, #[trigger] printer(d)->Fields_0[i]) == i by {
            assert(d.parts.contains(d.parts[i]));
        }
    }
}
/// The outcome of a parser for e that started at s.
pub open spec fn fine(t: Seq<Tok>, e: CX, env: Seq<CN>, n: nat, s: Str, out: Out) -> bool {
    match out {
        Out::Done(v, r) => splits(s, r) && fits(e, env, n, v, eaten(s, r)) && show(t, v) == Some(eaten(s, r)),
        _ => true,
    }
}
pub open spec fn all_fine(t: Seq<Tok>, es: Seq<CN>, k: int, env: Seq<CN>, n: nat, s: Str, out: Outs) -> bool {
    match out {
        Outs::Done(vs, r) => splits(s, r) && vs.len() == es.len() - k && fit_from(es, k, env, n, vs, eaten(s, r)) && shows(t, vs) == Some(eaten(s, r)),
        _ => true,
    }
}
/// One step of running a type that is defined in the code.
pub proof fn run_word(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, p: Part, i: usize, s: Str, n: nat)
    requires code(b, id, t, o, w), o.contains(i), b.is(p, i), !(p is Var), n > 0,
    ensures ({
        let d = defs(b.data[i as int].rest)[0];
        run(t, b.data[i as int].name, s, n) == if d.shape is Alias {
            run(t, d.tys[0], s, (n - 1) as nat)
        } else {
            match find(takes(t), word(b, i)) { Some(k) => run_take(t, d, k, s, (n - 1) as nat), None => Out::Open }
        }
    }),
{
    at_hand(b, id, t, o, w, p, i);
    let ty = b.data[i as int].name;
    assert(ty.len() == 1 && ty[0] == Tok::Word(word(b, i)));
}
#[verifier::spinoff_prover]
pub proof fn sound(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, i: usize, s: Str, n: nat)
    requires
        code(b, id, t, o, w), ready(b, o, ctx, env), o.contains(i), means(b, ctx, e, i), wt(e, tcs(b, ctx)),
    ensures fine(t, e, env, n, s, run(t, b.data[i as int].name, s, n)),
    decreases n, 1int, 0int,
{
    let out = run(t, b.data[i as int].name, s, n);
    if n > 0 {
        match e {
            CX::Eps(_) => {
                eps_at_hand(b, id, t, o, w);
                assert(eaten(s, s) =~= seq![]);
                assert(s =~= eaten(s, s) + s);
            }
            CX::Lit(x, _) => {
                run_word(b, id, t, o, w, Part::Lit(x), i, s, n);
                at_hand(b, id, t, o, w, Part::Lit(x), i);
                if let Out::Done(v, r) = out {
                    assert(r == s.skip(x.len() as int));
                    assert(eaten(s, r) =~= x);
                    assert(s =~= eaten(s, r) + r);
                }
            }
            CX::Cat(es, _) => { sound_cat(b, id, t, o, w, ctx, env, e, es, i, s, n); }
            CX::Alt(es, _) => { sound_alt(b, id, t, o, w, ctx, env, e, es, i, s, n); }
            CX::Fix(k) => { sound_fix(b, id, t, o, w, ctx, env, e, *k, i, s, n); }
            CX::Var(m, _) => { sound_var(b, id, t, o, w, ctx, env, e, m, i, s, n); }
        }
    }
}
pub proof fn sound_fix(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, k: CN, i: usize, s: Str, n: nat)
    requires
        n > 0, e == CX::Fix(Box::new(k)),
        code(b, id, t, o, w), ready(b, o, ctx, env), o.contains(i), means(b, ctx, e, i), wt(e, tcs(b, ctx)),
    ensures fine(t, e, env, n, s, run(t, b.data[i as int].name, s, n)),
    decreases n, 0int, 0int,
{
    let out = run(t, b.data[i as int].name, s, n);
    run_word(b, id, t, o, w, Part::Fix(k, scope(k.e, ctx)), i, s, n);
    at_hand(b, id, t, o, w, Part::Fix(k, scope(k.e, ctx)), i);
    let x = body_of(b, ctx, k, i);
    assert(b.data[i as int].deps.contains(x));
    ready_push(b, o, ctx, env, i, k);
    sound(b, id, t, o, w, ctx.push(i), env.push(k), k.e, x, s, (n - 1) as nat);
    if let Out::Done(v, r) = out { fits_more(k.e, env.push(k), (n - 1) as nat, n, v, eaten(s, r)); }
}
/// What the alias for a fixed point refers to.
pub proof fn body_of(b: B, ctx: Seq<usize>, k: CN, i: usize) -> (x: usize)
    requires inv(b), b.ctx.len() == 0, means(b, ctx, CX::Fix(Box::new(k)), i), wt(CX::Fix(Box::new(k)), tcs(b, ctx)),
    ensures
        means(b, ctx.push(i), k.e, x),
        b.data[i as int].deps.contains(x),
        defs(b.data[i as int].rest)[0].tys == seq![b.data[x as int].name],
        defs(b.data[i as int].rest)[0].shape is Alias,
{
    wt_scoped(CX::Fix(Box::new(k)), tcs(b, ctx));
    scoped_fix(k, ctx.len() as int);
    let s = scope(k.e, ctx);
    assert(b.has(Part::Fix(k, s)));
    assert(right(b, Part::Fix(k, s), i));
    let (y, c) = choose|x: usize, c: Seq<usize>| fixed(b, k, s, i, x, c);
    fixed_here(b, ctx, k, i)
}
pub proof fn sound_var(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, m: usize, i: usize, s: Str, n: nat)
    requires
        n > 0, e is Var, e->Var_0 == m,
        code(b, id, t, o, w), ready(b, o, ctx, env), o.contains(i), means(b, ctx, e, i), wt(e, tcs(b, ctx)),
    ensures fine(t, e, env, n, s, run(t, b.data[i as int].name, s, n)),
    decreases n, 0int, 0int,
{
    let j = ctx.len() - 1 - m;
    let f = ctx[j];
    there(b, Part::Var(f));
    assert(right(b, Part::Var(f), i));
    assert(bound(b, o, ctx, env, j));
    ready_take(b, o, ctx, env, j);
    let ty = b.data[i as int].name;
    assert(ty.len() == 1 && ty[0] == Tok::Generic("Box"@, b.data[f as int].name));
    assert(run(t, ty, s, n) == run(t, b.data[f as int].name, s, (n - 1) as nat));
    sound(b, id, t, o, w, ctx.take(j), env.take(j), CX::Fix(Box::new(env[j])), f, s, (n - 1) as nat);
    assert(env.take(j).push(env[j]) =~= env.take(j + 1));
}
#[verifier::spinoff_prover]
pub proof fn sound_cat(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, es: Seq<CN>, i: usize, s: Str, n: nat,
)
    requires
        n > 0,
        code(b, id, t, o, w), ready(b, o, ctx, env), o.contains(i), wt(e, tcs(b, ctx)), e is Cat, e->Cat_0 == es,
        means(b, ctx, e, i),
    ensures fine(t, e, env, n, s, run(t, b.data[i as int].name, s, n)),
    decreases n, 0int, 0int,
{
    let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), i) && ids.len() == es.len() && mean(b, ctx, es, es.len() as int, ids);
    run_word(b, id, t, o, w, Part::Cat(ids), i, s, n);
    at_hand(b, id, t, o, w, Part::Cat(ids), i);
    let d = defs(b.data[i as int].rest)[0];
    let out = run(t, b.data[i as int].name, s, n);
    assert(d.tys == names(b, ids));
    assert forall|k: int| 0 <= k < ids.len() implies o.contains(#[trigger] ids[k]) by {
        assert(ids.to_set().contains(ids[k]));
        assert(b.data[i as int].deps.contains(ids[k]));
    }
    sound_all(b, id, t, o, w, ctx, env, es, ids, 0, s, (n - 1) as nat);
    let outs = run_all(t, d.tys, 0, s, (n - 1) as nat);
    assert(out == built(d.name, outs) || out is Open);
    if let Out::Done(v, r) = out {
        let vs = outs->Done_0;
        assert(v == V::Fields(d.name, vs));
        fit_from_more(es, 0, env, (n - 1) as nat, n, vs, eaten(s, r));
        printer_picks(d);
        shown(t, d, printer(d)->Fields_0, 0, vs);
        assert(vs.skip(0) =~= vs);
    }
}
#[verifier::spinoff_prover]
pub proof fn sound_all(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, ctx: Seq<usize>, env: Seq<CN>, es: Seq<CN>, ids: Seq<usize>, k: int, s: Str, n: nat,
)
    requires
        code(b, id, t, o, w), ready(b, o, ctx, env), wts(es, es.len() as int, tcs(b, ctx)),
        ids.len() == es.len(), mean(b, ctx, es, es.len() as int, ids), 0 <= k <= es.len(),
        forall|k: int| 0 <= k < ids.len() ==> o.contains(#[trigger] ids[k]),
    ensures all_fine(t, es, k, env, n, s, run_all(t, names(b, ids), k, s, n)),
    decreases n, 2int, es.len() - k,
{
    let tys = names(b, ids);
    let outs = run_all(t, tys, k, s, n);
    if k < es.len() {
        mean_at(b, ctx, es, es.len() as int, ids, k);
        wts_at(es, es.len() as int, tcs(b, ctx), k);
        assert(o.contains(ids[k]));
        sound(b, id, t, o, w, ctx, env, es[k].e, ids[k], s, n);
        if let Out::Done(v, q) = run(t, tys[k], s, n) {
            sound_all(b, id, t, o, w, ctx, env, es, ids, k + 1, q, n);
            if let Outs::Done(vs, r) = run_all(t, tys, k + 1, q, n) {
                let all = seq![v] + vs;
                assert(outs == Outs::Done(all, r));
                eaten_on(s, q, r);
                assert(all[0] == v);
                assert(all.skip(1) =~= vs);
                assert(cut(eaten(s, r), (s.len() - q.len()) as int));
            }
        }
    } else {
        assert(eaten(s, s) =~= seq![]);
        assert(s =~= eaten(s, s) + s);
    }
}
#[verifier::spinoff_prover]
pub proof fn sound_alt(
    b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, ctx: Seq<usize>, env: Seq<CN>, e: CX, es: Seq<CN>, i: usize, s: Str, n: nat,
)
    requires
        n > 0,
        code(b, id, t, o, w), ready(b, o, ctx, env), o.contains(i), wt(e, tcs(b, ctx)), e is Alt, e->Alt_0 == es,
        means(b, ctx, e, i),
    ensures fine(t, e, env, n, s, run(t, b.data[i as int].name, s, n)),
    decreases n, 0int, 0int,
{
    let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), i) && ids.len() == es.len() && mean(b, ctx, es, es.len() as int, ids);
    run_word(b, id, t, o, w, Part::Alt(ids), i, s, n);
    at_hand(b, id, t, o, w, Part::Alt(ids), i);
    let d = defs(b.data[i as int].rest)[0];
    let out = run(t, b.data[i as int].name, s, n);
    if let Out::Done(v, r) = out {
        let m = v->Variant_1;
        let x = *v->Variant_2;
        assert(d.tys == names(b, ids));
        assert(v == V::Variant(d.name, m, Box::new(x)));
        assert(0 <= m < ids.len());
        assert(run(t, d.tys[m], s, (n - 1) as nat) == Out::Done(x, r));
        assert(ids.to_set().contains(ids[m]));
        assert(b.data[i as int].deps.contains(ids[m]));
        mean_at(b, ctx, es, es.len() as int, ids, m);
        wts_at(es, es.len() as int, tcs(b, ctx), m);
        sound(b, id, t, o, w, ctx, env, es[m].e, ids[m], s, (n - 1) as nat);
        fits_more(es[m].e, env, (n - 1) as nat, n, x, eaten(s, r));
        assert(d.parts.contains(d.parts[m]));
    }
}
}
