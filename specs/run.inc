// What the emitted code does when it runs, and that it recognizes the grammar.
verus! {
/// A value of a generated type: the runtime library's Epsilon, a type without fields, one with fields in the order of its
/// definition, or one variant.
pub ghost enum V {
    Eps,
    Unit(Str),
    Fields(Str, Seq<V>),
    Variant(Str, int, Box<V>),
}
/// Parsing ends with a value and what is left of the text, or with an error; it is Open if the code says something that is
/// not interpreted here, or not enough steps were allowed.
pub ghost enum Out {
    Done(V, Str),
    Fail,
    Open,
}
pub ghost enum Outs {
    Done(Seq<V>, Str),
    Fail,
    Open,
}
pub open spec fn starts(s: Str, w: Str) -> bool {
    w.len() <= s.len() && s.take(w.len() as int) == w
}
pub open spec fn part_index(d: Def, w: Str) -> Option<int> {
    if d.parts.contains(w) { Some(d.parts.index_of(w)) } else { None }
}
/// Patterns for some characters.
pub open spec fn plain_pats(pats: Seq<Seq<Tok>>) -> bool {
    forall|j: int| 0 <= j < pats.len() ==> (#[trigger] pats[j]).len() == 1 && pats[j][0] is Somes && pats[j][0]->Somes_0.len() > 0
}
pub open spec fn hit(p: Seq<Tok>, s: Str) -> bool {
    s.len() > 0 && p[0]->Somes_0.contains(s[0])
}
/// The first of the patterns from j on that the text matches.
pub open spec fn arm(pats: Seq<Seq<Tok>>, s: Str, j: int) -> Option<int>
    decreases pats.len() - j,
{
    if j < 0 || j >= pats.len() { None } else if hit(pats[j], s) { Some(j) } else { arm(pats, s, j + 1) }
}
/// The variant that is parsed.
pub open spec fn selected(pats: Seq<Seq<Tok>>, variants: Seq<Str>, other: Option<Str>, s: Str) -> Option<Str> {
    match arm(pats, s, 0) { Some(j) => Some(variants[j]), None => other }
}
pub open spec fn prepend(v: V, o: Outs) -> Outs {
    match o { Outs::Done(vs, r) => Outs::Done(seq![v] + vs, r), o => o }
}
/// What Parse::take for type ty does at the start of s.
pub open spec fn run(t: Seq<Tok>, ty: Seq<Tok>, s: Str, n: nat) -> Out
    decreases n, 0int, 0int,
{
    if n == 0 || ty.len() != 1 {
        Out::Open
    } else {
        match ty[0] {
            Tok::Word(w) => match find_def(defs(t), w) {
                None => if w == eps_word() { Out::Done(V::Eps, s) } else { Out::Open },
                Some(d) => if d.shape is Alias {
                    run(t, d.tys[0], s, (n - 1) as nat)
                } else {
                    match find(takes(t), w) { Some(k) => run_take(t, d, k, s, (n - 1) as nat), None => Out::Open }
                },
            },
            Tok::Generic(g, inner) => if g == "Box"@ { run(t, inner, s, (n - 1) as nat) } else { Out::Open },
            _ => Out::Open,
        }
    }
}
/// An implementation of Parse.
pub open spec fn run_take(t: Seq<Tok>, d: Def, k: Take, s: Str, n: nat) -> Out
    decreases n, 2int, 0int,
{
    match k {
        Take::Text(w) => if !(d.shape is Unit) {
            Out::Open
        } else if starts(s, w) {
            Out::Done(V::Unit(d.name), s.skip(w.len() as int))
        } else {
            Out::Fail
        },
        Take::Tuple { lets, vals } => if d.shape is Tuple && lets == vals && lets.no_duplicates() && lets.len() == d.tys.len() {
            built(d.name, run_all(t, d.tys, 0, s, n))
        } else {
            Out::Open
        },
        Take::Fields { lets, fields, vals } => if d.shape is Struct && fields == d.parts && lets == vals && lets.no_duplicates() && lets.len() == d.tys.len() {
            built(d.name, run_all(t, d.tys, 0, s, n))
        } else {
            Out::Open
        },
        Take::Switch { pats, variants, other } => if d.shape is Enum && plain_pats(pats) && variants.len() == pats.len() {
            match selected(pats, variants, other, s) {
                None => Out::Fail,
                Some(p) => match part_index(d, p) {
                    Some(i) => if i < d.tys.len() { varied(d.name, i, run(t, d.tys[i], s, n)) } else { Out::Open },
                    None => Out::Open,
                },
            }
        } else {
            Out::Open
        },
    }
}
pub open spec fn built(w: Str, o: Outs) -> Out {
    match o { Outs::Done(vs, r) => Out::Done(V::Fields(w, vs), r), Outs::Fail => Out::Fail, Outs::Open => Out::Open }
}
pub open spec fn varied(w: Str, i: int, o: Out) -> Out {
    match o { Out::Done(v, r) => Out::Done(V::Variant(w, i, Box::new(v)), r), o => o }
}
/// One value after another of the types from k on.
pub open spec fn run_all(t: Seq<Tok>, tys: Seq<Seq<Tok>>, k: int, s: Str, n: nat) -> Outs
    decreases n, 1int, tys.len() - k,
{
    if k < 0 || k >= tys.len() {
        Outs::Done(seq![], s)
    } else {
        match run(t, tys[k], s, n) {
            Out::Done(v, r) => prepend(v, run_all(t, tys, k + 1, r, n)),
            Out::Fail => Outs::Fail,
            Out::Open => Outs::Open,
        }
    }
}

/// The field that a Display refers to.
pub open spec fn pick(d: Def, s: Sel) -> int {
    match s { Sel::Number(i) => i, Sel::Named(w) => d.parts.index_of(w) }
}
/// What Display gives for a value.
pub open spec fn show(t: Seq<Tok>, v: V) -> Option<Str>
    decreases v, 0int,
{
    match v {
        V::Eps => Some(seq![]),
        V::Unit(w) => match find(prints(t), w) { Some(Print::Text(x)) => Some(x), _ => None },
        V::Fields(w, vs) => match (find_def(defs(t), w), find(prints(t), w)) {
            (Some(d), Some(Print::Fields(sels))) => show_from(t, d, sels, 0, vs),
            _ => None,
        },
        V::Variant(w, i, x) => match (find_def(defs(t), w), find(prints(t), w)) {
            (Some(d), Some(Print::Variants(ps))) => if 0 <= i < d.parts.len() && ps.contains(d.parts[i]) { show(t, *x) } else { None },
            _ => None,
        },
    }
}
pub open spec fn show_from(t: Seq<Tok>, d: Def, sels: Seq<Sel>, k: int, vs: Seq<V>) -> Option<Str>
    decreases vs, sels.len() - k,
{
    if k < 0 || k >= sels.len() {
        Some(seq![])
    } else {
        let i = pick(d, sels[k]);
        if 0 <= i < vs.len() { glued(show(t, vs[i]), show_from(t, d, sels, k + 1, vs)) } else { None }
    }
}
pub open spec fn glued(a: Option<Str>, b: Option<Str>) -> Option<Str> {
    match (a, b) { (Some(a), Some(b)) => Some(a + b), _ => None }
}
/// The values of a row, one after another.
pub open spec fn shows(t: Seq<Tok>, vs: Seq<V>) -> Option<Str>
    decreases vs.len(),
{
    if vs.len() == 0 { Some(seq![]) } else { glued(show(t, vs[0]), shows(t, vs.skip(1))) }
}

// ---------------------------------------------------------------- the language of a grammar
/// The word w has a derivation of the shape v from e that goes through at most n variables; the fixed points around e are env,
/// innermost last.
pub open spec fn fits(e: CX, env: Seq<CN>, n: nat, v: V, w: Str) -> bool
    decreases n, e, 0int,
{
    match e {
        CX::Eps(_) => w.len() == 0,
        CX::Lit(s, _) => v is Unit && w == s,
        CX::Cat(s, _) => v is Fields && v->Fields_1.len() == s.len() && fit_from(s, 0, env, n, v->Fields_1, w),
        CX::Alt(s, _) => v is Variant && 0 <= v->Variant_1 < s.len() && fits(s[v->Variant_1].e, env, n, *v->Variant_2, w),
        CX::Fix(k) => fits(k.e, env.push(*k), n, v, w),
        CX::Var(i, _) => {
            let j = env.len() - 1 - i;
            n > 0 && j >= 0 && fits(env[j].e, env.take(j + 1), (n - 1) as nat, v, w)
        },
    }
}
pub open spec fn cut(w: Str, i: int) -> bool { 0 <= i <= w.len() }
/// The words of the terms from k on, one after another.
pub open spec fn fit_from(s: Seq<CN>, k: int, env: Seq<CN>, n: nat, vs: Seq<V>, w: Str) -> bool
    decreases n, s, s.len() - k,
{
    if k < 0 || k >= s.len() {
        w.len() == 0 && vs.len() == 0
    } else {
        vs.len() > 0 && exists|i: int| #[trigger] cut(w, i) && fits(s[k].e, env, n, vs[0], w.take(i)) && fit_from(s, k + 1, env, n, vs.skip(1), w.skip(i))
    }
}
pub open spec fn derives(e: CX, w: Str) -> bool {
    exists|n: nat, v: V| fits(e, seq![], n, v, w)
}
pub proof fn fits_more(e: CX, env: Seq<CN>, n: nat, m: nat, v: V, w: Str)
    requires fits(e, env, n, v, w), n <= m,
    ensures fits(e, env, m, v, w),
    decreases n, e, 0int,
{
    match e {
        CX::Cat(s, _) => { fit_from_more(s, 0, env, n, m, v->Fields_1, w); }
        CX::Alt(s, _) => { fits_more(s[v->Variant_1].e, env, n, m, *v->Variant_2, w); }
        CX::Fix(k) => { fits_more(k.e, env.push(*k), n, m, v, w); }
        CX::Var(i, _) => {
            let j = env.len() - 1 - i;
            fits_more(env[j].e, env.take(j + 1), (n - 1) as nat, (m - 1) as nat, v, w);
        }
        _ => {}
    }
}
pub proof fn fit_from_more(s: Seq<CN>, k: int, env: Seq<CN>, n: nat, m: nat, vs: Seq<V>, w: Str)
    requires fit_from(s, k, env, n, vs, w), n <= m,
    ensures fit_from(s, k, env, m, vs, w),
    decreases n, s, s.len() - k,
{
    if 0 <= k < s.len() {
        let i = choose|i: int| #[trigger] cut(w, i) && fits(s[k].e, env, n, vs[0], w.take(i)) && fit_from(s, k + 1, env, n, vs.skip(1), w.skip(i));
        fits_more(s[k].e, env, n, m, vs[0], w.take(i));
        fit_from_more(s, k + 1, env, n, m, vs.skip(1), w.skip(i));
    }
}

// ---------------------------------------------------------------- more steps do not change the outcome
pub proof fn run_more(t: Seq<Tok>, ty: Seq<Tok>, s: Str, n: nat, m: nat)
    requires n <= m, !(run(t, ty, s, n) is Open),
    ensures run(t, ty, s, m) == run(t, ty, s, n),
    decreases n, 0int, 0int,
{
    match ty[0] {
        Tok::Word(w) => match find_def(defs(t), w) {
            None => {}
            Some(d) => if d.shape is Alias {
                run_more(t, d.tys[0], s, (n - 1) as nat, (m - 1) as nat);
            } else {
                run_take_more(t, d, find(takes(t), w)->0, s, (n - 1) as nat, (m - 1) as nat);
            },
        },
        Tok::Generic(g, inner) => { run_more(t, inner, s, (n - 1) as nat, (m - 1) as nat); }
        _ => {}
    }
}
pub proof fn run_take_more(t: Seq<Tok>, d: Def, k: Take, s: Str, n: nat, m: nat)
    requires n <= m, !(run_take(t, d, k, s, n) is Open),
    ensures run_take(t, d, k, s, m) == run_take(t, d, k, s, n),
    decreases n, 2int, 0int,
{
    match k {
        Take::Tuple { lets, vals } => { run_all_more(t, d.tys, 0, s, n, m); }
        Take::Fields { lets, fields, vals } => { run_all_more(t, d.tys, 0, s, n, m); }
        Take::Switch { pats, variants, other } => match selected(pats, variants, other, s) {
            None => {}
            Some(p) => {
                let i = part_index(d, p)->0;
                run_more(t, d.tys[i], s, n, m);
            }
        },
        _ => {}
    }
}
pub proof fn run_all_more(t: Seq<Tok>, tys: Seq<Seq<Tok>>, k: int, s: Str, n: nat, m: nat)
    requires n <= m, !(run_all(t, tys, k, s, n) is Open),
    ensures run_all(t, tys, k, s, m) == run_all(t, tys, k, s, n),
    decreases n, 1int, tys.len() - k,
{
    if 0 <= k < tys.len() {
        run_more(t, tys[k], s, n, m);
        if let Out::Done(v, r) = run(t, tys[k], s, n) { run_all_more(t, tys, k + 1, r, n, m); }
    }
}

// ---------------------------------------------------------------- looking things up in the emitted code
pub open spec fn code(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str) -> bool {
    inv(b) && b.ctx.len() == 0 && emits(b, id, t, o, w)
}
pub proof fn at_hand(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, p: Part, i: usize)
    requires code(b, id, t, o, w), o.contains(i), b.is(p, i), !(p is Var),
    ensures
        i < b.len(), right(b, p, i), named(b, i),
        find_def(defs(t), word(b, i)) == Some(defs(b.data[i as int].rest)[0]),
        defs(b.data[i as int].rest)[0].name == word(b, i),
        takes(b.data[i as int].rest).len() == 1 ==> find(takes(t), word(b, i)) == Some(takes(b.data[i as int].rest)[0].1),
        prints(b.data[i as int].rest).len() == 1 ==> find(prints(t), word(b, i)) == Some(prints(b.data[i as int].rest)[0].1),
{
    let r = rests(b, o);
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] o[k] < b.len() by { assert(o.to_set().contains(o[k])); }
    is_defined(b, o, p, i);
    assert(b.has(p));
    assert(right(b, p, i));
    names_once(b, id, t, o, w);
    found(b, o, word(b, i));
    called_is(b, o, i);
    own(b, i);
    let g = goal(b, id, w);
    prints_push(r, g);
    takes_push(r, g);
    find_def_push(defs(r), g->Def_0, word(b, i));
}
pub proof fn eps_at_hand(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str)
    requires code(b, id, t, o, w),
    ensures find_def(defs(t), eps_word()) is None,
{
    let r = rests(b, o);
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] o[k] < b.len() by { assert(o.to_set().contains(o[k])); }
    names_once(b, id, t, o, w);
    found(b, o, eps_word());
    eps_no_digit();
    if called(b, o, eps_word()) is Some {
        let i = called(b, o, eps_word())->0;
        assert(o.contains(i) && defined(b, i) && word(b, i) == eps_word());
        own(b, i);
    }
    reveal_strlit("Ast");
    reveal_strlit("Epsilon");
    assert(w != eps_word()) by {
        if w == "Ast"@ { assert(w.len() == 3); assert(eps_word().len() == 7); }
    }
    find_def_push(defs(r), goal(b, id, w)->Def_0, eps_word());
}
pub proof fn deps_at_hand(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str, i: usize)
    requires code(b, id, t, o, w), o.contains(i),
    ensures forall|j: usize| #[trigger] b.data[i as int].deps.contains(j) ==> o.contains(j),
{
}
}
