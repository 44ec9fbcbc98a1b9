// What is emitted for a goal.
verus! {
/// Type j has i as a component.
pub open spec fn part_of(b: B, j: usize, i: usize) -> bool {
    j < b.len() && b.data[j as int].deps.contains(i)
}
/// Each type in p has the next as a component.
pub open spec fn path(b: B, p: Seq<usize>) -> bool {
    &&& p.len() > 0
    &&& forall|k: int| 0 < k < p.len() ==> #[trigger] part_of(b, p[k - 1], p[k])
}
pub open spec fn reachable(b: B, id: usize, i: usize) -> bool {
    exists|p: Seq<usize>| #[trigger] path(b, p) && p[0] == id && p.last() == i
}
pub proof fn reach_on(b: B, id: usize, j: usize, i: usize)
    requires reachable(b, id, j), part_of(b, j, i),
    ensures reachable(b, id, i),
{
    let p = choose|p: Seq<usize>| #[trigger] path(b, p) && p[0] == id && p.last() == j;
    let q = p.push(i);
    assert forall|k: int| 0 < k < q.len() implies #[trigger] part_of(b, q[k - 1], q[k]) by {
        if k < p.len() {
            assert(part_of(b, p[k - 1], p[k]));
            assert(q[k] == p[k]);
            assert(q[k - 1] == p[k - 1]);
        } else {
            assert(q[k - 1] == j);
            assert(q[k] == i);
        }
    }
    assert(path(b, q));
    assert(q[0] == id);
    assert(q.last() == i);
}
/// The definitions of the types o.
pub open spec fn rests(b: B, o: Seq<usize>) -> Seq<Tok>
    decreases o.len(),
{
    if o.len() == 0 { seq![] } else { rests(b, o.drop_last()) + b.data[o.last() as int].rest }
}
pub broadcast proof fn rests_push(b: B, o: Seq<usize>, i: usize)
    ensures #[trigger] rests(b, o.push(i)) == rests(b, o) + b.data[i as int].rest,
{
    assert(o.push(i).drop_last() =~= o);
}
pub open spec fn all_reach(b: B, id: usize, s: Set<usize>) -> bool {
    forall|i: usize| #[trigger] s.contains(i) ==> i < b.len() && reachable(b, id, i)
}
/// o are the types that are reachable from id, each once.
pub open spec fn emitted(b: B, id: usize, o: Seq<usize>) -> bool {
    &&& o.no_duplicates()
    &&& o.contains(id)
    &&& all_reach(b, id, o.to_set())
    &&& forall|i: usize, j: usize| o.contains(i) && #[trigger] b.data[i as int].deps.contains(j) ==> o.contains(j)
}
/// The name that an emitted alias of the goal has: one that is not in use.
pub open spec fn goal_name(b: B, w: Str) -> bool {
    w == "Ast"@ || !b.used.contains(w) && ends_with_digit(w)
}
pub open spec fn goal(b: B, id: usize, w: Str) -> Tok {
    Tok::Def(Def { name: w, shape: Shape::Alias, parts: seq![], tys: seq![b.data[id as int].name] })
}
pub open spec fn emits(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str) -> bool {
    emitted(b, id, o) && goal_name(b, w) && t == rests(b, o).push(goal(b, id, w))
}

/// The first k of d that are not in c.
pub open spec fn fresh_in(v: Seq<usize>, d: Seq<usize>, k: int, c: Set<usize>) -> bool {
    &&& forall|m: int| 0 <= m < v.len() ==> d.contains(#[trigger] v[m]) && !c.contains(v[m])
    &&& forall|m: int| 0 <= m < k ==> c.contains(#[trigger] d[m]) || v.contains(d[m])
}
pub proof fn fresh_step(v: Seq<usize>, w: Seq<usize>, d: Seq<usize>, k: int, c: Set<usize>)
    requires
        fresh_in(v, d, k, c), 0 <= k < d.len(),
        w == if c.contains(d[k]) { v } else { v.push(d[k]) },
    ensures fresh_in(w, d, k + 1, c),
{
    assert forall|m: int| 0 <= m < w.len() implies d.contains(#[trigger] w[m]) && !c.contains(w[m]) by {
        if m < v.len() { assert(w[m] == v[m]); }
    }
    assert forall|m: int| 0 <= m < k + 1 implies c.contains(#[trigger] d[m]) || w.contains(d[m]) by {
        if m < k {
            if !c.contains(d[m]) {
                let n = choose|n: int| 0 <= n < v.len() && v[n] == d[m];
                assert(w[n] == d[m]);
            }
        } else if !c.contains(d[k]) {
            assert(w[v.len() as int] == d[k]);
        }
    }
}
/// One sequence after another, without common elements.
pub proof fn joined(a: Seq<usize>, b: Seq<usize>)
    requires a.no_duplicates(), b.no_duplicates(), a.to_set().disjoint(b.to_set()),
    ensures (a + b).no_duplicates(), (a + b).to_set() =~= a.to_set().union(b.to_set()),
{
    assert forall|i: usize| (a + b).contains(i) == (a.contains(i) || b.contains(i)) by {
        if a.contains(i) { let k = choose|k: int| 0 <= k < a.len() && a[k] == i; assert((a + b)[k] == i); }
        if b.contains(i) { let k = choose|k: int| 0 <= k < b.len() && b[k] == i; assert((a + b)[k + a.len()] == i); }
    }
    assert forall|i: int, j: int| 0 <= i < j < (a + b).len() implies (a + b)[i] != (a + b)[j] by {
        if i < a.len() && j >= a.len() { assert(a.to_set().contains(a[i])); assert(b.to_set().contains(b[j - a.len()])); }
    }
}
/// What the first k of s depend on is in c or t.
pub open spec fn deps_done(b: B, s: Seq<usize>, k: int, c: Set<usize>, t: Set<usize>) -> bool {
    forall|m: int, j: usize| 0 <= m < k && #[trigger] b.data[s[m] as int].deps.contains(j) ==> c.contains(j) || t.contains(j)
}
pub open spec fn upto(n: nat) -> Set<usize>
    decreases n,
{
    if n == 0 { Set::empty() } else { upto((n - 1) as nat).insert((n - 1) as usize) }
}
pub proof fn upto_is(n: nat)
    requires n <= usize::MAX,
    ensures upto(n).len() == n, forall|i: usize| upto(n).contains(i) <==> i < n,
    decreases n,
{
    if n > 0 { upto_is((n - 1) as nat); }
}
/// A set of fewer numbers leaves more.
pub proof fn room_left(n: nat, a: Set<usize>, b: Set<usize>)
    requires
        n <= usize::MAX, a.subset_of(b), a != b,
        forall|i: usize| #[trigger] b.contains(i) ==> i < n,
    ensures a.len() < b.len() <= n,
{
    upto_is(n);
    vstd::set_lib::lemma_len_subset(b, upto(n));
    vstd::set_lib::lemma_len_subset(a, b);
    if a.len() == b.len() { vstd::set_lib::lemma_subset_equality(a, b); }
}

// ---------------------------------------------------------------- what the emitted code is like
pub open spec fn def_names(s: Seq<Def>) -> Seq<Str> {
    Seq::new(s.len(), |i: int| s[i].name)
}
/// Type i has a definition.
pub open spec fn defined(b: B, i: usize) -> bool {
    i < b.len() && b.data[i as int].rest.len() > 0
}
/// A type has at most one definition, one Display and one Parse, under its own name.
pub proof fn own(b: B, i: usize)
    requires inv(b), b.ctx.len() == 0, i < b.len(),
    ensures
        !defined(b, i) ==> {
            &&& defs(b.data[i as int].rest).len() == 0
            &&& prints(b.data[i as int].rest).len() == 0
            &&& takes(b.data[i as int].rest).len() == 0
        },
        defined(b, i) ==> {
            &&& named(b, i)
            &&& defs(b.data[i as int].rest).len() == 1
            &&& defs(b.data[i as int].rest)[0].name == word(b, i)
            &&& prints(b.data[i as int].rest).len() == takes(b.data[i as int].rest).len() <= 1
            &&& prints(b.data[i as int].rest).len() == 1 ==> prints(b.data[i as int].rest)[0].0 == word(b, i)
            &&& takes(b.data[i as int].rest).len() == 1 ==> takes(b.data[i as int].rest)[0].0 == word(b, i)
            &&& exists|p: Part| #[trigger] b.is(p, i) && !(p is Var)
        },
{
    let t = b.data[i as int];
    if t.rest.len() == 0 {
        assert(t.rest =~= seq![]);
    } else {
        let p = choose|p: Part| #[trigger] b.is(p, i);
        assert(b.has(p));
        assert(right(b, p, i));
        if let Part::Fix(k, s) = p {
            let (x, c) = choose|x: usize, c: Seq<usize>| fixed(b, k, s, i, x, c);
            assert(fixed(b, k, s, i, x, c));
        }
    }
}
/// Different types are defined under different names.
pub proof fn own_name(b: B, i: usize, j: usize)
    requires inv(b), b.ctx.len() == 0, defined(b, i), defined(b, j), word(b, i) == word(b, j),
    ensures i == j,
{
    own(b, i);
    own(b, j);
    let p = choose|p: Part| #[trigger] b.is(p, i) && !(p is Var);
    let q = choose|q: Part| #[trigger] b.is(q, j) && !(q is Var);
    assert(b.has(p) && b.has(q));
    assert(p == q);
}
/// A definition with some name.
pub open spec fn find_def(s: Seq<Def>, w: Str) -> Option<Def>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s.last().name == w { Some(s.last()) } else { find_def(s.drop_last(), w) }
}
pub open spec fn find<T>(s: Seq<(Str, T)>, w: Str) -> Option<T>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s.last().0 == w { Some(s.last().1) } else { find(s.drop_last(), w) }
}
pub broadcast proof fn find_def_push(s: Seq<Def>, d: Def, w: Str)
    ensures #[trigger] find_def(s.push(d), w) == (if d.name == w { Some(d) } else { find_def(s, w) }),
{
    assert(s.push(d).drop_last() =~= s);
}
pub broadcast proof fn find_push<T>(s: Seq<(Str, T)>, d: (Str, T), w: Str)
    ensures #[trigger] find(s.push(d), w) == (if d.0 == w { Some(d.1) } else { find(s, w) }),
{
    assert(s.push(d).drop_last() =~= s);
}
pub proof fn few<T>(s: Seq<T>, t: Seq<T>)
    ensures
        t.len() == 0 ==> s + t == s,
        t.len() == 1 ==> s + t == s.push(t[0]),
{
    if t.len() == 0 { assert(s + t =~= s); }
    if t.len() == 1 { assert(s + t =~= s.push(t[0])); }
}
/// What name w means among the types o, if type i has that name.
pub open spec fn finds(b: B, o: Seq<usize>, w: Str, i: Option<usize>) -> bool {
    let t = rests(b, o);
    match i {
        Some(i) => {
            let r = b.data[i as int].rest;
            &&& find_def(defs(t), w) == Some(defs(r)[0])
            &&& find(prints(t), w) == (if prints(r).len() == 1 { Some(prints(r)[0].1) } else { None })
            &&& find(takes(t), w) == (if takes(r).len() == 1 { Some(takes(r)[0].1) } else { None })
        },
        None => find_def(defs(t), w) is None && find(prints(t), w) is None && find(takes(t), w) is None,
    }
}
/// The one of o whose name is w.
pub open spec fn called(b: B, o: Seq<usize>, w: Str) -> Option<usize> {
    if exists|i: usize| o.contains(i) && #[trigger] defined(b, i) && word(b, i) == w {
        Some(choose|i: usize| o.contains(i) && #[trigger] defined(b, i) && word(b, i) == w)
    } else {
        None
    }
}
pub proof fn called_is(b: B, o: Seq<usize>, i: usize)
    requires inv(b), b.ctx.len() == 0, o.contains(i), defined(b, i),
    ensures called(b, o, word(b, i)) == Some(i),
{
    let j = choose|j: usize| o.contains(j) && #[trigger] defined(b, j) && word(b, j) == word(b, i);
    own_name(b, i, j);
}
pub proof fn found(b: B, o: Seq<usize>, w: Str)
    requires inv(b), b.ctx.len() == 0, all_in(o, b.len()),
    ensures finds(b, o, w, called(b, o, w)),
    decreases o.len(),
{
    if o.len() == 0 {
        assert(forall|i: usize| !o.contains(i));
    } else {
        let q = o.drop_last();
        let x = o.last();
        assert(o =~= q.push(x));
        assert forall|k: int| 0 <= k < q.len() implies #[trigger] q[k] < b.len() by { assert(o[k] < b.len()); }
        assert(o[o.len() - 1] < b.len());
        assert(o.contains(x));
        assert forall|i: usize| i != x implies (o.contains(i) <==> #[trigger] q.contains(i)) by {
            if o.contains(i) {
                let k = choose|k: int| 0 <= k < o.len() && o[k] == i;
                assert(q[k] == i);
            }
            if q.contains(i) {
                let k = choose|k: int| 0 <= k < q.len() && q[k] == i;
                assert(o[k] == i);
            }
        }
        found(b, q, w);
        own(b, x);
        let r = b.data[x as int].rest;
        defs_add(rests(b, q), r);
        prints_add(rests(b, q), r);
        takes_add(rests(b, q), r);
        few(defs(rests(b, q)), defs(r));
        few(prints(rests(b, q)), prints(r));
        few(takes(rests(b, q)), takes(r));
        broadcast use {find_def_push, find_push};
        match called(b, q, w) {
            Some(i) => {
                assert(q.contains(i) && defined(b, i) && word(b, i) == w);
                if i != x { assert(o.contains(i)); }
                called_is(b, o, i);
                if defined(b, x) && word(b, x) == w { own_name(b, i, x); }
            }
            None => {
                if defined(b, x) && word(b, x) == w {
                    called_is(b, o, x);
                } else {
                    assert(called(b, o, w) is None) by {
                        if called(b, o, w) is Some {
                            let i = choose|i: usize| o.contains(i) && #[trigger] defined(b, i) && word(b, i) == w;
                            assert(q.contains(i));
                        }
                    }
                }
            }
        }
    }
}
/// No name is defined twice.
pub proof fn once_each(b: B, o: Seq<usize>)
    requires inv(b), b.ctx.len() == 0, all_in(o, b.len()), o.no_duplicates(),
    ensures
        def_names(defs(rests(b, o))).no_duplicates(),
        forall|w: Str| #[trigger] def_names(defs(rests(b, o))).contains(w) ==> called(b, o, w) is Some,
    decreases o.len(),
{
    let names = def_names(defs(rests(b, o)));
    if o.len() > 0 {
        let q = o.drop_last();
        let x = o.last();
        assert(o =~= q.push(x));
        assert forall|k: int| 0 <= k < q.len() implies #[trigger] q[k] < b.len() by { assert(o[k] < b.len()); }
        assert(o[o.len() - 1] < b.len());
        once_each(b, q);
        own(b, x);
        let r = b.data[x as int].rest;
        defs_add(rests(b, q), r);
        few(defs(rests(b, q)), defs(r));
        let old = def_names(defs(rests(b, q)));
        assert(o.contains(x)) by { assert(o[o.len() - 1] == x); }
        assert forall|i: usize| #[trigger] q.contains(i) implies o.contains(i) && i != x by {
            let k = choose|k: int| 0 <= k < q.len() && q[k] == i;
            assert(o[k] == i);
        }
        assert forall|w: Str| #[trigger] old.contains(w) implies called(b, o, w) is Some && !(defined(b, x) && word(b, x) == w) by {
            let i = called(b, q, w)->0;
            assert(q.contains(i) && defined(b, i) && word(b, i) == w);
            called_is(b, o, i);
            if defined(b, x) && word(b, x) == w { own_name(b, i, x); }
        }
        if defined(b, x) {
            assert(names =~= old.push(word(b, x)));
            called_is(b, o, x);
            assert(!old.contains(word(b, x)));
            assert forall|w: Str| #[trigger] names.contains(w) implies called(b, o, w) is Some by {
                let k = choose|k: int| 0 <= k < names.len() && names[k] == w;
                if k < old.len() { assert(old[k] == w); assert(old.contains(w)); }
            }
        } else {
            assert(names =~= old);
        }
    }
}

// ---------------------------------------------------------------- the emitted code is closed
pub proof fn find_def_in(s: Seq<Def>, w: Str)
    ensures
        find_def(s, w) is Some ==> def_names(s).contains(w) && find_def(s, w)->0.name == w,
    decreases s.len(),
{
    if s.len() > 0 {
        find_def_in(s.drop_last(), w);
        if s.last().name == w {
            assert(def_names(s)[s.len() - 1] == w);
        } else if find_def(s, w) is Some {
            let k = choose|k: int| 0 <= k < s.drop_last().len() && def_names(s.drop_last())[k] == w;
            assert(def_names(s)[k] == w);
        }
    }
}
pub proof fn find_def_is(s: Seq<Def>, k: int)
    requires def_names(s).no_duplicates(), 0 <= k < s.len(),
    ensures find_def(s, s[k].name) == Some(s[k]),
    decreases s.len(),
{
    if k < s.len() - 1 {
        assert(def_names(s)[k] != def_names(s)[s.len() - 1]);
        assert(def_names(s.drop_last()) =~= def_names(s).drop_last());
        assert(s.drop_last()[k] == s[k]);
        find_def_is(s.drop_last(), k);
    }
}
pub proof fn mean_at(b: B, c: Seq<usize>, s: Seq<CN>, n: int, ids: Seq<usize>, k: int)
    requires mean(b, c, s, n, ids), 0 <= k < n <= s.len(),
    ensures means(b, c, s[k].e, ids[k]),
    decreases n,
{
    if k < n - 1 { mean_at(b, c, s, n - 1, ids, k); }
}
/// Type i stands for some grammar whose free variables refer to fixed points that are reachable from id, too.
pub open spec fn lives(b: B, id: usize, i: usize) -> bool {
    exists|c: Seq<usize>, e: CX| #[trigger] means(b, c, e, i) && scoped(e, c.len() as int) && all_in_reach(b, id, c)
}
pub open spec fn all_in_reach(b: B, id: usize, c: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < c.len() ==> reachable(b, id, #[trigger] c[k])
}
pub proof fn lives_on(b: B, id: usize, j: usize, i: usize)
    requires inv(b), b.ctx.len() == 0, lives(b, id, j), reachable(b, id, j), part_of(b, j, i),
    ensures lives(b, id, i),
{
    let (c, e) = choose|c: Seq<usize>, e: CX| #[trigger] means(b, c, e, j) && scoped(e, c.len() as int) && all_in_reach(b, id, c);
    match e {
        CX::Eps(_) => {}
        CX::Lit(s, _) => { there(b, Part::Lit(s)); }
        CX::Cat(s, t) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), j) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            there(b, Part::Cat(ids));
            assert(right(b, Part::Cat(ids), j));
            assert(ids.contains(i));
            let k = choose|k: int| 0 <= k < ids.len() && ids[k] == i;
            mean_at(b, c, s, s.len() as int, ids, k);
            scoped_part(s, t, c.len() as int);
            assert(means(b, c, s[k].e, i) && scoped(s[k].e, c.len() as int));
        }
        CX::Alt(s, t) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), j) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            there(b, Part::Alt(ids));
            assert(right(b, Part::Alt(ids), j));
            assert(ids.contains(i));
            let k = choose|k: int| 0 <= k < ids.len() && ids[k] == i;
            mean_at(b, c, s, s.len() as int, ids, k);
            scoped_part(s, t, c.len() as int);
            assert(means(b, c, s[k].e, i) && scoped(s[k].e, c.len() as int));
        }
        CX::Fix(k) => {
            scoped_fix(*k, c.len() as int);
            let x = fixed_here(b, c, *k, j);
            assert(x == i);
            let d = c.push(j);
            assert forall|n: int| 0 <= n < d.len() implies reachable(b, id, #[trigger] d[n]) by {
                if n < c.len() { assert(d[n] == c[n]); }
            }
            assert(means(b, d, k.e, i) && scoped(k.e, d.len() as int));
        }
        CX::Var(v, _) => {
            there(b, Part::Var(c[c.len() - 1 - v]));
            assert(right(b, Part::Var(c[c.len() - 1 - v]), j));
        }
    }
}
pub proof fn all_live(b: B, id: usize, p: Seq<usize>)
    requires inv(b), b.ctx.len() == 0, lives(b, id, id), path(b, p), p[0] == id,
    ensures lives(b, id, p.last()),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert(path(b, q)) by {
            assert forall|k: int| 0 < k < q.len() implies #[trigger] part_of(b, q[k - 1], q[k]) by {
                assert(part_of(b, p[k - 1], p[k]));
            }
        }
        all_live(b, id, q);
        assert(part_of(b, p[p.len() - 2], p[p.len() - 1]));
        lives_on(b, id, q.last(), p.last());
    } else {
        assert(p.last() == id);
    }
}
pub proof fn reached(b: B, id: usize, o: Seq<usize>, p: Seq<usize>)
    requires emitted(b, id, o), path(b, p), p[0] == id,
    ensures o.contains(p.last()),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert(path(b, q)) by {
            assert forall|k: int| 0 < k < q.len() implies #[trigger] part_of(b, q[k - 1], q[k]) by {
                assert(part_of(b, p[k - 1], p[k]));
            }
        }
        reached(b, id, o, q);
        assert(part_of(b, p[p.len() - 2], p[p.len() - 1]));
    }
}
/// A type that is defined in t, possibly boxed, or the runtime library's Epsilon.
pub open spec fn known_ty(t: Seq<Tok>, ty: Seq<Tok>) -> bool {
    ||| ty == seq![Tok::Word(eps_word())]
    ||| exists|w: Str| #[trigger] def_names(defs(t)).contains(w) && (ty == seq![Tok::Word(w)] || ty == seq![Tok::Generic("Box"@, seq![Tok::Word(w)])])
}
/// All types that definitions in t mention are known.
pub open spec fn closed(t: Seq<Tok>) -> bool {
    forall|i: int, j: int| 0 <= i < defs(t).len() && 0 <= j < defs(t)[i].tys.len() ==> known_ty(t, #[trigger] defs(t)[i].tys[j])
}
pub proof fn name_known(b: B, id: usize, o: Seq<usize>, i: usize)
    requires inv(b), b.ctx.len() == 0, emitted(b, id, o), lives(b, id, id), o.contains(i),
    ensures known_ty(rests(b, o), b.data[i as int].name),
{
    assert(o.to_set().contains(i));
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] o[k] < b.len() by { assert(o.to_set().contains(o[k])); }
    let p = choose|p: Seq<usize>| #[trigger] path(b, p) && p[0] == id && p.last() == i;
    all_live(b, id, p);
    let (c, e) = choose|c: Seq<usize>, e: CX| #[trigger] means(b, c, e, i) && scoped(e, c.len() as int) && all_in_reach(b, id, c);
    let t = rests(b, o);
    match e {
        CX::Eps(_) => {}
        CX::Var(v, _) => {
            let f = c[c.len() - 1 - v];
            there(b, Part::Var(f));
            assert(right(b, Part::Var(f), i));
            assert(reachable(b, id, c[c.len() - 1 - v]));
            let q = choose|p: Seq<usize>| #[trigger] path(b, p) && p[0] == id && p.last() == f;
            reached(b, id, o, q);
            let (k, s) = choose|k: CN, s: Seq<usize>| #[trigger] b.is(Part::Fix(k, s), f);
            there(b, Part::Fix(k, s));
            is_defined(b, o, Part::Fix(k, s), f);
        }
        CX::Lit(s, _) => { is_defined(b, o, Part::Lit(s), i); }
        CX::Cat(s, t) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Cat(ids), i) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            is_defined(b, o, Part::Cat(ids), i);
        }
        CX::Alt(s, t) => {
            let ids = choose|ids: Seq<usize>| #[trigger] b.is(Part::Alt(ids), i) && ids.len() == s.len() && mean(b, c, s, s.len() as int, ids);
            is_defined(b, o, Part::Alt(ids), i);
        }
        CX::Fix(k) => { is_defined(b, o, Part::Fix(*k, scope(k.e, c)), i); }
    }
}
/// What stands for a part other than a variable is defined under its own name.
pub proof fn is_defined(b: B, o: Seq<usize>, p: Part, i: usize)
    requires inv(b), b.ctx.len() == 0, o.contains(i), all_in(o, b.len()), b.is(p, i), !(p is Var),
    ensures
        defined(b, i), named(b, i),
        def_names(defs(rests(b, o))).contains(word(b, i)),
        find_def(defs(rests(b, o)), word(b, i)) == Some(defs(b.data[i as int].rest)[0]),
{
    assert(b.has(p));
    assert(right(b, p, i));
    if let Part::Fix(k, s) = p {
        let (x, c) = choose|x: usize, c: Seq<usize>| fixed(b, k, s, i, x, c);
        assert(fixed(b, k, s, i, x, c));
    }
    assert(defs(b.data[i as int].rest).len() == 1);
    assert(b.data[i as int].rest.len() > 0);
    called_is(b, o, i);
    found(b, o, word(b, i));
    find_def_in(defs(rests(b, o)), word(b, i));
}
pub proof fn names_once(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str)
    requires inv(b), b.ctx.len() == 0, emits(b, id, t, o, w),
    ensures def_names(defs(t)).no_duplicates(), defs(t) == defs(rests(b, o)).push(goal(b, id, w)->Def_0),
        called(b, o, w) is None,
{
    let r = rests(b, o);
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] o[k] < b.len() by { assert(o.to_set().contains(o[k])); }
    once_each(b, o);
    let g = goal(b, id, w)->Def_0;
    defs_push(r, goal(b, id, w));
    assert(def_names(defs(t)) =~= def_names(defs(r)).push(w));
    if called(b, o, w) is Some {
        let i = called(b, o, w)->0;
        assert(o.contains(i) && defined(b, i) && word(b, i) == w);
        own(b, i);
        reveal_strlit("Ast");
    }
    assert(!def_names(defs(r)).contains(w));
}
pub proof fn names_known(b: B, id: usize, t: Seq<Tok>, o: Seq<usize>, w: Str)
    requires inv(b), b.ctx.len() == 0, lives(b, id, id), emits(b, id, t, o, w),
    ensures closed(t),
{
    let r = rests(b, o);
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] o[k] < b.len() by { assert(o.to_set().contains(o[k])); }
    once_each(b, o);
    names_once(b, id, t, o, w);
    let g = goal(b, id, w)->Def_0;
    assert(def_names(defs(t)) =~= def_names(defs(r)).push(w));
    assert forall|v: Str| #[trigger] def_names(defs(r)).contains(v) implies def_names(defs(t)).contains(v) by {
        let k = choose|k: int| 0 <= k < def_names(defs(r)).len() && def_names(defs(r))[k] == v;
        assert(def_names(defs(t))[k] == v);
    }
    assert forall|y: Seq<Tok>| #[trigger] known_ty(r, y) implies known_ty(t, y) by {
        if y != seq![Tok::Word(eps_word())] {
            let v = choose|v: Str| #[trigger] def_names(defs(r)).contains(v) && (y == seq![Tok::Word(v)] || y == seq![Tok::Generic("Box"@, seq![Tok::Word(v)])]);
            assert(def_names(defs(t)).contains(v));
        }
    }
    assert forall|i: int, j: int| 0 <= i < defs(t).len() && 0 <= j < defs(t)[i].tys.len() implies known_ty(t, #[trigger] defs(t)[i].tys[j]) by {
        if i == defs(r).len() {
            name_known(b, id, o, id);
        } else {
            let d = defs(r)[i];
            assert(def_names(defs(r))[i] == d.name);
            assert(def_names(defs(r)).contains(d.name));
            assert(d == defs(t)[i]);
            let n = called(b, o, d.name)->0;
            assert(o.contains(n) && defined(b, n) && word(b, n) == d.name);
            found(b, o, d.name);
            find_def_is(defs(r), i);
            own(b, n);
            let p = choose|p: Part| #[trigger] b.is(p, n) && !(p is Var);
            assert(b.has(p));
            assert(right(b, p, n));
            match p {
                Part::Cat(ids) => {
                    assert(d.tys == names(b, ids));
                    assert(ids.to_set().contains(ids[j]));
                    name_known(b, id, o, ids[j]);
                }
                Part::Alt(ids) => {
                    assert(d.tys == names(b, ids));
                    assert(ids.to_set().contains(ids[j]));
                    name_known(b, id, o, ids[j]);
                }
                Part::Fix(k, s) => {
                    let (x, c) = choose|x: usize, c: Seq<usize>| fixed(b, k, s, n, x, c);
                    assert(b.data[n as int].deps.contains(x));
                    name_known(b, id, o, x);
                }
                _ => {}
            }
        }
    }
}

// ---------------------------------------------------------------- what type inference gives is well typed
pub open spec fn ttys(s: Seq<TN>) -> Seq<crate::Ty> {
    Seq::new(s.len(), |i: int| tty(s[i]))
}
pub proof fn cat_ty_upto(a: Seq<crate::Ty>, b: Seq<crate::Ty>, k: int)
    requires k <= a.len(), k <= b.len(), a.len() > 0, b.len() > 0, forall|i: int| 0 <= i < a.len() && i < b.len() ==> #[trigger] a[i] == b[i],
    ensures cat_ty(a, k) == cat_ty(b, k), alt_ty(a, k) == alt_ty(b, k),
    decreases k,
{
    assert(a[0] == b[0]);
    if k > 1 { cat_ty_upto(a, b, k - 1); assert(a[k - 1] == b[k - 1]); }
}
pub proof fn inf_cat_is(r: Seq<(Span, N)>, k: int, t0: crate::Ty, ctx: Seq<crate::Ty>)
    requires 0 <= k <= r.len(), inf_cat(r, k, t0, ctx) is Some,
    ensures
        (inf_cat(r, k, t0, ctx)->0).0.len() == k,
        forall|i: int| 0 <= i < k ==> inf(r[i].1.e, r[i].1.name, r[i].1.span, ctx, ctx.len() as int) == Some(#[trigger] (inf_cat(r, k, t0, ctx)->0).0[i]),
        (inf_cat(r, k, t0, ctx)->0).1 == cat_ty(seq![t0] + ttys((inf_cat(r, k, t0, ctx)->0).0), k + 1),
        forall|m: int| 1 <= m <= k ==> (#[trigger] cat_ty(seq![t0] + ttys((inf_cat(r, k, t0, ctx)->0).0), m)).flast.disjoint((seq![t0] + ttys((inf_cat(r, k, t0, ctx)->0).0))[m].first),
    decreases k,
{
    if k > 0 {
        inf_cat_is(r, k - 1, t0, ctx);
        let (ts, t) = inf_cat(r, k - 1, t0, ctx)->0;
        let b = inf(r[k - 1].1.e, r[k - 1].1.name, r[k - 1].1.span, ctx, ctx.len() as int)->0;
        let (us, u) = inf_cat(r, k, t0, ctx)->0;
        assert(us == ts.push(b));
        let x = seq![t0] + ttys(ts);
        let y = seq![t0] + ttys(us);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == y[i] by {}
        assert forall|m: int| 1 <= m <= k implies (#[trigger] cat_ty(y, m)).flast.disjoint(y[m].first) by {
            cat_ty_upto(x, y, m);
            if m < k { assert(x[m] == y[m]); } else { assert(y[m] == tty(b)); }
        }
        cat_ty_upto(x, y, k);
        assert(y[k] == tty(b));
    }
}
pub proof fn inf_alt_is(r: Seq<(Span, N)>, k: int, t0: crate::Ty, ctx: Seq<crate::Ty>, guard: int)
    requires 0 <= k <= r.len(), inf_alt(r, k, t0, ctx, guard) is Some,
    ensures
        (inf_alt(r, k, t0, ctx, guard)->0).0.len() == k,
        forall|i: int| 0 <= i < k ==> inf(r[i].1.e, r[i].1.name, r[i].1.span, ctx, guard) == Some(#[trigger] (inf_alt(r, k, t0, ctx, guard)->0).0[i]),
        (inf_alt(r, k, t0, ctx, guard)->0).1 == alt_ty(seq![t0] + ttys((inf_alt(r, k, t0, ctx, guard)->0).0), k + 1),
        forall|m: int| 1 <= m <= k ==> alt_ok(#[trigger] alt_ty(seq![t0] + ttys((inf_alt(r, k, t0, ctx, guard)->0).0), m), (seq![t0] + ttys((inf_alt(r, k, t0, ctx, guard)->0).0))[m]),
    decreases k,
{
    if k > 0 {
        inf_alt_is(r, k - 1, t0, ctx, guard);
        let (ts, t) = inf_alt(r, k - 1, t0, ctx, guard)->0;
        let b = inf(r[k - 1].1.e, r[k - 1].1.name, r[k - 1].1.span, ctx, guard)->0;
        let (us, u) = inf_alt(r, k, t0, ctx, guard)->0;
        assert(us == ts.push(b));
        let x = seq![t0] + ttys(ts);
        let y = seq![t0] + ttys(us);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == y[i] by {}
        assert forall|m: int| 1 <= m <= k implies alt_ok(#[trigger] alt_ty(y, m), y[m]) by {
            cat_ty_upto(x, y, m);
            if m < k { assert(x[m] == y[m]); } else { assert(y[m] == tty(b)); }
        }
        cat_ty_upto(x, y, k);
        assert(y[k] == tty(b));
    }
}
pub proof fn wts_all(s: Seq<CN>, k: int, tc: Seq<crate::Ty>)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> wt((#[trigger] s[i]).e, tc),
    ensures wts(s, k, tc),
    decreases k,
{
    if k > 0 { wts_all(s, k - 1, tc); assert(wt(s[k - 1].e, tc)); }
}
#[verifier::spinoff_prover]
pub proof fn inf_wt(e: X, name: Option<Name>, span: Span, ctx: Seq<crate::Ty>, guard: int, t: TypedExpression)
    requires inf(e, name, span, ctx, guard) == Some(tn(t)),
    ensures wt(cx(t.inner), ctx),
    decreases t,
{
    cx_is(t.inner);
    broadcast use {crate::typed::tcat_is, crate::typed::talt_is};
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    match t.inner {
        RawTypedExpression::Cat(c) => {
            assert(tn(t).e == tcat(c));
            if let X::Cat(f, r) = e {
                let a = inf(f.e, f.name, f.span, ctx, guard)->0;
                let (ts, ty) = inf_cat(r, r.len() as int, tty(a), ctx)->0;
                inf_cat_is(r, r.len() as int, tty(a), ctx);
                assert(tall(c.terms@) =~= seq![a] + ts);
                let s = call(c.terms@);
                assert forall|i: int| 0 <= i < s.len() implies wt((#[trigger] s[i]).e, ctx) && ctys(s)[i] == (seq![tty(a)] + ttys(ts))[i] by {
                    assert(tall(c.terms@)[i] == tn(c.terms@[i]));
                    cty_is(c.terms@[i]);
                    assert(s[i].e == cx(c.terms@[i].inner));
                    if i == 0 {
                        assert(tn(c.terms@[0]) == a);
                        inf_wt(f.e, f.name, f.span, ctx, guard, c.terms[0]);
                    } else {
                        assert(tn(c.terms@[i]) == ts[i - 1]);
                        let q = r[i - 1].1;
                        inf_wt(q.e, q.name, q.span, ctx, ctx.len() as int, c.terms[i]);
                    }
                }
                wts_all(s, s.len() as int, ctx);
                assert(ctys(s) =~= seq![tty(a)] + ttys(ts));
            }
        }
        RawTypedExpression::Alt(c) => {
            assert(tn(t).e == talt(c));
            if let X::Alt(f, r) = e {
                let a = inf(f.e, f.name, f.span, ctx, guard)->0;
                let (ts, ty) = inf_alt(r, r.len() as int, tty(a), ctx, guard)->0;
                inf_alt_is(r, r.len() as int, tty(a), ctx, guard);
                assert(tall(c.terms@) =~= seq![a] + ts);
                let s = call(c.terms@);
                assert forall|i: int| 0 <= i < s.len() implies wt((#[trigger] s[i]).e, ctx) && ctys(s)[i] == (seq![tty(a)] + ttys(ts))[i] by {
                    assert(tall(c.terms@)[i] == tn(c.terms@[i]));
                    cty_is(c.terms@[i]);
                    assert(s[i].e == cx(c.terms@[i].inner));
                    if i == 0 {
                        assert(tn(c.terms@[0]) == a);
                        inf_wt(f.e, f.name, f.span, ctx, guard, c.terms[0]);
                    } else {
                        assert(tn(c.terms@[i]) == ts[i - 1]);
                        let q = r[i - 1].1;
                        inf_wt(q.e, q.name, q.span, ctx, guard, c.terms[i]);
                    }
                }
                wts_all(s, s.len() as int, ctx);
                assert(ctys(s) =~= seq![tty(a)] + ttys(ts));
            }
        }
        RawTypedExpression::Fix(f) => {
            assert(tn(t).e == TX::Fix(Box::new(tn(*f.inner))));
            assert(cx(t.inner) == CX::Fix(Box::new(cn(*f.inner))));
            if let X::Fix(p) = e {
                if let X::Lambda(ps, b) = p.e {
                    let nm = merge2(merge2(p.name, b.name), name);
                    let g = fixbody(*b, nm, ctx, guard);
                    let y = choose|y: crate::Ty| least(g, y);
                    assert(g(y)->0 == tn(*f.inner));
                    assert(fix_at(g, y));
                    inf_wt(b.e, nm, b.span, ctx.push(y), guard, *f.inner);
                    cty_is(*f.inner);
                }
            }
        }
        _ => {}
    }
}
}
