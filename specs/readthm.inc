// ---------------------------------------------------------------- every tree of the syntax is accepted, and its tokens are no other tree's
pub open spec fn has(s: Seq<Tk>, i: int, t: Seq<Tk>) -> bool {
    0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t
}
pub broadcast proof fn has_add(s: Seq<Tk>, i: int, a: Seq<Tk>, b: Seq<Tk>)
    requires #[trigger] has(s, i, a + b),
    ensures has(s, i, a), has(s, i + a.len(), b),
{
    let t = s.subrange(i, i + a.len() + b.len());
    assert(t == a + b);
    assert(s.subrange(i, i + a.len()) =~= t.subrange(0, a.len() as int));
    assert(t.subrange(0, a.len() as int) =~= a);
    assert(s.subrange(i + a.len(), i + a.len() + b.len()) =~= t.subrange(a.len() as int, t.len() as int));
    assert(t.subrange(a.len() as int, t.len() as int) =~= b);
}
pub broadcast proof fn has_one(s: Seq<Tk>, i: int, t: Seq<Tk>)
    requires #[trigger] has(s, i, t),
    ensures t.len() >= 1 ==> at(s, i) && s[i] == t[0],
{
    if t.len() >= 1 { assert(t[0] == s.subrange(i, i + t.len())[0]); }
}
/// Nothing that continues a call, a sequence, an alternative or an alternation.
pub open spec fn past_call(s: Seq<Tk>, i: int) -> bool { !starts(s, i) }
pub open spec fn past_cat(s: Seq<Tk>, i: int) -> bool { !starts(s, i) && !is_p(s, i, '.') }
pub open spec fn past_labelled(s: Seq<Tk>, i: int) -> bool { past_cat(s, i) && !is_p(s, i, ':') }
pub open spec fn past_alt(s: Seq<Tk>, i: int) -> bool { past_labelled(s, i) && !is_p(s, i, '|') }


// one step of each of them
pub proof fn term_is(x: Term, s: Seq<Tk>, i: int)
    requires g_term(x), has(s, i, t_term(x)),
    ensures
        t_term(x).len() >= 1, at(s, i), starts(s, i),
        match x {
            Term::Epsilon(u) => s[i] == Tk::Word("_"@, u.span) && t_term(x).len() == 1,
            Term::Ident(a) => s[i] == word(a) && a.text() != "_"@ && t_term(x).len() == 1,
            Term::Literal(l) => s[i] == Tk::Lit(l) && t_term(x).len() == 1,
            Term::Fix(f) => s[i] == Tk::Punct('!', f.bang_token.span) && g_term(*f.expr) && has(s, i + 1, t_term(*f.expr)) && t_term(x).len() == t_term(*f.expr).len() + 1,
            Term::Parens(p) => s[i] == Tk::Group(p.paren_token.span, t_expr(p.expr)) && g_expr(p.expr) && has(t_expr(p.expr), 0, t_expr(p.expr)) && t_term(x).len() == 1,
        },
{
    broadcast use has_one;
    match x {
        Term::Fix(f) => {
            assert(t_term(x) == t_fix(f));
            has_add(s, i, f.bang_token.toks(), t_term(*f.expr));
            assert(g_fix(f));
        },
        Term::Parens(p) => {
            assert(t_term(x) == t_parens(p));
            assert(g_parens(p));
            let inner = t_expr(p.expr);
            assert(inner.subrange(0, inner.len() as int) =~= inner);
        },
        _ => {},
    }
}
pub proof fn term_step(s: Seq<Tk>, i: int)
    ensures
        at(s, i) ==> p_term(s, i) == match s[i] {
            Tk::Word(_, _) => Some(i + 1),
            Tk::Lit(_) => Some(i + 1),
            Tk::Punct(c, _) => if c == '!' { p_term(s, i + 1) } else { None },
            Tk::Group(_, inner) => match p_expr(inner, 0) { Some(j) => if j == inner.len() { Some(i + 1) } else { None }, None => None },
            Tk::Other(_) => None,
        },
{
}
pub proof fn cat_step(s: Seq<Tk>, i: int)
    ensures p_cat(s, i) == match p_call(s, i) { Some(j) => if i < j && is_p(s, j, '.') { p_cat(s, j + 1) } else { Some(j) }, None => None },
{
}
pub proof fn labelled_step(s: Seq<Tk>, i: int)
    ensures p_labelled(s, i) == match p_cat(s, i) { Some(j) => if is_p(s, j, ':') { if is_word(s, j + 1) { Some(j + 2) } else { None } } else { Some(j) }, None => None },
{
}
pub proof fn alt_step(s: Seq<Tk>, i: int)
    ensures p_alt(s, i) == match p_labelled(s, i) { Some(j) => if i < j && is_p(s, j, '|') { p_alt(s, j + 1) } else { Some(j) }, None => None },
{
}
pub proof fn expr_step(s: Seq<Tk>, i: int)
    ensures
        p_expr(s, i) == (if !is_p(s, i, '/') { p_alt(s, i) } else {
            match p_args(s, i + 1) { Some(j) => if i < j && is_p(s, j, '/') { p_alt(s, j + 1) } else { None }, None => None }
        }),
{
}
pub proof fn expr_is(e: Expression)
    requires g_expr(e),
    ensures
        match e {
            Expression::Alt(a) => t_expr(e) == t_alt(a) && g_alt(a),
            Expression::Lambda(l) => t_expr(e) == t_lambda(l) && l.args@.len() > 0 && g_args(l.args@) && g_alt(l.expr),
        },
{
    if let Expression::Lambda(l) = e { assert(g_lambda(l)); }
}
pub proof fn ok_term(x: Term, s: Seq<Tk>, i: int)
    requires g_term(x), has(s, i, t_term(x)),
    ensures p_term(s, i) == Some(i + t_term(x).len()), starts(s, i), t_term(x).len() >= 1,
    decreases x, 0int,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    term_is(x, s, i);
    term_step(s, i);
    match x {
        Term::Fix(f) => { ok_term(*f.expr, s, i + 1); },
        Term::Parens(p) => { ok_expr(p.expr, t_expr(p.expr), 0); },
        _ => {},
    }
}
pub proof fn terms_has(c: Call, s: Seq<Tk>, i: int, k: int)
    requires 0 <= k <= c.0@.len(), has(s, i, t_call(c)),
    ensures has(s, i, t_terms(c, k)), k < c.0@.len() ==> has(s, i + t_terms(c, k).len(), t_term(c.0[k])) && t_terms(c, k + 1) == t_terms(c, k) + t_term(c.0[k]),
    decreases c.0@.len() - k,
{
    if k < c.0@.len() {
        terms_has(c, s, i, k + 1);
        assert(t_terms(c, k + 1) == t_terms(c, k) + t_term(c.0[k]));
        has_add(s, i, t_terms(c, k), t_term(c.0[k]));
    }
}
pub proof fn ok_terms(c: Call, s: Seq<Tk>, i: int, k: int)
    requires g_call(c), has(s, i, t_call(c)), past_call(s, i + t_call(c).len()), 0 <= k <= c.0@.len(),
    ensures p_terms(s, i + t_terms(c, k).len()) == Some(i + t_call(c).len()),
    decreases c, c.0@.len() - k,
{
    terms_has(c, s, i, k);
    if k < c.0@.len() {
        ok_terms(c, s, i, k + 1);
        ok_term(c.0[k], s, i + t_terms(c, k).len());
    }
}
pub proof fn ok_call(c: Call, s: Seq<Tk>, i: int)
    requires g_call(c), has(s, i, t_call(c)), past_call(s, i + t_call(c).len()),
    ensures p_call(s, i) == Some(i + t_call(c).len()), starts(s, i), t_call(c).len() >= 1,
    decreases c, c.0@.len() + 1,
{
    terms_has(c, s, i, 0);
    terms_has(c, s, i, 1);
    ok_terms(c, s, i, 1);
    assert(t_terms(c, 0).len() == 0);
    ok_term(c.0[0], s, i);
}
pub open spec fn a_call(c: Cat, k: int) -> Call { if k < c.0.inner@.len() { c.0.inner[k].0 } else { *c.0.last->0 } }
pub open spec fn a_labelled(c: Alt, k: int) -> Labelled { if k < c.0.inner@.len() { c.0.inner[k].0 } else { *c.0.last->0 } }
pub proof fn calls_has(c: Cat, s: Seq<Tk>, i: int, k: int)
    requires g_cat(c), 0 <= k <= c.0.len(), has(s, i, t_cat(c)),
    ensures
        c.0.last is Some,
        t_calls(c, 0).len() == 0, t_calls(c, c.0.len() as int) == t_cat(c), k < c.0.len() ==> g_call(a_call(c, k)),
        has(s, i, t_calls(c, k)),
        k < c.0.len() ==> has(s, i + t_calls(c, k).len(), t_call(a_call(c, k))) && t_calls(c, k + 1).len() == t_calls(c, k).len() + t_call(a_call(c, k)).len() + (if k + 1 < c.0.len() { 1int } else { 0 }),
        k + 1 < c.0.len() ==> is_p(s, i + t_calls(c, k).len() + t_call(a_call(c, k)).len(), '.') && s[i + t_calls(c, k).len() + t_call(a_call(c, k)).len()] == c.0.inner[k].1.toks()[0],
    decreases c.0.len() - k,
{
    broadcast use {has_add, has_one};
    if k < c.0.len() {
        calls_has(c, s, i, k + 1);
        let x = t_call(a_call(c, k));
        let part = if k < c.0.inner@.len() { x + c.0.inner[k].1.toks() } else { x };
        assert(t_calls(c, k + 1) == t_calls(c, k) + part);
        has_add(s, i, t_calls(c, k), part);
        if k < c.0.inner@.len() { has_add(s, i + t_calls(c, k).len(), x, c.0.inner[k].1.toks()); }
    }
}
pub proof fn ok_calls(c: Cat, s: Seq<Tk>, i: int, k: int)
    requires g_cat(c), has(s, i, t_cat(c)), past_cat(s, i + t_cat(c).len()), 0 <= k < c.0.len(),
    ensures p_cat(s, i + t_calls(c, k).len()) == Some(i + t_cat(c).len()), starts(s, i + t_calls(c, k).len()), t_cat(c).len() >= 1,
    decreases c, c.0.len() - k,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    calls_has(c, s, i, k);
    let j = i + t_calls(c, k).len();
    cat_step(s, j);
    ok_call(a_call(c, k), s, j);
    if k < c.0.inner@.len() {
        ok_calls(c, s, i, k + 1);
    }
}
pub proof fn ok_cat(c: Cat, s: Seq<Tk>, i: int)
    requires g_cat(c), has(s, i, t_cat(c)), past_cat(s, i + t_cat(c).len()),
    ensures p_cat(s, i) == Some(i + t_cat(c).len()), starts(s, i), t_cat(c).len() >= 1,
    decreases c, c.0.len() + 1,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    calls_has(c, s, i, 0);
    ok_calls(c, s, i, 0);
}
pub proof fn labelled_has(l: Labelled, s: Seq<Tk>, i: int)
    requires g_labelled(l), has(s, i, t_labelled(l)), past_labelled(s, i + t_labelled(l).len()),
    ensures
        g_cat(l.cat),
        has(s, i, t_cat(l.cat)), past_cat(s, i + t_cat(l.cat).len()),
        match l.label {
            Some(x) => at(s, i + t_cat(l.cat).len() + 1) && s[i + t_cat(l.cat).len()] == Tk::Punct(':', x.colon_tok.span) && s[i + t_cat(l.cat).len() + 1] == word(x.label) && t_labelled(l).len() == t_cat(l.cat).len() + 2,
            None => !is_p(s, i + t_cat(l.cat).len(), ':') && t_labelled(l).len() == t_cat(l.cat).len(),
        },
{
    broadcast use has_one;
    if let Some(x) = l.label {
        has_add(s, i, t_cat(l.cat), t_label(x));
        has_add(s, i + t_cat(l.cat).len(), x.colon_tok.toks(), seq![word(x.label)]);
        assert(t_label(x)[0] == Tk::Punct(':', x.colon_tok.span));
    }
}
pub proof fn ok_labelled(l: Labelled, s: Seq<Tk>, i: int)
    requires g_labelled(l), has(s, i, t_labelled(l)), past_labelled(s, i + t_labelled(l).len()),
    ensures p_labelled(s, i) == Some(i + t_labelled(l).len()), starts(s, i), t_labelled(l).len() >= 1,
    decreases l, 0int,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    labelled_has(l, s, i);
    labelled_step(s, i);
    ok_cat(l.cat, s, i);
}
pub proof fn labelleds_has(c: Alt, s: Seq<Tk>, i: int, k: int)
    requires g_alt(c), 0 <= k <= c.0.len(), has(s, i, t_alt(c)),
    ensures
        c.0.last is Some,
        t_labelleds(c, 0).len() == 0, t_labelleds(c, c.0.len() as int) == t_alt(c), k < c.0.len() ==> g_labelled(a_labelled(c, k)),
        has(s, i, t_labelleds(c, k)),
        k < c.0.len() ==> has(s, i + t_labelleds(c, k).len(), t_labelled(a_labelled(c, k))) && t_labelleds(c, k + 1).len() == t_labelleds(c, k).len() + t_labelled(a_labelled(c, k)).len() + (if k + 1 < c.0.len() { 1int } else { 0 }),
        k + 1 < c.0.len() ==> is_p(s, i + t_labelleds(c, k).len() + t_labelled(a_labelled(c, k)).len(), '|') && s[i + t_labelleds(c, k).len() + t_labelled(a_labelled(c, k)).len()] == c.0.inner[k].1.toks()[0],
    decreases c.0.len() - k,
{
    broadcast use {has_add, has_one};
    if k < c.0.len() {
        labelleds_has(c, s, i, k + 1);
        let x = t_labelled(a_labelled(c, k));
        let part = if k < c.0.inner@.len() { x + c.0.inner[k].1.toks() } else { x };
        assert(t_labelleds(c, k + 1) == t_labelleds(c, k) + part);
        has_add(s, i, t_labelleds(c, k), part);
        if k < c.0.inner@.len() { has_add(s, i + t_labelleds(c, k).len(), x, c.0.inner[k].1.toks()); }
    }
}
pub proof fn ok_labelleds(c: Alt, s: Seq<Tk>, i: int, k: int)
    requires g_alt(c), has(s, i, t_alt(c)), past_alt(s, i + t_alt(c).len()), 0 <= k < c.0.len(),
    ensures p_alt(s, i + t_labelleds(c, k).len()) == Some(i + t_alt(c).len()), starts(s, i + t_labelleds(c, k).len()), t_alt(c).len() >= 1,
    decreases c, c.0.len() - k,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    labelleds_has(c, s, i, k);
    let j = i + t_labelleds(c, k).len();
    alt_step(s, j);
    ok_labelled(a_labelled(c, k), s, j);
    if k < c.0.inner@.len() {
        ok_labelleds(c, s, i, k + 1);
    }
}
pub proof fn ok_alt(c: Alt, s: Seq<Tk>, i: int)
    requires g_alt(c), has(s, i, t_alt(c)), past_alt(s, i + t_alt(c).len()),
    ensures p_alt(s, i) == Some(i + t_alt(c).len()), starts(s, i), t_alt(c).len() >= 1,
    decreases c, c.0.len() + 1,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    labelleds_has(c, s, i, 0);
    ok_labelleds(c, s, i, 0);
}
pub proof fn args_len(v: Seq<Ident>, k: int)
    requires 0 <= k <= v.len(),
    ensures all_toks(v, k).len() == k, forall|j: int| 0 <= j < k ==> #[trigger] all_toks(v, k)[j] == word(v[j]),
    decreases k,
{
    if k > 0 { args_len(v, k - 1); }
}
pub proof fn args_has(v: Seq<Ident>, s: Seq<Tk>, i: int)
    requires has(s, i, all_toks(v, v.len() as int)),
    ensures forall|j: int| 0 <= j < v.len() ==> at(s, i + j) && #[trigger] s[i + j] == word(v[j]),
{
    args_len(v, v.len() as int);
    let t = all_toks(v, v.len() as int);
    assert forall|j: int| 0 <= j < v.len() implies at(s, i + j) && #[trigger] s[i + j] == word(v[j]) by {
        assert(t[j] == s.subrange(i, i + t.len())[j]);
    }
}
pub proof fn ok_args(v: Seq<Ident>, s: Seq<Tk>, i: int, k: int)
    requires
        g_args(v), 0 <= i, 0 <= k < v.len(), is_p(s, i + v.len(), '/'),
        forall|j: int| 0 <= j < v.len() ==> at(s, i + j) && #[trigger] s[i + j] == word(v[j]),
    ensures p_args(s, i + k) == Some(i + v.len()),
    decreases v.len() - k,
{
    assert(s[i + k] == word(v[k]) && v[k].good());
    if k + 1 < v.len() {
        assert(s[i + (k + 1)] == word(v[k + 1]));
        ok_args(v, s, i, k + 1);
    }
}
pub proof fn ok_params(v: Seq<Ident>, s: Seq<Tk>, i: int, k: int)
    requires
        g_args(v), 0 <= i, 0 <= k <= v.len(), is_p(s, i + v.len(), '='),
        forall|j: int| 0 <= j < v.len() ==> at(s, i + j) && #[trigger] s[i + j] == word(v[j]),
    ensures p_params(s, i + k) == Some(i + v.len()),
    decreases v.len() - k,
{
    if k < v.len() {
        assert(s[i + k] == word(v[k]) && v[k].good());
        ok_params(v, s, i, k + 1);
    }
}
/// The tokens of a function, piece by piece.
pub proof fn lambda_has(l: Lambda, s: Seq<Tk>, i: int)
    requires has(s, i, t_lambda(l)),
    ensures
        t_lambda(l).len() == l.args@.len() + 2 + t_alt(l.expr).len(),
        s[i] == Tk::Punct('/', l.slash_tok_left.span), s[i + 1 + l.args@.len()] == Tk::Punct('/', l.slash_tok_right.span),
        has(s, i + 1, all_toks(l.args@, l.args@.len() as int)), has(s, i + l.args@.len() + 2, t_alt(l.expr)),
        at(s, i), at(s, i + 1 + l.args@.len()),
{
    broadcast use has_one;
    let (a, b, c, d) = (l.slash_tok_left.toks(), all_toks(l.args@, l.args@.len() as int), l.slash_tok_right.toks(), t_alt(l.expr));
    args_len(l.args@, l.args@.len() as int);
    has_add(s, i, a + b + c, d);
    has_add(s, i, a + b, c);
    has_add(s, i, a, b);
}
pub proof fn lambda_args(l: Lambda, s: Seq<Tk>, i: int)
    requires has(s, i, t_lambda(l)), g_args(l.args@), l.args@.len() > 0,
    ensures p_args(s, i + 1) == Some(i + 1 + l.args@.len()),
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    lambda_has(l, s, i);
    args_has(l.args@, s, i + 1);
    ok_args(l.args@, s, i + 1, 0);
}
pub proof fn let_params(l: LetStatement, s: Seq<Tk>, i: int)
    requires has(s, i, t_let(l)), g_args(l.args@),
    ensures p_params(s, i + 2) == Some(i + 2 + l.args@.len()),
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    let_has(l, s, i);
    args_has(l.args@, s, i + 2);
    ok_params(l.args@, s, i + 2, 0);
}
pub proof fn ok_expr(e: Expression, s: Seq<Tk>, i: int)
    requires g_expr(e), has(s, i, t_expr(e)), past_alt(s, i + t_expr(e).len()),
    ensures p_expr(s, i) == Some(i + t_expr(e).len()), t_expr(e).len() >= 1,
    decreases e, 0int,
{
    hide(p_args);
    hide(p_params);
    hide(all_toks);
    hide(g_args);
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    expr_is(e);
    expr_step(s, i);
    match e {
        Expression::Alt(a) => {
            ok_alt(a, s, i);
        },
        Expression::Lambda(l) => {
            lambda_has(l, s, i);
            lambda_args(l, s, i);
            ok_alt(l.expr, s, i + l.args@.len() + 2);
        },
    }
}
pub proof fn goal_has(g: GoalStatement, s: Seq<Tk>, i: int)
    requires has(s, i, t_goal(g)),
    ensures
        t_goal(g).len() == t_expr(g.expr).len() + 2,
        at(s, i), s[i] == Tk::Word("match"@, g.match_token.span), has(s, i + 1, t_expr(g.expr)),
        at(s, i + 1 + t_expr(g.expr).len()), s[i + 1 + t_expr(g.expr).len()] == Tk::Punct(';', g.semi_token.span),
{
    broadcast use has_one;
    let (a, b, c) = (g.match_token.toks(), t_expr(g.expr), g.semi_token.toks());
    has_add(s, i, a + b, c);
    has_add(s, i, a, b);
}
pub proof fn let_has(l: LetStatement, s: Seq<Tk>, i: int)
    requires has(s, i, t_let(l)),
    ensures
        t_let(l).len() == 4 + l.args@.len() + t_expr(l.expr).len() + t_stmt(*l.next).len(),
        at(s, i), s[i] == Tk::Word("let"@, l.let_token.span), at(s, i + 1), s[i + 1] == word(l.name),
        has(s, i + 2, all_toks(l.args@, l.args@.len() as int)), at(s, i + 2 + l.args@.len()), s[i + 2 + l.args@.len()] == Tk::Punct('=', l.eq_token.span),
        has(s, i + 3 + l.args@.len(), t_expr(l.expr)),
        at(s, i + 3 + l.args@.len() + t_expr(l.expr).len()),
        s[i + 3 + l.args@.len() + t_expr(l.expr).len()] == Tk::Punct(';', l.semi_token.span),
        has(s, i + 4 + l.args@.len() + t_expr(l.expr).len(), t_stmt(*l.next)),
{
    broadcast use has_one;
    let (a, b, c, d, e, f, g) = (l.let_token.toks(), seq![word(l.name)], all_toks(l.args@, l.args@.len() as int), l.eq_token.toks(), t_expr(l.expr), l.semi_token.toks(), t_stmt(*l.next));
    args_len(l.args@, l.args@.len() as int);
    has_add(s, i, a + b + c + d + e + f, g);
    has_add(s, i, a + b + c + d + e, f);
    has_add(s, i, a + b + c + d, e);
    has_add(s, i, a + b + c, d);
    has_add(s, i, a + b, c);
    has_add(s, i, a, b);
}
pub proof fn ok_stmt(x: Statement, s: Seq<Tk>, i: int)
    requires g_stmt(x), has(s, i, t_stmt(x)),
    ensures p_stmt(s, i) == Some(i + t_stmt(x).len()), t_stmt(x).len() >= 1,
    decreases x, 0int,
{
    hide(p_args);
    hide(p_params);
    hide(all_toks);
    hide(g_args);
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    reveal_strlit("let");
    reveal_strlit("match");
    match x {
        Statement::Goal(g) => {
            goal_has(g, s, i);
            assert("let"@.len() != "match"@.len());
            ok_expr(g.expr, s, i + 1);
        },
        Statement::Let(l) => {
            let_has(l, s, i);
            let n = l.args@.len();
            let_params(l, s, i);
            let j = i + 3 + n;
            ok_expr(l.expr, s, j);
            let k = j + t_expr(l.expr).len() + 1;
            assert(p_head(s, i) == Some(k));
            ok_stmt(*l.next, s, k);
        },
    }
}

// ---------------------------------------------------------------- equal but for the identity of vectors and identifiers
pub open spec fn s_term(x: Term, y: Term) -> bool
    decreases x, 0int,
{
    match (x, y) {
        (Term::Epsilon(a), Term::Epsilon(b)) => a == b,
        (Term::Ident(a), Term::Ident(b)) => word(a) == word(b),
        (Term::Literal(a), Term::Literal(b)) => a == b,
        (Term::Fix(a), Term::Fix(b)) => a.bang_token == b.bang_token && s_term(*a.expr, *b.expr),
        (Term::Parens(a), Term::Parens(b)) => a.paren_token == b.paren_token && s_expr(a.expr, b.expr),
        _ => false,
    }
}
pub open spec fn s_call(x: Call, y: Call) -> bool
    decreases x, 0int,
{
    x.0@.len() == y.0@.len() && forall|k: int| 0 <= k < x.0@.len() ==> s_term(#[trigger] x.0[k], y.0[k])
}
pub open spec fn s_cat(x: Cat, y: Cat) -> bool
    decreases x, 0int,
{
    &&& x.0.inner@.len() == y.0.inner@.len()
    &&& x.0.last is Some && y.0.last is Some && s_call(*x.0.last->0, *y.0.last->0)
    &&& forall|k: int| 0 <= k < x.0.inner@.len() ==> s_call((#[trigger] x.0.inner[k]).0, y.0.inner[k].0) && x.0.inner[k].1 == y.0.inner[k].1
}
pub open spec fn s_labelled(x: Labelled, y: Labelled) -> bool
    decreases x, 0int,
{
    &&& s_cat(x.cat, y.cat)
    &&& match (x.label, y.label) {
        (Some(a), Some(b)) => a.colon_tok == b.colon_tok && word(a.label) == word(b.label),
        (None, None) => true,
        _ => false,
    }
}
pub open spec fn s_alt(x: Alt, y: Alt) -> bool
    decreases x, 0int,
{
    &&& x.0.inner@.len() == y.0.inner@.len()
    &&& x.0.last is Some && y.0.last is Some && s_labelled(*x.0.last->0, *y.0.last->0)
    &&& forall|k: int| 0 <= k < x.0.inner@.len() ==> s_labelled((#[trigger] x.0.inner[k]).0, y.0.inner[k].0) && x.0.inner[k].1 == y.0.inner[k].1
}
pub open spec fn s_args(x: Seq<Ident>, y: Seq<Ident>) -> bool {
    x.len() == y.len() && forall|k: int| 0 <= k < x.len() ==> word(#[trigger] x[k]) == word(y[k])
}
pub open spec fn s_expr(x: Expression, y: Expression) -> bool
    decreases x, 0int,
{
    match (x, y) {
        (Expression::Alt(a), Expression::Alt(b)) => s_alt(a, b),
        (Expression::Lambda(a), Expression::Lambda(b)) => {
            a.slash_tok_left == b.slash_tok_left && a.slash_tok_right == b.slash_tok_right && s_args(a.args@, b.args@) && s_alt(a.expr, b.expr)
        },
        _ => false,
    }
}
pub open spec fn s_stmt(x: Statement, y: Statement) -> bool
    decreases x, 0int,
{
    match (x, y) {
        (Statement::Goal(a), Statement::Goal(b)) => a.match_token == b.match_token && s_expr(a.expr, b.expr) && a.semi_token == b.semi_token,
        (Statement::Let(a), Statement::Let(b)) => {
            &&& a.let_token == b.let_token && word(a.name) == word(b.name) && s_args(a.args@, b.args@)
            &&& a.eq_token == b.eq_token && s_expr(a.expr, b.expr) && a.semi_token == b.semi_token
            &&& s_stmt(*a.next, *b.next)
        },
        _ => false,
    }
}

// ---------------------------------------------------------------- two trees with the same tokens are the same
pub proof fn one_term(x: Term, y: Term, s: Seq<Tk>, i: int)
    requires g_term(x), g_term(y), has(s, i, t_term(x)), has(s, i, t_term(y)),
    ensures s_term(x, y),
    decreases x, 0int,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    term_is(x, s, i);
    term_is(y, s, i);
    match (x, y) {
        (Term::Fix(a), Term::Fix(b)) => { one_term(*a.expr, *b.expr, s, i + 1); },
        (Term::Parens(a), Term::Parens(b)) => { one_expr(a.expr, b.expr, t_expr(a.expr), 0); },
        _ => {},
    }
}
pub proof fn one_terms(x: Call, y: Call, s: Seq<Tk>, i: int, k: int)
    requires
        g_call(x), g_call(y), has(s, i, t_call(x)), has(s, i, t_call(y)), t_call(x).len() == t_call(y).len(),
        0 <= k <= x.0@.len(),
    ensures
        k <= y.0@.len(), t_terms(x, k).len() == t_terms(y, k).len(),
        forall|j: int| 0 <= j < k ==> s_term(#[trigger] x.0[j], y.0[j]),
    decreases x, k,
{
    if k > 0 {
        one_terms(x, y, s, i, k - 1);
        terms_has(x, s, i, k - 1);
        ok_term(x.0[k - 1], s, i + t_terms(x, k - 1).len());
        terms_more(x, k);
        assert(k - 1 < y.0@.len());
        terms_has(y, s, i, k - 1);
        ok_term(y.0[k - 1], s, i + t_terms(y, k - 1).len());
        one_term(x.0[k - 1], y.0[k - 1], s, i + t_terms(x, k - 1).len());
    }
}
pub proof fn terms_more(c: Call, k: int)
    requires 0 <= k <= c.0@.len(),
    ensures t_terms(c, k).len() <= t_call(c).len(),
    decreases c.0@.len() - k,
{
    if k < c.0@.len() {
        terms_more(c, k + 1);
        assert(t_terms(c, k + 1) == t_terms(c, k) + t_term(c.0[k]));
    }
}
pub proof fn one_call(x: Call, y: Call, s: Seq<Tk>, i: int)
    requires
        g_call(x), g_call(y), has(s, i, t_call(x)), has(s, i, t_call(y)),
        past_call(s, i + t_call(x).len()), past_call(s, i + t_call(y).len()),
    ensures s_call(x, y), t_call(x).len() == t_call(y).len(),
    decreases x, x.0@.len() + 1,
{
    ok_call(x, s, i);
    ok_call(y, s, i);
    one_terms(x, y, s, i, x.0@.len() as int);
    if x.0@.len() < y.0@.len() {
        let n = x.0@.len() as int;
        terms_has(y, s, i, n);
        ok_term(y.0[n], s, i + t_terms(y, n).len());
        terms_more(y, n + 1);
    }
}
pub proof fn calls_more(c: Cat, k: int)
    requires g_cat(c), 0 <= k <= c.0.len(),
    ensures t_calls(c, k).len() <= t_cat(c).len(),
    decreases c.0.len() - k,
{
    if k < c.0.len() {
        calls_more(c, k + 1);
        let part = if k < c.0.inner@.len() { t_call(c.0.inner[k].0) + c.0.inner[k].1.toks() } else { t_call(*c.0.last->0) };
        assert(t_calls(c, k + 1) == t_calls(c, k) + part);
    }
}
/// The first k parts are the same.
pub proof fn one_calls(x: Cat, y: Cat, s: Seq<Tk>, i: int, k: int)
    requires
        g_cat(x), g_cat(y), has(s, i, t_cat(x)), has(s, i, t_cat(y)), t_cat(x).len() == t_cat(y).len(), past_cat(s, i + t_cat(x).len()),
        0 <= k <= x.0.len(),
    ensures
        k <= y.0.len(), t_calls(x, k).len() == t_calls(y, k).len(),
        forall|j: int| 0 <= j < k ==> s_call(#[trigger] a_call(x, j), a_call(y, j)),
        forall|j: int| 0 <= j < k && j < x.0.inner@.len() ==> j < y.0.inner@.len() && (#[trigger] x.0.inner[j]).1 == y.0.inner[j].1,
        k == x.0.len() ==> x.0.inner@.len() == y.0.inner@.len(),
    decreases x, k,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    hide(s_term);
    hide(s_call);
    hide(s_cat);
    hide(s_labelled);
    hide(s_alt);
    hide(s_expr);
    calls_has(x, s, i, 0);
    calls_has(y, s, i, 0);
    if k > 0 {
        let n = k - 1;
        one_calls(x, y, s, i, n);
        calls_has(x, s, i, n);
        calls_has(y, s, i, n);
        calls_more(x, k);
        ok_calls(x, s, i, n);
        let j = i + t_calls(x, n).len();
        assert(past_call(s, j + t_call(a_call(x, n)).len()));
        ok_call(a_call(x, n), s, j);
        assert(n < y.0.len());
        calls_more(y, k);
        assert(past_call(s, j + t_call(a_call(y, n)).len()));
        one_call(a_call(x, n), a_call(y, n), s, j);
        if n < x.0.inner@.len() {
            assert(n < y.0.inner@.len());
            assert(x.0.inner[n].1.toks()[0] == y.0.inner[n].1.toks()[0]);
        } else {
            assert(!is_p(s, i + t_cat(x).len(), '.'));
            assert(n == y.0.inner@.len());
        }
    }
}
pub proof fn cat_same(x: Cat, y: Cat)
    requires
        x.0.last is Some, y.0.last is Some, x.0.inner@.len() == y.0.inner@.len(),
        forall|j: int| 0 <= j < x.0.len() ==> s_call(#[trigger] a_call(x, j), a_call(y, j)),
        forall|j: int| 0 <= j < x.0.inner@.len() ==> (#[trigger] x.0.inner[j]).1 == y.0.inner[j].1,
    ensures s_cat(x, y),
{
    assert(s_call(a_call(x, x.0.inner@.len() as int), a_call(y, x.0.inner@.len() as int)));
    assert forall|k: int| 0 <= k < x.0.inner@.len() implies s_call((#[trigger] x.0.inner[k]).0, y.0.inner[k].0) && x.0.inner[k].1 == y.0.inner[k].1 by {
        assert(s_call(a_call(x, k), a_call(y, k)));
    }
}
pub proof fn one_cat(x: Cat, y: Cat, s: Seq<Tk>, i: int)
    requires g_cat(x), g_cat(y), has(s, i, t_cat(x)), has(s, i, t_cat(y)), past_cat(s, i + t_cat(x).len()), past_cat(s, i + t_cat(y).len()),
    ensures s_cat(x, y), t_cat(x).len() == t_cat(y).len(),
    decreases x, x.0.len() + 1,
{
    hide(s_term);
    hide(s_call);
    hide(s_cat);
    hide(s_labelled);
    hide(s_alt);
    hide(s_expr);
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    calls_has(x, s, i, 0);
    calls_has(y, s, i, 0);
    ok_cat(x, s, i);
    ok_cat(y, s, i);
    one_calls(x, y, s, i, x.0.len() as int);
    cat_same(x, y);
}
pub proof fn one_labelled(x: Labelled, y: Labelled, s: Seq<Tk>, i: int)
    requires
        g_labelled(x), g_labelled(y), has(s, i, t_labelled(x)), has(s, i, t_labelled(y)),
        past_labelled(s, i + t_labelled(x).len()), past_labelled(s, i + t_labelled(y).len()),
    ensures s_labelled(x, y), t_labelled(x).len() == t_labelled(y).len(),
    decreases x, 0int,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    labelled_has(x, s, i);
    labelled_has(y, s, i);
    one_cat(x.cat, y.cat, s, i);
}
pub proof fn labelleds_more(c: Alt, k: int)
    requires g_alt(c), 0 <= k <= c.0.len(),
    ensures t_labelleds(c, k).len() <= t_alt(c).len(),
    decreases c.0.len() - k,
{
    if k < c.0.len() {
        labelleds_more(c, k + 1);
        let part = if k < c.0.inner@.len() { t_labelled(c.0.inner[k].0) + c.0.inner[k].1.toks() } else { t_labelled(*c.0.last->0) };
        assert(t_labelleds(c, k + 1) == t_labelleds(c, k) + part);
    }
}
pub proof fn one_labelleds(x: Alt, y: Alt, s: Seq<Tk>, i: int, k: int)
    requires
        g_alt(x), g_alt(y), has(s, i, t_alt(x)), has(s, i, t_alt(y)), t_alt(x).len() == t_alt(y).len(), past_alt(s, i + t_alt(x).len()),
        0 <= k <= x.0.len(),
    ensures
        k <= y.0.len(), t_labelleds(x, k).len() == t_labelleds(y, k).len(),
        forall|j: int| 0 <= j < k ==> s_labelled(#[trigger] a_labelled(x, j), a_labelled(y, j)),
        forall|j: int| 0 <= j < k && j < x.0.inner@.len() ==> j < y.0.inner@.len() && (#[trigger] x.0.inner[j]).1 == y.0.inner[j].1,
        k == x.0.len() ==> x.0.inner@.len() == y.0.inner@.len(),
    decreases x, k,
{
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    hide(s_term);
    hide(s_call);
    hide(s_cat);
    hide(s_labelled);
    hide(s_alt);
    hide(s_expr);
    labelleds_has(x, s, i, 0);
    labelleds_has(y, s, i, 0);
    if k > 0 {
        let n = k - 1;
        one_labelleds(x, y, s, i, n);
        labelleds_has(x, s, i, n);
        labelleds_has(y, s, i, n);
        labelleds_more(x, k);
        ok_labelleds(x, s, i, n);
        let j = i + t_labelleds(x, n).len();
        assert(past_labelled(s, j + t_labelled(a_labelled(x, n)).len()));
        ok_labelled(a_labelled(x, n), s, j);
        assert(n < y.0.len());
        labelleds_more(y, k);
        assert(past_labelled(s, j + t_labelled(a_labelled(y, n)).len()));
        one_labelled(a_labelled(x, n), a_labelled(y, n), s, j);
        if n < x.0.inner@.len() {
            assert(n < y.0.inner@.len());
            assert(x.0.inner[n].1.toks()[0] == y.0.inner[n].1.toks()[0]);
        } else {
            assert(!is_p(s, i + t_alt(x).len(), '|'));
            assert(n == y.0.inner@.len());
        }
    }
}
pub proof fn alt_same(x: Alt, y: Alt)
    requires
        x.0.last is Some, y.0.last is Some, x.0.inner@.len() == y.0.inner@.len(),
        forall|j: int| 0 <= j < x.0.len() ==> s_labelled(#[trigger] a_labelled(x, j), a_labelled(y, j)),
        forall|j: int| 0 <= j < x.0.inner@.len() ==> (#[trigger] x.0.inner[j]).1 == y.0.inner[j].1,
    ensures s_alt(x, y),
{
    assert(s_labelled(a_labelled(x, x.0.inner@.len() as int), a_labelled(y, x.0.inner@.len() as int)));
    assert forall|k: int| 0 <= k < x.0.inner@.len() implies s_labelled((#[trigger] x.0.inner[k]).0, y.0.inner[k].0) && x.0.inner[k].1 == y.0.inner[k].1 by {
        assert(s_labelled(a_labelled(x, k), a_labelled(y, k)));
    }
}
pub proof fn one_alt(x: Alt, y: Alt, s: Seq<Tk>, i: int)
    requires g_alt(x), g_alt(y), has(s, i, t_alt(x)), has(s, i, t_alt(y)), past_alt(s, i + t_alt(x).len()), past_alt(s, i + t_alt(y).len()),
    ensures s_alt(x, y), t_alt(x).len() == t_alt(y).len(),
    decreases x, x.0.len() + 1,
{
    hide(s_term);
    hide(s_call);
    hide(s_cat);
    hide(s_labelled);
    hide(s_alt);
    hide(s_expr);
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    labelleds_has(x, s, i, 0);
    labelleds_has(y, s, i, 0);
    ok_alt(x, s, i);
    ok_alt(y, s, i);
    one_labelleds(x, y, s, i, x.0.len() as int);
    alt_same(x, y);
}
pub proof fn one_args(x: Seq<Ident>, y: Seq<Ident>, s: Seq<Tk>, i: int)
    requires has(s, i, all_toks(x, x.len() as int)), has(s, i, all_toks(y, y.len() as int)), x.len() == y.len(),
    ensures s_args(x, y),
{
    args_has(x, s, i);
    args_has(y, s, i);
    assert forall|k: int| 0 <= k < x.len() implies word(#[trigger] x[k]) == word(y[k]) by {
        assert(s[i + k] == word(x[k]));
    }
}
pub proof fn one_expr(x: Expression, y: Expression, s: Seq<Tk>, i: int)
    requires g_expr(x), g_expr(y), has(s, i, t_expr(x)), has(s, i, t_expr(y)), past_alt(s, i + t_expr(x).len()), past_alt(s, i + t_expr(y).len()),
    ensures s_expr(x, y), t_expr(x).len() == t_expr(y).len(),
    decreases x, 0int,
{
    hide(t_let);
    hide(t_stmt);
    hide(t_goal);
    hide(s_args);
    hide(p_args);
    hide(p_params);
    hide(all_toks);
    hide(g_args);
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    expr_is(x);
    expr_is(y);
    ok_expr(x, s, i);
    ok_expr(y, s, i);
    match (x, y) {
        (Expression::Alt(a), Expression::Alt(b)) => { one_alt(a, b, s, i); },
        (Expression::Lambda(a), Expression::Lambda(b)) => {
            lambda_has(a, s, i);
            lambda_has(b, s, i);
            lambda_args(a, s, i);
            lambda_args(b, s, i);
            one_args(a.args@, b.args@, s, i + 1);
            one_alt(a.expr, b.expr, s, i + a.args@.len() + 2);
        },
        (Expression::Alt(a), Expression::Lambda(b)) => { lambda_has(b, s, i); ok_alt(a, s, i); },
        (Expression::Lambda(a), Expression::Alt(b)) => { lambda_has(a, s, i); ok_alt(b, s, i); },
    }
}
pub proof fn one_stmt(x: Statement, y: Statement, s: Seq<Tk>, i: int)
    requires g_stmt(x), g_stmt(y), has(s, i, t_stmt(x)), has(s, i, t_stmt(y)),
    ensures s_stmt(x, y), t_stmt(x).len() == t_stmt(y).len(),
    decreases x, 0int,
{
    hide(p_args);
    hide(p_params);
    hide(all_toks);
    hide(g_args);
    hide(s_args);
    hide(t_term);
    hide(t_fix);
    hide(t_parens);
    hide(t_terms);
    hide(t_call);
    hide(t_calls);
    hide(t_cat);
    hide(t_labelled);
    hide(t_labelleds);
    hide(t_alt);
    hide(t_lambda);
    hide(t_expr);
    hide(g_term);
    hide(g_fix);
    hide(g_parens);
    hide(g_call);
    hide(g_cat);
    hide(g_labelled);
    hide(g_alt);
    hide(g_lambda);
    hide(g_expr);
    hide(p_term);
    hide(p_terms);
    hide(p_call);
    hide(p_cat);
    hide(p_labelled);
    hide(p_alt);
    hide(p_lambda);
    hide(p_expr);
    hide(s_term);
    hide(s_call);
    hide(s_cat);
    hide(s_labelled);
    hide(s_alt);
    hide(s_expr);
    reveal_strlit("let");
    reveal_strlit("match");
    assert("let"@.len() != "match"@.len());
    ok_stmt(x, s, i);
    ok_stmt(y, s, i);
    match x { Statement::Goal(a) => goal_has(a, s, i), Statement::Let(a) => let_has(a, s, i) }
    match y { Statement::Goal(a) => goal_has(a, s, i), Statement::Let(a) => let_has(a, s, i) }
    match (x, y) {
        (Statement::Goal(a), Statement::Goal(b)) => { one_expr(a.expr, b.expr, s, i + 1); },
        (Statement::Let(a), Statement::Let(b)) => {
            let_params(a, s, i);
            let_params(b, s, i);
            one_args(a.args@, b.args@, s, i + 2);
            let j = i + 3 + a.args@.len();
            one_expr(a.expr, b.expr, s, j);
            one_stmt(*a.next, *b.next, s, j + t_expr(a.expr).len() + 1);
        },
        _ => {},
    }
}

/// A grammar's whole text: it is accepted exactly when it is the text of a tree of the syntax, and of one only.
pub proof fn statement_theorem(x: Statement, y: Statement, s: Seq<Tk>)
    requires g_stmt(x),
    ensures
        s == t_stmt(x) ==> p_stmt(s, 0) == Some(s.len() as int),
        t_stmt(x) == t_stmt(y) && g_stmt(y) ==> s_stmt(x, y),
{
    let t = t_stmt(x);
    assert(t.subrange(0, t.len() as int) =~= t);
    ok_stmt(x, t, 0);
    if t == t_stmt(y) && g_stmt(y) { one_stmt(x, y, t, 0); }
}
