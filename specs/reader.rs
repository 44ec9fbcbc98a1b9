//@include prelude.inc
use vstd::std_specs::cmp::*;
//@include vecs.inc
//@include token.inc
//@include mem.inc
//@include syntax.inc
//@include readtoks.inc
pub mod nibble {
use crate::*;
//@set ty Token![_] => Underscore
//@set ty Token![!] => Bang
//@set ty Token![.] => Dot
//@set ty Token![|] => Bar
//@set ty Token![:] => Colon
//@set ty Token![/] => Slash
//@set ty Token![match] => MatchTok
//@set ty Token![let] => LetTok
//@set ty Token![;] => Semi
//@set ty Token![=] => Eq
//@set ty syn::Ident => crate::Ident
//@set ty ParseStream<'_> => &mut Stream
//@set ty syn::Result<Self> => Result<Self, Error>
//@set synread
//@set resultfns parse parse_any parse_separated_nonempty
//@set optionfns get
//@set method to_tokens => & vx_write
verus! {
//@item src/nibble/mod.rs Epsilon
//@item src/nibble/mod.rs Ident
//@item src/nibble/mod.rs Literal
//@item src/nibble/mod.rs Fix
//@item src/nibble/mod.rs ParenExpression
//@item src/nibble/mod.rs Term
//@item src/nibble/mod.rs Call
//@item src/nibble/mod.rs Cat
//@item src/nibble/mod.rs Label
//@item src/nibble/mod.rs Labelled
//@item src/nibble/mod.rs Alt
//@item src/nibble/mod.rs Lambda
//@item src/nibble/mod.rs Expression
//@item src/nibble/mod.rs GoalStatement
//@item src/nibble/mod.rs LetStatement
//@item src/nibble/mod.rs Statement

// ---------------------------------------------------------------- the text of a syntax tree
pub open spec fn t_term(t: Term) -> Seq<Tk>
    decreases t, 0int,
{
    match t {
        Term::Epsilon(u) => u.toks(),
        Term::Ident(i) => seq![word(i)],
        Term::Literal(l) => l.toks(),
        Term::Fix(f) => t_fix(f),
        Term::Parens(p) => t_parens(p),
    }
}
pub open spec fn t_fix(f: Fix) -> Seq<Tk>
    decreases f, 0int,
{
    f.bang_token.toks() + t_term(*f.expr)
}
pub open spec fn t_parens(p: ParenExpression) -> Seq<Tk>
    decreases p, 0int,
{
    seq![Tk::Group(p.paren_token.span, t_expr(p.expr))]
}
/// The first k terms.
pub open spec fn t_terms(c: Call, k: int) -> Seq<Tk>
    decreases c, k,
{
    if k <= 0 || k > c.0@.len() { seq![] } else { t_terms(c, k - 1) + t_term(c.0[k - 1]) }
}
pub open spec fn t_call(c: Call) -> Seq<Tk>
    decreases c, c.0@.len() + 1,
{
    t_terms(c, c.0@.len() as int)
}
/// The first k parts and the separators after them.
pub open spec fn t_calls(c: Cat, k: int) -> Seq<Tk>
    decreases c, k,
{
    if k <= 0 || k > c.0.len() {
        seq![]
    } else {
        t_calls(c, k - 1) + (if k <= c.0.inner@.len() { t_call(c.0.inner[k - 1].0) + c.0.inner[k - 1].1.toks() } else { t_call(*c.0.last->0) })
    }
}
pub open spec fn t_cat(c: Cat) -> Seq<Tk>
    decreases c, c.0.len() + 1,
{
    t_calls(c, c.0.len() as int)
}
pub open spec fn t_label(l: Label) -> Seq<Tk> { l.colon_tok.toks() + seq![word(l.label)] }
pub open spec fn t_labelled(l: Labelled) -> Seq<Tk>
    decreases l, 0int,
{
    match l.label { Some(x) => t_cat(l.cat) + t_label(x), None => t_cat(l.cat) }
}
pub open spec fn t_labelleds(c: Alt, k: int) -> Seq<Tk>
    decreases c, k,
{
    if k <= 0 || k > c.0.len() {
        seq![]
    } else {
        t_labelleds(c, k - 1) + (if k <= c.0.inner@.len() { t_labelled(c.0.inner[k - 1].0) + c.0.inner[k - 1].1.toks() } else { t_labelled(*c.0.last->0) })
    }
}
pub open spec fn t_alt(c: Alt) -> Seq<Tk>
    decreases c, c.0.len() + 1,
{
    t_labelleds(c, c.0.len() as int)
}
pub open spec fn t_lambda(l: Lambda) -> Seq<Tk>
    decreases l, 0int,
{
    l.slash_tok_left.toks() + all_toks(l.args@, l.args@.len() as int) + l.slash_tok_right.toks() + t_alt(l.expr)
}
pub open spec fn t_expr(e: Expression) -> Seq<Tk>
    decreases e, 0int,
{
    match e { Expression::Alt(a) => t_alt(a), Expression::Lambda(l) => t_lambda(l) }
}
pub open spec fn t_goal(g: GoalStatement) -> Seq<Tk> { g.match_token.toks() + t_expr(g.expr) + g.semi_token.toks() }
pub open spec fn t_let(l: LetStatement) -> Seq<Tk>
    decreases l, 0int,
{
    l.let_token.toks() + seq![word(l.name)] + all_toks(l.args@, l.args@.len() as int) + l.eq_token.toks() + t_expr(l.expr) + l.semi_token.toks() + t_stmt(*l.next)
}
pub open spec fn t_stmt(s: Statement) -> Seq<Tk>
    decreases s, 0int,
{
    match s { Statement::Goal(g) => t_goal(g), Statement::Let(l) => t_let(l) }
}

// ---------------------------------------------------------------- the trees of the syntax
/// No identifier is an underscore, no list is empty, no separator trails, and no parameter is a keyword.
pub open spec fn g_term(t: Term) -> bool
    decreases t, 0int,
{
    match t {
        Term::Ident(i) => i.text() != "_"@,
        Term::Fix(f) => g_fix(f),
        Term::Parens(p) => g_parens(p),
        _ => true,
    }
}
pub open spec fn g_fix(f: Fix) -> bool
    decreases f, 0int,
{
    g_term(*f.expr)
}
pub open spec fn g_parens(p: ParenExpression) -> bool
    decreases p, 0int,
{
    g_expr(p.expr)
}
pub open spec fn g_call(c: Call) -> bool
    decreases c, 0int,
{
    c.0@.len() > 0 && forall|k: int| 0 <= k < c.0@.len() ==> g_term(#[trigger] c.0[k])
}
pub open spec fn g_cat(c: Cat) -> bool
    decreases c, 0int,
{
    c.0.last is Some && g_call(*c.0.last->0) && forall|k: int| 0 <= k < c.0.inner@.len() ==> g_call((#[trigger] c.0.inner[k]).0)
}
pub open spec fn g_labelled(l: Labelled) -> bool
    decreases l, 0int,
{
    g_cat(l.cat)
}
pub open spec fn g_alt(c: Alt) -> bool
    decreases c, 0int,
{
    c.0.last is Some && g_labelled(*c.0.last->0) && forall|k: int| 0 <= k < c.0.inner@.len() ==> g_labelled((#[trigger] c.0.inner[k]).0)
}
pub open spec fn g_args(v: Seq<Ident>) -> bool {
    forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).good()
}
pub open spec fn g_lambda(l: Lambda) -> bool
    decreases l, 0int,
{
    l.args@.len() > 0 && g_args(l.args@) && g_alt(l.expr)
}
pub open spec fn g_expr(e: Expression) -> bool
    decreases e, 0int,
{
    match e { Expression::Alt(a) => g_alt(a), Expression::Lambda(l) => g_lambda(l) }
}
pub open spec fn g_goal(g: GoalStatement) -> bool { g_expr(g.expr) }
pub open spec fn g_let(l: LetStatement) -> bool
    decreases l, 0int,
{
    g_args(l.args@) && g_expr(l.expr) && g_stmt(*l.next)
}
pub open spec fn g_stmt(s: Statement) -> bool
    decreases s, 0int,
{
    match s { Statement::Goal(g) => g_goal(g), Statement::Let(l) => g_let(l) }
}

// ---------------------------------------------------------------- the syntax
/// A term can start here.
pub open spec fn starts(s: Seq<Tk>, i: int) -> bool {
    at(s, i) && (s[i] is Word || s[i] is Lit || s[i] is Group || is_p(s, i, '!'))
}
pub open spec fn p_term(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 0int,
{
    if !at(s, i) {
        None
    } else {
        match s[i] {
            Tk::Word(_, _) => Some(i + 1),
            Tk::Lit(_) => Some(i + 1),
            Tk::Punct(c, _) => if c == '!' { p_term(s, i + 1) } else { None },
            Tk::Group(_, inner) => match p_expr(inner, 0) { Some(j) => if j == inner.len() { Some(i + 1) } else { None }, None => None },
            Tk::Other(_) => None,
        }
    }
}
pub open spec fn p_terms(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 1int,
{
    if starts(s, i) {
        match p_term(s, i) { Some(j) => if i < j <= s.len() { p_terms(s, j) } else { None }, None => None }
    } else {
        Some(i)
    }
}
pub open spec fn p_call(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 2int,
{
    match p_term(s, i) { Some(j) => if i < j <= s.len() { p_terms(s, j) } else { None }, None => None }
}
pub open spec fn p_cat(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 3int,
{
    match p_call(s, i) { Some(j) => if i < j && is_p(s, j, '.') { p_cat(s, j + 1) } else { Some(j) }, None => None }
}
pub open spec fn p_labelled(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 4int,
{
    match p_cat(s, i) {
        Some(j) => if is_p(s, j, ':') { if is_word(s, j + 1) { Some(j + 2) } else { None } } else { Some(j) },
        None => None,
    }
}
pub open spec fn p_alt(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 5int,
{
    match p_labelled(s, i) { Some(j) => if i < j && is_p(s, j, '|') { p_alt(s, j + 1) } else { Some(j) }, None => None }
}
/// One or more names, then a slash.
pub open spec fn p_args(s: Seq<Tk>, i: int) -> Option<int>
    decreases s.len() - i,
{
    if !plain(s, i) { None } else if is_p(s, i + 1, '/') { Some(i + 1) } else { p_args(s, i + 1) }
}
pub open spec fn p_lambda(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 6int,
{
    if !is_p(s, i, '/') {
        None
    } else {
        match p_args(s, i + 1) { Some(j) => if i < j && is_p(s, j, '/') { p_alt(s, j + 1) } else { None }, None => None }
    }
}
pub open spec fn p_expr(s: Seq<Tk>, i: int) -> Option<int>
    decreases s, s.len() - i, 7int,
{
    if is_p(s, i, '/') { p_lambda(s, i) } else { p_alt(s, i) }
}
pub open spec fn p_goal(s: Seq<Tk>, i: int) -> Option<int> {
    if !is_w(s, i, "match"@) {
        None
    } else {
        match p_expr(s, i + 1) { Some(j) => if is_p(s, j, ';') { Some(j + 1) } else { None }, None => None }
    }
}
/// Any number of names, then an equals sign.
pub open spec fn p_params(s: Seq<Tk>, i: int) -> Option<int>
    decreases s.len() - i,
{
    if is_p(s, i, '=') { Some(i) } else if plain(s, i) { p_params(s, i + 1) } else { None }
}
/// let, a name, parameters, an equals sign, an expression, a semicolon: where it ends.
pub open spec fn p_head(s: Seq<Tk>, i: int) -> Option<int> {
    if !is_w(s, i, "let"@) || !is_word(s, i + 1) {
        None
    } else {
        match p_params(s, i + 2) {
            Some(j) => if !is_p(s, j, '=') { None } else {
                match p_expr(s, j + 1) { Some(k) => if is_p(s, k, ';') { Some(k + 1) } else { None }, None => None }
            },
            None => None,
        }
    }
}
pub open spec fn p_let(s: Seq<Tk>, i: int) -> Option<int>
    decreases s.len() - i, 0int,
{
    match p_head(s, i) { Some(j) => if i < j { p_stmt(s, j) } else { None }, None => None }
}
pub open spec fn p_stmt(s: Seq<Tk>, i: int) -> Option<int>
    decreases s.len() - i, 1int,
{
    if is_w(s, i, "let"@) { p_let(s, i) } else { p_goal(s, i) }
}

// ---------------------------------------------------------------- reading ends further on
pub open spec fn on(s: Seq<Tk>, i: int, r: Option<int>) -> bool {
    r is Some ==> i < r->0 <= s.len()
}
pub proof fn term_on(s: Seq<Tk>, i: int)
    ensures on(s, i, p_term(s, i)),
    decreases s.len() - i,
{
    if at(s, i) && is_p(s, i, '!') { term_on(s, i + 1); }
}
pub proof fn terms_on(s: Seq<Tk>, i: int)
    ensures p_terms(s, i) is Some ==> i <= p_terms(s, i)->0 && (i <= s.len() ==> p_terms(s, i)->0 <= s.len()) && !starts(s, p_terms(s, i)->0),
    decreases s.len() - i,
{
    term_on(s, i);
    if starts(s, i) { if let Some(j) = p_term(s, i) { terms_on(s, j); } }
}
pub broadcast proof fn call_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_call(s, i)),
{
    term_on(s, i);
    if let Some(j) = p_term(s, i) { terms_on(s, j); }
}
pub broadcast proof fn cat_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_cat(s, i)),
    decreases s.len() - i,
{
    call_on(s, i);
    if let Some(j) = p_call(s, i) { if is_p(s, j, '.') { cat_on(s, j + 1); } }
}
pub broadcast proof fn labelled_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_labelled(s, i)),
{
    cat_on(s, i);
}
pub broadcast proof fn alt_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_alt(s, i)),
    decreases s.len() - i,
{
    labelled_on(s, i);
    if let Some(j) = p_labelled(s, i) { if is_p(s, j, '|') { alt_on(s, j + 1); } }
}
pub broadcast proof fn args_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_args(s, i)), p_args(s, i) is Some ==> is_p(s, p_args(s, i)->0, '/'),
    decreases s.len() - i,
{
    if plain(s, i) && !is_p(s, i + 1, '/') { args_on(s, i + 1); }
}
pub broadcast proof fn lambda_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_lambda(s, i)),
{
    args_on(s, i + 1);
    if let Some(j) = p_args(s, i + 1) { alt_on(s, j + 1); }
}
pub broadcast proof fn expr_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_expr(s, i)),
{
    lambda_on(s, i);
    alt_on(s, i);
}
pub broadcast proof fn goal_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_goal(s, i)),
{
    expr_on(s, i + 1);
}
pub broadcast proof fn params_on(s: Seq<Tk>, i: int)
    ensures (#[trigger] p_params(s, i)) is Some ==> i <= p_params(s, i)->0 < s.len() && is_p(s, p_params(s, i)->0, '='),
    decreases s.len() - i,
{
    if !is_p(s, i, '=') && plain(s, i) { params_on(s, i + 1); }
}
pub broadcast proof fn head_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_head(s, i)),
{
    params_on(s, i + 2);
    if let Some(j) = p_params(s, i + 2) { expr_on(s, j + 1); }
}
pub broadcast proof fn stmt_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_stmt(s, i)),
    decreases s.len() - i,
{
    head_on(s, i);
    goal_on(s, i);
    if let Some(j) = p_head(s, i) { stmt_on(s, j); }
}
pub broadcast proof fn let_on(s: Seq<Tk>, i: int)
    ensures on(s, i, #[trigger] p_let(s, i)),
{
    head_on(s, i);
    if let Some(j) = p_head(s, i) { stmt_on(s, j); }
}

// ---------------------------------------------------------------- reading and writing, type by type
impl Reads for Term {
    open spec fn toks(&self) -> Seq<Tk> { t_term(*self) }
    open spec fn good(&self) -> bool { g_term(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_term(s, i) }
}
impl Reads for Fix {
    open spec fn toks(&self) -> Seq<Tk> { t_fix(*self) }
    open spec fn good(&self) -> bool { g_fix(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, '!') { p_term(s, i + 1) } else { None } }
}
impl Reads for ParenExpression {
    open spec fn toks(&self) -> Seq<Tk> { t_parens(*self) }
    open spec fn good(&self) -> bool { g_parens(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if at(s, i) && s[i] is Group { p_term(s, i) } else { None } }
}
impl Reads for Call {
    open spec fn toks(&self) -> Seq<Tk> { t_call(*self) }
    open spec fn good(&self) -> bool { g_call(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_call(s, i) }
}
impl Reads for Cat {
    open spec fn toks(&self) -> Seq<Tk> { t_cat(*self) }
    open spec fn good(&self) -> bool { g_cat(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_cat(s, i) }
}
impl Reads for Label {
    open spec fn toks(&self) -> Seq<Tk> { t_label(*self) }
    open spec fn good(&self) -> bool { true }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { if is_p(s, i, ':') && is_word(s, i + 1) { Some(i + 2) } else { None } }
}
impl Reads for Labelled {
    open spec fn toks(&self) -> Seq<Tk> { t_labelled(*self) }
    open spec fn good(&self) -> bool { g_labelled(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_labelled(s, i) }
}
impl Reads for Alt {
    open spec fn toks(&self) -> Seq<Tk> { t_alt(*self) }
    open spec fn good(&self) -> bool { g_alt(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_alt(s, i) }
}
impl Reads for Lambda {
    open spec fn toks(&self) -> Seq<Tk> { t_lambda(*self) }
    open spec fn good(&self) -> bool { g_lambda(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_lambda(s, i) }
}
impl Reads for Expression {
    open spec fn toks(&self) -> Seq<Tk> { t_expr(*self) }
    open spec fn good(&self) -> bool { g_expr(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_expr(s, i) }
}
impl Reads for GoalStatement {
    open spec fn toks(&self) -> Seq<Tk> { t_goal(*self) }
    open spec fn good(&self) -> bool { g_goal(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_goal(s, i) }
}
impl Reads for LetStatement {
    open spec fn toks(&self) -> Seq<Tk> { t_let(*self) }
    open spec fn good(&self) -> bool { g_let(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_let(s, i) }
}
impl Reads for Statement {
    open spec fn toks(&self) -> Seq<Tk> { t_stmt(*self) }
    open spec fn good(&self) -> bool { g_stmt(*self) }
    open spec fn p(s: Seq<Tk>, i: int) -> Option<int> { p_stmt(s, i) }
}

// the generic forms
pub proof fn terms_all(c: Call, k: int)
    requires 0 <= k <= c.0@.len(),
    ensures all_toks(c.0@, k) == t_terms(c, k),
    decreases k,
{
    if k > 0 { terms_all(c, k - 1); }
}
pub broadcast proof fn call_reads(v: Vec<Term>)
    ensures #[trigger] t_call(Call(v)) == all_toks(v@, v@.len() as int),
{
    terms_all(Call(v), v@.len() as int);
}
pub proof fn calls_all(c: Cat, k: int)
    ensures first_toks(c.0, k) == t_calls(c, k),
    decreases k,
{
    if k > 0 { calls_all(c, k - 1); }
}
pub proof fn labelleds_all(c: Alt, k: int)
    ensures first_toks(c.0, k) == t_labelleds(c, k),
    decreases k,
{
    if k > 0 { labelleds_all(c, k - 1); }
}
pub proof fn p_cat_all(s: Seq<Tk>, i: int)
    ensures p_items::<Call, Dot>(s, i) == p_cat(s, i),
    decreases s.len() - i,
{
    call_on(s, i);
    if let Some(j) = p_call(s, i) { if is_p(s, j, '.') { p_cat_all(s, j + 1); } }
}
pub proof fn p_alt_all(s: Seq<Tk>, i: int)
    ensures p_items::<Labelled, Bar>(s, i) == p_alt(s, i),
    decreases s.len() - i,
{
    labelled_on(s, i);
    if let Some(j) = p_labelled(s, i) { if is_p(s, j, '|') { p_alt_all(s, j + 1); } }
}
pub broadcast proof fn cat_reads(c: Punctuated<Call, Dot>)
    ensures #[trigger] c.toks() == t_cat(Cat(c)), c.good() == g_cat(Cat(c)),
{
    calls_all(Cat(c), c.len() as int);
}
pub broadcast proof fn alt_reads(c: Punctuated<Labelled, Bar>)
    ensures #[trigger] c.toks() == t_alt(Alt(c)), c.good() == g_alt(Alt(c)),
{
    labelleds_all(Alt(c), c.len() as int);
}

impl Fix {
//@fn src/nibble/mod.rs <Fix as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on, alt_on, args_on, params_on, stmt_on, cat_on};
//@endfn
//@fn src/nibble/mod.rs <Fix as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl ParenExpression {
//@fn src/nibble/mod.rs <ParenExpression as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on};
//@endfn
//@fn src/nibble/mod.rs <ParenExpression as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl Term {
//@fn src/nibble/mod.rs <Term as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use sub_one;
//@endfn
//@fn src/nibble/mod.rs <Term as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl Call {
//@fn src/nibble/mod.rs <Call as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, call_reads};
    let ghost o = input@;
//@ loop 0
    invariant
        o == old(input)@, input@.s == o.s, o.i < input@.i <= o.s.len(), out@.len() > 0,
        o.bad ==> input@.bad,
        !o.bad && input@.bad ==> p_call(o.s, o.i as int) is None,
        !input@.bad ==> {
            &&& p_call(o.s, o.i as int) == p_terms(o.s, input@.i as int)
            &&& forall|k: int| 0 <= k < out@.len() ==> g_term(#[trigger] out@[k])
            &&& all_toks(out@, out@.len() as int) == o.s.subrange(o.i as int, input@.i as int)
        },
    ensures !starts(o.s, input@.i as int),
    decreases o.s.len() - input@.i,
//@ loopstart 0
    broadcast use seqs;
//@endfn
//@fn src/nibble/mod.rs <Call as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@ start
    proof { terms_all(*self, self.0@.len() as int); }
//@endfn
}
impl Cat {
//@fn src/nibble/mod.rs <Cat as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use cat_reads;
    proof { p_cat_all(input@.s, input@.i as int); }
//@endfn
//@fn src/nibble/mod.rs <Cat as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@ start
    proof { calls_all(*self, self.0.len() as int); }
//@endfn
}
impl Label {
//@fn src/nibble/mod.rs <Label as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on, alt_on, args_on, params_on, stmt_on, cat_on};
//@endfn
//@fn src/nibble/mod.rs <Label as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl Labelled {
//@fn src/nibble/mod.rs <Labelled as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on, alt_on, args_on, params_on, stmt_on, cat_on};
//@endfn
//@fn src/nibble/mod.rs <Labelled as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl Alt {
//@fn src/nibble/mod.rs <Alt as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use alt_reads;
    proof { p_alt_all(input@.s, input@.i as int); }
//@endfn
//@fn src/nibble/mod.rs <Alt as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@ start
    proof { labelleds_all(*self, self.0.len() as int); }
//@endfn
}
impl Lambda {
//@fn src/nibble/mod.rs <Lambda as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, alt_on, args_on};
    let ghost o = input@;
//@ loop 0
    invariant_except_break
        o == old(input)@, input@.s == o.s, o.i < input@.i <= o.s.len(),
        o.bad ==> input@.bad,
        !o.bad && input@.bad ==> p_lambda(o.s, o.i as int) is None,
        !input@.bad ==> {
            &&& is_p(o.s, o.i as int, '/')
            &&& p_args(o.s, o.i as int + 1) == p_args(o.s, input@.i as int)
            &&& g_args(args@)
            &&& Slash::toks(&slash_tok_left) == o.s.subrange(o.i as int, o.i as int + 1)
            &&& all_toks(args@, args@.len() as int) == o.s.subrange(o.i as int + 1, input@.i as int)
        },
    ensures
        o == old(input)@, input@.s == o.s, o.i < input@.i <= o.s.len(),
        o.bad ==> input@.bad,
        !o.bad && input@.bad ==> p_lambda(o.s, o.i as int) is None,
        !input@.bad ==> {
            &&& is_p(o.s, o.i as int, '/')
            &&& p_args(o.s, o.i as int + 1) == Some(input@.i as int)
            &&& is_p(o.s, input@.i as int, '/')
            &&& g_args(args@) && args@.len() > 0
            &&& Slash::toks(&slash_tok_left) == o.s.subrange(o.i as int, o.i as int + 1)
            &&& all_toks(args@, args@.len() as int) == o.s.subrange(o.i as int + 1, input@.i as int)
        },
    decreases o.s.len() - input@.i,
//@ loopstart 0
    broadcast use seqs;
//@endfn
//@fn src/nibble/mod.rs <Lambda as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl Expression {
//@fn src/nibble/mod.rs <Expression as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on, alt_on, args_on, params_on, stmt_on, cat_on};
//@endfn
//@fn src/nibble/mod.rs <Expression as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl GoalStatement {
//@fn src/nibble/mod.rs <GoalStatement as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on, alt_on, args_on, params_on, stmt_on, cat_on};
//@endfn
//@fn src/nibble/mod.rs <GoalStatement as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl LetStatement {
//@fn src/nibble/mod.rs <LetStatement as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on, params_on, stmt_on};
    let ghost o = input@;
//@ loop 0
    invariant_except_break
        o == old(input)@, input@.s == o.s, o.i as int + 1 < input@.i <= o.s.len(),
        o.bad ==> input@.bad,
        !o.bad && input@.bad ==> p_let(o.s, o.i as int) is None,
        !input@.bad ==> {
            &&& is_w(o.s, o.i as int, "let"@) && is_word(o.s, o.i as int + 1)
            &&& p_params(o.s, o.i as int + 2) == p_params(o.s, input@.i as int)
            &&& g_args(args@)
            &&& LetTok::toks(&let_token) + seq![word(name)] == o.s.subrange(o.i as int, o.i as int + 2)
            &&& all_toks(args@, args@.len() as int) == o.s.subrange(o.i as int + 2, input@.i as int)
        },
    ensures
        o == old(input)@, input@.s == o.s, o.i as int + 1 < input@.i <= o.s.len(),
        o.bad ==> input@.bad,
        !o.bad && input@.bad ==> p_let(o.s, o.i as int) is None,
        !input@.bad ==> {
            &&& is_w(o.s, o.i as int, "let"@) && is_word(o.s, o.i as int + 1)
            &&& p_params(o.s, o.i as int + 2) == Some(input@.i as int)
            &&& is_p(o.s, input@.i as int, '=')
            &&& g_args(args@)
            &&& LetTok::toks(&let_token) + seq![word(name)] == o.s.subrange(o.i as int, o.i as int + 2)
            &&& all_toks(args@, args@.len() as int) == o.s.subrange(o.i as int + 2, input@.i as int)
        },
    decreases o.s.len() - input@.i,
//@ loopstart 0
    broadcast use seqs;
//@endfn
//@fn src/nibble/mod.rs <LetStatement as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
impl Statement {
//@fn src/nibble/mod.rs <Statement as Parse>::parse
//@ spec
    ensures reads::<Self>(old(input)@, final(input)@, r),
//@ start
    broadcast use {seqs, expr_on, alt_on, args_on, params_on, stmt_on, cat_on};
//@endfn
//@fn src/nibble/mod.rs <Statement as ToTokens>::to_tokens
//@ spec
    ensures final(tokens)@ == old(tokens)@ + self.toks(),
//@endfn
}
}
}
pub mod theorem {
use crate::*;
use crate::nibble::*;
use crate::nibble::Ident;
verus! {
//@include readthm.inc
}
}
fn main() {}
