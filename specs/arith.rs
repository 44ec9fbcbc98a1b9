//@include prelude.inc
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
verus! {

//@item chewed/src/position.rs LineCol attr=derive(Clone,Copy)
//@item chewed/src/error.rs TakeError
//@item chewed/src/error.rs ParseError

//@include parser.inc

//@include parserhelp.inc

pub mod chewed {
    pub use super::*;
}

impl FromSpecImpl<TakeError> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TakeError) -> Self { ParseError::TakeError(e) }
}

impl From<TakeError> for ParseError {
//@fn chewed/src/error.rs <ParseError as From<TakeError>>::from
//@ opt novis
//@endfn
}

// ---------------------------------------------------------------- machine arithmetic
/// Division that drops the fraction, whatever the signs.
pub open spec fn quotient(a: int, b: int) -> int {
    let n = if a < 0 { -a } else { a };
    let d = if b < 0 { -b } else { b };
    if (a < 0) == (b < 0) { n / d } else { -(n / d) }
}

#[verifier::external_body]
pub fn vx_plus(a: i64, b: i64) -> (r: i64)
    ensures r == a + b,
{
    a.checked_add(b).unwrap()
}

#[verifier::external_body]
pub fn vx_minus(a: i64, b: i64) -> (r: i64)
    ensures r == a - b,
{
    a.checked_sub(b).unwrap()
}

#[verifier::external_body]
pub fn vx_times(a: i64, b: i64) -> (r: i64)
    ensures r == a * b,
{
    a.checked_mul(b).unwrap()
}

#[verifier::external_body]
pub fn vx_over(a: i64, b: i64) -> (r: i64)
    ensures b != 0, r == quotient(a as int, b as int),
{
    a.checked_div(b).unwrap()
}

#[verifier::external_body]
pub fn vx_is_digit(c: &char) -> (r: bool)
    ensures r == is_digit(*c),
{
    c.is_ascii_digit()
}

#[verifier::external_body]
pub fn vx_or_zero(v: Option<i64>) -> (r: i64)
    ensures r == (match v { Some(x) => x, None => 0i64 }),
{
    v.unwrap_or_default()
}

// ---------------------------------------------------------------- what a text means
pub open spec fn is_digit(c: char) -> bool {
    '0' <= c && c <= '9'
}

pub open spec fn digits(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() > 0 && is_digit(s[0]) { 1 + digits(s.skip(1)) } else { 0 }
}

pub open spec fn blanks(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() > 0 && s[0] == ' ' { 1 + blanks(s.skip(1)) } else { 0 }
}

/// The number spelled by decimal digits, most significant first.
pub open spec fn dec(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}

/// What reading from the start of a text gives: a value and how many characters it takes, or the place of the first
/// character that cannot stand there.
pub ghost enum Got {
    Val(int, nat),
    Bad(nat),
}

pub open spec fn after(n: nat, g: Got) -> Got {
    match g {
        Got::Val(v, m) => Got::Val(v, n + m),
        Got::Bad(m) => Got::Bad(n + m),
    }
}

/// ... and the blanks after it.
pub open spec fn trail(s: Seq<char>, g: Got) -> Got {
    match g {
        Got::Val(v, n) => Got::Val(v, n + blanks(s.skip(n as int))),
        Got::Bad(n) => Got::Bad(n),
    }
}

pub open spec fn number(s: Seq<char>) -> Got {
    if digits(s) == 0 { Got::Bad(0) } else { Got::Val(dec(s.take(digits(s) as int)), digits(s)) }
}

pub open spec fn negated(g: Got) -> Got {
    match g {
        Got::Val(v, n) => Got::Val(-v, n),
        Got::Bad(n) => Got::Bad(n),
    }
}

/// A number, a minus sign and a number, or an expression in parentheses; and the blanks after it.
pub open spec fn term(s: Seq<char>) -> Got
    decreases s.len(), 0int,
{
    if s.len() == 0 {
        Got::Bad(0)
    } else if s[0] == '-' {
        let b = 1 + blanks(s.skip(1));
        trail(s, after(b, negated(number(s.skip(b as int)))))
    } else if is_digit(s[0]) {
        trail(s, number(s))
    } else if s[0] == '(' {
        let b = 1 + blanks(s.skip(1));
        if b > s.len() {
            Got::Bad(0)
        } else {
            trail(s, closed(s, after(b, expr(s.skip(b as int)))))
        }
    } else {
        Got::Bad(0)
    }
}

pub open spec fn closed(s: Seq<char>, g: Got) -> Got {
    match g {
        Got::Val(v, n) => if n < s.len() && s[n as int] == ')' { Got::Val(v, n + 1) } else { Got::Bad(n) },
        Got::Bad(n) => Got::Bad(n),
    }
}

/// Terms joined by `*` and `/`, taken from left to right.
pub open spec fn product(s: Seq<char>) -> Got
    decreases s.len(), 1int,
{
    match term(s) {
        Got::Bad(n) => Got::Bad(n),
        Got::Val(v, n) => if n == 0 || n > s.len() { Got::Bad(0) } else { after(n, factors(v, s.skip(n as int))) },
    }
}

pub open spec fn factors(v: int, s: Seq<char>) -> Got
    decreases s.len(), 1int,
{
    if s.len() > 0 && (s[0] == '*' || s[0] == '/') {
        let b = 1 + blanks(s.skip(1));
        if b > s.len() {
            Got::Bad(0)
        } else {
            match term(s.skip(b as int)) {
                Got::Bad(n) => Got::Bad(b + n),
                Got::Val(w, n) => if b + n > s.len() { Got::Bad(0) } else {
                    after(b + n, factors(if s[0] == '*' { v * w } else { quotient(v, w) }, s.skip((b + n) as int)))
                },
            }
        }
    } else {
        Got::Val(v, 0)
    }
}

/// Products joined by `+` and `-`, taken from left to right.
pub open spec fn expr(s: Seq<char>) -> Got
    decreases s.len(), 2int,
{
    match product(s) {
        Got::Bad(n) => Got::Bad(n),
        Got::Val(v, n) => if n == 0 || n > s.len() { Got::Bad(0) } else { after(n, summands(v, s.skip(n as int))) },
    }
}

pub open spec fn summands(v: int, s: Seq<char>) -> Got
    decreases s.len(), 2int,
{
    if s.len() > 0 && (s[0] == '+' || s[0] == '-') {
        let b = 1 + blanks(s.skip(1));
        if b > s.len() {
            Got::Bad(0)
        } else {
            match product(s.skip(b as int)) {
                Got::Bad(n) => Got::Bad(b + n),
                Got::Val(w, n) => if b + n > s.len() { Got::Bad(0) } else {
                    after(b + n, summands(if s[0] == '+' { v + w } else { v - w }, s.skip((b + n) as int)))
                },
            }
        }
    } else {
        Got::Val(v, 0)
    }
}

// ---------------------------------------------------------------- lemmas
pub open spec fn all_digits(s: Seq<char>, n: nat) -> bool {
    n <= s.len() && forall|i: int| 0 <= i < n ==> is_digit(#[trigger] s[i])
}

pub open spec fn all_blanks(s: Seq<char>, n: nat) -> bool {
    n <= s.len() && forall|i: int| 0 <= i < n ==> #[trigger] s[i] == ' '
}

pub proof fn digits_is(s: Seq<char>, n: nat)
    requires all_digits(s, n), n == s.len() || !is_digit(s[n as int]),
    ensures digits(s) == n,
    decreases n,
{
    if n > 0 {
        assert(is_digit(s[0]));
        assert forall|i: int| 0 <= i < n - 1 implies is_digit(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        digits_is(s.skip(1), (n - 1) as nat);
    }
}

pub proof fn blanks_is(s: Seq<char>, n: nat)
    requires all_blanks(s, n), n == s.len() || s[n as int] != ' ',
    ensures blanks(s) == n,
    decreases n,
{
    if n > 0 {
        assert(s[0] == ' ');
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] s.skip(1)[i] == ' ' by { assert(s.skip(1)[i] == s[i + 1]); }
        blanks_is(s.skip(1), (n - 1) as nat);
    }
}

/// One digit more, or the end of the number.
pub proof fn number_step(s: Seq<char>, k: nat)
    ensures
        dec(s.take(0)) == 0,
        all_digits(s, k) && (k == s.len() || !is_digit(s[k as int])) ==> digits(s) == k,
        k < s.len() ==> dec(s.take(k as int + 1)) == dec(s.take(k as int)) * 10 + (s[k as int] as int - '0' as int),
{
    if all_digits(s, k) && (k == s.len() || !is_digit(s[k as int])) { digits_is(s, k); }
    if k < s.len() {
        assert(s.take(k as int + 1).drop_last() =~= s.take(k as int));
        assert(s.take(k as int + 1).last() == s[k as int]);
    }
}

pub broadcast proof fn blanks_consumed(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat)
    requires #[trigger] consumed(r0, a0, r1, a1, n), all_blanks(r0, n), n == r0.len() || r0[n as int] != ' ',
    ensures blanks(r0) == n,
{
    blanks_is(r0, n);
}

pub broadcast proof fn blanks_bound(s: Seq<char>)
    ensures #[trigger] blanks(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { blanks_bound(s.skip(1)); }
}

pub broadcast proof fn digits_bound(s: Seq<char>)
    ensures #[trigger] digits(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { digits_bound(s.skip(1)); }
}

/// A literal of one character is matched or not.
pub broadcast proof fn prefix_one(a: Seq<char>, s: Seq<char>)
    ensures a.len() == 1 ==> #[trigger] common_prefix(a, s) == (if s.len() > 0 && s[0] == a[0] { 1nat } else { 0nat }),
{
    if a.len() == 1 && s.len() > 0 && s[0] == a[0] {
        assert(a.take(1) =~= s.take(1));
        common_prefix_is(a, s, 1);
    } else if a.len() == 1 {
        assert(a.take(0) =~= s.take(0));
        common_prefix_is(a, s, 0);
    }
}

/// A term takes something.
pub proof fn term_some(s: Seq<char>)
    ensures term(s) is Val ==> term(s)->Val_1 > 0,
{
}

pub proof fn product_some(s: Seq<char>)
    ensures product(s) is Val ==> product(s)->Val_1 > 0,
{
}

pub proof fn after_after(a: nat, b: nat, g: Got)
    ensures after(a, after(b, g)) == after(a + b, g),
{
}

// The definitions, one step.
pub proof fn product_step(s: Seq<char>)
    ensures product(s) == (match term(s) {
        Got::Bad(n) => Got::Bad(n),
        Got::Val(v, n) => if n > s.len() { Got::Bad(0) } else { after(n, factors(v, s.skip(n as int))) },
    }),
{
    term_some(s);
}

pub proof fn term_step(s: Seq<char>)
    ensures term(s) == (
        if s.len() > 0 && s[0] == '-' {
            let b = 1 + blanks(s.skip(1));
            trail(s, after(b, negated(number(s.skip(b as int)))))
        } else if s.len() > 0 && is_digit(s[0]) {
            trail(s, number(s))
        } else if s.len() > 0 && s[0] == '(' {
            let b = 1 + blanks(s.skip(1));
            trail(s, closed(s, after(b, expr(s.skip(b as int)))))
        } else {
            Got::Bad(0)
        }),
{
    if s.len() > 0 { blanks_bound(s.skip(1)); }
}

pub proof fn factors_step(v: int, s: Seq<char>)
    ensures factors(v, s) == (if s.len() > 0 && (s[0] == '*' || s[0] == '/') {
        let b = 1 + blanks(s.skip(1));
        match term(s.skip(b as int)) {
            Got::Bad(n) => Got::Bad(b + n),
            Got::Val(w, n) => if b + n > s.len() { Got::Bad(0) } else {
                after(b + n, factors(if s[0] == '*' { v * w } else { quotient(v, w) }, s.skip((b + n) as int)))
            },
        }
    } else {
        Got::Val(v, 0)
    }),
{
    if s.len() > 0 { blanks_bound(s.skip(1)); }
}

pub proof fn expr_step(s: Seq<char>)
    ensures expr(s) == (match product(s) {
        Got::Bad(n) => Got::Bad(n),
        Got::Val(v, n) => if n > s.len() { Got::Bad(0) } else { after(n, summands(v, s.skip(n as int))) },
    }),
{
    product_some(s);
}

pub proof fn summands_step(v: int, s: Seq<char>)
    ensures summands(v, s) == (if s.len() > 0 && (s[0] == '+' || s[0] == '-') {
        let b = 1 + blanks(s.skip(1));
        match product(s.skip(b as int)) {
            Got::Bad(n) => Got::Bad(b + n),
            Got::Val(w, n) => if b + n > s.len() { Got::Bad(0) } else {
                after(b + n, summands(if s[0] == '+' { v + w } else { v - w }, s.skip((b + n) as int)))
            },
        }
    } else {
        Got::Val(v, 0)
    }),
{
    if s.len() > 0 { blanks_bound(s.skip(1)); }
}

/// The error stands at character n, or at the end of the text.
pub open spec fn blames(e: TakeError, s: Seq<char>, a: LineCol, n: nat) -> bool {
    &&& n <= s.len()
    &&& n == s.len() ==> e == TakeError::EndOfStream(walk(a, s, n))
    &&& n < s.len() ==> match e {
        TakeError::BadBranch(at, c, _) => at == walk(a, s, n) && c == s[n as int],
        TakeError::BadString(at, got, _) => at == walk(a, s, n) && got@ == seq![s[n as int]],
        TakeError::EndOfStream(_) => false,
    }
}

/// Some characters were consumed.
pub open spec fn went(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol) -> bool {
    consumed(r0, a0, r1, a1, ate(r0, r1))
}

pub broadcast proof fn consumed_went(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat)
    requires #[trigger] consumed(r0, a0, r1, a1, n),
    ensures n == ate(r0, r1), went(r0, a0, r1, a1), n <= r0.len(), r1 == r0.skip(n as int),
{
}

pub broadcast proof fn went_is(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol)
    requires #[trigger] went(r0, a0, r1, a1),
    ensures ate(r0, r1) <= r0.len(), r1 == r0.skip(ate(r0, r1) as int), a1 == walk(a0, r0, ate(r0, r1)),
        fits(a0, r0.len()) ==> fits(a1, r1.len()),
{
    if fits(a0, r0.len()) { fits_walk(a0, r0, ate(r0, r1)); }
}

pub broadcast proof fn went_nowhere(r0: Seq<char>, a0: LineCol)
    ensures #[trigger] went(r0, a0, r0, a0),
{
    assert(r0.skip(0) =~= r0);
}

pub broadcast proof fn went_on(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, r2: Seq<char>, a2: LineCol)
    requires #[trigger] went(r0, a0, r1, a1), #[trigger] went(r1, a1, r2, a2),
    ensures went(r0, a0, r2, a2), ate(r0, r2) == ate(r0, r1) + ate(r1, r2), r2 == r0.skip(ate(r0, r2) as int),
{
    walk_add(a0, r0, ate(r0, r1), ate(r1, r2));
    assert(r0.skip(ate(r0, r1) as int).skip(ate(r1, r2) as int) =~= r0.skip(ate(r0, r2) as int));
}

pub broadcast proof fn blames_later(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, e: TakeError, n: nat)
    requires #[trigger] went(r0, a0, r1, a1), #[trigger] blames(e, r1, a1, n),
    ensures blames(e, r0, a0, ate(r0, r1) + n),
{
    let k = ate(r0, r1);
    walk_add(a0, r0, k, n);
    if n < r1.len() { assert(r1[n as int] == r0[(k + n) as int]); }
}

pub broadcast proof fn blames_here(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, e: TakeError, n: nat)
    requires
        #[trigger] went(r0, a0, r1, a1),
        n == ate(r0, r1),
        r1.len() == 0 ==> e == TakeError::EndOfStream(a1),
        r1.len() > 0 ==> match e {
            TakeError::BadBranch(at, c, _) => at == a1 && c == r1[0],
            TakeError::BadString(at, got, _) => at == a1 && got@ == seq![r1[0]],
            TakeError::EndOfStream(_) => false,
        },
    ensures #[trigger] blames(e, r0, a0, n),
{
}

pub broadcast group g_arith {
    consumed_went,
    went_is,
    went_nowhere,
    went_on,
    blanks_consumed,
    blanks_bound,
    digits_bound,
    prefix_one,
    blames_later,
    blames_here,
    push_none,
}

pub broadcast proof fn push_none(a: Seq<char>, k: int, c: char)
    ensures k == 0 ==> #[trigger] a.take(k).push(c) == seq![c],
{
    if k == 0 { assert(a.take(k).push(c) =~= seq![c]); }
}

/// What a reading function does with the text before it.
#[verifier::prophetic]
pub open spec fn reads<P: Parser + ?Sized>(s: Seq<char>, a: LineCol, p: &P, r: Result<i64, TakeError>, g: Got) -> bool {
    &&& p.wf()
    &&& went(s, a, p.rest(), p.at())
    &&& r is Ok ==> g == Got::Val(r->Ok_0 as int, ate(s, p.rest()))
    &&& r is Err ==> g is Bad && blames(r->Err_0, s, a, g->Bad_0)
}

//@set clear method
//@set method consume_str => consume_str
//@set method skip_while => skip_while
//@set method is_ascii_digit => & vx_is_digit
//@set method unwrap_or_default => vx_or_zero
//@fn chomp-bench/src/arith/mod.rs fn take_number
//@ opt attr verifier::loop_isolation(false)
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt arithcheck
//@ opt resultfns take_number take_term take_product take_expr consume_str
//@ spec
    requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
    ensures reads(old(input).rest(), old(input).at(), final(input), r, number(old(input).rest())),
//@ start
        hide(went);
        hide(consumed);
        hide(blames);
        hide(walk);
        hide(quotient);
        hide(common_prefix);
        hide(blanks);
        hide(digits);
        hide(dec);
        broadcast use g_arith;
        let ghost r0 = input.rest();
        let ghost a0 = input.at();
        proof {
            reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("2"); reveal_strlit("3"); reveal_strlit("4");
            reveal_strlit("5"); reveal_strlit("6"); reveal_strlit("7"); reveal_strlit("8"); reveal_strlit("9");
            number_step(r0, 0);
        }
//@ loop 0
        invariant
            input.wf(),
            went(r0, a0, input.rest(), input.at()),
            all_digits(r0, ate(r0, input.rest())),
            out is None <==> ate(r0, input.rest()) == 0,
            (match out { Some(x) => x, None => 0i64 }) == dec(r0.take(ate(r0, input.rest()) as int)),
//@ loopstart 0
            proof {
                number_step(r0, ate(r0, input.rest()));
            }
//@endfn

//@fn chomp-bench/src/arith/mod.rs fn take_term
//@ opt attr verifier::rlimit(60)
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt arithcheck
//@ opt resultfns take_number take_term take_product take_expr consume_str
//@ opt closurespec char bool
//@ spec
    requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
    ensures reads(old(input).rest(), old(input).at(), final(input), r, term(old(input).rest())),
//@ start
        hide(went);
        hide(consumed);
        hide(blames);
        hide(walk);
        hide(quotient);
        hide(common_prefix);
        hide(blanks);
        hide(digits);
        hide(dec);
        hide(term);
        hide(factors);
        hide(product);
        hide(summands);
        hide(expr);
        broadcast use g_arith;
        proof { reveal_strlit("-"); reveal_strlit("("); reveal_strlit(")"); term_step(input.rest()); assert(went(input.rest(), input.at(), input.rest(), input.at())); }
//@endfn

//@fn chomp-bench/src/arith/mod.rs fn take_product
//@ opt attr verifier::loop_isolation(false)
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt arithcheck
//@ opt resultfns take_number take_term take_product take_expr consume_str
//@ opt closurespec char bool
//@ spec
    requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
    ensures reads(old(input).rest(), old(input).at(), final(input), r, product(old(input).rest())),
//@ start
        hide(went);
        hide(consumed);
        hide(blames);
        hide(walk);
        hide(quotient);
        hide(common_prefix);
        hide(blanks);
        hide(digits);
        hide(dec);
        hide(term);
        hide(factors);
        hide(product);
        hide(summands);
        hide(expr);
        broadcast use g_arith;
        let ghost r0 = input.rest();
        let ghost a0 = input.at();
        proof { reveal_strlit("*"); reveal_strlit("/"); product_step(r0); }
//@ loop 0
        invariant
            input.wf(),
            went(r0, a0, input.rest(), input.at()),
            product(r0) == after(ate(r0, input.rest()), factors(out as int, input.rest())),
//@ loopstart 0
            proof { factors_step(out as int, input.rest()); }
//@ end
        proof { factors_step(out as int, input.rest()); }
//@endfn

//@fn chomp-bench/src/arith/mod.rs fn take_expr
//@ opt attr verifier::loop_isolation(false)
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt arithcheck
//@ opt resultfns take_number take_term take_product take_expr consume_str
//@ opt closurespec char bool
//@ spec
    requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
    ensures reads(old(input).rest(), old(input).at(), final(input), r, expr(old(input).rest())),
//@ start
        hide(went);
        hide(consumed);
        hide(blames);
        hide(walk);
        hide(quotient);
        hide(common_prefix);
        hide(blanks);
        hide(digits);
        hide(dec);
        hide(term);
        hide(factors);
        hide(product);
        hide(summands);
        hide(expr);
        broadcast use g_arith;
        let ghost r0 = input.rest();
        let ghost a0 = input.at();
        proof { reveal_strlit("+"); reveal_strlit("-"); expr_step(r0); }
//@ loop 0
        invariant
            input.wf(),
            went(r0, a0, input.rest(), input.at()),
            expr(r0) == after(ate(r0, input.rest()), summands(out as int, input.rest())),
//@ loopstart 0
            proof { summands_step(out as int, input.rest()); }
//@ end
        proof { summands_step(out as int, input.rest()); }
//@endfn

/// Blanks, an expression, and nothing else.
//@fn chomp-bench/src/arith/mod.rs fn parse_expr
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt closurespec char bool
//@ opt qmark
//@ opt resultfns take_number take_term take_product take_expr consume_str
//@ spec
    requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
    ensures ({
        let s = old(input).rest();
        let a = old(input).at();
        let b = blanks(s);
        match after(b, expr(s.skip(b as int))) {
            Got::Bad(n) => r is Err && (r->Err_0 is TakeError) && blames(r->Err_0->TakeError_0, s, a, n),
            Got::Val(v, n) => if n == s.len() { r is Ok && r->Ok_0 == v } else { r == Err::<i64, ParseError>(ParseError::InputContinues(walk(a, s, n))) },
        }
    }),
//@ start
        hide(went);
        hide(consumed);
        hide(blames);
        hide(walk);
        hide(quotient);
        hide(common_prefix);
        hide(blanks);
        hide(digits);
        hide(dec);
        hide(term);
        hide(factors);
        hide(product);
        hide(summands);
        hide(expr);
        broadcast use g_arith;
//@endfn
}
fn main() {}
