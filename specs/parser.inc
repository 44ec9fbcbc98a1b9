// ---------------------------------------------------------------- positions
pub open spec fn is_break(c: char) -> bool {
    c == '\n' || c == '\x0B' || c == '\x0C' || c == '\u{85}' || c == '\u{2028}' || c == '\u{2029}'
}

/// Position after the first character of `s` has been consumed at `at`.
pub open spec fn step(at: LineCol, s: Seq<char>) -> LineCol {
    if is_break(s[0]) || (s[0] == '\x0D' && !(s.len() > 1 && s[1] == '\n')) {
        LineCol { line: (at.line + 1) as usize, col: 0 }
    } else {
        LineCol { line: at.line, col: (at.col + 1) as usize }
    }
}

/// Position after `n` characters of `s` have been consumed at `at`.
pub open spec fn walk(at: LineCol, s: Seq<char>, n: nat) -> LineCol
    decreases n,
{
    if n == 0 { at } else { step(walk(at, s, (n - 1) as nat), s.skip(n - 1)) }
}

pub proof fn walk_front(at: LineCol, s: Seq<char>, n: nat)
    requires n <= s.len(), n > 0,
    ensures walk(at, s, n) == walk(step(at, s), s.skip(1), (n - 1) as nat),
    decreases n,
{
    if n == 1 {
        assert(walk(at, s, 0) == at);
        assert(s.skip(0) =~= s);
        assert(walk(at, s, 1) == step(walk(at, s, 0), s.skip(0)));
    } else {
        walk_front(at, s, (n - 1) as nat);
        assert(s.skip(1).skip(n - 2) =~= s.skip(n - 1));
    }
}

pub proof fn walk_add(at: LineCol, s: Seq<char>, a: nat, b: nat)
    requires a + b <= s.len(),
    ensures walk(at, s, a + b) == walk(walk(at, s, a), s.skip(a as int), b),
    decreases b,
{
    if b > 0 {
        walk_add(at, s, a, (b - 1) as nat);
        assert(s.skip(a as int).skip(b - 1) =~= s.skip(a + b - 1));
    }
}

/// Character i of s ends a line.
pub open spec fn ends_line(s: Seq<char>, i: int) -> bool {
    is_break(s[i]) || (s[i] == '\x0D' && !(i + 1 < s.len() && s[i + 1] == '\n'))
}

pub open spec fn lines(s: Seq<char>, n: nat) -> nat
    decreases n,
{
    if n == 0 { 0 } else { lines(s, (n - 1) as nat) + (if ends_line(s, n - 1) { 1nat } else { 0nat }) }
}

pub open spec fn line_start(s: Seq<char>, n: nat) -> nat
    decreases n,
{
    if n == 0 { 0 } else if ends_line(s, n - 1) { n } else { line_start(s, (n - 1) as nat) }
}

/// The position reached by walking over the first n characters from the start is:
/// one plus the number of lines ended there, and the distance from the last line end.
pub proof fn walk_is_position(s: Seq<char>, n: nat)
    requires n <= s.len(), s.len() + 1 <= usize::MAX,
    ensures
        walk(LineCol { line: 1, col: 0 }, s, n).line == 1 + lines(s, n),
        walk(LineCol { line: 1, col: 0 }, s, n).col == n - line_start(s, n),
        line_start(s, n) <= n,
        lines(s, n) <= n,
    decreases n,
{
    if n > 0 {
        walk_is_position(s, (n - 1) as nat);
        let t = s.skip(n - 1);
        assert(t[0] == s[n - 1]);
        assert(t.len() > 1 ==> t[1] == s[n as int]);
    }
}

//@fn chewed/src/position.rs <LineCol as Default>::default
//@ opt name linecol_default
//@ opt path Self => LineCol
//@ spec
    ensures r == (LineCol { line: 1, col: 0 }),
//@endfn

// ---------------------------------------------------------------- the parser interface
pub trait Parser {
    /// All characters not yet consumed.
    #[verifier::prophetic]
    spec fn rest(&self) -> Seq<char>;

    /// The reported position.
    spec fn at(&self) -> LineCol;

    #[verifier::prophetic]
    spec fn wf(&self) -> bool;

    fn next(&mut self) -> (r: Option<char>)
        requires old(self).wf(), fits(old(self).at(), old(self).rest().len()),
        ensures
            final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest() && final(self).at() == old(self).at(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
                && final(self).at() == step(old(self).at(), old(self).rest()),
    ;

    fn peek(&mut self) -> (r: Option<char>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).rest() == old(self).rest(),
            final(self).at() == old(self).at(),
            r == first_of(old(self).rest()),
    ;

    fn pos(&self) -> (r: LineCol)
        ensures r == self.at(),
    ;
}

pub open spec fn first_of(s: Seq<char>) -> Option<char> {
    if s.len() == 0 { None } else { Some(s[0]) }
}

/// Consuming n more characters cannot overflow the position.
pub open spec fn fits(at: LineCol, n: nat) -> bool {
    at.line + n <= usize::MAX && at.col + n <= usize::MAX
}

pub proof fn fits_walk(at: LineCol, s: Seq<char>, n: nat)
    requires fits(at, s.len()), n <= s.len(),
    ensures fits(walk(at, s, n), s.skip(n as int).len()),
    decreases n,
{
    if n > 0 {
        fits_walk(at, s, (n - 1) as nat);
    }
}

/// `(r1, a1)` is `(r0, a0)` after consuming n characters.
pub open spec fn consumed(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat) -> bool {
    n <= r0.len() && r1 == r0.skip(n as int) && a1 == walk(a0, r0, n)
}

/// How many characters of `r0` have been consumed when `r1` is left.
pub open spec fn ate(r0: Seq<char>, r1: Seq<char>) -> nat {
    (r0.len() - r1.len()) as nat
}

pub broadcast proof fn consumed_fits(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat)
    requires #[trigger] consumed(r0, a0, r1, a1, n), fits(a0, r0.len()),
    ensures fits(a1, r1.len()),
{
    fits_walk(a0, r0, n);
}

pub broadcast proof fn consumed_next(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat)
    requires #[trigger] consumed(r0, a0, r1, a1, n), r1.len() > 0,
    ensures
        consumed(r0, a0, #[trigger] r1.skip(1), step(a1, r1), n + 1),
        r1[0] == r0[n as int],
{
    assert(r0.skip(n as int).skip(1) =~= r0.skip(n as int + 1));
}

pub broadcast proof fn consumed_none(r0: Seq<char>, a0: LineCol)
    ensures #[trigger] consumed(r0, a0, r0, a0, 0),
{
    assert(r0.skip(0) =~= r0);
}

pub broadcast proof fn consumed_first(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat)
    requires #[trigger] consumed(r0, a0, r1, a1, n),
    ensures n < r0.len() ==> #[trigger] first_of(r1) == Some(r0[n as int]),
{
}

pub broadcast group g_consumed {
    consumed_fits,
    consumed_next,
    consumed_none,
    consumed_first,
}
