// ---------------------------------------------------------------- helpers on top of the interface
pub open spec fn common_prefix(a: Seq<char>, b: Seq<char>) -> nat
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + common_prefix(a.skip(1), b.skip(1)) } else { 0 }
}

pub proof fn common_prefix_is(a: Seq<char>, b: Seq<char>, n: nat)
    requires
        n <= a.len(), n <= b.len(), a.take(n as int) == b.take(n as int),
        n == a.len() || n == b.len() || a[n as int] != b[n as int],
    ensures common_prefix(a, b) == n,
    decreases n,
{
    if n > 0 {
        assert(a[0] == a.take(n as int)[0] && b[0] == b.take(n as int)[0]);
        assert(a.skip(1).take(n - 1) =~= a.take(n as int).skip(1));
        assert(b.skip(1).take(n - 1) =~= b.take(n as int).skip(1));
        common_prefix_is(a.skip(1), b.skip(1), (n - 1) as nat);
    }
}

/// UTF-8 length of a sequence of characters.
pub open spec fn len8(s: Seq<char>) -> nat {
    vstd::utf8::encode_utf8(s).len()
}

/// A string's bytes fit in memory.
#[verifier::external_body]
pub proof fn str_fits(s: &str, n: nat)
    requires n <= s@.len(),
    ensures len8(s@.take(n as int)) <= isize::MAX,
{
}

/// Contract of `&s[..n]` on strings.
#[verifier::external_body]
pub fn vx_prefix(s: &str, n: usize) -> (r: &str)
    requires exists|k: int| 0 <= k <= s@.len() && n == len8(#[trigger] s@.take(k)),
    ensures forall|k: int| 0 <= k <= s@.len() && n == len8(#[trigger] s@.take(k)) ==> r@ == s@.take(k),
{
    &s[..n]
}

/// Contract of `contains` on slices.
#[verifier::external_body]
pub fn vx_contains(s: &[char], c: &char) -> (r: bool)
    ensures r == s@.contains(*c),
{
    s.contains(c)
}
//@set method contains => vx_contains

//@fn chewed/src/parse.rs trait Parser::consume_str
//@ opt attr verifier::loop_isolation(false)
//@ opt free X: Parser + ?Sized
//@ opt strslice
//@ spec
    requires old(this).wf(), fits(old(this).at(), old(this).rest().len()),
    ensures
        final(this).wf(),
        consumed(old(this).rest(), old(this).at(), final(this).rest(), final(this).at(), common_prefix(s@, old(this).rest())),
        ({
            let n = common_prefix(s@, old(this).rest());
            let rest = old(this).rest();
            if n == s@.len() {
                r is Ok
            } else if n == rest.len() {
                r == Err::<(), TakeError>(TakeError::EndOfStream(final(this).at()))
            } else {
                r is Err && r->Err_0 is BadString && r->Err_0->BadString_0 == final(this).at()
                    && r->Err_0->BadString_1@ == s@.take(n as int).push(rest[n as int])
                    && r->Err_0->BadString_2 == s
            }
        }),
//@ start
        broadcast use g_consumed;
        let ghost r0 = this.rest();
        let ghost a0 = this.at();
        proof { assert(r0.skip(0) =~= r0); assert(s@.take(0) =~= Seq::<char>::empty()); assert(r0.take(0) =~= Seq::<char>::empty()); }
//@ loop 0
        invariant
            it0.seq() == s@,
            this.wf(),
            fits(a0, r0.len()),
            consumed(r0, a0, this.rest(), this.at(), it0.index() as nat),
            s@.take(it0.index()) == r0.take(it0.index()),
            count == len8(s@.take(it0.index())),
//@ loopstart 0
            let ghost k = it0.index();
            proof {
                assert(this.rest().len() > 0 ==> this.rest()[0] == r0[k]);
                assert(r0.len() > k ==> r0.skip(k).skip(1) =~= r0.skip(k + 1));
                assert(s@.take(k + 1).drop_last() =~= s@.take(k));
                if !(r0.len() > k && r0[k] == s@[k]) { common_prefix_is(s@, r0, k as nat); }
                else {
                    assert(r0.take(k + 1) =~= r0.take(k).push(r0[k]));
                    assert(s@.take(k + 1) =~= s@.take(k).push(s@[k]));
                    str_fits(s, (k + 1) as nat);
                    vstd::utf8::encode_utf8_push(s@.take(k), s@[k]);
                }
                fits_walk(a0, r0, k as nat);
            }
//@ end
        proof { common_prefix_is(s@, r0, s@.len()); }
//@endfn

//@fn chewed/src/parse.rs trait Parser::skip_while
//@ opt attr verifier::loop_isolation(false)
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ opt free X: Parser + ?Sized
//@ opt optionfns peek
//@ spec
    requires
        old(this).wf(), fits(old(this).at(), old(this).rest().len()),
        forall|c: char| f.requires((c,)),
    ensures
        final(this).wf(),
        exists|n: nat| consumed(old(this).rest(), old(this).at(), final(this).rest(), final(this).at(), n)
            && (forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] old(this).rest()[i],), true))
            && (n < old(this).rest().len() ==> f.ensures((old(this).rest()[n as int],), false)),
//@ opt attr verifier::allow_complex_invariants
//@ start
        broadcast use g_consumed;
        let ghost r0 = this.rest();
        let ghost a0 = this.at();
        let ghost f0 = f;
        proof { assert(r0.skip(0) =~= r0); }
//@ loop 0
        invariant
            this.wf(),
            consumed(r0, a0, this.rest(), this.at(), ate(r0, this.rest())),
            f == f0,
            forall|i: int| 0 <= i < ate(r0, this.rest()) ==> f0.ensures((#[trigger] r0[i],), true),
        ensures
            this.rest().len() > 0 ==> f0.ensures((r0[ate(r0, this.rest()) as int],), false),
//@ end
        proof { let n = ate(r0, this.rest()); assert(consumed(r0, a0, this.rest(), this.at(), n)); }
//@endfn


//@fn chewed/src/parse.rs trait Parser::take_chars_from
//@ opt copyguard
//@ opt free X: Parser + ?Sized
//@ opt attr verifier::loop_isolation(false)
//@ opt indexmut 0
//@ spec
    requires old(this).wf(), fits(old(this).at(), old(this).rest().len()),
    ensures
        final(this).wf(),
        final(buffer)@.len() == old(buffer)@.len(),
        ({
            let n = allowed_prefix(set@, old(this).rest(), old(buffer)@.len());
            let rest = old(this).rest();
            &&& consumed(rest, old(this).at(), final(this).rest(), final(this).at(), n)
            &&& final(buffer)@ == rest.take(n as int) + old(buffer)@.skip(n as int)
            &&& n == old(buffer)@.len() ==> r is Ok
            &&& n < old(buffer)@.len() && n == rest.len() ==> r == Err::<(), TakeError>(TakeError::EndOfStream(final(this).at()))
            &&& n < old(buffer)@.len() && n < rest.len() ==> r == Err::<(), TakeError>(TakeError::BadBranch(final(this).at(), rest[n as int], set))
        }),
//@ start
        broadcast use g_consumed;
        let ghost r0 = this.rest();
        let ghost a0 = this.at();
        let ghost b0 = buffer@;
        proof { assert(r0.skip(0) =~= r0); }
//@ loop 0
        invariant
            this.wf(),
            __v0@.len() == __orig0.len(),
            __i0 <= __orig0.len(),
            consumed(r0, a0, this.rest(), this.at(), ate(r0, this.rest())),
            ate(r0, this.rest()) == __i0,
            forall|i: int| 0 <= i < __i0 ==> set@.contains(#[trigger] r0[i]),
            __v0@ =~= r0.take(__i0 as int) + __orig0.skip(__i0 as int),
        decreases __orig0.len() - __i0,
//@ loopstart 0
            proof {
                allowed_prefix_stop(set@, r0, __orig0.len(), __i0 as nat);
            }
//@ end
        proof { allowed_prefix_is(set@, r0, b0.len(), b0.len()); }
//@endfn

pub open spec fn allowed_prefix(set: Seq<char>, s: Seq<char>, max: nat) -> nat
    decreases s.len(),
{
    if max > 0 && s.len() > 0 && set.contains(s[0]) { 1 + allowed_prefix(set, s.skip(1), (max - 1) as nat) } else { 0 }
}

pub proof fn allowed_prefix_is(set: Seq<char>, s: Seq<char>, max: nat, n: nat)
    requires
        n <= max, n <= s.len(), forall|i: int| 0 <= i < n ==> set.contains(#[trigger] s[i]),
        n == max || n == s.len() || !set.contains(s[n as int]),
    ensures allowed_prefix(set, s, max) == n,
    decreases n,
{
    if n > 0 {
        assert(s[0] == s[0]);
        assert forall|i: int| 0 <= i < n - 1 implies set.contains(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        allowed_prefix_is(set, s.skip(1), (max - 1) as nat, (n - 1) as nat);
    }
}

pub proof fn allowed_prefix_stop(set: Seq<char>, s: Seq<char>, max: nat, n: nat)
    requires n <= max, n <= s.len(), forall|i: int| 0 <= i < n ==> set.contains(#[trigger] s[i]),
    ensures n == max || n == s.len() || !set.contains(s[n as int]) ==> allowed_prefix(set, s, max) == n,
{
    if n == max || n == s.len() || !set.contains(s[n as int]) {
        allowed_prefix_is(set, s, max, n);
    }
}

pub broadcast proof fn consumed_ate(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat)
    requires #[trigger] consumed(r0, a0, r1, a1, n),
    ensures n == ate(r0, r1),
{
}

pub broadcast proof fn consumed_twice(r0: Seq<char>, a0: LineCol, r1: Seq<char>, a1: LineCol, n: nat, r2: Seq<char>, a2: LineCol, m: nat)
    requires #[trigger] consumed(r0, a0, r1, a1, n), #[trigger] consumed(r1, a1, r2, a2, m),
    ensures consumed(r0, a0, r2, a2, n + m), n + m == ate(r0, r2),
{
    walk_add(a0, r0, n, m);
    assert(r0.skip(n as int).skip(m as int) =~= r0.skip((n + m) as int));
}
