//@include prelude.inc
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use std::ops::RangeInclusive;
verus! {

//@item chewed/src/position.rs LineCol attr=derive(Clone,Copy)
//@item chewed/src/error.rs TakeError

//@include parser.inc

//@include parserhelp.inc

pub mod chewed {
    pub use super::*;
}

/// References to the elements of an array, in order.
pub fn vx_refs<'a, T, const N: usize>(v: &'a [T; N]) -> (r: Vec<&'a T>)
    ensures
        r@.len() == N,
        forall|i: int| 0 <= i < N ==> *#[trigger] r@[i] == v@[i],
{
    let mut r: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < N
        invariant
            i <= N,
            r@.len() == i,
            forall|k: int| 0 <= k < i ==> *#[trigger] r@[k] == v@[k],
        decreases N - i,
    {
        r.push(&v[i]);
        i += 1;
    }
    r
}

//@set clear method
//@set method take_chars_from => take_chars_from
//@set method consume_str => consume_str
// ---------------------------------------------------------------- hexadecimal digits
pub open spec fn is_hex(c: char) -> bool {
    ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')
}

pub open spec fn digit(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else { c as int - 'A' as int + 10 }
}

/// The number spelled by hexadecimal digits, most significant first.
pub open spec fn number(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { number(s.drop_last()) * 16 + digit(s.last()) }
}

/// How many of the next (up to max) characters are hexadecimal digits.
pub open spec fn hexes(s: Seq<char>, max: nat) -> nat
    decreases max,
{
    if max > 0 && s.len() > 0 && is_hex(s[0]) { 1 + hexes(s.skip(1), (max - 1) as nat) } else { 0 }
}

pub open spec fn is_hex_set(s: Seq<char>) -> bool {
    forall|c: char| is_hex(c) <==> #[trigger] s.contains(c)
}

/// The same for short lists, spelled out.
pub open spec fn mem(s: Seq<char>, c: char) -> bool {
    (s.len() > 0 && s[0] == c) || (s.len() > 1 && s[1] == c) || (s.len() > 2 && s[2] == c) || (s.len() > 3 && s[3] == c) || (s.len() > 4 && s[4] == c) || (s.len() > 5 && s[5] == c) || (s.len() > 6 && s[6] == c) || (s.len() > 7 && s[7] == c) || (s.len() > 8 && s[8] == c) || (s.len() > 9 && s[9] == c) || (s.len() > 10 && s[10] == c) || (s.len() > 11 && s[11] == c) || (s.len() > 12 && s[12] == c) || (s.len() > 13 && s[13] == c) || (s.len() > 14 && s[14] == c) || (s.len() > 15 && s[15] == c) || (s.len() > 16 && s[16] == c) || (s.len() > 17 && s[17] == c) || (s.len() > 18 && s[18] == c) || (s.len() > 19 && s[19] == c) || (s.len() > 20 && s[20] == c) || (s.len() > 21 && s[21] == c) || (s.len() > 22 && s[22] == c) || (s.len() > 23 && s[23] == c) || (s.len() > 24 && s[24] == c) || (s.len() > 25 && s[25] == c) || (s.len() > 26 && s[26] == c) || (s.len() > 27 && s[27] == c) || (s.len() > 28 && s[28] == c) || (s.len() > 29 && s[29] == c) || (s.len() > 30 && s[30] == c) || (s.len() > 31 && s[31] == c)
}

pub open spec fn only_hex(s: Seq<char>) -> bool {
    (s.len() > 0 ==> is_hex(s[0])) && (s.len() > 1 ==> is_hex(s[1])) && (s.len() > 2 ==> is_hex(s[2])) && (s.len() > 3 ==> is_hex(s[3])) && (s.len() > 4 ==> is_hex(s[4])) && (s.len() > 5 ==> is_hex(s[5])) && (s.len() > 6 ==> is_hex(s[6])) && (s.len() > 7 ==> is_hex(s[7])) && (s.len() > 8 ==> is_hex(s[8])) && (s.len() > 9 ==> is_hex(s[9])) && (s.len() > 10 ==> is_hex(s[10])) && (s.len() > 11 ==> is_hex(s[11])) && (s.len() > 12 ==> is_hex(s[12])) && (s.len() > 13 ==> is_hex(s[13])) && (s.len() > 14 ==> is_hex(s[14])) && (s.len() > 15 ==> is_hex(s[15])) && (s.len() > 16 ==> is_hex(s[16])) && (s.len() > 17 ==> is_hex(s[17])) && (s.len() > 18 ==> is_hex(s[18])) && (s.len() > 19 ==> is_hex(s[19])) && (s.len() > 20 ==> is_hex(s[20])) && (s.len() > 21 ==> is_hex(s[21])) && (s.len() > 22 ==> is_hex(s[22])) && (s.len() > 23 ==> is_hex(s[23])) && (s.len() > 24 ==> is_hex(s[24])) && (s.len() > 25 ==> is_hex(s[25])) && (s.len() > 26 ==> is_hex(s[26])) && (s.len() > 27 ==> is_hex(s[27])) && (s.len() > 28 ==> is_hex(s[28])) && (s.len() > 29 ==> is_hex(s[29])) && (s.len() > 30 ==> is_hex(s[30])) && (s.len() > 31 ==> is_hex(s[31]))
}

pub open spec fn every_hex(s: Seq<char>) -> bool {
    mem(s, '0') && mem(s, '1') && mem(s, '2') && mem(s, '3') && mem(s, '4') && mem(s, '5') && mem(s, '6') && mem(s, '7') && mem(s, '8') && mem(s, '9') && mem(s, 'a') && mem(s, 'b') && mem(s, 'c') && mem(s, 'd') && mem(s, 'e') && mem(s, 'f') && mem(s, 'A') && mem(s, 'B') && mem(s, 'C') && mem(s, 'D') && mem(s, 'E') && mem(s, 'F')
}

pub proof fn mem_is(s: Seq<char>, c: char)
    requires mem(s, c),
    ensures s.contains(c),
{
}

pub proof fn only_hex_is(s: Seq<char>, i: int)
    requires only_hex(s), 0 <= i < s.len() <= 32,
    ensures is_hex(s[i]),
{
}

pub proof fn every_hex_is(s: Seq<char>, c: char)
    requires every_hex(s), is_hex(c),
    ensures mem(s, c),
{
    hide(mem);
    if false { }
        else if c == '0' { assert(mem(s, '0')); }
        else if c == '1' { assert(mem(s, '1')); }
        else if c == '2' { assert(mem(s, '2')); }
        else if c == '3' { assert(mem(s, '3')); }
        else if c == '4' { assert(mem(s, '4')); }
        else if c == '5' { assert(mem(s, '5')); }
        else if c == '6' { assert(mem(s, '6')); }
        else if c == '7' { assert(mem(s, '7')); }
        else if c == '8' { assert(mem(s, '8')); }
        else if c == '9' { assert(mem(s, '9')); }
        else if c == 'a' { assert(mem(s, 'a')); }
        else if c == 'b' { assert(mem(s, 'b')); }
        else if c == 'c' { assert(mem(s, 'c')); }
        else if c == 'd' { assert(mem(s, 'd')); }
        else if c == 'e' { assert(mem(s, 'e')); }
        else if c == 'f' { assert(mem(s, 'f')); }
        else if c == 'A' { assert(mem(s, 'A')); }
        else if c == 'B' { assert(mem(s, 'B')); }
        else if c == 'C' { assert(mem(s, 'C')); }
        else if c == 'D' { assert(mem(s, 'D')); }
        else if c == 'E' { assert(mem(s, 'E')); }
        else if c == 'F' { assert(mem(s, 'F')); }
}

pub broadcast proof fn hex_list_is(set: Seq<char>, s: Seq<char>, max: nat)
    ensures set.len() <= 32 && only_hex(set) && every_hex(set) ==> #[trigger] allowed_prefix(set, s, max) == hexes(s, max),
{
    hide(only_hex);
    hide(every_hex);
    hide(mem);
    if set.len() <= 32 && only_hex(set) && every_hex(set) {
        assert forall|c: char| #[trigger] set.contains(c) implies is_hex(c) by {
            let i = choose|i: int| 0 <= i < set.len() && set[i] == c;
            only_hex_is(set, i);
        }
        assert forall|c: char| is_hex(c) implies #[trigger] set.contains(c) by {
            every_hex_is(set, c);
            mem_is(set, c);
        }
        hex_set_is(set, s, max);
    }
}

pub proof fn hex_set_is(set: Seq<char>, s: Seq<char>, max: nat)
    requires is_hex_set(set),
    ensures allowed_prefix(set, s, max) == hexes(s, max),
    decreases max,
{
    if max > 0 && s.len() > 0 {
        assert(is_hex(s[0]) <==> set.contains(s[0]));
        hex_set_is(set, s.skip(1), (max - 1) as nat);
    }
}

pub proof fn hexes_all(s: Seq<char>, max: nat, i: int)
    requires 0 <= i < hexes(s, max),
    ensures is_hex(s[i]), hexes(s, max) <= max, hexes(s, max) <= s.len(),
    decreases max,
{
    if i > 0 {
        hexes_all(s.skip(1), (max - 1) as nat, i - 1);
    } else if hexes(s.skip(1), (max - 1) as nat) > 0 {
        hexes_all(s.skip(1), (max - 1) as nat, 0);
    }
}

pub proof fn hexes_four(s: Seq<char>)
    ensures hexes(s, 4) == 4 ==> s.len() >= 4 && forall|i: int| 0 <= i < 4 ==> is_hex(#[trigger] s[i]),
{
    if hexes(s, 4) == 4 {
        assert forall|i: int| 0 <= i < 4 implies is_hex(#[trigger] s[i]) by { hexes_all(s, 4, i); }
        hexes_all(s, 4, 0);
    }
}

pub open spec fn pow16(n: int) -> int {
    if n <= 0 { 1 } else if n == 1 { 0x10 } else if n == 2 { 0x100 } else if n == 3 { 0x1000 } else { 0x10000 }
}

// ---------------------------------------------------------------- surrogate pairs
pub open spec fn is_high(x: int) -> bool {
    0xD800 <= x <= 0xDBFF
}

pub open spec fn is_low(x: int) -> bool {
    0xDC00 <= x <= 0xDFFF
}

/// The scalar value encoded by a high and a low surrogate in UTF-16.
pub open spec fn utf16(high: int, low: int) -> int {
    0x10000 + (high - 0xD800) * 0x400 + (low - 0xDC00)
}

//@fn chomp-bench/src/json/mod.rs fn decode_pair
//@ opt partial
//@ spec
    ensures
        is_high(one as int) && is_low(other as int) ==> r == utf16(one as int, other as int),
        is_low(one as int) && is_high(other as int) ==> r == utf16(other as int, one as int),
        is_high(one as int) && is_low(other as int) || is_low(one as int) && is_high(other as int),
//@endfn

//@fn chomp-bench/src/json/mod.rs fn decode_pair
//@ opt name decode_pair_returns
//@ spec
    requires is_high(one as int), is_low(other as int),
    ensures r == utf16(one as int, other as int),
//@endfn

//@fn chomp-bench/src/json/mod.rs <Value as Parse>::take::parse_u16
//@ spec
    requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
    ensures
        final(input).wf(),
        ({
            let rest = old(input).rest();
            let n = hexes(rest, 4);
            &&& consumed(rest, old(input).at(), final(input).rest(), final(input).at(), n)
            &&& n == 4 ==> r is Ok && r->Ok_0 as int == number(rest.take(4))
            &&& n < 4 && n == rest.len() ==> r == Err::<u16, TakeError>(TakeError::EndOfStream(final(input).at()))
            &&& n < 4 && n < rest.len() ==> r is Err && r->Err_0 is BadBranch && r->Err_0->BadBranch_0 == final(input).at()
                && r->Err_0->BadBranch_1 == rest[n as int]
        }),
//@ opt attr verifier::loop_isolation(false)
//@ start
        broadcast use g_consumed;
        broadcast use hex_list_is;
        let ghost r0 = input.rest();
        proof { hexes_four(r0); }
//@ loop 0
        invariant
            it0.seq().len() == 4,
            forall|i: int| 0 <= i < 4 ==> *#[trigger] it0.seq()[i] == r0[i],
            forall|i: int| 0 <= i < 4 ==> is_hex(#[trigger] r0[i]),
            out as int == number(r0.take(it0.index() as int)),
            out < pow16(it0.index()),
//@ loopstart 0
            proof {
                let k = it0.index();
                assert(r0.take(k + 1).drop_last() =~= r0.take(k));
                assert(r0.take(k + 1).last() == r0[k]);
                assert(*it0.seq()[k] == r0[k]);
                assert(is_hex(r0[k]));
            }
//@endfn

// ---------------------------------------------------------------- strings
pub open spec fn scalar(x: int) -> bool {
    0 <= x < 0xD800 || 0xE000 <= x <= 0x10FFFF
}

/// The character with a given scalar value.
pub open spec fn char_of(x: int) -> char {
    x as char
}

/// Contract of `u32::try_into::<char>`.
#[verifier::external_body]
pub fn vx_char_of(x: u32) -> (r: Result<char, ()>)
    ensures scalar(x as int) ==> r == Ok::<char, ()>(char_of(x as int)),
        !scalar(x as int) ==> r is Err,
{
    char::try_from(x).map_err(|_| ())
}
//@set method try_into => vx_char_of

/// The character a backslash and the character c stand for.
pub open spec fn escape(c: char) -> Option<char> {
    if c == '"' { Some('"') } else if c == '\\' { Some('\\') } else if c == '/' { Some('/') }
    else if c == 'b' { Some('\x08') } else if c == 'f' { Some('\x0C') } else if c == 'n' { Some('\n') }
    else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None }
}

/// The scalar value spelled by what follows `\u`, and how many characters spell it.
pub open spec fn unicode(s: Seq<char>) -> Option<(int, nat)> {
    if hexes(s, 4) < 4 { None }
    else {
        let v = number(s.take(4));
        if !is_high(v) && !is_low(v) { Some((v, 4nat)) }
        else if s.len() < 6 || s[4] != '\\' || s[5] != 'u' || hexes(s.skip(6), 4) < 4 { None }
        else {
            let w = number(s.skip(6).take(4));
            if is_high(v) && is_low(w) { Some((utf16(v, w), 10nat)) }
            else if is_low(v) && is_high(w) { Some((utf16(w, v), 10nat)) }
            else { None }
        }
    }
}

/// The next character of a string literal, and how many characters spell it.
pub open spec fn one(s: Seq<char>) -> Option<(char, nat)> {
    if s.len() == 0 { None }
    else if s[0] == '\\' {
        if s.len() < 2 { None }
        else if s[1] == 'u' { match unicode(s.skip(2)) { Some((v, n)) => Some((char_of(v), n + 2)), None => None } }
        else { match escape(s[1]) { Some(c) => Some((c, 2nat)), None => None } }
    }
    else if (s[0] as int) < 0x20 { None }
    else { Some((s[0], 1nat)) }
}

/// The text of a string literal after its opening quote, and how many characters it takes
/// (the closing quote included).
pub open spec fn reads(s: Seq<char>) -> Option<(Seq<char>, nat)>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] == '"' { Some((Seq::empty(), 1nat)) }
    else {
        match one(s) {
            None => None,
            Some((c, n)) => if n == 0 || n > s.len() { None } else { then(seq![c], n, reads(s.skip(n as int))) },
        }
    }
}

pub open spec fn then(a: Seq<char>, n: nat, t: Option<(Seq<char>, nat)>) -> Option<(Seq<char>, nat)> {
    match t {
        None => None,
        Some((u, m)) => Some((a + u, n + m)),
    }
}

pub proof fn prefixes(s: Seq<char>)
    ensures
        common_prefix("\""@, s) == (if s.len() > 0 && s[0] == '"' { 1nat } else { 0nat }),
        common_prefix("\\u"@, s) == (if s.len() > 0 && s[0] == '\\' { if s.len() > 1 && s[1] == 'u' { 2nat } else { 1nat } } else { 0nat }),
        "\""@.len() == 1,
        "\\u"@.len() == 2,
{
    reveal_strlit("\"");
    reveal_strlit("\\u");
    let q = "\""@;
    let u = "\\u"@;
    assert(q.take(0) =~= s.take(0));
    assert(u.take(0) =~= s.take(0));
    if s.len() > 0 {
        if s[0] == '"' {
            assert(q.take(1) =~= s.take(1));
            common_prefix_is(q, s, 1);
        } else {
            common_prefix_is(q, s, 0);
        }
        if s[0] == '\\' {
            assert(u.take(1) =~= s.take(1));
            if s.len() > 1 && s[1] == 'u' {
                assert(u.take(2) =~= s.take(2));
                common_prefix_is(u, s, 2);
            } else {
                common_prefix_is(u, s, 1);
            }
        } else {
            common_prefix_is(u, s, 0);
        }
    }
}

pub proof fn then_push(a: Seq<char>, n: nat, c: char, m: nat, t: Option<(Seq<char>, nat)>)
    ensures then(a, n, then(seq![c], m, t)) == then(a.push(c), n + m, t),
{
    if t is Some {
        assert(a + (seq![c] + (t->0).0) =~= a.push(c) + (t->0).0);
    }
}

/// What the rest of a literal is, by its next characters.
pub proof fn reads_step(a: Seq<char>, n: nat, s: Seq<char>)
    ensures
        s.len() == 0 ==> reads(s) is None,
        s.len() > 0 && s[0] == '"' ==> then(a, n, reads(s)) == Some((a, n + 1)),
        s.len() > 0 && s[0] != '"' && s[0] != '\\' && s[0] as int >= 0x20 ==> then(a, n, reads(s)) == then(a.push(s[0]), n + 1, reads(s.skip(1))),
        s.len() == 1 && s[0] == '\\' ==> reads(s) is None,
        s.len() > 1 && s[0] == '\\' && s[1] != 'u' && escape(s[1]) is Some ==>
            then(a, n, reads(s)) == then(a.push(escape(s[1])->0), n + 2, reads(s.skip(1).skip(1))),
        s.len() > 1 && s[0] == '\\' && s[1] == 'u' ==> ({
            let t = s.skip(1).skip(1);
            let v = number(t.take(4));
            let t1 = t.skip(4);
            let t2 = t1.skip(2);
            let w = number(t2.take(4));
            &&& hexes(t, 4) < 4 ==> reads(s) is None
            &&& hexes(t, 4) >= 4 ==> hexes(t, 4) == 4 && t.len() >= 4 && 0 <= v < 0x10000
            &&& hexes(t, 4) == 4 && !is_high(v) && !is_low(v) ==> then(a, n, reads(s)) == then(a.push(char_of(v)), n + 6, reads(t1))
            &&& hexes(t, 4) == 4 && (is_high(v) || is_low(v)) ==> {
                &&& t1.len() < 2 || t1[0] != '\\' || t1[1] != 'u' ==> reads(s) is None
                &&& t1.len() >= 2 && t1[0] == '\\' && t1[1] == 'u' ==> {
                    &&& hexes(t2, 4) < 4 ==> reads(s) is None
                    &&& hexes(t2, 4) >= 4 ==> hexes(t2, 4) == 4 && t2.len() >= 4
                    &&& hexes(t2, 4) == 4 && is_high(v) && is_low(w) ==>
                        then(a, n, reads(s)) == then(a.push(char_of(utf16(v, w))), n + 12, reads(t2.skip(4)))
                    &&& hexes(t2, 4) == 4 && is_low(v) && is_high(w) ==>
                        then(a, n, reads(s)) == then(a.push(char_of(utf16(w, v))), n + 12, reads(t2.skip(4)))
                }
            }
        }),
{
    if s.len() > 0 && s[0] == '"' {
        assert(a + Seq::<char>::empty() =~= a);
    } else if s.len() > 0 && s[0] != '\\' && s[0] as int >= 0x20 {
        then_push(a, n, s[0], 1, reads(s.skip(1)));
    } else if s.len() > 1 && s[0] == '\\' {
        let t = s.skip(1).skip(1);
        assert(t =~= s.skip(2));
        if s[1] != 'u' {
            if escape(s[1]) is Some {
                then_push(a, n, escape(s[1])->0, 2, reads(t));
            }
        } else {
            let v = number(t.take(4));
            let t1 = t.skip(4);
            let t2 = t1.skip(2);
            let w = number(t2.take(4));
            hexes_max(t, 4);
            hexes_max(t2, 4);
            if hexes(t, 4) == 4 {
                number_four(t);
                assert(t1 =~= s.skip(6));
                if !is_high(v) && !is_low(v) {
                    then_push(a, n, char_of(v), 6, reads(t1));
                } else if t1.len() >= 2 && t1[0] == '\\' && t1[1] == 'u' && hexes(t2, 4) == 4 {
                    assert(t2 =~= t.skip(6));
                    assert(t2.skip(4) =~= s.skip(12));
                    then_push(a, n, char_of(utf16(v, w)), 12, reads(t2.skip(4)));
                    then_push(a, n, char_of(utf16(w, v)), 12, reads(t2.skip(4)));
                } else if t.len() >= 6 {
                    assert(t2 =~= t.skip(6));
                }
            }
        }
    }
}

pub proof fn hexes_max(s: Seq<char>, max: nat)
    ensures hexes(s, max) <= max, hexes(s, max) <= s.len(),
    decreases max,
{
    if max > 0 && s.len() > 0 {
        hexes_max(s.skip(1), (max - 1) as nat);
    }
}

pub proof fn number_four(s: Seq<char>)
    requires hexes(s, 4) == 4,
    ensures 0 <= number(s.take(4)) < 0x10000,
{
    hexes_max(s, 4);
    hexes_four(s);
    let t = s.take(4);
    assert(t.drop_last() =~= s.take(3));
    assert(s.take(3).drop_last() =~= s.take(2));
    assert(s.take(2).drop_last() =~= s.take(1));
    assert(s.take(1).drop_last() =~= s.take(0));
    assert(number(s.take(0)) == 0);
    assert(is_hex(s[0]) && is_hex(s[1]) && is_hex(s[2]) && is_hex(s[3]));
    assert(number(s.take(1)) == digit(s[0]));
    assert(number(s.take(2)) == number(s.take(1)) * 16 + digit(s[1]));
    assert(number(s.take(3)) == number(s.take(2)) * 16 + digit(s[2]));
    assert(number(s.take(4)) == number(s.take(3)) * 16 + digit(s[3]));
}

//@fn chomp-bench/src/json/mod.rs <Value as Parse>::take::parse_str
//@ opt partial
//@ opt attr verifier::loop_isolation(false)
//@ opt attr verifier::exec_allows_no_decreases_clause
//@ spec
    requires old(input).wf(), fits(old(input).at(), old(input).rest().len()),
    ensures
        final(input).wf(),
        ({
            let rest = old(input).rest();
            let want = if rest.len() > 0 && rest[0] == '"' { then(Seq::empty(), 1, reads(rest.skip(1))) } else { None };
            &&& consumed(rest, old(input).at(), final(input).rest(), final(input).at(), ate(rest, final(input).rest()))
            &&& r is Ok ==> want is Some && r->Ok_0@ == (want->0).0 && ate(rest, final(input).rest()) == (want->0).1
            &&& r is Err ==> want is None
        }),
//@ start
        hide(reads);
        broadcast use g_consumed;
        let ghost r0 = input.rest();
        let ghost a0 = input.at();
        broadcast use consumed_ate;
        broadcast use consumed_twice;
        proof { prefixes(r0); }
//@ loopstart 0
            proof {
                let s1 = input.rest();
                reads_step(s@, ate(r0, s1), s1);
                prefixes(s1.skip(1).skip(1).skip(4));
            }
//@ loop 0
        invariant
            input.wf(),
            consumed(r0, a0, input.rest(), input.at(), ate(r0, input.rest())),
            r0.len() > 0 && r0[0] == '"',
            then(Seq::empty(), 1, reads(r0.skip(1))) == then(s@, ate(r0, input.rest()), reads(input.rest())),
//@endfn

}
fn main() {}
