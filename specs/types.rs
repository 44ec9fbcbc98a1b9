#![feature(allocator_api)]
//@include prelude.inc
use std::collections::*;
use std::collections::btree_set;
use std::alloc::Allocator;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::btree::*;
//@include btree.inc
//@include vecs.inc
//@include typeset.inc
verus! {

// ------------------------------------------------------------ soundness of the equations
pub type Lang = spec_fn(Seq<char>) -> bool;

/// The language l has nothing that the type t does not allow.
pub open spec fn describes(t: Ty, l: Lang) -> bool {
    &&& l(Seq::empty()) ==> t.nullable
    &&& forall|w: Seq<char>| w.len() > 0 && #[trigger] l(w) ==> t.first.contains(w[0])
    &&& forall|w: Seq<char>, n: int| 0 < n < w.len() && #[trigger] l(w) && #[trigger] l(w.take(n)) ==> t.flast.contains(w[n])
}

pub open spec fn cat_lang(a: Lang, b: Lang) -> Lang {
    |w: Seq<char>| exists|k: int| 0 <= k <= w.len() && a(#[trigger] w.take(k)) && b(w.skip(k))
}

pub open spec fn alt_lang(a: Lang, b: Lang) -> Lang {
    |w: Seq<char>| a(w) || b(w)
}

pub open spec fn str_lang(s: Seq<char>) -> Lang {
    |w: Seq<char>| w == s
}

pub proof fn of_str_describes(s: Seq<char>)
    ensures describes(ty_str(s), str_lang(s)),
{
}

pub proof fn alt_describes(a: Ty, b: Ty, l: Lang, m: Lang)
    requires describes(a, l), describes(b, m), alt_ok(a, b),
    ensures describes(ty_alt(a, b), alt_lang(l, m)),
{
    let t = ty_alt(a, b);
    assert forall|w: Seq<char>, n: int| 0 < n < w.len() && #[trigger] alt_lang(l, m)(w) && #[trigger] alt_lang(l, m)(w.take(n))
        implies t.flast.contains(w[n]) by {
        let p = w.take(n);
        assert(p[0] == w[0]);
        assert(l(w) && m(p) ==> a.first.contains(w[0]) && b.first.contains(p[0]));
        assert(m(w) && l(p) ==> b.first.contains(w[0]) && a.first.contains(p[0]));
        assert(!(a.first.contains(w[0]) && b.first.contains(w[0])));
    }
}

pub proof fn cat_describes(a: Ty, b: Ty, l: Lang, m: Lang)
    requires describes(a, l), describes(b, m), cat_ok(a, b),
    ensures describes(ty_cat(a, b), cat_lang(l, m)),
{
    let t = ty_cat(a, b);
    let c = cat_lang(l, m);
    assert forall|w: Seq<char>| w.len() > 0 && #[trigger] c(w) implies t.first.contains(w[0]) by {
        let k = choose|k: int| 0 <= k <= w.len() && l(#[trigger] w.take(k)) && m(w.skip(k));
        assert(w.take(0) =~= Seq::empty());
        assert(w.take(k)[0] == w[0]);
    }
    assert(c(Seq::empty()) ==> t.nullable) by {
        if c(Seq::empty()) {
            let w = Seq::<char>::empty();
            let k = choose|k: int| 0 <= k <= w.len() && l(#[trigger] w.take(k)) && m(w.skip(k));
            assert(w.take(k) =~= w);
            assert(w.skip(k) =~= w);
        }
    }
    assert forall|w: Seq<char>, n: int| 0 < n < w.len() && #[trigger] c(w) && #[trigger] c(w.take(n)) implies t.flast.contains(w[n]) by {
        let p = w.take(n);
        let j = choose|k: int| 0 <= k <= w.len() && l(#[trigger] w.take(k)) && m(w.skip(k));
        let k = choose|k: int| 0 <= k <= p.len() && l(#[trigger] p.take(k)) && m(p.skip(k));
        assert(w.take(0) =~= Seq::empty());
        assert(p.take(0) =~= Seq::empty());
        assert(p.take(k) =~= w.take(k));
        if j == k {
            assert(p.skip(k) =~= w.skip(k).take(n - k));
            if n > k {
                assert(w.skip(k)[n - k] == w[n]);
            } else {
                assert(p.skip(k) =~= Seq::empty());
                assert(w.skip(k)[0] == w[n]);
            }
        } else if j > k {
            assert(w.take(k) =~= w.take(j).take(k));
            assert(w.take(j)[k] == w[k]);
            if k < n {
                assert(p.skip(k)[0] == w[k]);
            } else {
                assert(p.skip(k) =~= Seq::empty());
            }
        } else {
            assert(w.take(j) =~= w.take(k).take(j));
            assert(w.take(k)[j] == w[j]);
            assert(w.skip(j)[0] == w[j]);
        }
    }
}

// ------------------------------------------------------------ contexts
//@item src/chomp/ast/mod.rs Variable attr=derive(Clone,Copy)
//@item src/chomp/typed/context.rs Context
//@item src/chomp/typed/context.rs GetVariableError
//@include context.inc
}
fn main() {}
