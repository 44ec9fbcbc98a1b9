#![feature(allocator_api)]
//@include prelude.inc
use std::collections::{BTreeSet, btree_set};
use std::alloc::Allocator;
use std::cmp::Ordering;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::btree::*;
use vstd::pervasive::unreached as vx_unreached;
//@include btree.inc
//@include vecs.inc
//@include strings.inc
//@include token.inc
//@include nametypes.inc
//@include nameops.inc
//@include contenteq.inc
pub mod ast {
use super::*;
//@include ast.inc
}
pub use ast::*;
//@include typeset.inc
//@include typing.inc
//@set clear boolops
pub mod typed {
use super::*;
//@include typed.inc
}
//@include idents.inc
//@include tokens.inc

pub mod lower {
use crate::*;
use crate::typed::*;
use crate::typed::{Epsilon, Literal, Cat, Alt, Fix, Variable};
verus! {
//@item src/lower/mod.rs Ty
//@item src/lower/mod.rs RustBackend
//@item src/lower/mod.rs NamedSpan

impl Clone for Ty {
    #[verifier::external_body]
    fn clone(&self) -> (r: Ty)
        ensures r.name@ == self.name@, r.rest@ == self.rest@, r.deps@ == self.deps@,
    { unimplemented!() }
}

}
//@include backend.inc
//@include emit.inc
//@include run.inc
//@include sound.inc
//@include complete.inc
//@include ends.inc
verus! {
impl FirstSet {
//@fn src/chomp/set.rs <FirstSet as IntoIterator>::into_iter
//@ opt ty Self::IntoIter => Vec<char>
//@ opt intoiter
//@ opt retvec
//@ spec
    ensures r@ == sorted(self@),
//@endfn
}
impl VxSeq for FirstSet {
    type T = char;
    open spec fn items(&self) -> Seq<char> { sorted(self@) }
    fn vx_seq(self) -> Vec<char> { self.into_iter() }
}
pub open spec fn counted(s: Seq<(Index, Ident)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.index == i
}
pub open spec fn numbered_as(prefix: Str, s: Seq<(Index, Ident)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.text() == numbered("{}{}"@, prefix, i as usize)
}
pub open spec fn type_tys(s: Seq<Type>) -> Seq<crate::Ty> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub open spec fn typed_as(s: Seq<((Type, NamedSpan), usize)>, e: Seq<CN>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.0@ == cty(e[i])
}
pub open spec fn found_as(o: Option<(usize, &Type)>, e: Option<int>) -> bool {
    match (o, e) { (Some(a), Some(b)) => a.0 == b, (None, None) => true, _ => false }
}
pub open spec fn sets_as(s: Seq<&FirstSet>, ts: Seq<crate::Ty>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == ts[i].first
}
pub open spec fn numbered_sets(s: Seq<(usize, FirstSet)>, ts: Seq<crate::Ty>) -> bool {
    &&& s.len() == ts.len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == i && s[i].1@ == ts[i].first
}
pub open spec fn chosen_as(s: Seq<(usize, FirstSet)>, ts: Seq<crate::Ty>, on: Seq<int>) -> bool {
    &&& s.len() == on.len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == on[i] && s[i].1@ == ts[on[i]].first
}
pub open spec fn arms_as(s: Seq<(Ident, TokenStream)>, ts: Seq<crate::Ty>, on: Seq<int>, parts: Seq<Str>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.text() == parts[on[i]] && s[i].1@ == seq![Tok::Somes(sorted(ts[on[i]].first))]
}
pub open spec fn named_as(b: B, ids: Seq<usize>, s: Seq<TokenStream>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == b.data[ids[i] as int].name
}
pub open spec fn emitted_from(b: B, id: usize, t: Seq<Tok>) -> bool {
    exists|o: Seq<usize>, w: Str| emits(b, id, t, o, w)
}
pub open spec fn generated(typed: TypedExpression, t: Seq<Tok>) -> bool {
    &&& def_names(defs(t)).no_duplicates()
    &&& closed(t)
    &&& exists|b: B, id: usize| #[trigger] means(b, seq![], cx(typed.inner), id) && inv(b) && b.ctx.len() == 0 && emitted_from(b, id, t)
}
impl RustBackend {
//@fn src/lower/mod.rs RustBackend::unused_name
//@ opt macro format_ident vx_format_ident
//@ opt addcheck
//@ spec
    requires !base@.contains('#'),
    ensures
        !old(used)@.contains(r.0.text()),
        final(used)@ == old(used)@.insert(r.0.text()),
        ends_with_digit(r.0.text()),
        !r.0.text().contains('#'),
//@ loop 0
    invariant used@ =~= old(used)@,
        !base@.contains('#'),
    decreases usize::MAX - count,
//@ loopstart 0
    proof { reveal_strlit("{}{}"); }
//@endfn
//@fn src/lower/mod.rs RustBackend::new_type_name
//@ opt intoiter
//@ opt addcheck
//@ spec
    requires !prefix@.contains('#'),
    ensures
        r.0 == old(self)@.len(),
        !old(self)@.used.contains(r.1.text()),
        ends_with_digit(r.1.text()),
        final(self)@ == (B { used: old(self)@.used.insert(r.1.text()), ..old(self)@ }),
        final(self).data@ == old(self).data@,
//@ start
    broadcast use {wordy_is, Ident::make_is};
//@endfn

//@set collectinto
//@set extendcall
//@set intoiter
//@set vecfns ty_names indexes name_parts_snake name_parts_camel
//@set intoarg recurse_exprs
//@set macro format_ident vx_format_ident
//@set macro format vx_format()
//@fn src/lower/mod.rs RustBackend::name_parts_snake
//@ opt retvec
//@ opt addcheck
//@ opt ty I => Vec<NamedSpan>
//@ opt dropgen I
//@ opt ty impl Iterator<Item = Ident> + '_ => Vec<Ident>
//@ spec
    requires !default@.contains('#'),
    ensures r@.len() == iter@.len(), texts(r@).no_duplicates(),
//@ start
    broadcast use {wordy_is, Ident::make_is};
//@ loop 0
    invariant
        !default@.contains('#'),
        __out0@.len() == it0.index@, it0.seq().len() == iter@.len(),
        texts(__out0@).no_duplicates(),
        forall|t: Str| texts(__out0@).contains(t) ==> #[trigger] used_names@.contains(t),
//@ loopstart 0
    broadcast use {wordy_is, Ident::make_is};
//@ loopend 0
    broadcast use texts_push;
//@endfn
//@fn src/lower/mod.rs RustBackend::name_parts_camel
//@ opt retvec
//@ opt addcheck
//@ opt ty I => Vec<NamedSpan>
//@ opt dropgen I
//@ opt ty impl Iterator<Item = Ident> + '_ => Vec<Ident>
//@ spec
    requires !default@.contains('#'),
    ensures r@.len() == iter@.len(), texts(r@).no_duplicates(),
//@ start
    broadcast use {wordy_is, Ident::make_is};
//@ loop 0
    invariant
        !default@.contains('#'),
        __out0@.len() == it0.index@, it0.seq().len() == iter@.len(),
        texts(__out0@).no_duplicates(),
        forall|t: Str| texts(__out0@).contains(t) ==> #[trigger] used_names@.contains(t),
//@ loopstart 0
    broadcast use {wordy_is, Ident::make_is};
//@ loopend 0
    broadcast use texts_push;
//@endfn
//@fn src/lower/mod.rs RustBackend::indexes
//@ opt retvec
//@ opt ty I => Vec<Span>
//@ opt dropgen I
//@ opt ty impl Iterator<Item = (Index, Ident)> + '_ => Vec<(Index, Ident)>
//@ opt method try_into => vx_u32
//@ opt method unwrap => vx_same_u32
//@ spec
    ensures r@.len() == iter@.len(),
        counted(r@), numbered_as(prefix@, r@),
//@ loop 0
    invariant
        __out0@.len() == it0.index@, it0.seq().len() == iter@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i,
        counted(__out0@), numbered_as(prefix@, __out0@),
//@endfn
//@fn src/lower/mod.rs RustBackend::ty_names
//@ opt retvec
//@ opt ty I => Vec<usize>
//@ opt dropgen I
//@ opt ty impl Iterator<Item = TokenStream> + '_ => Vec<TokenStream>
//@ spec
    requires all_in(iter@, self@.len()),
    ensures all_toks(r@) == names(self@, iter@),
//@ loop 0
    invariant
        __out0@.len() == it0.index@, it0.seq() == iter@, all_in(iter@, self@.len()),
        named_as(self@, iter@, __out0@),
//@ end
    assert(all_toks(__r@) =~= names(self@, iter@));
//@endfn

//@fn src/lower/mod.rs <RustBackend as Default>::default
//@ spec
    ensures inv(r@), r@.len() == 0, r@.ctx.len() == 0,
//@ end
    proof {
        let b = __r@;
        assert(forall|p: Part| !(#[trigger] b.has(p)));
    }
//@endfn
//@fn src/lower/mod.rs RustBackend::recurse_exprs
//@ opt ty I => Vec<TypedExpression>
//@ opt dropgen I
//@ spec
    requires
        inv(old(self)@),
        wts(call(iter@), iter@.len() as int, tcs(old(self)@, old(self)@.ctx)),
    ensures
        inv(final(self)@), kept(old(self)@, final(self)@),
        r.2@.len() == iter@.len(), r.1@.len() == iter@.len(),
        mean(final(self)@, final(self)@.ctx, call(iter@), iter@.len() as int, r.2@),
        all_in(r.2@, final(self)@.len()),
        type_tys(r.0@) == ctys(call(iter@)),
    decreases iter, 0int,
//@ loop 0
    invariant
        inv(old(self)@), wts(call(iter@), iter@.len() as int, tcs(old(self)@, old(self)@.ctx)),
        it0.seq() == iter@, __out0@.len() == it0.index@,
        inv(self@), kept(old(self)@, self@),
        mean(self@, self@.ctx, call(iter@), it0.index@, seconds(__out0@)),
        all_in(seconds(__out0@), self@.len()),
        typed_as(__out0@, call(iter@)),
//@ loopstart 0
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    let ghost o = self@;
    let ghost ids = seconds(__out0@);
    let ghost n = it0.index@;
    proof {
        assert(decreases_to!(iter => iter[it0.index@]));
        wts_at(call(iter@), iter@.len() as int, tcs(old(self)@, old(self)@.ctx), it0.index@);
        tcs_grew(old(self)@, self@, self@.ctx);
        cty_is(iter@[it0.index@]);
        assert(call(iter@)[it0.index@] == cn(iter@[it0.index@]));
    }
//@ loopend 0
    proof {
        mean_kept(o, self@, self@.ctx, call(iter@), n, ids);
        mean_upto(self@, self@.ctx, call(iter@), n, ids, seconds(__out0@));
        assert forall|k: int| 0 <= k < seconds(__out0@).len() implies #[trigger] seconds(__out0@)[k] < self@.len() by {
            if k < n { assert(seconds(__out0@)[k] == ids[k]); }
        }
    }
//@ end
    proof {
        assert(type_tys(__r.0@) =~= ctys(call(iter@)));
    }
//@endfn
//@fn src/lower/mod.rs <RustBackend as Backend>::gen_epsilon
//@ opt ty Self::Id => usize
//@ spec
    requires inv(old(self)@),
    ensures
        inv(final(self)@), kept(old(self)@, final(self)@), r < final(self)@.len(),
        means(final(self)@, final(self)@.ctx, CX::Eps(_eps.ty@), r),
//@ start
    broadcast use {tyvs_push, g_defs};
//@ end
    proof { added_plain(old(self)@, self@, tyv(self.data@.last())); }
//@endfn
//@fn src/lower/mod.rs <RustBackend as Backend>::gen_literal
//@ opt ty Self::Id => usize
//@ spec
    requires inv(old(self)@),
    ensures
        inv(final(self)@), kept(old(self)@, final(self)@), r < final(self)@.len(),
        means(final(self)@, final(self)@.ctx, CX::Lit(lit.inner@, lit.ty@), r),
//@ start
    broadcast use {tyvs_push, g_defs};
    let ghost s = lit.inner@;
    proof {
        reveal_strlit("Lit");
        there(self@, Part::Lit(s));
    }
//@ end
    proof { added(old(self)@, self@, Part::Lit(s), tyv(self.data@.last())); }
//@endfn
//@fn src/lower/mod.rs <RustBackend as Backend>::gen_cat
//@ opt ty Self::Id => usize
//@ spec
    requires inv(old(self)@), wt(ccat(cat), tcs(old(self)@, old(self)@.ctx)),
    ensures
        inv(final(self)@), kept(old(self)@, final(self)@), r < final(self)@.len(),
        means(final(self)@, final(self)@.ctx, ccat(cat), r),
    decreases cat, 1int,
//@ start
    broadcast use {tyvs_push, g_defs, ccat_is};
    let ghost o = self@;
    let ghost c = cat;
    let ghost s = call(cat.terms@);
    proof {
        reveal_strlit("Cat");
        reveal_strlit("part");
        reveal_strlit("{}{}");
        ccat_is(cat);
        assert(decreases_to!(cat => cat.terms));
    }
//@ after recurse_exprs
    let ghost m = self@;
    proof {
        assert(mean(m, m.ctx, s, s.len() as int, ids@));
        there(m, Part::Cat(ids@));
    }
//@ loop 0
    invariant true,
//@ loop 1
    invariant __out1@.len() == it1.index@, it1.seq().len() == name_spans@.len(),
//@ end
    proof {
        let t = tyv(self.data@.last());
        let b = self@;
        let p = Part::Cat(ids@);
        assert(b == (B { data: m.data.push(t), used: b.used, ..m }).put(p, m.len() as usize));
        assert(t.deps == ids@.to_set());
        assert(names(b, ids@) =~= names(m, ids@));
        let d = defs(t.rest);
        numbers_apart(texts(number_parts@), "{}{}"@, "part"@);
        assert(prints(t.rest)[0].1->Fields_0 =~= printer(d[0])->Fields_0);
        assert(prints(t.rest) =~= seq![(word(b, id), printer(d[0]))]);
        assert(lower::named(b, id));
        assert(all_in(ids@, b.len()));
        assert(d.len() == 1);
        assert(d[0].name == word(b, id));
        assert(d[0].tys =~= names(b, ids@));
        assert(!(d[0].shape is Tuple) ==> d[0].parts.len() == ids@.len() && d[0].parts.no_duplicates());
        assert(takes(t.rest).len() == 1);
        assert(taker(d[0], takes(t.rest)[0].1));
        added(m, b, p, t);
        mean_kept(m, b, b.ctx, s, s.len() as int, ids@);
        assert(b.is(Part::Cat(ids@), id));
    }
//@endfn
//@fn src/lower/mod.rs <RustBackend as Backend>::gen_alt
//@ opt ty Self::Id => usize
//@ spec
    requires inv(old(self)@), wt(calt(alt), tcs(old(self)@, old(self)@.ctx)),
    ensures
        inv(final(self)@), kept(old(self)@, final(self)@), r < final(self)@.len(),
        means(final(self)@, final(self)@.ctx, calt(alt), r),
    decreases alt, 1int,
//@ start
    broadcast use {tyvs_push, g_defs, calt_is};
    let ghost o = self@;
    let ghost s = call(alt.terms@);
    let ghost ts = ctys(s);
    proof {
        reveal_strlit("Alt");
        reveal_strlit("Branch");
        reveal_strlit("{}{}");
        calt_is(alt);
        assert(decreases_to!(alt => alt.terms));
    }
//@ after recurse_exprs
    let ghost m = self@;
    proof {
        assert(mean(m, m.ctx, s, s.len() as int, ids@));
        there(m, Part::Alt(ids@));
        tcs_grew(o, m, m.ctx);
        assert(choice(m, ids@, ts, m.ctx, s));
        starting_in(ts, ts.len() as int);
        empty_in(ts, ts.len() as int);
    }
    let ghost on = starting(ts, ts.len() as int);
//@ loop 0
    invariant
        type_tys(tys@) == ts, it0.seq().len() == tys@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == tys@[i],
        found_as(__out0, empty_one(ts, it0.index@)),
//@ loop 1
    invariant
        type_tys(tys@) == ts, it1.seq().len() == tys@.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == tys@[i],
        __out1@.len() == it1.index@, sets_as(__out1@, ts),
//@ loop 2
    invariant
        numbered_sets(it2.seq(), ts),
        chosen_as(__out2@, ts, starting(ts, it2.index@)),
//@ loop 3
    invariant
        on == starting(ts, ts.len() as int),
        forall|j: int| 0 <= j < on.len() ==> 0 <= #[trigger] on[j] < ts.len(),
        chosen_as(it3.seq(), ts, on), name_parts@.len() == ts.len(),
        __out3@.len() == it3.index@, arms_as(__out3@, ts, on, texts(name_parts@)),
//@ loop 4
    invariant true,
//@ loop 5
    invariant true,
//@ loop 6
    invariant true,
//@ end
    proof {
        let t = tyv(self.data@.last());
        let b = self@;
        let p = Part::Alt(ids@);
        assert(b == (B { data: m.data.push(t), used: b.used, ..m }).put(p, m.len() as usize));
        assert(names(b, ids@) =~= names(m, ids@));
        let d = defs(t.rest);
        assert(lower::named(b, id));
        assert(all_in(ids@, b.len()));
        assert(d.len() == 1);
        assert(d[0].name == word(b, id));
        assert(d[0].tys =~= names(b, ids@));
        assert(d[0].parts.len() == ids@.len() && d[0].parts.no_duplicates());
        assert(prints(t.rest) =~= seq![(word(b, id), printer(d[0]))]);
        assert(takes(t.rest).len() == 1);
        let k = takes(t.rest)[0].1;
        assert(k->pats =~= Seq::new(on.len(), |j: int| seq![Tok::Somes(sorted(ts[on[j]].first))]));
        assert(k->variants =~= Seq::new(on.len(), |j: int| d[0].parts[on[j]]));
        assert(chooser(d[0], k, ts));
        if grew(m, b) && once(b) {
            tcs_grew(m, b, m.ctx);
            mean_kept(m, b, m.ctx, s, s.len() as int, ids@);
            assert(choice(b, ids@, ts, m.ctx, s));
        }
        added(m, b, p, t);
        mean_kept(m, b, b.ctx, s, s.len() as int, ids@);
        assert(b.is(p, id));
    }
//@endfn
//@fn src/lower/mod.rs <RustBackend as Backend>::gen_fix
//@ opt ty Self::Id => usize
//@ spec
    requires inv(old(self)@), wt(CX::Fix(Box::new(cn(*fix.inner))), tcs(old(self)@, old(self)@.ctx)),
    ensures
        inv(final(self)@), kept(old(self)@, final(self)@), r < final(self)@.len(),
        means(final(self)@, final(self)@.ctx, CX::Fix(Box::new(cn(*fix.inner))), r),
    decreases fix, 1int,
//@ start
    broadcast use {tyvs_push, g_defs, only_one};
    let ghost o = self@;
    let ghost k = cn(*fix.inner);
    let ghost free = sorted(fv(k.e, 0));
    proof {
        reveal_strlit("Fix");
        wt_scoped(k.e, tcs(o, o.ctx).push(cty(k)));
        sorted_is(fv(k.e, 0));
        there(o, Part::Fix(k, lower::scope(k.e, o.ctx)));
        assert forall|i: int| 0 <= i < free.len() implies #[trigger] free[i] <= o.ctx.len() by { assert(free.contains(free[i])); }
    }
//@ loop 0
    invariant
        self@ == o, it0.seq() == free,
        forall|i: int| 0 <= i < free.len() ==> #[trigger] free[i] <= o.ctx.len(),
        scope@ == scope_to(free, it0.index@, o.ctx),
//@ before new_type_name
    let ghost m = self@;
//@ before gen
    let ghost g = self@;
    proof {
        let t = tyv(self.data@.last());
        assert(m == o);
        assert(g == (B { data: m.data.push(t), used: g.used, ctx: m.ctx.push(m.len() as usize), ..m }).put(Part::Fix(k, lower::scope(k.e, o.ctx)), m.len() as usize));
        pushed(m, g, k, lower::scope(k.e, o.ctx), t);
    }
//@ before pop
    let ghost h = self@;
//@ end
    proof {
        let t = tyv(self.data@[id as int]);
        let b = self@;
        assert(h.data[id as int] == g.data[id as int]);
        assert(b.data =~= h.data.update(id as int, t));
        assert(b.ctx =~= o.ctx);
        assert(b.ctx =~= h.ctx.drop_last());
        assert(b == (B { data: h.data.update(id as int, t), ctx: h.ctx.drop_last(), ..h }));
        tcs_grew(g, h, h.ctx);
        assert(t.deps =~= Set::empty().insert(inner));
        finished(h, b, k, lower::scope(k.e, o.ctx), id, inner, t);
    }
//@endfn
//@fn src/lower/mod.rs <RustBackend as Backend>::gen_variable
//@ opt ty Self::Id => usize
//@ spec
    requires inv(old(self)@), wt(CX::Var(var.inner.index, var.ty@), tcs(old(self)@, old(self)@.ctx)),
    ensures
        inv(final(self)@), kept(old(self)@, final(self)@), r < final(self)@.len(),
        means(final(self)@, final(self)@.ctx, CX::Var(var.inner.index, var.ty@), r),
//@ start
    broadcast use {tyvs_push, g_defs};
    let ghost o = self@;
    let ghost f = o.ctx[o.ctx.len() - 1 - var.inner.index];
    proof {
        assert(is_fix(o, f));
        fix_in(o, f);
        there(o, Part::Var(f));
    }
//@ end
    proof {
        let t = tyv(self.data@.last());
        assert(self@ == (B { data: o.data.push(t), ..o }).put(Part::Var(f), o.len() as usize));
        if grew(o, self@) { fix_grew(o, self@, f); }
        added(o, self@, Part::Var(f), t);
    }
//@endfn
//@fn src/lower/mod.rs <RustBackend as Backend>::emit_code
//@ opt ty Self::Id => usize
//@ opt ty Self::Code => TokenStream
//@ opt method unwrap_or_default => vx_or_zero
//@ opt addcheck
//@ spec
    requires inv(self@), id < self@.len(), self@.ctx.len() == 0,
    ensures
        exists|o: Seq<usize>, w: Str| emits(self@, id, r@, o, w),
        def_names(defs(r@)).no_duplicates(),
        lives(self@, id, id) ==> closed(r@),
//@ start
    broadcast use {only_one, usize_order};
    let ghost b = self@;
    let ghost mut order: Seq<usize> = seq![];
    assert(path(b, seq![id]));
//@ loop 0
    invariant
        inv(b), __self@ == b, id < b.len(),
        todo@.disjoint(completed@),
        order.to_set() =~= completed@, order.no_duplicates(),
        tokens@ == rests(b, order),
        todo@.contains(id) || completed@.contains(id),
        all_reach(b, id, todo@), all_reach(b, id, completed@),
        forall|i: usize, j: usize| completed@.contains(i) && #[trigger] b.data[i as int].deps.contains(j) ==> completed@.contains(j) || todo@.contains(j),
    decreases b.len() - completed@.len(),
//@ loopstart 0
    let ghost c0 = completed@;
    let ghost t0 = todo@;
    let ghost o0 = order;
    proof { sorted_is(t0); }
//@ loop 1
    invariant
        inv(b), __self@ == b,
        it1.seq() == sorted(t0), sorted(t0).no_duplicates(), sorted(t0).to_set() == t0,
        t0.disjoint(c0), completed@ =~= c0.union(t0),
        o0.to_set() =~= c0, o0.no_duplicates(),
        order == o0 + sorted(t0).take(it1.index@),
        tokens@ == rests(b, order),
        all_reach(b, id, t0), all_reach(b, id, todo@),
        todo@.disjoint(completed@),
        forall|i: usize, j: usize| c0.contains(i) && #[trigger] b.data[i as int].deps.contains(j) ==> completed@.contains(j),
        deps_done(b, sorted(t0), it1.index@, completed@, todo@),
//@ loopstart 1
    broadcast use rests_push;
    let ghost x = sorted(t0)[it1.index@];
    let ghost n = it1.index@;
    let ghost d0 = b.data[x as int].deps;
    proof {
        assert(sorted(t0).to_set().contains(x));
        sorted_is(d0);
        assert(sorted(t0).take(n + 1) =~= sorted(t0).take(n).push(x));
        assert(o0 + sorted(t0).take(n + 1) =~= order.push(x));
        order = order.push(x);
    }
    let ghost u0 = todo@;
//@ loop 2
    invariant
        it2.seq() == sorted(d0),
        fresh_in(__out2@, sorted(d0), it2.index@, completed@),
//@ loopstart 2
    broadcast use usize_order;
    assert(sorted(d0).contains(sorted(d0)[it2.index@]));
    let ghost v0 = __out2@;
//@ loopend 2
    proof {
        fresh_step(v0, __out2@, sorted(d0), it2.index@, completed@);
    }
//@ loopend 1
    proof {
        assert forall|i: usize| #[trigger] todo@.contains(i) implies i < b.len() && reachable(b, id, i) by {
            if !u0.contains(i) { reach_on(b, id, x, i); }
        }
    }
//@ loopend 0
    proof {
        assert(sorted(t0).take(sorted(t0).len() as int) =~= sorted(t0));
        joined(o0, sorted(t0));
        room_left(b.len() as nat, c0, completed@);
    }
//@ before let root_name
    let ghost code = tokens@;
//@ end
    proof {
        assert(emitted(b, id, order));
        let w = __r@.last()->Def_0.name;
        assert(__r@.len() == code.len() + 1);
        assert(__r@.drop_last() =~= code);
        assert(__r@.last() is Def);
        assert(__r@.last()->Def_0.tys =~= seq![b.data[id as int].name]);
        assert(__r@.last() == goal(b, id, w));
        assert(__r@ =~= code.push(goal(b, id, w)));
        assert(goal_name(b, w));
        assert(emits(b, id, __r@, order, w));
        names_once(b, id, __r@, order, w);
        if lives(b, id, id) { names_known(b, id, __r@, order, w); }
    }
//@endfn
}
impl TypedExpression {
//@fn src/chomp/typed/lower.rs <TypedExpression as GenerateCode>::gen
//@ opt ty B => RustBackend
//@ opt ty B::Id => usize
//@ opt dropgen B
//@ spec
    requires inv(old(backend)@), wt(cx(self.inner), tcs(old(backend)@, old(backend)@.ctx)),
    ensures
        inv(final(backend)@), kept(old(backend)@, final(backend)@), r < final(backend)@.len(),
        means(final(backend)@, final(backend)@.ctx, cx(self.inner), r),
    decreases self, 0int,
//@endfn
}
/// What type inference gives for a grammar without free variables (see the contract on TypeInfer in infer.rs).
pub open spec fn inferred(typed: TypedExpression) -> bool {
    exists|e: X, name: Option<Name>, span: Span| inf(e, name, span, seq![], 0) == Some(tn(typed))
}
/// What the command-line tool and the macro do with a typed grammar.
pub fn generate(typed: TypedExpression, name: Option<Name>, span: Span) -> (r: TokenStream)
    requires inferred(typed),
    ensures
        generated(typed, r@),
        prints_back(r@, cx(typed.inner)),
        recognizes(r@, cx(typed.inner)),
        terminates(r@),
        each_prints_back(r@),
        each_terminates(r@),
{
    let ghost g = cx(typed.inner);
    let mut backend = RustBackend::default();
    proof {
        let (e, name, span) = choose|e: X, name: Option<Name>, span: Span| inf(e, name, span, seq![], 0) == Some(tn(typed));
        inf_wt(e, name, span, seq![], 0, typed);
        inf_gd(e, name, span, seq![], 0, typed);
        assert(tcs(backend@, backend@.ctx) =~= seq![]);
    }
    let id = typed.gen(&mut backend);
    let ghost b = backend@;
    proof {
        wt_scoped(g, seq![]);
        assert(b.ctx =~= seq![]);
        assert(means(b, seq![], g, id) && scoped(g, 0) && all_in_reach(b, id, seq![]));
    }
    let r = backend.emit_code(name, span, id);
    proof {
        let (o, w) = choose|o: Seq<usize>, w: Str| emits(b, id, r@, o, w);
        goal_sound(b, id, r@, o, w, g);
        goal_complete(b, id, r@, o, w, g);
        goal_ends(b, id, r@, o, w, g);
        words_work(b, id, r@, o, w, g);
    }
    r
}
}
}
fn main() {}
