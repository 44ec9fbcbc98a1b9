// Assumed contracts of std::collections::BTreeSet that vstd does not have.
verus! {
pub assume_specification<T, A: Allocator + Clone>[BTreeSet::<T, A>::append](a: &mut BTreeSet<T, A>, b: &mut BTreeSet<T, A>)
    where T: Ord, A: Clone
    ensures
        key_obeys_cmp_spec::<T>() ==> final(a)@ == old(a)@.union(old(b)@) && final(b)@ == Set::<T>::empty(),
;

#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(T)]
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIntersection<'a, T: 'a, A: Allocator + Clone>(btree_set::Intersection<'a, T, A>);

pub uninterp spec fn inter_rest<'a, T, A: Allocator + Clone>(i: btree_set::Intersection<'a, T, A>) -> Seq<&'a T>;

pub assume_specification<'a, T: Ord, A: Allocator + Clone>[BTreeSet::<T, A>::intersection](a: &'a BTreeSet<T, A>, b: &'a BTreeSet<T, A>) -> (r: btree_set::Intersection<'a, T, A>)
    ensures
        key_obeys_cmp_spec::<T>() ==> (forall|x: T| #![trigger a@.contains(x)] #![trigger b@.contains(x)] inter_rest(r).contains(&x) <==> a@.contains(x) && b@.contains(x)),
        key_obeys_cmp_spec::<T>() ==> (forall|i: int| 0 <= i < inter_rest(r).len() ==> a@.contains(*#[trigger] inter_rest(r)[i]) && b@.contains(*inter_rest(r)[i])),
;

pub assume_specification<'a, T: Ord, A: Allocator + Clone>[<btree_set::Intersection<'a, T, A> as Iterator>::next](a: &mut btree_set::Intersection<'a, T, A>) -> (r: Option<&'a T>)
    ensures
        inter_rest(*old(a)).len() == 0 ==> r is None && *final(a) == *old(a),
        inter_rest(*old(a)).len() > 0 ==> r == Some(inter_rest(*old(a))[0]) && inter_rest(*final(a)) == inter_rest(*old(a)).skip(1),
;

pub assume_specification<T, A: Allocator + Clone>[BTreeSet::<T, A>::is_disjoint](a: &BTreeSet<T, A>, b: &BTreeSet<T, A>) -> (r: bool)
    where T: Ord
    ensures key_obeys_cmp_spec::<T>() ==> r == a@.disjoint(b@),
;

pub assume_specification<T, A: Allocator + Clone>[BTreeSet::<T, A>::is_subset](a: &BTreeSet<T, A>, b: &BTreeSet<T, A>) -> (r: bool)
    where T: Ord
    ensures key_obeys_cmp_spec::<T>() ==> r == a@.subset_of(b@),
;

/// The order of characters is a total order, as vstd's contracts of BTreeSet require.
#[verifier::external_body]
pub broadcast proof fn char_order()
    ensures #[trigger] key_obeys_cmp_spec::<char>(),
{
}
}
