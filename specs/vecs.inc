// Verified stand-ins for iterator adaptors and for additions that may overflow.
verus! {
pub trait VxUsize: Sized {
    spec fn u(&self) -> usize;
    fn get(self) -> (r: usize)
        ensures r == self.u();
}
impl VxUsize for usize {
    open spec fn u(&self) -> usize { *self }
    fn get(self) -> usize { self }
}
impl VxUsize for &usize {
    open spec fn u(&self) -> usize { **self }
    fn get(self) -> usize { *self }
}

/// Addition that does not return when it overflows.
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_add<A: VxUsize, B: VxUsize>(a: A, b: B) -> (r: usize)
    ensures r == a.u() + b.u(),
{
    match a.get().checked_add(b.get()) {
        Some(x) => x,
        None => loop {},
    }
}

pub fn vx_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r@.len() == v@.len() <= usize::MAX, forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]),
{
    let ghost all = v@;
    let n = v.len();
    let mut out = Vec::new();
    let mut i: usize = 0;
    for x in it: v
        invariant it.seq() == all, i == it.index@, out@.len() == i, n == all.len(),
            forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == (j as usize, all[j]),
    {
        out.push((i, x));
        i += 1;
    }
    out
}

/// The pairs of two sequences, as far as the shorter one goes.
pub open spec fn zip2<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}

pub fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@ == zip2(a@, b@),
{
    let ghost xa = a@;
    let ghost xb = b@;
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut a = vx_rev(a);
    let mut b = vx_rev(b);
    let mut out: Vec<(A, B)> = Vec::new();
    let ghost ra = a@;
    let ghost rb = b@;
    while out.len() < n
        invariant
            n == (if xa.len() < xb.len() { xa.len() } else { xb.len() }),
            ra == xa.reverse(), rb == xb.reverse(),
            out@.len() <= n,
            a@ == ra.take(ra.len() - out@.len()), b@ == rb.take(rb.len() - out@.len()),
            forall|j: int| 0 <= j < out@.len() ==> #[trigger] out@[j] == (xa[j], xb[j]),
        decreases n - out@.len(),
    {
        let x = a.pop().unwrap();
        let y = b.pop().unwrap();
        out.push((x, y));
        assert(a@ =~= ra.take(ra.len() - out@.len()));
        assert(b@ =~= rb.take(rb.len() - out@.len()));
    }
    assert(out@ =~= zip2(xa, xb));
    out
}

pub fn vx_rev<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@.reverse(),
{
    let mut v = v;
    let ghost all = v@;
    let mut out = Vec::new();
    while v.len() > 0
        invariant v@ == all.take(v@.len() as int), out@.len() + v@.len() == all.len(),
            out@ == all.reverse().take(out@.len() as int),
        decreases v@.len(),
    {
        let x = v.pop().unwrap();
        out.push(x);
        assert(v@ =~= all.take(v@.len() as int));
        assert(out@ =~= all.reverse().take(out@.len() as int));
    }
    assert(out@ =~= all.reverse());
    out
}

pub fn vx_once<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x],
{
    let mut v = Vec::new();
    v.push(x);
    assert(v@ =~= seq![x]);
    v
}

pub fn vx_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>)
    ensures r@ == a@ + b@,
{
    let ghost xa = a@;
    let ghost xb = b@;
    let mut a = a;
    for x in it: b
        invariant it.seq() == xb, a@ == xa + xb.take(it.index@),
    {
        a.push(x);
        assert(xa + xb.take(it.index@ + 1) =~= (xa + xb.take(it.index@)).push(x));
    }
    assert(xb.take(xb.len() as int) =~= xb);
    a
}

/// The first item of a sequence.
pub fn vx_first<T>(v: Vec<T>) -> (r: Option<T>)
    ensures r == (if v@.len() == 0 { None } else { Some(v@[0]) }),
{
    let mut v = v;
    if v.len() == 0 { None } else { Some(v.remove(0)) }
}

/// Takes the first item of what is left.
pub fn vx_next<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.skip(1),
{
    if v.len() == 0 {
        None
    } else {
        let ghost s = v@;
        let x = v.remove(0);
        assert(v@ =~= s.skip(1));
        Some(x)
    }
}

pub fn vx_peek<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures (r is None) == (v@.len() == 0), r is Some ==> *r->0 == v@[0],
{
    if v.len() == 0 { None } else { Some(&v[0]) }
}

/// resize_with where growing is out of the question.
pub fn vx_shrink<T>(v: &mut Vec<T>, n: usize)
    requires n <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(n as int),
{
    let ghost s = v@;
    while v.len() > n
        invariant n <= v@.len() <= s.len(), v@ == s.take(v@.len() as int),
        decreases v@.len(),
    {
        let _ = v.pop();
        assert(v@ =~= s.take(v@.len() as int));
    }
}

/// The values before the first error, or that error.
pub open spec fn collected<T, E>(s: Seq<Result<T, E>>) -> Result<Seq<T>, E>
    decreases s.len(),
{
    if s.len() == 0 {
        Ok(seq![])
    } else {
        match collected(s.drop_last()) {
            Ok(v) => match s.last() { Ok(x) => Ok(v.push(x)), Err(e) => Err(e) },
            Err(e) => Err(e),
        }
    }
}

pub fn vx_collect_res<T, E>(v: Vec<Result<T, E>>) -> (r: Result<Vec<T>, E>)
    ensures
        match r { Ok(x) => collected(v@) == Ok::<Seq<T>, E>(x@), Err(e) => collected(v@) == Err::<Seq<T>, E>(e) },
{
    let ghost all = v@;
    let mut out: Vec<T> = Vec::new();
    let mut err: Option<E> = None;
    for x in it: v
        invariant
            it.seq() == all,
            err is None ==> collected(all.take(it.index@)) == Ok::<Seq<T>, E>(out@),
            err is Some ==> collected(all.take(it.index@)) == Err::<Seq<T>, E>(err->0),
    {
        assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@));
        if err.is_none() {
            match x {
                Ok(y) => { out.push(y); }
                Err(e) => { err = Some(e); }
            }
        }
    }
    assert(all.take(all.len() as int) =~= all);
    match err { None => Ok(out), Some(e) => Err(e) }
}

pub fn vx_refs<'a, T>(v: &'a [T]) -> (r: Vec<&'a T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i],
{
    let mut out: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == v@[j],
        decreases v@.len() - i,
    {
        out.push(&v[i]);
        i += 1;
    }
    out
}

pub fn vx_collect<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@,
{
    v
}

pub fn vx_box_mut<'a, T>(b: &'a mut Box<T>) -> (r: &'a mut T)
    ensures *r == **old(b), **final(b) == *final(r),
{
    &mut **b
}

pub fn vx_box_ref<'a, T>(b: &'a Box<T>) -> (r: &'a T)
    ensures *r == **b,
{
    &**b
}
}
