pub mod mem {
use vstd::prelude::*;
verus! {
pub fn replace<T>(dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src,
{
    let mut src = src;
    core::mem::swap(dest, &mut src);
    src
}
}
}
