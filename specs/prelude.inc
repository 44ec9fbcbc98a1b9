#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_braces, unused_parens, unused_assignments, non_snake_case, non_camel_case_types, unreachable_code, unreachable_patterns, unused_labels)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub fn vx_assert(b: bool)
    requires b,
{
}

#[verifier::exec_allows_no_decreases_clause]
pub fn vx_unreachable() -> !
    requires false,
{
    loop {
    }
}

/// A panic that the code may reach: it does not return.
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_diverge() -> !
    ensures false,
{
    loop {
    }
}

pub fn vx_string_from(s: &str) -> (r: String)
    ensures r@ == s@,
{
    s.to_string()
}
}
//@set path String::from => vx_string_from
