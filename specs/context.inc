/// The innermost of the points at which input is known to have been consumed, as a binder depth.
pub open spec fn guard_depth(points: Seq<usize>) -> int {
    if points.len() == 0 { 0 } else { points.last() as int }
}

pub fn vx_nth_back<T>(v: &Vec<T>, n: usize) -> (r: Option<&T>)
    ensures
        n < v@.len() ==> r == Some(&v@[v@.len() - 1 - n]),
        n >= v@.len() ==> r is None,
{
    if n < v.len() { Some(&v[v.len() - 1 - n]) } else { None }
}

impl Context {
//@fn src/chomp/typed/context.rs Context::depth
//@ spec
    ensures r == self.vars@.len(),
//@endfn
//@fn src/chomp/typed/context.rs Context::get_variable_type
//@ opt addcheck
//@ spec
    ensures
        match r {
            Ok(ty) => var.index < self.vars@.len() && *ty == self.vars@[self.vars@.len() - 1 - var.index]
                && self.vars@.len() - 1 - var.index < guard_depth(self.unguard_points@),
            Err(GetVariableError::FreeVariable) => var.index >= self.vars@.len(),
            Err(GetVariableError::GuardedVariable) => var.index < self.vars@.len()
                && self.vars@.len() - 1 - var.index >= guard_depth(self.unguard_points@),
        },
//@endfn
//@fn src/chomp/typed/context.rs Context::with_unguard
//@ spec
    requires
        forall|p: &mut Self| p.vars@ == old(self).vars@ && p.unguard_points@ == old(self).unguard_points@.push(old(self).vars@.len() as usize)
            ==> #[trigger] f.requires((p,)),
    ensures
        exists|p: &mut Self| p.vars@ == old(self).vars@ && p.unguard_points@ == old(self).unguard_points@.push(old(self).vars@.len() as usize)
            && #[trigger] f.ensures((p,), r) && final(self).vars@ == final(p).vars@
            && (final(p).unguard_points@.len() > 0 ==> final(self).unguard_points@ == final(p).unguard_points@.drop_last()),
//@endfn
//@fn src/chomp/typed/context.rs Context::with_variable_type
//@ spec
    requires
        forall|p: &mut Self| p.vars@ == old(self).vars@.push(ty) && p.unguard_points@ == old(self).unguard_points@
            ==> #[trigger] f.requires((p,)),
    ensures
        exists|p: &mut Self| p.vars@ == old(self).vars@.push(ty) && p.unguard_points@ == old(self).unguard_points@
            && #[trigger] f.ensures((p,), r) && final(self).unguard_points@ == final(p).unguard_points@
            && (final(p).vars@.len() > 0 ==> final(self).vars@ == final(p).vars@.drop_last()),
//@endfn
}
