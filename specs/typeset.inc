//@set boolops
verus! {
//@item src/chomp/set.rs FirstSet
//@item src/chomp/set.rs FlastSet
//@item src/chomp/typed/mod.rs Type

/// What a type says: nullability, first characters, characters that may follow a word.
#[verifier::ext_equal]
pub ghost struct Ty {
    pub nullable: bool,
    pub first: Set<char>,
    pub flast: Set<char>,
}

impl View for FirstSet {
    type V = Set<char>;
    open spec fn view(&self) -> Set<char> { self.inner@ }
}

impl View for FlastSet {
    type V = Set<char>;
    open spec fn view(&self) -> Set<char> { self.inner@ }
}

impl View for Type {
    type V = Ty;
    open spec fn view(&self) -> Ty { Ty { nullable: self.nullable, first: self.first_set@, flast: self.flast_set@ } }
}

pub open spec fn ty_bot() -> Ty {
    Ty { nullable: false, first: Set::empty(), flast: Set::empty() }
}

pub open spec fn ty_eps() -> Ty {
    Ty { nullable: true, first: Set::empty(), flast: Set::empty() }
}

pub open spec fn ty_str(s: Seq<char>) -> Ty {
    Ty { nullable: s.len() == 0, first: if s.len() > 0 { set![s[0]] } else { Set::empty() }, flast: Set::empty() }
}

pub open spec fn ty_cat(a: Ty, b: Ty) -> Ty {
    Ty {
        nullable: a.nullable && b.nullable,
        first: if a.nullable { a.first.union(b.first) } else { a.first },
        flast: if b.nullable { a.flast.union(b.first).union(b.flast) } else { b.flast },
    }
}

pub open spec fn ty_alt(a: Ty, b: Ty) -> Ty {
    Ty { nullable: a.nullable || b.nullable, first: a.first.union(b.first), flast: a.flast.union(b.flast) }
}

/// The side condition of concatenation.
pub open spec fn cat_ok(a: Ty, b: Ty) -> bool {
    !a.nullable && a.flast.disjoint(b.first)
}

/// The side condition of alternatives.
pub open spec fn alt_ok(a: Ty, b: Ty) -> bool {
    !(a.nullable && b.nullable) && a.first.disjoint(b.first)
}

impl Clone for FirstSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

impl Clone for FlastSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

impl Clone for Type {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

impl FirstSet {
//@fn src/chomp/set.rs FirstSet::new
//@ spec
    ensures r@ == Set::<char>::empty(),
//@endfn
//@fn src/chomp/set.rs FirstSet::of_str
//@ spec
    ensures r@ == ty_str(s@).first,
//@ start
    broadcast use char_order;
//@endfn
//@fn src/chomp/set.rs FirstSet::is_empty
//@ spec
    ensures r == (self@ == Set::<char>::empty()),
//@endfn
//@fn src/chomp/set.rs FirstSet::union
//@ spec
    ensures final(self)@ == old(self)@.union(other@),
//@ start
    broadcast use char_order;
//@endfn
//@fn src/chomp/set.rs FirstSet::disjoint
//@ spec
    ensures r == self@.disjoint(other@),
//@ start
    broadcast use char_order;
//@endfn
}

impl FlastSet {
//@fn src/chomp/set.rs FlastSet::new
//@ spec
    ensures r@ == Set::<char>::empty(),
//@endfn
//@fn src/chomp/set.rs FlastSet::is_empty
//@ spec
    ensures r == (self@ == Set::<char>::empty()),
//@endfn
//@fn src/chomp/set.rs FlastSet::union_first
//@ spec
    ensures final(self)@ == old(self)@.union(other@),
//@ start
    broadcast use char_order;
//@endfn
//@fn src/chomp/set.rs FlastSet::union
//@ spec
    ensures final(self)@ == old(self)@.union(other@),
//@ start
    broadcast use char_order;
//@endfn
//@fn src/chomp/set.rs FlastSet::disjoint
//@ spec
    ensures r == self@.disjoint(other@),
//@ start
    broadcast use char_order;
//@endfn
}

impl Default for FirstSet {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r@ == Set::<char>::empty(),
    { unimplemented!() }
}

impl Default for FlastSet {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r@ == Set::<char>::empty(),
    { unimplemented!() }
}

impl Default for Type {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r@ == ty_bot(),
    { unimplemented!() }
}

impl Type {
//@fn src/chomp/typed/mod.rs Type::new
//@ spec
    ensures r@ == (Ty { nullable, first: first_set@, flast: flast_set@ }),
//@endfn
//@fn src/chomp/typed/mod.rs Type::of_str
//@ spec
    ensures r@ == ty_str(s@),
//@endfn
//@fn src/chomp/typed/mod.rs Type::nullable
//@ spec
    ensures r == self@.nullable,
//@endfn
//@fn src/chomp/typed/mod.rs Type::first_set
//@ spec
    ensures r@ == self@.first,
//@endfn
//@fn src/chomp/typed/mod.rs Type::flast_set
//@ spec
    ensures r@ == self@.flast,
//@endfn
//@fn src/chomp/typed/mod.rs Type::cat
//@ spec
    ensures final(self)@ == ty_cat(old(self)@, other@),
//@ end
    assert(final(self)@ =~= ty_cat(old(self)@, other@));
//@endfn
//@fn src/chomp/typed/mod.rs Type::alt
//@ spec
    ensures final(self)@ == ty_alt(old(self)@, other@),
//@ end
    assert(final(self)@ =~= ty_alt(old(self)@, other@));
//@endfn
}
}
