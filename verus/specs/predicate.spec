// Predicates: what a combined predicate answers in terms of what its parts answer.
//@ include inc/funref
//@ raw
use std::rc::Rc;
//@ type datatypes/wrapper/predicate.rs Predicate #[verifier::reject_recursive_types(A)]
//@ raw
impl<A> Predicate<A> {
    /// it may be asked about anything
    pub open spec fn total(&self) -> bool { forall|x: &A| #[trigger] self.func.rq(x) }
    /// it may answer `b` about `x`
    pub open spec fn says(&self, x: &A, b: bool) -> bool { self.func.en(x, b) }
    /// about `x` it has one answer only
    pub open spec fn sure(&self, x: &A) -> bool { !(self.says(x, true) && self.says(x, false)) }
}
/// `r` answers as the disjunction of `p` and `q` does
pub open spec fn disjunction<A>(r: Predicate<A>, p: Predicate<A>, q: Predicate<A>) -> bool {
    forall|x: &A, b: bool| #[trigger] r.says(x, b) ==> if b { p.says(x, true) || q.says(x, true) } else { p.says(x, false) && q.says(x, false) }
}
pub open spec fn conjunction<A>(r: Predicate<A>, p: Predicate<A>, q: Predicate<A>) -> bool {
    forall|x: &A, b: bool| #[trigger] r.says(x, b) ==> if b { p.says(x, true) && q.says(x, true) } else { p.says(x, false) || q.says(x, false) }
}
pub open spec fn difference<A>(r: Predicate<A>, p: Predicate<A>, q: Predicate<A>) -> bool {
    forall|x: &A, b: bool| #[trigger] r.says(x, b) ==> if b { p.says(x, true) && q.says(x, false) } else { p.says(x, false) || q.says(x, true) }
}
pub open spec fn negation<A>(r: Predicate<A>, p: Predicate<A>) -> bool {
    forall|x: &A, b: bool| #[trigger] r.says(x, b) ==> p.says(x, !b)
}
//@ fn datatypes/wrapper/predicate.rs Predicate::new props C16
    requires forall|x: &A| #[trigger] f.requires((x,)),
    ensures r.total(), forall|x: &A, b: bool| #[trigger] r.says(x, b) ==> f.ensures((x,), b),
//@ fn datatypes/wrapper/predicate.rs Predicate::contains props C16
    requires self.total(),
    ensures self.says(a, r),
//@ fn datatypes/wrapper/predicate.rs Predicate::union props C16
    requires self.total(), other.total(),
    ensures r.total(), disjunction(r, *self, *other),
//@ closure 0 |a: &A| -> (b: bool)
    requires f1.rq(a), f2.rq(a),
    ensures if b { f1.en(a, true) || f2.en(a, true) } else { f1.en(a, false) && f2.en(a, false) },
//@ fn datatypes/wrapper/predicate.rs Predicate::intersection props C16
    requires self.total(), other.total(),
    ensures r.total(), conjunction(r, *self, *other),
//@ closure 0 |a: &A| -> (b: bool)
    requires f1.rq(a), f2.rq(a),
    ensures if b { f1.en(a, true) && f2.en(a, true) } else { f1.en(a, false) || f2.en(a, false) },
//@ fn datatypes/wrapper/predicate.rs Predicate::diff props C16
    requires self.total(), remove.total(),
    ensures r.total(), difference(r, *self, *remove),
//@ closure 0 |a: &A| -> (b: bool)
    requires f1.rq(a), f2.rq(a),
    ensures if b { f1.en(a, true) && f2.en(a, false) } else { f1.en(a, false) || f2.en(a, true) },
//@ fn datatypes/wrapper/predicate.rs Predicate::negate props C16
    requires self.total(),
    ensures r.total(), negation(r, *self),
//@ closure 0 |a: &A| -> (b: bool)
    requires f.rq(a),
    ensures f.en(a, !b),
//@ fn datatypes/wrapper/predicate.rs Predicate[BitOr]::bitor props C16
    requires self.total(), rhs.total(),
    ensures r.total(), disjunction(r, self, rhs),
//@ fn datatypes/wrapper/predicate.rs Predicate[BitAnd]::bitand props C16
    requires self.total(), rhs.total(),
    ensures r.total(), conjunction(r, self, rhs),
//@ fn datatypes/wrapper/predicate.rs Predicate[Sub]::sub props C16
    requires self.total(), rhs.total(),
    ensures r.total(), difference(r, self, rhs),
//@ fn datatypes/wrapper/predicate.rs Predicate[Not]::not props C16
    requires self.total(),
    ensures r.total(), negation(r, self),
//@ fn datatypes/wrapper/predicate.rs Predicate[Semigroup]::combine props C16
    requires self.total(), other.total(),
    ensures r.total(), disjunction(r, *self, *other),
//@ fn datatypes/wrapper/predicate.rs Predicate[Semigroup]::combine_owned props C16
    requires self.total(), other.total(),
    ensures r.total(), disjunction(r, self, other),
//@ closure 0 |a: &A| -> (b: bool)
    requires f1.rq(a), f2.rq(a),
    ensures if b { f1.en(a, true) || f2.en(a, true) } else { f1.en(a, false) && f2.en(a, false) },
//@ fn datatypes/wrapper/predicate.rs Predicate[Monoid]::empty props C16
    ensures r.total(), forall|x: &A, b: bool| #[trigger] r.says(x, b) ==> !b,
//@ closure 0 |x: &A| -> (b: bool)
    ensures !b,
//@ raw
/// The laws, over the contracts above: two predicates built in two ways answer alike.
pub fn law_de_morgan<A: 'static>(p: &Predicate<A>, q: &Predicate<A>, x: &A) -> (r: (bool, bool))
    requires p.total(), q.total(), p.sure(x), q.sure(x),
    ensures r.0 == r.1,
{
    let l = p.union(q).negate();
    let m = p.negate().intersection(&q.negate());
    (l.contains(x), m.contains(x))
}
pub fn law_diff<A: 'static>(p: &Predicate<A>, q: &Predicate<A>, x: &A) -> (r: (bool, bool))
    requires p.total(), q.total(), p.sure(x), q.sure(x),
    ensures r.0 == r.1,
{
    (p.diff(q).contains(x), p.intersection(&q.negate()).contains(x))
}
pub fn law_double_negation<A: 'static>(p: &Predicate<A>, x: &A) -> (r: (bool, bool))
    requires p.total(), p.sure(x),
    ensures r.0 == r.1,
{
    (p.negate().negate().contains(x), p.contains(x))
}
pub fn law_distributes<A: 'static>(p: &Predicate<A>, q: &Predicate<A>, s: &Predicate<A>, x: &A) -> (r: (bool, bool))
    requires p.total(), q.total(), s.total(), p.sure(x), q.sure(x), s.sure(x),
    ensures r.0 == r.1,
{
    (p.intersection(&q.union(s)).contains(x), p.intersection(q).union(&p.intersection(s)).contains(x))
}
pub fn law_associative<A: 'static>(p: &Predicate<A>, q: &Predicate<A>, s: &Predicate<A>, x: &A) -> (r: (bool, bool))
    requires p.total(), q.total(), s.total(), p.sure(x), q.sure(x), s.sure(x),
    ensures r.0 == r.1,
{
    (p.combine(&q.combine(s)).contains(x), p.combine(q).combine(s).contains(x))
}
pub fn law_identity<A: 'static>(p: &Predicate<A>, x: &A) -> (r: (bool, bool, bool))
    requires p.total(), p.sure(x),
    ensures r.0 == r.2, r.1 == r.2,
{
    (p.combine(&Predicate::empty()).contains(x), Predicate::<A>::empty().combine(p).contains(x), p.contains(x))
}
