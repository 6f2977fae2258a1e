//@ method iter iter_
//@ method into_iter into_iter_
//@ method extend extend_
//@ method fold fold_reach_
//@ method as_ref opt_ref_
//@ bound IntoIterator IntoIt
//@ type datatypes/wrapper/first.rs First
//@ type datatypes/wrapper/last.rs Last
//@ type datatypes/wrapper/max.rs Max
//@ type datatypes/wrapper/min.rs Min
//@ type datatypes/wrapper/sum.rs Sum
//@ type datatypes/wrapper/product.rs Product
//@ type datatypes/id.rs Id
//@ type traits/semigroup.rs SemigroupExtAdapter
//@ raw
broadcast use {prelude_lemmas, prelude_len};
use core::cmp::Ordering;
use core::ops::{Add, Mul};
use vstd::std_specs::ops::{AddSpec, MulSpec};
use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec};
//@ include inc/monoid
/// `n` copies of `m` combined, for `n` of at least one.
pub open spec fn copies<T: Semigroup>(m: T::M, n: nat) -> T::M
    decreases n
{ if n <= 1 { m } else { T::op(copies::<T>(m, (n - 1) as nat), m) } }
pub open spec fn copiable<T: Semigroup>(m: T::M, n: nat) -> bool
{ forall|i: int| 1 <= i < n ==> T::can(#[trigger] copies::<T>(m, i as nat), m) }
pub proof fn lemma_fold_combined<T: Semigroup, F: Fn(T, T) -> T>(f: F, init: T, s: Seq<T>, a: Seq<T>)
    requires
        forall|x: T, y: T, o: T| #[trigger] f.ensures((x, y), o) ==> T::lawful() ==> o.m() == T::op(x.m(), y.m()),
        fold_steps(f, init, s, a), T::lawful(),
    ensures a.last().m() == combined(init.m(), s),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = a.drop_last();
        let q = s.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies f.ensures((p[i], #[trigger] q[i]), p[i + 1]) by { assert(q[i] == s[i]); }
        lemma_fold_combined(f, init, q, p);
        assert(f.ensures((a[s.len() - 1], s[s.len() - 1]), a[s.len() - 1 + 1]));
    }
}
pub broadcast proof fn lemma_copies<T: Semigroup>(x: T, n: nat)
    requires n >= 1,
    ensures #[trigger] copies::<T>(x.m(), n) == combined(x.m(), Seq::new((n - 1) as nat, |i: int| x)),
    decreases n,
{
    if n > 1 {
        lemma_copies(x, (n - 1) as nat);
        assert(Seq::new((n - 1) as nat, |i: int| x).drop_last() =~= Seq::new((n - 2) as nat, |i: int| x));
    }
}
/// The order of `T` is a total one, and equal values are the same.
pub open spec fn total_order<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec()
    &&& forall|a: T| #[trigger] a.cmp_spec(&a) == Ordering::Equal
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b)) == Ordering::Equal ==> a == b
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b)) == Ordering::Less <==> b.cmp_spec(&a) == Ordering::Greater
    &&& forall|a: T, b: T, c: T| (#[trigger] a.cmp_spec(&b)) == Ordering::Less && (#[trigger] b.cmp_spec(&c)) == Ordering::Less ==> a.cmp_spec(&c) == Ordering::Less
}
/// `d` is the one default of `T`.
pub open spec fn default_is<T: Default>(d: T) -> bool { forall|x: T| #[trigger] call_ensures(T::default, (), x) ==> x == d }
pub open spec fn one_is<T: From<u8>>(d: T) -> bool { forall|x: T| #[trigger] call_ensures(<T as From<u8>>::from, (1u8,), x) ==> x == d }
pub trait OptRef<X> {
    fn opt_ref_(&self) -> Option<&X>;
}
impl<X> OptRef<X> for Option<X> {
    fn opt_ref_(&self) -> (r: Option<&X>)
        ensures match self { Some(x) => r == Some(x), None => r is None }
    { match self { Some(x) => Some(x), None => None } }
}
impl<X: Clone> Clone for First<X> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl<X: Clone> Clone for Last<X> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

//@ open traits/semigroup.rs Vec[Semigroup]
    type M = Seq<T>;
    open spec fn m(&self) -> Seq<T> { self@ }
    open spec fn op(a: Seq<T>, b: Seq<T>) -> Seq<T> { a + b }
    open spec fn can(a: Seq<T>, b: Seq<T>) -> bool { true }
    open spec fn lawful() -> bool { true }
    proof fn associative(a: Seq<T>, b: Seq<T>, c: Seq<T>) { assert(a + b + c =~= a + (b + c)); }

//@ fn traits/semigroup.rs Vec[Semigroup]::combine inside props C05

//@ fn traits/semigroup.rs Vec[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open traits/monoid.rs Vec[Monoid]
    open spec fn e() -> Seq<T> { Seq::empty() }
    open spec fn neutral() -> bool { true }
    proof fn identity(a: Seq<T>) { assert(Seq::empty() + a =~= a); assert(a + Seq::empty() =~= a); }

//@ fn traits/monoid.rs Vec[Monoid]::empty inside props C05

//@ raw
}

//@ open traits/semigroup.rs (A,B)[Semigroup]
    type M = (A::M, B::M);
    open spec fn m(&self) -> (A::M, B::M) { (self.0.m(), self.1.m()) }
    open spec fn op(a: (A::M, B::M), b: (A::M, B::M)) -> (A::M, B::M) { (A::op(a.0, b.0), B::op(a.1, b.1)) }
    open spec fn can(a: (A::M, B::M), b: (A::M, B::M)) -> bool { A::can(a.0, b.0) && B::can(a.1, b.1) }
    open spec fn lawful() -> bool { A::lawful() && B::lawful() }
    proof fn associative(a: (A::M, B::M), b: (A::M, B::M), c: (A::M, B::M)) { A::associative(a.0, b.0, c.0); B::associative(a.1, b.1, c.1); }

//@ fn traits/semigroup.rs (A,B)[Semigroup]::combine inside props C05

//@ fn traits/semigroup.rs (A,B)[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open traits/semigroup.rs (A,B,C)[Semigroup]
    type M = (A::M, B::M, C::M);
    open spec fn m(&self) -> (A::M, B::M, C::M) { (self.0.m(), self.1.m(), self.2.m()) }
    open spec fn op(a: (A::M, B::M, C::M), b: (A::M, B::M, C::M)) -> (A::M, B::M, C::M) { (A::op(a.0, b.0), B::op(a.1, b.1), C::op(a.2, b.2)) }
    open spec fn can(a: (A::M, B::M, C::M), b: (A::M, B::M, C::M)) -> bool { A::can(a.0, b.0) && B::can(a.1, b.1) && C::can(a.2, b.2) }
    open spec fn lawful() -> bool { A::lawful() && B::lawful() && C::lawful() }
    proof fn associative(a: (A::M, B::M, C::M), b: (A::M, B::M, C::M), c: (A::M, B::M, C::M)) { A::associative(a.0, b.0, c.0); B::associative(a.1, b.1, c.1); C::associative(a.2, b.2, c.2); }

//@ fn traits/semigroup.rs (A,B,C)[Semigroup]::combine inside props C05

//@ fn traits/semigroup.rs (A,B,C)[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open traits/semigroup.rs (A,B,C,D)[Semigroup]
    type M = (A::M, B::M, C::M, D::M);
    open spec fn m(&self) -> (A::M, B::M, C::M, D::M) { (self.0.m(), self.1.m(), self.2.m(), self.3.m()) }
    open spec fn op(a: (A::M, B::M, C::M, D::M), b: (A::M, B::M, C::M, D::M)) -> (A::M, B::M, C::M, D::M) { (A::op(a.0, b.0), B::op(a.1, b.1), C::op(a.2, b.2), D::op(a.3, b.3)) }
    open spec fn can(a: (A::M, B::M, C::M, D::M), b: (A::M, B::M, C::M, D::M)) -> bool { A::can(a.0, b.0) && B::can(a.1, b.1) && C::can(a.2, b.2) && D::can(a.3, b.3) }
    open spec fn lawful() -> bool { A::lawful() && B::lawful() && C::lawful() && D::lawful() }
    proof fn associative(a: (A::M, B::M, C::M, D::M), b: (A::M, B::M, C::M, D::M), c: (A::M, B::M, C::M, D::M)) { A::associative(a.0, b.0, c.0); B::associative(a.1, b.1, c.1); C::associative(a.2, b.2, c.2); D::associative(a.3, b.3, c.3); }

//@ fn traits/semigroup.rs (A,B,C,D)[Semigroup]::combine inside props C05

//@ fn traits/semigroup.rs (A,B,C,D)[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open traits/semigroup.rs Option[Semigroup]
    type M = Option<T::M>;
    open spec fn m(&self) -> Option<T::M> { match self { Some(x) => Some(x.m()), None => None } }
    open spec fn op(a: Option<T::M>, b: Option<T::M>) -> Option<T::M> {
        match (a, b) { (Some(a), Some(b)) => Some(T::op(a, b)), (Some(a), None) => Some(a), (None, b) => b }
    }
    open spec fn can(a: Option<T::M>, b: Option<T::M>) -> bool { a is Some && b is Some ==> T::can(a->0, b->0) }
    open spec fn lawful() -> bool { T::lawful() }
    proof fn associative(a: Option<T::M>, b: Option<T::M>, c: Option<T::M>) {
        if a is Some && b is Some && c is Some { T::associative(a->0, b->0, c->0); }
    }

//@ fn traits/semigroup.rs Option[Semigroup]::combine inside props C05

//@ fn traits/semigroup.rs Option[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/wrapper/first.rs First[Semigroup]
    type M = Option<T>;
    open spec fn m(&self) -> Option<T> { self.0 }
    open spec fn op(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
    open spec fn can(a: Option<T>, b: Option<T>) -> bool { true }
    open spec fn lawful() -> bool { true }
    proof fn associative(a: Option<T>, b: Option<T>, c: Option<T>) {}

//@ fn datatypes/wrapper/first.rs First[Semigroup]::combine inside props C05

//@ fn datatypes/wrapper/first.rs First[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/wrapper/first.rs First[Monoid]
    open spec fn e() -> Option<T> { None }
    open spec fn neutral() -> bool { true }
    proof fn identity(a: Option<T>) {}

//@ fn datatypes/wrapper/first.rs First[Monoid]::empty inside props C05

//@ raw
}

//@ fn datatypes/wrapper/first.rs First::unwrap props C05
    requires self.0 is Some,
    ensures r == self.0->0,
//@ fn datatypes/wrapper/first.rs First::unwrap_or props C05
    ensures r == (if self.0 is Some { self.0->0 } else { default }),

//@ open datatypes/wrapper/last.rs Last[Semigroup]
    type M = Option<T>;
    open spec fn m(&self) -> Option<T> { self.0 }
    open spec fn op(a: Option<T>, b: Option<T>) -> Option<T> { if b is Some { b } else { a } }
    open spec fn can(a: Option<T>, b: Option<T>) -> bool { true }
    open spec fn lawful() -> bool { true }
    proof fn associative(a: Option<T>, b: Option<T>, c: Option<T>) {}

//@ fn datatypes/wrapper/last.rs Last[Semigroup]::combine inside props C05

//@ fn datatypes/wrapper/last.rs Last[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/wrapper/last.rs Last[Monoid]
    open spec fn e() -> Option<T> { None }
    open spec fn neutral() -> bool { true }
    proof fn identity(a: Option<T>) {}

//@ fn datatypes/wrapper/last.rs Last[Monoid]::empty inside props C05

//@ raw
}

//@ fn datatypes/wrapper/last.rs Last::unwrap props C05
    requires self.0 is Some,
    ensures r == self.0->0,
//@ fn datatypes/wrapper/last.rs Last::unwrap_or props C05
    ensures r == (if self.0 is Some { self.0->0 } else { default }),

//@ open datatypes/wrapper/max.rs Max[Semigroup]
    type M = T;
    open spec fn m(&self) -> T { self.0 }
    open spec fn op(a: T, b: T) -> T { if a.cmp_spec(&b) == Ordering::Less { b } else { a } }
    open spec fn can(a: T, b: T) -> bool { true }
    open spec fn lawful() -> bool { total_order::<T>() }
    proof fn associative(a: T, b: T, c: T) {
        assert(a.cmp_spec(&b) == Ordering::Less || a.cmp_spec(&b) == Ordering::Equal || a.cmp_spec(&b) == Ordering::Greater);
        assert(b.cmp_spec(&c) == Ordering::Less || b.cmp_spec(&c) == Ordering::Equal || b.cmp_spec(&c) == Ordering::Greater);
        assert(a.cmp_spec(&c) == Ordering::Less || a.cmp_spec(&c) == Ordering::Equal || a.cmp_spec(&c) == Ordering::Greater);
        let (x, y, z) = (b.cmp_spec(&a), c.cmp_spec(&b), c.cmp_spec(&a));
    }

//@ fn datatypes/wrapper/max.rs Max[Semigroup]::combine inside props C05

//@ fn datatypes/wrapper/max.rs Max[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/wrapper/max.rs Max[Monoid]
    /// the default
    open spec fn e() -> T { choose|d: T| call_ensures(T::default, (), d) }
    /// ... which is one value, and comes first in the order
    open spec fn neutral() -> bool {
        default_is::<T>(Self::e()) && forall|a: T| (#[trigger] Self::e().cmp_spec(&a)) != Ordering::Greater
    }
    proof fn identity(a: T) {
        let d = Self::e();
        assert(d.cmp_spec(&a) != Ordering::Greater);
        assert(a.cmp_spec(&d) == Ordering::Less || a.cmp_spec(&d) == Ordering::Equal || a.cmp_spec(&d) == Ordering::Greater);
    }

//@ fn datatypes/wrapper/max.rs Max[Monoid]::empty inside props C05

//@ raw
}

//@ fn datatypes/wrapper/max.rs Max::unwrap props C05
    ensures r == self.0,
//@ fn datatypes/wrapper/max.rs Max::unwrap_or props C05
    ensures r == self.0,

//@ open datatypes/wrapper/min.rs Min[Semigroup]
    type M = T;
    open spec fn m(&self) -> T { self.0 }
    open spec fn op(a: T, b: T) -> T { if a.cmp_spec(&b) == Ordering::Greater { b } else { a } }
    open spec fn can(a: T, b: T) -> bool { true }
    open spec fn lawful() -> bool { total_order::<T>() }
    proof fn associative(a: T, b: T, c: T) {
        assert(a.cmp_spec(&b) == Ordering::Less || a.cmp_spec(&b) == Ordering::Equal || a.cmp_spec(&b) == Ordering::Greater);
        assert(b.cmp_spec(&c) == Ordering::Less || b.cmp_spec(&c) == Ordering::Equal || b.cmp_spec(&c) == Ordering::Greater);
        assert(a.cmp_spec(&c) == Ordering::Less || a.cmp_spec(&c) == Ordering::Equal || a.cmp_spec(&c) == Ordering::Greater);
        let (x, y, z) = (b.cmp_spec(&a), c.cmp_spec(&b), c.cmp_spec(&a));
    }

//@ fn datatypes/wrapper/min.rs Min[Semigroup]::combine inside props C05

//@ fn datatypes/wrapper/min.rs Min[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/wrapper/min.rs Min[Monoid]
    /// the default
    open spec fn e() -> T { choose|d: T| call_ensures(T::default, (), d) }
    /// ... which is one value, and comes last in the order
    open spec fn neutral() -> bool {
        default_is::<T>(Self::e()) && forall|a: T| (#[trigger] Self::e().cmp_spec(&a)) != Ordering::Less
    }
    proof fn identity(a: T) {
        let d = Self::e();
        assert(d.cmp_spec(&a) != Ordering::Less);
        assert(a.cmp_spec(&d) == Ordering::Less || a.cmp_spec(&d) == Ordering::Equal || a.cmp_spec(&d) == Ordering::Greater);
    }

//@ fn datatypes/wrapper/min.rs Min[Monoid]::empty inside props C05

//@ raw
}

//@ fn datatypes/wrapper/min.rs Min::unwrap props C05
    ensures r == self.0,
//@ fn datatypes/wrapper/min.rs Min::unwrap_or props C05
    ensures r == self.0,

//@ open datatypes/wrapper/sum.rs Sum[Semigroup]
    type M = T;
    open spec fn m(&self) -> T { self.0 }
    open spec fn op(a: T, b: T) -> T { <T as AddSpec>::add_spec(a, b) }
    open spec fn can(a: T, b: T) -> bool { <T as AddSpec>::add_req(a, b) }
    /// the operation of `T` is associative where it is defined
    open spec fn lawful() -> bool {
        &&& <T as AddSpec>::obeys_add_spec()
        &&& forall|a: T, b: T, c: T| Self::can(a, b) && Self::can(b, c) && Self::can(Self::op(a, b), c) && Self::can(a, Self::op(b, c))
            ==> #[trigger] Self::op(Self::op(a, b), c) == Self::op(a, Self::op(b, c))
    }
    proof fn associative(a: T, b: T, c: T) {}

//@ fn datatypes/wrapper/sum.rs Sum[Semigroup]::combine inside props C05

//@ fn datatypes/wrapper/sum.rs Sum[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/wrapper/sum.rs Sum[Monoid]
    open spec fn e() -> T { choose|d: T| call_ensures(T::default, (), d) }
    /// ... which is one value and the identity of the operation of `T`
    open spec fn neutral() -> bool {
        default_is::<T>(Self::e()) && forall|a: T| Self::can(Self::e(), a) && Self::can(a, Self::e())
            ==> (#[trigger] Self::op(Self::e(), a)) == a && (#[trigger] Self::op(a, Self::e())) == a
    }
    proof fn identity(a: T) { let d = Self::e(); assert(Self::can(d, a)); assert(Self::can(a, d)); let x = Self::op(d, a); let y = Self::op(a, d); assert(x == a); assert(y == a); }

//@ fn datatypes/wrapper/sum.rs Sum[Monoid]::empty inside props C05

//@ raw
}

//@ fn datatypes/wrapper/sum.rs Sum::unwrap props C05
    ensures r == self.0,
//@ fn datatypes/wrapper/sum.rs Sum::unwrap_or props C05
    ensures r == self.0,

//@ open datatypes/wrapper/product.rs Product[Semigroup]
    type M = T;
    open spec fn m(&self) -> T { self.0 }
    open spec fn op(a: T, b: T) -> T { <T as MulSpec>::mul_spec(a, b) }
    open spec fn can(a: T, b: T) -> bool { <T as MulSpec>::mul_req(a, b) }
    /// the operation of `T` is associative where it is defined
    open spec fn lawful() -> bool {
        &&& <T as MulSpec>::obeys_mul_spec()
        &&& forall|a: T, b: T, c: T| Self::can(a, b) && Self::can(b, c) && Self::can(Self::op(a, b), c) && Self::can(a, Self::op(b, c))
            ==> #[trigger] Self::op(Self::op(a, b), c) == Self::op(a, Self::op(b, c))
    }
    proof fn associative(a: T, b: T, c: T) {}

//@ fn datatypes/wrapper/product.rs Product[Semigroup]::combine inside props C05

//@ fn datatypes/wrapper/product.rs Product[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/wrapper/product.rs Product[Monoid]
    open spec fn e() -> T { choose|d: T| call_ensures(<T as From<u8>>::from, (1u8,), d) }
    /// ... which is one value and the identity of the operation of `T`
    open spec fn neutral() -> bool {
        one_is::<T>(Self::e()) && forall|a: T| Self::can(Self::e(), a) && Self::can(a, Self::e())
            ==> (#[trigger] Self::op(Self::e(), a)) == a && (#[trigger] Self::op(a, Self::e())) == a
    }
    proof fn identity(a: T) { let d = Self::e(); assert(Self::can(d, a)); assert(Self::can(a, d)); let x = Self::op(d, a); let y = Self::op(a, d); assert(x == a); assert(y == a); }

//@ fn datatypes/wrapper/product.rs Product[Monoid]::empty inside props C05

//@ raw
}

//@ fn datatypes/wrapper/product.rs Product::unwrap props C05
    ensures r == self.0,
//@ fn datatypes/wrapper/product.rs Product::unwrap_or props C05
    ensures r == self.0,

//@ fn datatypes/id.rs Id::new props C05,C06
    ensures r.value == x,

//@ open datatypes/id.rs Id[Semigroup]
    type M = T::M;
    open spec fn m(&self) -> T::M { self.value.m() }
    open spec fn op(a: T::M, b: T::M) -> T::M { T::op(a, b) }
    open spec fn can(a: T::M, b: T::M) -> bool { T::can(a, b) }
    open spec fn lawful() -> bool { T::lawful() }
    proof fn associative(a: T::M, b: T::M, c: T::M) { T::associative(a, b, c); }

//@ fn datatypes/id.rs Id[Semigroup]::combine inside props C05

//@ fn datatypes/id.rs Id[Semigroup]::combine_owned inside props C05

//@ raw
}

//@ open datatypes/id.rs Id[Monoid]
    open spec fn e() -> T::M { T::e() }
    open spec fn neutral() -> bool { T::neutral() }
    proof fn identity(a: T::M) { T::identity(a); }

//@ fn datatypes/id.rs Id[Monoid]::empty inside props C05

//@ raw
}

//@ raw
pub trait SemigroupExt: Semigroup {

//@ fn traits/semigroup.rs SemigroupExt::combine_all inside props C05
    requires Self::lawful(), combinable(self.m(), others.items()),
    ensures r.m() == combined(self.m(), others.items()),
//@ hoist 0
//@ closure 0 |acc: Self, x: Self| -> (o: Self)
    requires Self::can(acc.m(), x.m()),
    ensures Self::lawful() ==> o.m() == Self::op(acc.m(), x.m()),
//@ at tail

proof {
    if Self::lawful() {
    assert forall|i: int, a: Seq<Self>| 0 <= i < others.items().len() && #[trigger] fold_steps(__c0, self, others.items().take(i), a)
        implies __c0.requires((a.last(), others.items()[i])) by { lemma_fold_combined(__c0, self, others.items().take(i), a); assert(Self::can(combined(self.m(), others.items().take(i)), others.items()[i].m())); }
    assert forall|a: Seq<Self>| #[trigger] fold_steps(__c0, self, others.items(), a) implies a.last().m() == combined(self.m(), others.items()) by {
        lemma_fold_combined(__c0, self, others.items(), a);
    }
    }
}

//@ fn traits/semigroup.rs SemigroupExt::combine_all_owned inside props C05
    requires Self::lawful(), vals.items().len() > 0, combinable(vals.items()[0].m(), vals.items().skip(1)),
    ensures r.m() == combined(vals.items()[0].m(), vals.items().skip(1)),
//@ hoist 0
//@ closure 0 |acc: Self, x: Self| -> (o: Self)
    requires Self::can(acc.m(), x.m()),
    ensures Self::lawful() ==> o.m() == Self::op(acc.m(), x.m()),
//@ at tail
proof { assert(iter@ =~= vals.items().skip(1)); }

proof {
    if Self::lawful() {
    assert forall|i: int, a: Seq<Self>| 0 <= i < iter@.len() && #[trigger] fold_steps(__c0, first, iter@.take(i), a)
        implies __c0.requires((a.last(), iter@[i])) by { lemma_fold_combined(__c0, first, iter@.take(i), a); assert(Self::can(combined(first.m(), iter@.take(i)), iter@[i].m())); }
    assert forall|a: Seq<Self>| #[trigger] fold_steps(__c0, first, iter@, a) implies a.last().m() == combined(first.m(), iter@) by {
        lemma_fold_combined(__c0, first, iter@, a);
    }
    }
}

//@ fn traits/semigroup.rs SemigroupExt::combine_n inside props C05
    requires Self::lawful(), *n >= 1, copiable::<Self>(self.m(), *n as nat),
    ensures r.m() == copies::<Self>(self.m(), *n as nat),
//@ loop 0
    invariant Self::lawful(), *n >= 1, copiable::<Self>(self.m(), *n as nat), acc.m() == copies::<Self>(self.m(), __i0 as nat),
//@ fn traits/semigroup.rs SemigroupExt::combine_n_owned inside props C05
    requires Self::lawful(), n >= 1, copiable::<Self>(self.m(), n as nat),
    ensures r.m() == copies::<Self>(self.m(), n as nat),
//@ loop 0
    invariant Self::lawful(), n >= 1, copiable::<Self>(self.m(), n as nat), acc.m() == copies::<Self>(self.m(), __i0 as nat),
//@ raw
}
impl<T: Semigroup> SemigroupExt for T {}

//@ fn traits/semigroup.rs SemigroupExtAdapter::combine_all props C05
    requires T::lawful(), combinable(self.0.m(), others.items()),
    ensures r.m() == combined(self.0.m(), others.items()),
//@ fn traits/semigroup.rs SemigroupExtAdapter::combine_n props C05
    requires T::lawful(), *n >= 1, copiable::<T>(self.0.m(), *n as nat),
    ensures r.m() == copies::<T>(self.0.m(), *n as nat),
//@ fn traits/semigroup.rs SemigroupExtAdapter::combine_n_owned props C05
    requires T::lawful(), n >= 1, copiable::<T>(self.0.m(), n as nat),
    ensures r.m() == copies::<T>(self.0.m(), n as nat),

//@ fn traits/semigroup.rs combine_all_values props C05
    requires T::lawful(), values.items().len() > 0 ==> combinable(values.items()[0].m(), values.items().skip(1)),
    ensures
        values.items().len() == 0 ==> r is None,
        values.items().len() > 0 ==> r is Some && r->0.m() == combined(values.items()[0].m(), values.items().skip(1)),
//@ hoist 0
//@ closure 0 |acc: T, x: T| -> (o: T)
    requires T::can(acc.m(), x.m()),
    ensures T::lawful() ==> o.m() == T::op(acc.m(), x.m()),
//@ at tail
proof { assert(iter@ =~= values.items().skip(1)); }

proof {
    if T::lawful() {
    assert forall|i: int, a: Seq<T>| 0 <= i < iter@.len() && #[trigger] fold_steps(__c0, first, iter@.take(i), a)
        implies __c0.requires((a.last(), iter@[i])) by { lemma_fold_combined(__c0, first, iter@.take(i), a); assert(T::can(combined(first.m(), iter@.take(i)), iter@[i].m())); }
    assert forall|a: Seq<T>| #[trigger] fold_steps(__c0, first, iter@, a) implies a.last().m() == combined(first.m(), iter@) by {
        lemma_fold_combined(__c0, first, iter@, a);
    }
    }
}

//@ fn traits/semigroup.rs combine_values props C05
    requires T::lawful(), combinable(initial.m(), values.items()),
    ensures r.m() == combined(initial.m(), values.items()),
//@ hoist 0
//@ closure 0 |acc: T, x: T| -> (o: T)
    requires T::can(acc.m(), x.m()),
    ensures T::lawful() ==> o.m() == T::op(acc.m(), x.m()),
//@ at tail

proof {
    if T::lawful() {
    assert forall|i: int, a: Seq<T>| 0 <= i < values.items().len() && #[trigger] fold_steps(__c0, initial, values.items().take(i), a)
        implies __c0.requires((a.last(), values.items()[i])) by { lemma_fold_combined(__c0, initial, values.items().take(i), a); assert(T::can(combined(initial.m(), values.items().take(i)), values.items()[i].m())); }
    assert forall|a: Seq<T>| #[trigger] fold_steps(__c0, initial, values.items(), a) implies a.last().m() == combined(initial.m(), values.items()) by {
        lemma_fold_combined(__c0, initial, values.items(), a);
    }
    }
}

//@ fn traits/monoid.rs combine_all props C05
    requires M::lawful(), M::neutral(), values.items().len() > 0 ==> combinable(values.items()[0].m(), values.items().skip(1)),
    ensures
        values.items().len() == 0 ==> r.m() == M::e(),
        values.items().len() > 0 ==> r.m() == combined(values.items()[0].m(), values.items().skip(1)),
//@ hoist 0
//@ closure 0 |acc: M, x: M| -> (o: M)
    requires M::can(acc.m(), x.m()),
    ensures M::lawful() ==> o.m() == M::op(acc.m(), x.m()),
//@ at arm 0
proof { assert(iter@ =~= values.items().skip(1)); }

proof {
    if M::lawful() {
    assert forall|i: int, a: Seq<M>| 0 <= i < iter@.len() && #[trigger] fold_steps(__c0, first, iter@.take(i), a)
        implies __c0.requires((a.last(), iter@[i])) by { lemma_fold_combined(__c0, first, iter@.take(i), a); assert(M::can(combined(first.m(), iter@.take(i)), iter@[i].m())); }
    assert forall|a: Seq<M>| #[trigger] fold_steps(__c0, first, iter@, a) implies a.last().m() == combined(first.m(), iter@) by {
        lemma_fold_combined(__c0, first, iter@, a);
    }
    }
}

//@ raw
pub trait MonoidExt: Monoid + SemigroupExt {
//@ fn traits/monoid.rs MonoidExt::is_empty_monoid inside props C05
    ensures Self::neutral() && Self::obeys_eq_spec() ==> exists|x: Self| x.m() == Self::e() && r == self.eq_spec(&x),
//@ raw
}
impl<T: Monoid> MonoidExt for T {}
//@ fn traits/monoid.rs repeat props C05
    requires M::lawful(), M::neutral(), copiable::<M>(value.m(), n as nat),
    ensures r.m() == (if n == 0 { M::e() } else { copies::<M>(value.m(), n as nat) }),
//@ loop 0
    invariant M::lawful(), n >= 1, copiable::<M>(value.m(), n as nat), result.m() == copies::<M>(value.m(), __i0 as nat),
//@ fn traits/monoid.rs mconcat props C05
    requires M::lawful(), M::neutral(), values@.len() > 0 ==> combinable(values@[0].m(), values@.skip(1)),
    ensures
        values@.len() == 0 ==> r.m() == M::e(),
        values@.len() > 0 ==> r.m() == combined(values@[0].m(), values@.skip(1)),
//@ loop 0
    invariant
        M::lawful(), values@.len() > 0, combinable(values@[0].m(), values@.skip(1)),
        __it0.orig() == refs(values@.skip(1)), 0 <= __it0.pos() <= __it0.orig().len(),
        result.m() == combined(values@[0].m(), values@.skip(1).take(__it0.pos())),
    ensures __it0.pos() == __it0.orig().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
proof {
    let s = values@.skip(1);
    let k = __it0.pos() - 1;
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s[k].m() == value.m());
}
//@ at after loop 0
proof { assert(values@.skip(1).take(values@.skip(1).len() as int) =~= values@.skip(1)); }
//@ fn traits/monoid.rs power props C05
    requires M::lawful(), M::neutral(), copiable::<M>(value.m(), exponent as nat),
    ensures r.m() == (if exponent == 0 { M::e() } else { copies::<M>(value.m(), exponent as nat) }),
//@ raw
/// The hypotheses hold of the machine integers.
pub proof fn integers_lawful()
    ensures
        Sum::<u64>::lawful(), Sum::<i64>::lawful(), Sum::<usize>::lawful(), Sum::<i32>::lawful(),
        Product::<u64>::lawful(), Product::<i32>::lawful(),
        Max::<u64>::lawful(), Max::<i32>::lawful(), Min::<u64>::lawful(), Min::<i32>::lawful(),
{
    assert forall|a: u64, b: u64, c: u64| Product::<u64>::can(a, b) && Product::<u64>::can(b, c) && Product::<u64>::can(Product::<u64>::op(a, b), c) && Product::<u64>::can(a, Product::<u64>::op(b, c))
        implies #[trigger] Product::<u64>::op(Product::<u64>::op(a, b), c) == Product::<u64>::op(a, Product::<u64>::op(b, c)) by { vstd::arithmetic::mul::lemma_mul_is_associative(a as int, b as int, c as int); }
    assert forall|a: i32, b: i32, c: i32| Product::<i32>::can(a, b) && Product::<i32>::can(b, c) && Product::<i32>::can(Product::<i32>::op(a, b), c) && Product::<i32>::can(a, Product::<i32>::op(b, c))
        implies #[trigger] Product::<i32>::op(Product::<i32>::op(a, b), c) == Product::<i32>::op(a, Product::<i32>::op(b, c)) by { vstd::arithmetic::mul::lemma_mul_is_associative(a as int, b as int, c as int); }
}
//@ end
