// Lenses, prisms and isomorphisms: the laws of the optics follow from those of the functions they
// are built from.
//@ include inc/result
//@ include inc/option
//@ raw
use std::marker::PhantomData;
use vstd::std_specs::cmp::PartialEqSpec;
broadcast use {faithful_clone, faithful_clone_call};
/// `==` of `A` decides equality
pub open spec fn eq_decides<A: PartialEq>() -> bool {
    A::obeys_eq_spec() && forall|a: A, b: A| #[trigger] a.eq_spec(&b) <==> a == b
}
pub open spec fn pre_get<S, A, F: Fn(&S) -> A>(f: &F, s: &S) -> bool { f.requires((s,)) }
pub open spec fn via_get<S, A, B, G: Fn(&S) -> A, F: Fn(A) -> B>(get: &G, f: &F, s: &S, b: B) -> bool { exists|a: A| #[trigger] get.ensures((s,), a) && f.ensures((a,), b) }
pub open spec fn via_set<S, A, B, T: Fn(S, A) -> S, G: Fn(B) -> A>(set: &T, g: &G, s: S, b: B, t: S) -> bool { exists|a: A| #[trigger] g.ensures((b,), a) && set.ensures((s, a), t) }
pub open spec fn takes_any<S, A, T: Fn(S, A) -> S>(set: &T, s: S) -> bool { forall|a: A| #[trigger] set.requires((s, a)) }
//@ type datatypes/lens.rs Lens #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(GetFn)] #[verifier::reject_recursive_types(SetFn)]
//@ raw
impl<S, A, GetFn: Fn(&S) -> A, SetFn: Fn(S, A) -> S> Lens<S, A, GetFn, SetFn> {
    /// reading `s` may give `a`
    pub open spec fn reads(&self, s: S, a: A) -> bool { self.get.ensures((&s,), a) }
    /// writing `a` over `s` may give `t`
    pub open spec fn writes(&self, s: S, a: A, t: S) -> bool { self.set.ensures((s, a), t) }
    pub open spec fn can_read(&self, s: S) -> bool { self.get.requires((&s,)) }
    pub open spec fn can_write(&self, s: S, a: A) -> bool { self.set.requires((s, a)) }
    /// the three laws of the functions
    pub open spec fn lawful(&self) -> bool {
        &&& forall|s: S, a: A, b: A| #[trigger] self.reads(s, a) && #[trigger] self.reads(s, b) ==> a == b
        &&& forall|s: S, a: A, t: S, b: A| #[trigger] self.writes(s, a, t) && #[trigger] self.reads(t, b) ==> b == a
        &&& forall|s: S, a: A, t: S| #[trigger] self.reads(s, a) && #[trigger] self.writes(s, a, t) ==> t == s
        &&& forall|s: S, a: A, t: S, b: A, u: S, v: S| #[trigger] self.writes(s, a, t) && #[trigger] self.writes(t, b, u) && #[trigger] self.writes(s, b, v) ==> u == v
    }
    /// what `set` gives: the source itself where it holds the value already
    pub open spec fn sets(&self, s: S, a: A, t: S) -> bool {
        exists|c: A| #[trigger] self.reads(s, c) && (if c == a { t == s } else { self.writes(s, a, t) })
    }
    pub open spec fn modifies<F: Fn(A) -> A>(&self, s: S, f: F, t: S) -> bool {
        exists|c: A, n: A| #[trigger] self.reads(s, c) && #[trigger] f.ensures((c,), n) && self.sets(s, n, t)
    }
}
//@ fn datatypes/lens.rs Lens::new props C14
    ensures r.get == get, r.set == set,
//@ fn datatypes/lens.rs Lens::get props C14
    requires self.can_read(*source),
    ensures self.reads(*source, r),
//@ fn datatypes/lens.rs Lens::set_always props C14
    requires self.can_write(source, value),
    ensures self.writes(source, value, r),
//@ fn datatypes/lens.rs Lens::set props C14
    requires self.can_read(source), self.can_write(source, value),
    ensures eq_decides::<A>() ==> self.sets(source, value, r),
//@ fn datatypes/lens.rs Lens::modify props C14
    requires
        self.can_read(source),
        forall|c: A| #[trigger] self.reads(source, c) ==> f.requires((c,)),
        forall|c: A, n: A| self.reads(source, c) && #[trigger] f.ensures((c,), n) ==> self.can_write(source, n),
    ensures eq_decides::<A>() ==> self.modifies(source, f, r),
//@ fn datatypes/lens.rs Lens::modify_always props C14
    requires
        self.can_read(source),
        forall|c: A| #[trigger] self.reads(source, c) ==> f.requires((c,)),
        forall|c: A, n: A| self.reads(source, c) && #[trigger] f.ensures((c,), n) ==> self.can_write(source, n),
    ensures exists|c: A, n: A| #[trigger] self.reads(source, c) && #[trigger] f.ensures((c,), n) && self.writes(source, n, r),
//@ raw
impl<S, A, GetFn: Fn(&S) -> A, SetFn: Fn(S, A) -> S> Lens<S, A, GetFn, SetFn> {
    /// reading back a written value gives that value
    pub proof fn set_get(&self, s: S, a: A, t: S, b: A)
        requires self.lawful(), self.sets(s, a, t), self.reads(t, b),
        ensures b == a,
    { }
    /// writing back what was read changes nothing
    pub proof fn get_set(&self, s: S, a: A, t: S)
        requires self.lawful(), self.reads(s, a), self.sets(s, a, t),
        ensures t == s,
    { }
    /// the last of two writes wins
    pub proof fn set_set(&self, s: S, a: A, t: S, b: A, u: S, v: S)
        requires
            self.lawful(), self.sets(s, a, t), self.sets(t, b, u), self.sets(s, b, v),
            exists|w: S| self.writes(s, a, w), exists|w: S| self.writes(s, b, w), exists|w: S| self.writes(t, b, w),
        ensures u == v,
    {
        let ws = choose|w: S| self.writes(s, b, w);
        let wt = choose|w: S| self.writes(t, b, w);
        let wa = choose|w: S| self.writes(s, a, w);
        assert(self.writes(s, a, wa) && self.writes(s, b, ws) && self.writes(t, b, wt));
    }
    /// modifying is reading, applying and writing
    pub proof fn modify_reads_and_writes<F: Fn(A) -> A>(&self, s: S, f: F, t: S, c: A, n: A, u: S)
        requires
            self.lawful(), self.modifies(s, f, t), self.reads(s, c), f.ensures((c,), n), self.writes(s, n, u),
            forall|x: A, y: A, z: A| #[trigger] f.ensures((x,), y) && #[trigger] f.ensures((x,), z) ==> y == z,
            forall|x: A, w: S, v: S| #[trigger] self.writes(s, x, w) && #[trigger] self.writes(s, x, v) ==> w == v,
        ensures t == u,
    { }
}
//@ fn datatypes/lens.rs Lens::fmap props C14
    requires
        forall|a: A| #[trigger] f.requires((a,)), forall|b: B| #[trigger] g.requires((b,)),
    ensures
        forall|s: S| self.can_read(s) ==> #[trigger] r.can_read(s),
        forall|s: S, b: B| takes_any(&self.set, s) ==> #[trigger] r.can_write(s, b),
        forall|s: S, b: B| #[trigger] r.reads(s, b) ==> via_get(&self.get, &f, &s, b),
        forall|s: S, b: B, t: S| #[trigger] r.writes(s, b, t) ==> via_set(&self.set, &g, s, b, t),
//@ closure 0 |s: &S| -> (o: B)
    requires pre_get(&self.get, s), forall|a: A| #[trigger] f.requires((a,)),
    ensures via_get(&self.get, &f, s, o),
//@ closure 1 |s: S, b: B| -> (o: S)
    requires forall|b: B| #[trigger] g.requires((b,)), takes_any(&self.set, s),
    ensures via_set(&self.set, &g, s, b, o),
//@ type datatypes/prism.rs Prism #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(PreviewFn)] #[verifier::reject_recursive_types(ReviewFn)]
//@ raw
impl<S, A, PreviewFn: Fn(&S) -> Option<A>, ReviewFn: Fn(&A) -> S> Prism<S, A, PreviewFn, ReviewFn> {
    pub open spec fn sees(&self, s: S, o: Option<A>) -> bool { self.preview.ensures((&s,), o) }
    pub open spec fn builds(&self, a: A, s: S) -> bool { self.review.ensures((&a,), s) }
    pub open spec fn can_see(&self, s: S) -> bool { self.preview.requires((&s,)) }
    pub open spec fn can_build(&self, a: A) -> bool { self.review.requires((&a,)) }
    pub open spec fn lawful(&self) -> bool {
        &&& forall|s: S, a: Option<A>, b: Option<A>| #[trigger] self.sees(s, a) && #[trigger] self.sees(s, b) ==> a == b
        &&& forall|a: A, s: S, o: Option<A>| #[trigger] self.builds(a, s) && #[trigger] self.sees(s, o) ==> o == Some(a)
        &&& forall|s: S, a: A, t: S| #[trigger] self.sees(s, Some(a)) && #[trigger] self.builds(a, t) ==> t == s
    }
    /// the other cases stay as they are
    pub open spec fn modifies<F: FnOnce(A) -> A>(&self, s: S, f: F, t: S) -> bool {
        exists|o: Option<A>| #[trigger] self.sees(s, o) && match o {
            None => t == s,
            Some(c) => exists|n: A| #[trigger] f.ensures((c,), n) && (if n == c { t == s } else { self.builds(n, t) }),
        }
    }
    pub open spec fn sets(&self, s: S, a: A, t: S) -> bool {
        exists|o: Option<A>| #[trigger] self.sees(s, o) && (if o == Some(a) { t == s } else { self.builds(a, t) })
    }
}
//@ fn datatypes/prism.rs Prism::new props C14
    ensures r.preview == preview, r.review == review,
//@ fn datatypes/prism.rs Prism::preview props C14
    requires self.can_see(*s),
    ensures self.sees(*s, r),
//@ fn datatypes/prism.rs Prism::review props C14
    requires self.can_build(*a),
    ensures self.builds(*a, r),
//@ fn datatypes/prism.rs Prism::for_case props C14
    ensures r.preview == match_case, r.review == make_case,
//@ fn datatypes/prism.rs Prism::modify props C14
    requires
        self.can_see(source),
        forall|c: A| #[trigger] self.sees(source, Some(c)) ==> f.requires((c,)),
        forall|c: A, n: A| self.sees(source, Some(c)) && #[trigger] f.ensures((c,), n) ==> self.can_build(n),
    ensures eq_decides::<A>() ==> self.modifies(source, f, r),
//@ fn datatypes/prism.rs Prism::set_if_different props C14
    requires self.can_see(source), self.can_build(new_value),
    ensures eq_decides::<A>() ==> self.sets(source, new_value, r),
//@ raw
impl<S, A, PreviewFn: Fn(&S) -> Option<A>, ReviewFn: Fn(&A) -> S> Prism<S, A, PreviewFn, ReviewFn> {
    /// previewing a built value gives that value
    pub proof fn review_preview(&self, a: A, s: S, o: Option<A>)
        requires self.lawful(), self.builds(a, s), self.sees(s, o),
        ensures o == Some(a),
    { }
    /// modifying changes exactly the focused case, and leaves every other case unchanged
    pub proof fn modify_focus<F: FnOnce(A) -> A>(&self, s: S, f: F, t: S, c: A, n: A, o: Option<A>)
        requires
            self.lawful(), self.modifies(s, f, t), self.sees(s, Some(c)), f.ensures((c,), n), self.sees(t, o),
            forall|y: A, z: A| #[trigger] f.ensures((c,), y) && #[trigger] f.ensures((c,), z) ==> y == z,
        ensures o == Some(n),
    { }
    pub proof fn modify_other<F: FnOnce(A) -> A>(&self, s: S, f: F, t: S)
        requires self.lawful(), self.modifies(s, f, t), self.sees(s, None),
        ensures t == s,
    { }
}
//@ raw
/// An isomorphism whose two directions are functions of the value alone.
pub trait Iso<A, B>: Sized {
    type From;
    type To;
    spec fn fw(&self, a: Self::From) -> Self::To;
    spec fn bw(&self, b: Self::To) -> Self::From;
    spec fn fw_ok(&self, a: Self::From) -> bool;
    spec fn bw_ok(&self, b: Self::To) -> bool;
    fn forward(&self, from: &Self::From) -> (r: Self::To)
        requires self.fw_ok(*from),
        ensures r == self.fw(*from);
    fn backward(&self, to: &Self::To) -> (r: Self::From)
        requires self.bw_ok(*to),
        ensures r == self.bw(*to);
}
/// back and forth, and forth and back, on what the other side can represent
pub open spec fn lawful_iso<A, B, I: Iso<A, B>>(i: &I) -> bool {
    &&& forall|a: I::From| #[trigger] i.fw_ok(a) ==> i.bw_ok(i.fw(a)) && i.bw(i.fw(a)) == a
    &&& forall|b: I::To| #[trigger] i.bw_ok(b) ==> i.fw_ok(i.bw(b)) && i.fw(i.bw(b)) == b
}
//@ type traits/iso.rs ComposedIso #[verifier::reject_recursive_types(ISO1)] #[verifier::reject_recursive_types(ISO2)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(C)]
//@ type traits/iso.rs InverseIso #[verifier::reject_recursive_types(ISO)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@ open traits/iso.rs ComposedIso[Iso]
    type From = A;
    type To = C;
    open spec fn fw(&self, a: A) -> C { self.second.fw(self.first.fw(a)) }
    open spec fn bw(&self, c: C) -> A { self.first.bw(self.second.bw(c)) }
    open spec fn fw_ok(&self, a: A) -> bool { self.first.fw_ok(a) && self.second.fw_ok(self.first.fw(a)) }
    open spec fn bw_ok(&self, c: C) -> bool { self.second.bw_ok(c) && self.first.bw_ok(self.second.bw(c)) }
//@ fn traits/iso.rs ComposedIso[Iso]::forward inside props C14,C15
//@ fn traits/iso.rs ComposedIso[Iso]::backward inside props C14,C15
//@ raw
}
//@ open traits/iso.rs InverseIso[Iso]
    type From = B;
    type To = A;
    open spec fn fw(&self, b: B) -> A { self.original.bw(b) }
    open spec fn bw(&self, a: A) -> B { self.original.fw(a) }
    open spec fn fw_ok(&self, b: B) -> bool { self.original.bw_ok(b) }
    open spec fn bw_ok(&self, a: A) -> bool { self.original.fw_ok(a) }
//@ fn traits/iso.rs InverseIso[Iso]::forward inside props C15
//@ fn traits/iso.rs InverseIso[Iso]::backward inside props C15
//@ raw
}
pub proof fn composed_lawful<A, B, C, ISO1: Iso<A, B, From = A, To = B>, ISO2: Iso<B, C, From = B, To = C>>(i: &ComposedIso<ISO1, ISO2, A, B, C>)
    where A: Clone, B: Clone, C: Clone
    requires lawful_iso(&i.first), lawful_iso(&i.second),
    ensures
        forall|a: A| #[trigger] i.fw_ok(a) && i.second.fw_ok(i.first.fw(a)) ==> i.bw(i.fw(a)) == a,
        forall|c: C| #[trigger] i.bw_ok(c) && i.first.bw_ok(i.second.bw(c)) ==> i.fw(i.bw(c)) == c,
        lawful_iso::<A, C, _>(i),
{ }
pub proof fn inverse_lawful<A, B, ISO: Iso<A, B, From = A, To = B>>(i: &InverseIso<ISO, A, B>)
    where A: Clone, B: Clone
    requires lawful_iso(&i.original),
    ensures lawful_iso::<B, A, _>(i),
{ }
pub trait IsoExt<A, B>: Iso<A, B> {
//@ fn traits/iso.rs IsoExt::convert_forward inside props C15
    requires self.fw_ok(*value),
    ensures r == self.fw(*value),
//@ fn traits/iso.rs IsoExt::convert_backward inside props C15
    requires self.bw_ok(*value),
    ensures r == self.bw(*value),
//@ fn traits/iso.rs IsoExt::modify inside props C15
    requires
        self.fw_ok(*from), f.requires((self.fw(*from),)),
        forall|n: Self::To| #[trigger] f.ensures((self.fw(*from),), n) ==> self.bw_ok(n),
    ensures exists|n: Self::To| #[trigger] f.ensures((self.fw(*from),), n) && r == self.bw(n),
//@ fn traits/iso.rs IsoExt::verify_laws inside props C15
    requires self.fw_ok(*from), self.bw_ok(self.fw(*from)), self.bw_ok(*to), self.fw_ok(self.bw(*to)),
    ensures eq_decides::<Self::From>() && eq_decides::<Self::To>() ==> r == (self.bw(self.fw(*from)) == *from && self.fw(self.bw(*to)) == *to),
//@ raw
}
pub trait IsoOps<A, B>: Iso<A, B> {
//@ fn traits/iso.rs Iso::iso_compose inside props C15
    ensures r.first == *self, r.second == other,
//@ fn traits/iso.rs Iso::inverse inside props C15
    ensures r.original == *self,
//@ raw
}
//@ type datatypes/iso_lens.rs IsoLens #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(L)]
//@ type datatypes/iso_lens.rs PairIso #[verifier::reject_recursive_types(L2)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(S)]
//@ open datatypes/iso_lens.rs PairIso[Iso]
    type From = A;
    type To = (B, S);
    open spec fn fw(&self, a: A) -> (B, S) { self.inner.fw(a) }
    open spec fn bw(&self, b: (B, S)) -> A { self.inner.bw(b) }
    open spec fn fw_ok(&self, a: A) -> bool { self.inner.fw_ok(a) }
    open spec fn bw_ok(&self, b: (B, S)) -> bool { self.inner.bw_ok(b) }
//@ fn datatypes/iso_lens.rs PairIso[Iso]::forward inside props C14
//@ fn datatypes/iso_lens.rs PairIso[Iso]::backward inside props C14
//@ raw
}
//@ type datatypes/iso_lens.rs ComposedIsoLens
//@ fn datatypes/iso_lens.rs IsoLens::new props C14
    ensures r.iso == iso,
//@ fn datatypes/iso_lens.rs IsoLens::get props C14
    requires self.iso.fw_ok(*s),
    ensures r == self.iso.fw(*s),
//@ fn datatypes/iso_lens.rs IsoLens::set props C14
    requires self.iso.bw_ok(*a),
    ensures r == self.iso.bw(*a),
//@ fn datatypes/iso_lens.rs IsoLens::modify props C14
    requires
        self.iso.fw_ok(*s), f.requires((self.iso.fw(*s),)),
        forall|n: A| #[trigger] f.ensures((self.iso.fw(*s),), n) ==> self.iso.bw_ok(n),
    ensures exists|n: A| #[trigger] f.ensures((self.iso.fw(*s),), n) && r == self.iso.bw(n),
//@ fn datatypes/iso_lens.rs IsoLens::compose props C14
    ensures r.iso.first == self.iso, r.iso.second.inner == other.iso,
//@ fn datatypes/iso_lens.rs IsoLens::iso_ref props C14
    ensures *r == self.iso,
//@ fn datatypes/iso_lens.rs IsoLens::set_focus props C14
    requires self.iso.bw_ok((*new_focus_value, *s)),
    ensures r == self.iso.bw((*new_focus_value, *s)),
//@ fn datatypes/iso_lens.rs IsoLens::modify_focus props C14
    requires
        self.iso.fw_ok(*s), f.requires((self.iso.fw(*s).0,)),
        forall|n: FocusType| #[trigger] f.ensures((self.iso.fw(*s).0,), n) ==> self.iso.bw_ok((n, self.iso.fw(*s).1)),
    ensures exists|n: FocusType| #[trigger] f.ensures((self.iso.fw(*s).0,), n) && r == self.iso.bw((n, self.iso.fw(*s).1)),
//@ raw
/// the lens laws of an isomorphism's lens, stated of what `get` and `set` give
pub proof fn iso_lens_laws<S, A, L: Iso<S, A, From = S, To = A>>(l: &IsoLens<S, A, L>, s: S, a: A)
    requires lawful_iso::<S, A, _>(&l.iso), l.iso.fw_ok(s), l.iso.bw_ok(a),
    ensures l.iso.fw(l.iso.bw(a)) == a, l.iso.bw(l.iso.fw(s)) == s,
{ }
//@ type datatypes/iso_prism.rs IsoPrism #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(L)]
//@ type datatypes/iso_prism.rs LiftedPrismIso #[verifier::reject_recursive_types(L2)] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@ open datatypes/iso_prism.rs LiftedPrismIso[Iso]
    type From = Option<A>;
    type To = Option<B>;
    open spec fn fw(&self, a: Option<A>) -> Option<B> { match a { Some(x) => self.inner.fw(x), None => None } }
    open spec fn bw(&self, b: Option<B>) -> Option<A> { match b { Some(_) => Some(self.inner.bw(b)), None => None } }
    open spec fn fw_ok(&self, a: Option<A>) -> bool { a matches Some(x) ==> self.inner.fw_ok(x) }
    open spec fn bw_ok(&self, b: Option<B>) -> bool { b is Some ==> self.inner.bw_ok(b) }
//@ fn datatypes/iso_prism.rs LiftedPrismIso[Iso]::forward inside props C14
//@ fn datatypes/iso_prism.rs LiftedPrismIso[Iso]::backward inside props C14
//@ closure 0 |b: &B| -> (o: A)
    requires self.inner.bw_ok(Some(*b)), ensures o == self.inner.bw(Some(*b)),
//@ raw
}
//@ type datatypes/iso_prism.rs ComposedIsoPrism
//@ fn datatypes/iso_prism.rs IsoPrism::new props C14
    ensures r.iso == iso,
//@ fn datatypes/iso_prism.rs IsoPrism::preview props C14
    requires self.iso.fw_ok(*s),
    ensures r == self.iso.fw(*s),
//@ fn datatypes/iso_prism.rs IsoPrism::review props C14
    requires self.iso.bw_ok(Some(*a)),
    ensures r == self.iso.bw(Some(*a)),
//@ fn datatypes/iso_prism.rs IsoPrism::compose props C14
    ensures r.iso.first == self.iso, r.iso.second.inner == other.iso,
//@ raw
/// previewing what the composed prism built gives the value, for lawful parts
pub proof fn composed_prism_law<S, A, B, L: Iso<S, Option<A>, From = S, To = Option<A>>, L2: Iso<A, Option<B>, From = A, To = Option<B>>>(l: &L, m: &LiftedPrismIso<L2, A, B>, b: B)
    where A: Clone, B: Clone
    requires
        forall|a: A| #[trigger] l.bw_ok(Some(a)) ==> l.fw(l.bw(Some(a))) == Some(a),
        forall|x: B| #[trigger] m.inner.bw_ok(Some(x)) ==> m.inner.fw(m.inner.bw(Some(x))) == Some(x),
        m.bw_ok(Some(b)), l.bw_ok(m.bw(Some(b))),
    ensures m.fw(l.fw(l.bw(m.bw(Some(b))))) == Some(b),
{ }
