// Contracts of the library functions the extracted code calls ("assumed" in the evidence): vectors
// and small vectors are sequences, an iterator is the sequence of the items it still has to give,
// and an adaptor is applied to that whole sequence.
pub trait ArrayLike { type Item; }
impl<T, const N: usize> ArrayLike for [T; N] { type Item = T; }
/// `SmallVec<[T; N]>` is taken to behave as `Vec<T>`.
pub type SmallVec<A> = Vec<<A as ArrayLike>::Item>;

/// A clone is equal to its original.
pub broadcast axiom fn faithful_clone<T: Clone>(a: T, b: T)
    requires #[trigger] cloned(a, b),
    ensures a == b,
;

pub broadcast axiom fn faithful_clone_call<T: Clone>(a: &T, b: T)
    requires #[trigger] call_ensures(T::clone, (a,), b),
    ensures *a == b,
;

use vstd::std_specs::ops::AddAssignSpec;
/// `x += &y`
pub broadcast axiom fn add_assign_ref_req(a: usize, b: &usize)
    ensures #[trigger] <usize as AddAssignSpec<&usize>>::add_assign_req(&a, b) == (a + *b <= usize::MAX),
;
pub broadcast axiom fn add_assign_ref_spec(a: usize, b: &usize)
    ensures a + *b <= usize::MAX ==> #[trigger] <usize as AddAssignSpec<&usize>>::add_assign_spec(&a, b) == a + *b,
;
pub broadcast axiom fn add_assign_ref_obeys()
    ensures #[trigger] <usize as AddAssignSpec<&usize>>::obeys_add_assign_spec(),
;
pub assume_specification [usize::pow] (b: usize, e: u32) -> (r: usize)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= usize::MAX,
    ensures r == vstd::arithmetic::power::pow(b as int, e as nat),
;

#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct It<X> { v: std::vec::IntoIter<X> }
impl<X> It<X> {
    /// all items, from the start
    pub uninterp spec fn orig(&self) -> Seq<X>;
    /// how many have been given already
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn fresh(&self, s: Seq<X>) -> bool { self.orig() == s && self.pos() == 0 && self@ =~= s }
}
impl<X> View for It<X> {
    type V = Seq<X>;
    open spec fn view(&self) -> Seq<X> { self.orig().skip(self.pos()) }
}
pub open spec fn refs<'a, X>(s: Seq<X>) -> Seq<&'a X> { s.map_values(|x: X| &x) }
pub open spec fn derefs<X>(s: Seq<&X>) -> Seq<X> { s.map_values(|x: &X| *x) }
pub open spec fn enumerated<X>(s: Seq<X>) -> Seq<(usize, X)> { s.map(|i: int, x: X| (i as usize, x)) }
pub open spec fn zipped<X, Y>(s: Seq<X>, t: Seq<Y>) -> Seq<(X, Y)> {
    Seq::new(if s.len() < t.len() { s.len() } else { t.len() }, |i: int| (s[i], t[i]))
}
pub open spec fn at_most(n: usize, len: nat) -> int { if n < len { n as int } else { len as int } }
pub open spec fn sum(s: Seq<usize>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat } }
pub open spec fn sum_refs(s: Seq<&usize>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum_refs(s.drop_last()) + *s.last() as nat } }
/// `requires` and `ensures` of a function behind a reference, for the contracts of closures that
/// capture it.
pub open spec fn pre1<A, O, F: Fn(A) -> O>(f: &F, a: A) -> bool { f.requires((a,)) }
pub open spec fn post1<A, O, F: Fn(A) -> O>(f: &F, a: A, o: O) -> bool { f.ensures((a,), o) }
pub open spec fn pre2<A, B, O, F: Fn(A, B) -> O>(f: &F, a: A, b: B) -> bool { f.requires((a, b)) }
pub open spec fn post2<A, B, O, F: Fn(A, B) -> O>(f: &F, a: A, b: B, o: O) -> bool { f.ensures((a, b), o) }
/// `r` lists the images of the items of `s` under `f`, in order.
pub open spec fn mapped<X, Y, F: Fn(X) -> Y>(f: F, s: Seq<X>, r: Seq<Y>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] r[i])
}
pub open spec fn chunked<X>(s: Seq<X>, n: int) -> Seq<Seq<X>>
    decreases s.len()
{
    if n <= 0 || s.len() == 0 { Seq::empty() }
    else if s.len() <= n { seq![s] }
    else { seq![s.take(n)] + chunked(s.skip(n), n) }
}

pub open spec fn joined<X>(s: Seq<Seq<X>>) -> Seq<X>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last() } }

pub open spec fn parts<Y, J: IntoIt<Y>>(o: Seq<J>) -> Seq<Seq<Y>> { o.map_values(|j: J| j.items()) }

/// The elements of `s` marked in `keep`, in order.
pub open spec fn select<X>(s: Seq<X>, keep: Seq<bool>) -> Seq<X>
    decreases s.len()
{
    if s.len() == 0 || keep.len() != s.len() { Seq::empty() }
    else if keep.last() { select(s.drop_last(), keep.drop_last()).push(s.last()) }
    else { select(s.drop_last(), keep.drop_last()) }
}
/// The values present in `s`, in order.
pub open spec fn present<X>(s: Seq<Option<X>>) -> Seq<X>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last() is Some { present(s.drop_last()).push(s.last()->0) }
    else { present(s.drop_last()) }
}
/// `r` is what folding `s` with `f` from `init`, from the left, gives.
pub open spec fn folds<X, B, F: Fn(B, X) -> B>(f: F, init: B, s: Seq<X>, r: B) -> bool {
    exists|a: Seq<B>| fold_steps(f, init, s, a) && a.last() == r
}
/// `folds` for a function of references, from the left.
pub open spec fn fold_left_steps<T, U, F: Fn(&U, &T) -> U>(f: F, init: U, s: Seq<T>, a: Seq<U>) -> bool {
    &&& a.len() == s.len() + 1
    &&& a[0] == init
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((&a[i], #[trigger] refs(s)[i]), a[i + 1])
}
pub open spec fn fold_right_steps<T, U, F: Fn(&T, &U) -> U>(f: F, init: U, s: Seq<T>, a: Seq<U>) -> bool {
    &&& a.len() == s.len() + 1
    &&& a[0] == init
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] refs(s)[i], &a[i]), a[i + 1])
}
/// `f` is defined on all that folding `s` reaches.
pub open spec fn left_ok<T, U, F: Fn(&U, &T) -> U>(f: F, init: U, s: Seq<T>) -> bool {
    forall|i: int, a: Seq<U>| 0 <= i < s.len() && #[trigger] fold_left_steps(f, init, s.take(i), a) ==> f.requires((&a.last(), &s[i]))
}
pub open spec fn right_ok<T, U, F: Fn(&T, &U) -> U>(f: F, init: U, s: Seq<T>) -> bool {
    forall|i: int, a: Seq<U>| 0 <= i < s.len() && #[trigger] fold_right_steps(f, init, s.take(i), a) ==> f.requires((&s[i], &a.last()))
}
/// `r` is what folding `s` from the left with `f` gives.
pub open spec fn folded_left<T, U, F: Fn(&U, &T) -> U>(f: F, init: U, s: Seq<T>, r: U) -> bool {
    exists|a: Seq<U>| #[trigger] fold_left_steps(f, init, s, a) && a.last() == r
}
/// ... where `s` lists the elements from the last to the first for a fold from the right
pub open spec fn folded_right<T, U, F: Fn(&T, &U) -> U>(f: F, init: U, s: Seq<T>, r: U) -> bool {
    exists|a: Seq<U>| #[trigger] fold_right_steps(f, init, s, a) && a.last() == r
}
pub open spec fn fold_steps<X, B, F: Fn(B, X) -> B>(f: F, init: B, s: Seq<X>, a: Seq<B>) -> bool {
    &&& a.len() == s.len() + 1
    &&& a[0] == init
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((a[i], #[trigger] s[i]), a[i + 1])
}

impl<X> It<X> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&X) -> bool>(self, f: F) -> (r: It<X>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures r.fresh(r.orig()), exists|keep: Seq<bool>| keep.len() == self@.len()
            && (forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), #[trigger] keep[i])) && r.orig() == #[trigger] select(self@, keep),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn partition<F: Fn(&X) -> bool>(self, f: F) -> (r: (Vec<X>, Vec<X>))
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures exists|keep: Seq<bool>| keep.len() == self@.len()
            && (forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), #[trigger] keep[i]))
            && r.0@ == #[trigger] select(self@, keep) && r.1@ == select(self@, keep.map_values(|b: bool| !b)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<Y, F: Fn(X) -> Option<Y>>(self, f: F) -> (r: It<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r.fresh(r.orig()), exists|o: Seq<Option<Y>>| #[trigger] mapped(f, self@, o) && r.orig() == present(o),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<Y, J: IntoIt<Y>, F: Fn(X) -> J>(self, f: F) -> (r: It<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r.fresh(r.orig()), exists|o: Seq<J>| #[trigger] mapped(f, self@, o) && r.orig() == joined(parts::<Y, J>(o)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, X) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((b, self@[i])),
        ensures folds(f, init, self@, r),
    { unimplemented!() }
    /// `fold` for a function that is defined on what the fold reaches only.
    #[verifier::external_body]
    pub fn fold_reach_<B, F: Fn(B, X) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|i: int, a: Seq<B>| 0 <= i < self@.len() && #[trigger] fold_steps(f, init, self@.take(i), a) ==> f.requires((a.last(), self@[i])),
        ensures folds(f, init, self@, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        ensures
            final(self).orig() == old(self).orig(),
            0 <= old(self).pos() <= old(self).orig().len(),
            old(self).pos() == old(self).orig().len() ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self).orig().len() ==> r == Some(old(self).orig()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == final(self).orig().len(),
            0 <= final(self).pos() <= final(self).orig().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: It<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r.fresh(r.orig()), mapped(f, self@, r.orig()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<X>)
        ensures r.fresh(self@.take(at_most(n, self@.len()))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<X>)
        ensures r.fresh(self@.skip(at_most(n, self@.len()))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<J: IntoIt<X>>(self, other: J) -> (r: It<X>)
        ensures r.fresh(self@ + other.items()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<Y, J: IntoIt<Y>>(self, other: J) -> (r: It<(X, Y)>)
        ensures r.fresh(zipped(self@, other.items())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, X)>)
        ensures r.fresh(enumerated(self@)), self@.len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev_(self) -> (r: It<X>)
        ensures r.fresh(self@.reverse()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromIt<X>>(self) -> (r: C)
        ensures r.made_from(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter_(self) -> (r: It<X>)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 <= self@.len(), r.1 is Some ==> self@.len() <= r.1->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<P: Fn(X) -> bool>(self, p: P) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> p.requires((#[trigger] self@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < self@.len() ==> p.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && p.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<P: Fn(X) -> bool>(self, p: P) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> p.requires((#[trigger] self@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self@.len() && p.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> p.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<P: Fn(&X) -> bool>(self, p: P) -> (r: Option<X>)
        requires forall|i: int| 0 <= i < self@.len() ==> p.requires((&#[trigger] self@[i],)),
        ensures found(p, self@, r),
    { unimplemented!() }
}
/// The first item of `s` that `p` accepts, if there is one.
pub open spec fn found<X, P: Fn(&X) -> bool>(p: P, s: Seq<X>, r: Option<X>) -> bool {
    match r {
        Some(x) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && p.ensures((&x,), true) && forall|j: int| 0 <= j < i ==> p.ensures((&#[trigger] s[j],), false),
        None => forall|j: int| 0 <= j < s.len() ==> p.ensures((&#[trigger] s[j],), false),
    }
}
#[verifier::external_body]
pub fn once_<X>(x: X) -> (r: It<X>)
    ensures r.fresh(seq![x]),
{ unimplemented!() }
/// `Into` / `From`: the conversion is a function of the value.
pub trait IntoTo<X>: Sized {
    spec fn conv(&self) -> X;
    fn into_to_(self) -> (r: X)
        ensures r == self.conv();
}
impl<'a, X> It<&'a X> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<X>)
        ensures r.fresh(derefs(self@)),
    { unimplemented!() }
}
impl<'a> It<&'a usize> {
    #[verifier::external_body]
    pub fn sum(self) -> (r: usize)
        requires sum_refs(self@) <= usize::MAX,
        ensures r == sum_refs(self@),
    { unimplemented!() }
}
impl It<usize> {
    #[verifier::external_body]
    pub fn sum(self) -> (r: usize)
        requires sum(self@) <= usize::MAX,
        ensures r == sum(self@),
    { unimplemented!() }
}
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
pub open spec fn seq_eq<T: PartialEq>(s: Seq<T>, t: Seq<T>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].eq_spec(&t[i])
}
/// Lexicographic comparison.
pub open spec fn seq_partial_cmp<T: PartialOrd>(s: Seq<T>, t: Seq<T>) -> Option<core::cmp::Ordering>
    decreases s.len()
{
    if s.len() == 0 { Some(if t.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less }) }
    else if t.len() == 0 { Some(core::cmp::Ordering::Greater) }
    else { match s[0].partial_cmp_spec(&t[0]) {
        Some(core::cmp::Ordering::Equal) => seq_partial_cmp(s.skip(1), t.skip(1)),
        o => o,
    } }
}
pub open spec fn seq_cmp<T: Ord>(s: Seq<T>, t: Seq<T>) -> core::cmp::Ordering
    decreases s.len()
{
    if s.len() == 0 { if t.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less } }
    else if t.len() == 0 { core::cmp::Ordering::Greater }
    else { match s[0].cmp_spec(&t[0]) {
        core::cmp::Ordering::Equal => seq_cmp(s.skip(1), t.skip(1)),
        o => o,
    } }
}
impl<'a, T> It<&'a T> {
    #[verifier::external_body]
    pub fn eq_(self, other: It<&T>) -> (r: bool) where T: PartialEq
        ensures T::obeys_eq_spec() ==> r == seq_eq(derefs(self@), derefs(other@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn partial_cmp_(self, other: It<&T>) -> (r: Option<core::cmp::Ordering>) where T: PartialOrd
        ensures T::obeys_partial_cmp_spec() ==> r == seq_partial_cmp(derefs(self@), derefs(other@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp_(self, other: It<&T>) -> (r: core::cmp::Ordering) where T: Ord
        ensures T::obeys_cmp_spec() ==> r == seq_cmp(derefs(self@), derefs(other@)),
    { unimplemented!() }
}
/// What `Vec::sort` makes of a sequence.
pub uninterp spec fn sorted_seq<T: Ord>(s: Seq<T>) -> Seq<T>;
/// The state of a hasher after a value has been fed to it.
pub uninterp spec fn fed<H, K>(h: H, k: K) -> H;
pub open spec fn fed_all<H, K>(h: H, s: Seq<K>) -> H
    decreases s.len()
{ if s.len() == 0 { h } else { fed(fed_all(h, s.drop_last()), s.last()) } }
pub trait HashShim: Sized {
    #[verifier::external_body]
    fn hash_<H>(&self, state: &mut H)
        ensures *final(state) == fed(*old(state), *self),
    { unimplemented!() }
}
impl<K> HashShim for K {}
pub trait RangeShim: Sized {
    spec fn down(&self) -> Seq<usize>;
    fn rev_(self) -> (r: It<usize>)
        ensures r.fresh(self.down());
}
impl RangeShim for core::ops::Range<usize> {
    open spec fn down(&self) -> Seq<usize> {
        Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.end - 1 - i) as usize)
    }
    #[verifier::external_body]
    fn rev_(self) -> (r: It<usize>) { unimplemented!() }
}
/// `collect`
pub trait FromIt<X>: Sized { spec fn made_from(&self, s: Seq<X>) -> bool; }
#[verifier::external_body]
pub fn make_from_<X, C: FromIt<X>, J: IntoIt<X>>(j: J) -> (r: C)
    ensures r.made_from(j.items()),
{ unimplemented!() }
impl<X> FromIt<X> for Vec<X> { open spec fn made_from(&self, s: Seq<X>) -> bool { self@ == s } }
impl<X, C: FromIt<X>> FromIt<Option<X>> for Option<C> {
    open spec fn made_from(&self, s: Seq<Option<X>>) -> bool {
        match self {
            Some(c) => (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some) && c.made_from(somes(s)),
            None => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is None,
        }
    }
}
impl<X, E, C: FromIt<X>> FromIt<Result<X, E>> for Result<C, E> {
    open spec fn made_from(&self, s: Seq<Result<X, E>>) -> bool {
        match self {
            Ok(c) => (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Ok) && c.made_from(oks(s)),
            Err(e) => exists|i: int| first_err(s, i, *e),
        }
    }
}
pub open spec fn somes<X>(s: Seq<Option<X>>) -> Seq<X> { s.map_values(|o: Option<X>| o->0) }
pub open spec fn oks<X, E>(s: Seq<Result<X, E>>) -> Seq<X> { s.map_values(|o: Result<X, E>| o->Ok_0) }
/// The first error of `s` is `e`, at `i`.
pub open spec fn first_err<X, E>(s: Seq<Result<X, E>>, i: int, e: E) -> bool {
    0 <= i < s.len() && s[i] == Err::<X, E>(e) && forall|j: int| 0 <= j < i ==> #[trigger] s[j] is Ok
}

/// Anything that can be turned into a finite iterator.
pub trait IntoIt<X>: Sized {
    spec fn items(&self) -> Seq<X>;
    fn into_iter_(self) -> (r: It<X>)
        ensures r.fresh(self.items());
    #[verifier::external_body]
    fn collect<C: FromIt<X>>(self) -> (r: C)
        ensures r.made_from(self.items()),
    { unimplemented!() }
    #[verifier::external_body]
    fn fold<B, F: Fn(B, X) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, i: int| 0 <= i < self.items().len() ==> #[trigger] f.requires((b, self.items()[i])),
        ensures folds(f, init, self.items(), r),
    { unimplemented!() }
    #[verifier::external_body]
    fn map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: It<Y>)
        requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],)),
        ensures r.fresh(r.orig()), mapped(f, self.items(), r.orig()),
    { unimplemented!() }
}
impl<X> IntoIt<X> for It<X> {
    open spec fn items(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<X>) { unimplemented!() }
}
impl<X> IntoIt<X> for Vec<X> {
    open spec fn items(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<X>) { unimplemented!() }
}
impl<'a, X> IntoIt<&'a X> for &'a Vec<X> {
    open spec fn items(&self) -> Seq<&'a X> { refs(self@) }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<&'a X>) { unimplemented!() }
}
impl<'a, X> IntoIt<&'a X> for &'a [X] {
    open spec fn items(&self) -> Seq<&'a X> { refs(self@) }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<&'a X>) { unimplemented!() }
}
impl<X, const N: usize> IntoIt<X> for [X; N] {
    open spec fn items(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<X>) { unimplemented!() }
}
#[verifier::external_body]
pub fn from_iter_<X, I: IntoIt<X>>(i: I) -> (r: Vec<X>)
    ensures r@ == i.items(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_of_<X, const N: usize>(a: [X; N]) -> (r: Vec<X>)
    ensures r@ == a@,
{ unimplemented!() }
pub trait IntoSame: Sized {
    fn into_same_(self) -> (r: Self)
        ensures r == self;
}
impl<X> IntoSame for Vec<X> {
    fn into_same_(self) -> (r: Self) { self }
}
pub fn vec_id_<X>(v: Vec<X>) -> (r: Vec<X>)
    ensures r == v,
{ v }

pub trait SeqShim<X> {
    spec fn seq(&self) -> Seq<X>;
    fn iter_(&self) -> (r: It<&X>)
        ensures r.fresh(refs(self.seq()));
    fn chunks_(&self, n: usize) -> (r: It<&[X]>)
        requires n > 0,
        ensures r.fresh(r.orig()), r.orig().map_values(|c: &[X]| c@) == chunked(self.seq(), n as int),
            r.orig().len() == chunked(self.seq(), n as int).len(),
            forall|i: int| 0 <= i < r.orig().len() ==> (#[trigger] r.orig()[i])@ == chunked(self.seq(), n as int)[i];
    fn slice_from_(&self, n: usize) -> (r: &[X])
        requires n <= self.seq().len(),
        ensures r@ == self.seq().skip(n as int);
    fn slice_to_(&self, n: usize) -> (r: &[X])
        requires n <= self.seq().len(),
        ensures r@ == self.seq().take(n as int);
}
impl<X> SeqShim<X> for Vec<X> {
    open spec fn seq(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn iter_(&self) -> (r: It<&X>) { unimplemented!() }
    #[verifier::external_body]
    fn chunks_(&self, n: usize) -> (r: It<&[X]>) { unimplemented!() }
    #[verifier::external_body]
    fn slice_from_(&self, n: usize) -> (r: &[X]) { unimplemented!() }
    #[verifier::external_body]
    fn slice_to_(&self, n: usize) -> (r: &[X]) { unimplemented!() }
}
impl<X> SeqShim<X> for [X] {
    open spec fn seq(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn iter_(&self) -> (r: It<&X>) { unimplemented!() }
    #[verifier::external_body]
    fn chunks_(&self, n: usize) -> (r: It<&[X]>) { unimplemented!() }
    #[verifier::external_body]
    fn slice_from_(&self, n: usize) -> (r: &[X]) { unimplemented!() }
    #[verifier::external_body]
    fn slice_to_(&self, n: usize) -> (r: &[X]) { unimplemented!() }
}
pub trait ToVecShim<X> {
    spec fn tseq(&self) -> Seq<X>;
    fn to_vec_(&self) -> (r: Vec<X>) where X: Clone
        ensures r@ == self.tseq();
}
impl<X> ToVecShim<X> for [X] {
    open spec fn tseq(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<X>) where X: Clone { unimplemented!() }
}
impl<X> ToVecShim<X> for Vec<X> {
    open spec fn tseq(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<X>) where X: Clone { unimplemented!() }
}
pub trait VecAsRef<X> {
    spec fn rseq(&self) -> Seq<X>;
    fn as_ref_(&self) -> (r: &[X])
        ensures r@ == self.rseq();
}
impl<X> VecAsRef<X> for Vec<X> {
    open spec fn rseq(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn as_ref_(&self) -> (r: &[X]) { unimplemented!() }
}
pub trait VecShim<X>: Sized {
    spec fn vseq(&self) -> Seq<X>;
    fn extend_<J: IntoIt<X>>(&mut self, other: J)
        ensures final(self).vseq() == old(self).vseq() + other.items();
    fn sort_(&mut self) where X: Ord
        ensures final(self).vseq() == sorted_seq(old(self).vseq());
    fn drain_(&mut self, all: core::ops::RangeFull) -> (r: It<X>)
        ensures r.fresh(old(self).vseq()), final(self).vseq().len() == 0;
    fn swap_(&mut self, i: usize, j: usize)
        requires i < old(self).vseq().len(), j < old(self).vseq().len(),
        ensures final(self).vseq() == old(self).vseq().update(i as int, old(self).vseq()[j as int]).update(j as int, old(self).vseq()[i as int]);
}
impl<X> VecShim<X> for Vec<X> {
    open spec fn vseq(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn extend_<J: IntoIt<X>>(&mut self, other: J) { unimplemented!() }
    #[verifier::external_body]
    fn sort_(&mut self) where X: Ord { unimplemented!() }
    #[verifier::external_body]
    fn drain_(&mut self, all: core::ops::RangeFull) -> (r: It<X>) { unimplemented!() }
    #[verifier::external_body]
    fn swap_(&mut self, i: usize, j: usize) { unimplemented!() }
}
pub trait AsRefShim<X> {
    spec fn target(&self) -> X;
    fn as_ref_(&self) -> (r: &X)
        ensures *r == self.target();
}
impl<X> AsRefShim<X> for Arc<X> {
    open spec fn target(&self) -> X { **self }
    fn as_ref_(&self) -> (r: &X) { &**self }
}

// ---- lemmas about the above

pub proof fn lemma_sum_refs(s: Seq<usize>)
    ensures sum_refs(refs(s)) == sum(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(refs(s).drop_last() =~= refs(s.drop_last()));
        lemma_sum_refs(s.drop_last());
    }
}
pub proof fn lemma_sum_split(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len(),
    ensures sum(s) == sum(s.take(i)) + sum(s.skip(i)),
    decreases s.len(),
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        assert(s.skip(i) =~= Seq::empty());
    } else {
        lemma_sum_split(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
        assert(s.drop_last().skip(i) =~= s.skip(i).drop_last());
    }
}
pub proof fn lemma_sum_step(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(),
    ensures sum(s.take(i + 1)) == sum(s.take(i)) + s[i], sum(s.take(i + 1)) <= sum(s),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    lemma_sum_split(s, i + 1);
}
pub broadcast proof fn lemma_derefs_refs<X>(s: Seq<X>)
    ensures #[trigger] derefs(refs(s)) == s,
{
    assert(derefs(refs(s)) =~= s);
}
pub broadcast proof fn lemma_derefs_take<'a, X>(s: Seq<X>, n: int)
    requires 0 <= n <= s.len(),
    ensures #[trigger] derefs(refs(s).take(n)) == s.take(n),
{
    assert(derefs(refs(s).take(n)) =~= s.take(n));
}
pub broadcast proof fn lemma_derefs_skip<'a, X>(s: Seq<X>, n: int)
    requires 0 <= n <= s.len(),
    ensures #[trigger] derefs(refs(s).skip(n)) == s.skip(n),
{
    assert(derefs(refs(s).skip(n)) =~= s.skip(n));
}
pub broadcast proof fn lemma_select_refs<X>(s: Seq<X>, keep: Seq<bool>)
    ensures derefs(#[trigger] select(refs(s), keep)) == select(s, keep),
    decreases s.len(),
{
    if s.len() > 0 && keep.len() == s.len() {
        assert(refs(s).drop_last() =~= refs(s.drop_last()));
        lemma_select_refs(s.drop_last(), keep.drop_last());
    }
    assert(derefs(select(refs(s), keep)) =~= select(s, keep));
}
pub proof fn lemma_chunked_refs<X>(s: Seq<X>, n: int)
    requires n > 0,
    ensures
        chunked(refs(s), n).len() == chunked(s, n).len(),
        forall|i: int| 0 <= i < chunked(s, n).len() ==> derefs(#[trigger] chunked(refs(s), n)[i]) == chunked(s, n)[i],
    decreases s.len(),
{
    let (a, b) = (chunked(refs(s), n), chunked(s, n));
    if s.len() > n {
        assert(refs(s).skip(n) =~= refs(s.skip(n)));
        lemma_chunked_refs(s.skip(n), n);
        assert forall|i: int| 0 <= i < b.len() implies derefs(#[trigger] a[i]) == b[i] by {
            if i == 0 { assert(derefs(a[0]) =~= b[0]); } else { assert(a[i] == chunked(refs(s.skip(n)), n)[i - 1]); assert(b[i] == chunked(s.skip(n), n)[i - 1]); }
        }
    } else if s.len() > 0 {
        assert(derefs(refs(s)) =~= s);
    }
}
pub broadcast proof fn lemma_refs_reverse<X>(s: Seq<X>)
    ensures #[trigger] refs(s).reverse() == refs(s.reverse()),
{
    assert(refs(s).reverse() =~= refs(s.reverse()));
}
pub broadcast proof fn lemma_refs_len<X>(s: Seq<X>)
    ensures #[trigger] refs(s).len() == s.len(),
{}
pub broadcast proof fn lemma_refs_index<X>(s: Seq<X>, i: int)
    requires 0 <= i < s.len(),
    ensures *(#[trigger] refs(s)[i]) == s[i],
{}
pub proof fn lemma_joined_cons<X>(a: Seq<X>, s: Seq<Seq<X>>)
    ensures joined(seq![a] + s) == a + joined(s),
    decreases s.len(),
{
    if s.len() == 0 {
        assert((seq![a] + s).drop_last() =~= Seq::empty());
        assert(joined(Seq::<Seq<X>>::empty()) =~= Seq::empty());
        assert(joined(seq![a] + s) =~= a + joined(s));
    } else {
        assert((seq![a] + s).drop_last() =~= seq![a] + s.drop_last());
        lemma_joined_cons(a, s.drop_last());
        assert(joined(seq![a] + s) =~= a + joined(s));
    }
}
/// The chunks of a sequence, joined, are the sequence.
pub proof fn lemma_chunks_joined<X>(s: Seq<X>, n: int)
    requires n > 0,
    ensures joined(chunked(s, n)) == s,
    decreases s.len(),
{
    if s.len() == 0 {
        assert(joined(chunked(s, n)) =~= s);
    } else if s.len() <= n {
        lemma_joined_cons(s, Seq::empty());
        assert(seq![s] + Seq::empty() =~= seq![s]);
        assert(joined(Seq::<Seq<X>>::empty()) =~= Seq::empty());
        assert(joined(chunked(s, n)) =~= s);
    } else {
        lemma_chunks_joined(s.skip(n), n);
        lemma_joined_cons(s.take(n), chunked(s.skip(n), n));
        assert(joined(chunked(s, n)) =~= s);
    }
}
/// Each chunk is non-empty, and of at least two elements there are fewer chunks of two or more than
/// elements.
pub proof fn lemma_chunks_sizes<X>(s: Seq<X>, n: int)
    requires n > 0,
    ensures
        forall|i: int| 0 <= i < chunked(s, n).len() ==> 0 < (#[trigger] chunked(s, n)[i]).len() <= n,
        chunked(s, n).len() <= s.len(),
        n > 1 && s.len() > 1 ==> chunked(s, n).len() < s.len(),
        s.len() > 0 ==> chunked(s, n).len() > 0,
    decreases s.len(),
{
    let c = chunked(s, n);
    if s.len() > n {
        let d = chunked(s.skip(n), n);
        lemma_chunks_sizes(s.skip(n), n);
        assert forall|i: int| 0 <= i < c.len() implies 0 < (#[trigger] c[i]).len() <= n by { if i > 0 { assert(c[i] == d[i - 1]); } }
    }
}
pub proof fn lemma_joined_prefix<X>(c: Seq<Seq<X>>, i: int)
    requires 0 <= i < c.len(),
    ensures
        joined(c.take(i + 1)) == joined(c.take(i)) + c[i],
        joined(c.take(i)).len() + c[i].len() <= joined(c).len(),
        joined(c).subrange(joined(c.take(i)).len() as int, (joined(c.take(i)).len() + c[i].len()) as int) == c[i],
        joined(c.take(i)) == joined(c).take(joined(c.take(i)).len() as int),
        joined(c.take(i + 1)) == joined(c).take(joined(c.take(i + 1)).len() as int),
    decreases c.len() - i,
{
    assert(c.take(i + 1).drop_last() =~= c.take(i));
    if i + 1 < c.len() {
        lemma_joined_prefix(c, i + 1);
        let p = joined(c.take(i));
        let q = joined(c.take(i + 1));
        assert(q == p + c[i]);
        assert(q == joined(c).take(q.len() as int));
        assert(q.take(p.len() as int) =~= p);
        assert(joined(c).take(q.len() as int).take(p.len() as int) =~= joined(c).take(p.len() as int));
        assert(joined(c).subrange(p.len() as int, q.len() as int) =~= q.subrange(p.len() as int, q.len() as int));
        assert(q.subrange(p.len() as int, q.len() as int) =~= c[i]);
    } else {
        assert(c.take(i + 1) =~= c);
        assert(joined(c).take(joined(c).len() as int) =~= joined(c));
        let p = joined(c.take(i));
        assert(joined(c).take(p.len() as int) =~= p);
        assert(joined(c).subrange(p.len() as int, joined(c).len() as int) =~= c[i]);
    }
}
pub broadcast group prelude_lemmas {
    faithful_clone, faithful_clone_call, add_assign_ref_req, add_assign_ref_spec, add_assign_ref_obeys, lemma_derefs_refs, lemma_derefs_take, lemma_derefs_skip, lemma_refs_len, lemma_refs_index, lemma_select_refs,
}
pub assume_specification<T> [core::hint::black_box::<T>] (x: T) -> (r: T)
    ensures r == x,
;
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [std::sync::Arc::<T, A>::ptr_eq] (a: &Arc<T, A>, b: &Arc<T, A>) -> (r: bool)
    ensures r ==> a == b,
;
pub assume_specification<T> [core::mem::drop::<T>] (x: T)
;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::max::<T>] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b }),
;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::min::<T>] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a }),
;
pub broadcast proof fn lemma_vec_len<T>(v: Vec<T>)
    ensures #[trigger] v@.len() <= usize::MAX,
{
    vstd::std_specs::vec::axiom_spec_len(&v);
    assert(v.len() == v@.len());
}
pub broadcast group prelude_len { lemma_vec_len, lemma_refs_reverse }

pub proof fn lemma_fold_left_step<T, U, F: Fn(&U, &T) -> U>(f: F, init: U, s: Seq<T>, k: int, a: Seq<U>, r: U)
    requires 0 <= k < s.len(), fold_left_steps(f, init, s.take(k), a), f.ensures((&a.last(), &s[k]), r),
    ensures fold_left_steps(f, init, s.take(k + 1), a.push(r)),
{
    let b = a.push(r);
    assert forall|i: int| 0 <= i < k + 1 implies f.ensures((&b[i], #[trigger] refs(s.take(k + 1))[i]), b[i + 1]) by {
        if i < k { assert(refs(s.take(k))[i] == refs(s.take(k + 1))[i]); }
    }
}
pub proof fn lemma_fold_right_step<T, U, F: Fn(&T, &U) -> U>(f: F, init: U, s: Seq<T>, k: int, a: Seq<U>, r: U)
    requires 0 <= k < s.len(), fold_right_steps(f, init, s.take(k), a), f.ensures((&s[k], &a.last()), r),
    ensures fold_right_steps(f, init, s.take(k + 1), a.push(r)),
{
    let b = a.push(r);
    assert forall|i: int| 0 <= i < k + 1 implies f.ensures((#[trigger] refs(s.take(k + 1))[i], &b[i]), b[i + 1]) by {
        if i < k { assert(refs(s.take(k))[i] == refs(s.take(k + 1))[i]); }
    }
}
pub broadcast proof fn lemma_present_all<X>(o: Seq<Option<X>>)
    requires forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] is Some,
    ensures #[trigger] present(o) == somes(o),
    decreases o.len(),
{
    if o.len() > 0 { lemma_present_all(o.drop_last()); }
    assert(present(o) =~= somes(o));
}
pub broadcast proof fn lemma_present_tail<X>(o: Seq<Option<X>>)
    requires o.len() > 0, o[0] is None, forall|i: int| 1 <= i < o.len() ==> #[trigger] o[i] is Some,
    ensures #[trigger] present(o) == somes(o.skip(1)),
    decreases o.len(),
{
    if o.len() > 1 {
        lemma_present_tail(o.drop_last());
        assert(o.drop_last().skip(1) =~= o.skip(1).drop_last());
        assert(present(o) =~= somes(o.skip(1)));
    } else {
        assert(present(o.drop_last()) =~= Seq::empty());
        assert(present(o) =~= somes(o.skip(1)));
    }
}
pub broadcast group prelude_present { lemma_present_all, lemma_present_tail }
/// Sorting neither adds nor removes elements.
pub axiom fn lemma_sorted_len<T: Ord>(s: Seq<T>)
    ensures sorted_seq(s).len() == s.len(), sorted_seq(s).to_multiset() == s.to_multiset(),
;
// ---- laws of lists

pub open spec fn bindl<X, Y>(s: Seq<X>, f: spec_fn(X) -> Seq<Y>) -> Seq<Y> { joined(s.map_values(f)) }
pub proof fn lemma_joined_append<X>(a: Seq<Seq<X>>, b: Seq<Seq<X>>)
    ensures joined(a + b) == joined(a) + joined(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(joined(a + b) =~= joined(a) + joined(b));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_joined_append(a, b.drop_last());
        assert(joined(a + b) =~= joined(a) + joined(b));
    }
}
pub proof fn law_list_left_identity<X, Y>(x: X, f: spec_fn(X) -> Seq<Y>)
    ensures bindl(seq![x], f) == f(x),
{
    let p = seq![x].map_values(f);
    assert(p.drop_last() =~= Seq::empty());
    assert(joined(p.drop_last()) =~= Seq::empty());
    assert(bindl(seq![x], f) =~= f(x));
}
pub proof fn law_list_right_identity<X>(s: Seq<X>)
    ensures bindl(s, |x: X| seq![x]) == s,
    decreases s.len(),
{
    let f = |x: X| seq![x];
    if s.len() > 0 {
        law_list_right_identity(s.drop_last());
        assert(s.map_values(f).drop_last() =~= s.drop_last().map_values(f));
    }
    assert(bindl(s, f) =~= s);
}
pub proof fn law_list_associativity<X, Y, Z>(s: Seq<X>, f: spec_fn(X) -> Seq<Y>, g: spec_fn(Y) -> Seq<Z>)
    ensures bindl(bindl(s, f), g) == bindl(s, |x: X| bindl(f(x), g)),
    decreases s.len(),
{
    let h = |x: X| bindl(f(x), g);
    if s.len() == 0 {
        assert(s.map_values(f) =~= Seq::empty());
        assert(s.map_values(h) =~= Seq::empty());
        assert(bindl(s, f).map_values(g) =~= Seq::empty());
    } else {
        let p = s.drop_last();
        law_list_associativity(p, f, g);
        assert(s.map_values(f).drop_last() =~= p.map_values(f));
        assert(s.map_values(h).drop_last() =~= p.map_values(h));
        assert(bindl(s, f) =~= bindl(p, f) + f(s.last()));
        assert(bindl(s, f).map_values(g) =~= bindl(p, f).map_values(g) + f(s.last()).map_values(g));
        lemma_joined_append(bindl(p, f).map_values(g), f(s.last()).map_values(g));
        assert(bindl(s, h) =~= bindl(p, h) + h(s.last()));
    }
}
