// Asynchronous computations: what awaiting one may give, in terms of what awaiting its parts may give.
// The extraction writes an `async` block as its deferred computation and `.await` as its value:
// suspension points are left out, a future is the relation to the values it may be awaited to.
//@ include inc/fun
//@ path panic::AssertUnwindSafe AssertUnwindSafe
//@ method boxed boxed_
//@ raw
use std::marker::PhantomData;
broadcast use {faithful_clone, faithful_clone_call};
//@ include inc/future
//@ raw
/// `clone` of a value whose type is not known to be `Clone` to the verifier (a closure)
pub trait Clone_: Sized {
    #[verifier::external_body]
    fn clone_(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Clone_ for T {}
/// what a caught panic carries
#[verifier::external_body]
pub struct Caught { c: Box<dyn core::any::Any + Send> }
pub struct AssertUnwindSafe<F>(pub F);
impl<F: Future> AssertUnwindSafe<F> {
    /// when the future ends, its value; otherwise what it panicked with
    #[verifier::external_body]
    pub fn catch_unwind<'a>(self) -> (r: BoxFuture<'a, Result<F::Output, Caught>>)
        requires self.0.can(),
        ensures r.can(), forall|o: Result<F::Output, Caught>| #[trigger] r.gives(o) ==> (o matches Ok(v) ==> self.0.gives(v)),
    { unimplemented!() }
}
//@ type datatypes/async_monad.rs AsyncMInner #[verifier::reject_recursive_types(A)] #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ type datatypes/async_monad.rs AsyncM #[verifier::reject_recursive_types(A)] #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ raw
impl<A> AsyncMInner<A> {
    /// awaiting it is defined
    pub open spec fn able(&self) -> bool {
        match self { AsyncMInner::Pure(_) => true, AsyncMInner::Effect(f) => f.rq0() && forall|t: BoxFuture<'static, A>| #[trigger] f.en0(t) ==> t.can() }
    }
    /// awaiting it may give `a`
    pub open spec fn gives(&self, a: A) -> bool {
        match self { AsyncMInner::Pure(x) => a == **x, AsyncMInner::Effect(f) => exists|t: BoxFuture<'static, A>| #[trigger] f.en0(t) && t.gives(a) }
    }
}
impl<A> AsyncM<A> {
    pub open spec fn able(&self) -> bool { self.inner.able() }
    pub open spec fn gives(&self, a: A) -> bool { self.inner.gives(a) }
}
/// `f` takes everything, and what it gives can be awaited
pub open spec fn steps<A, U: Future, F: Fn(A) -> U>(f: &F) -> bool {
    &&& forall|a: A| #[trigger] f.rq(a)
    &&& forall|a: A, u: U| #[trigger] f.en(a, u) ==> u.can()
}
/// awaiting `f` at what `m` gives may give `b`
pub open spec fn stepped<A, U: Future, F: Fn(A) -> U>(m: &AsyncMInner<A>, f: &F, b: U::Output) -> bool {
    exists|a: A, u: U| #[trigger] f.en(a, u) && m.gives(a) && u.gives(b)
}
//@ fn datatypes/async_monad.rs AsyncM::new props C23
    requires f.rq0(), forall|u: F| #[trigger] f.en0(u) ==> u.can(),
    ensures r.able(), forall|a: A| #[trigger] r.gives(a) ==> exists|u: F| #[trigger] f.en0(u) && u.gives(a),
//@ closure 0 || -> (t: BoxFuture<'static, A>)
    requires f.rq0(), forall|u: F| #[trigger] f.en0(u) ==> u.can(),
    ensures t.can(), forall|a: A| #[trigger] t.gives(a) ==> exists|u: F| #[trigger] f.en0(u) && u.gives(a),
//@ fn datatypes/async_monad.rs AsyncM::pure props C23
    ensures r.able(), forall|a: A| #[trigger] r.gives(a) == (a == value),
//@ fn datatypes/async_monad.rs AsyncM::try_get props C23
    requires self.able(),
    ensures self.gives(r),
//@ raw
pub type Fu<T> = BoxFuture<'static, T>;
pub open spec fn able_<A>(m: &AsyncMInner<A>) -> bool { m.able() }
pub open spec fn effect_<A>(m: &AsyncMInner<A>) -> bool { m.able() && m is Effect }
pub open spec fn gives_<A>(m: &AsyncMInner<A>, a: A) -> bool { m.gives(a) }
pub open spec fn stepped_at<A, U: Future, F: Fn(A) -> U>(a: &A, f: &F, b: U::Output) -> bool {
    exists|u: U| #[trigger] f.en(*a, u) && u.gives(b)
}
/// `f` takes everything, and what it gives can be awaited to a computation that can be awaited
pub open spec fn binds<A, B, U: Future<Output = AsyncM<B>>, F: Fn(A) -> U>(f: &F) -> bool {
    &&& forall|a: A| #[trigger] f.rq(a)
    &&& forall|a: A, u: U| #[trigger] f.en(a, u) ==> u.can() && awaits(u)
}
pub open spec fn awaits<B, U: Future<Output = AsyncM<B>>>(u: U) -> bool { forall|n: AsyncM<B>| #[trigger] u.gives(n) ==> n.able() }
pub open spec fn bound_at<A, B, U: Future<Output = AsyncM<B>>, F: Fn(A) -> U>(a: &A, f: &F, b: B) -> bool {
    exists|u: U, n: AsyncM<B>| #[trigger] f.en(*a, u) && #[trigger] u.gives(n) && n.gives(b)
}
/// binding `f` to what `m` gives may give `b`
pub open spec fn bound<A, B, U: Future<Output = AsyncM<B>>, F: Fn(A) -> U>(m: &AsyncMInner<A>, f: &F, b: B) -> bool {
    exists|a: A, u: U, n: AsyncM<B>| #[trigger] f.en(a, u) && #[trigger] u.gives(n) && m.gives(a) && n.gives(b)
}
/// one of the functions `mf` gives, at one of the values `m` gives
pub open spec fn applied<A, B, F: Fn(A) -> B>(m: &AsyncMInner<A>, mf: &AsyncMInner<F>, b: B) -> bool {
    exists|a: A, f: F| #[trigger] f.en(a, b) && m.gives(a) && mf.gives(f)
}
pub open spec fn takes<A, B, F: Fn(A) -> B>(mf: &AsyncMInner<F>) -> bool {
    forall|f: F, a: A| mf.gives(f) ==> #[trigger] f.rq(a)
}
pub open spec fn zipped<A, B, C, F: Fn(A, B) -> C>(m: &AsyncMInner<A>, n: &AsyncMInner<B>, f: &F, c: C) -> bool {
    exists|a: A, b: B| #[trigger] f.en2(a, b, c) && m.gives(a) && n.gives(b)
}
pub open spec fn is_<A>(d: &A, a: A) -> bool { a == *d }
/// the success of what `f` gives, or else the default
pub open spec fn or_default<A, E, U: Future<Output = Result<A, E>>, F: Fn() -> U>(f: &F, d: &A, a: A) -> bool {
    exists|u: U, q: Result<A, E>| #[trigger] f.en0(u) && #[trigger] u.gives(q) && a == (match q { Ok(v) => v, Err(_) => *d })
}
pub open spec fn total2<A, B, C, F: Fn(A, B) -> C>(f: &F) -> bool { forall|a: A, b: B| #[trigger] f.rq2(a, b) }
//@ fn datatypes/async_monad.rs AsyncM::fmap props C23
    requires self.able(), steps(&f),
    ensures r.able(), forall|b: B| #[trigger] r.gives(b) ==> stepped(&self.inner, &f, b),
//@ closure 0 || -> (t: Fu<B>)
    requires steps(&f),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> stepped_at(&*value, &f, b),
//@ closure 1 || -> (b: B)
    requires steps(&f),
    ensures stepped_at(&*value, &f, b),
//@ closure 2 || -> (t: Fu<B>)
    requires effect_(&inner), steps(&f),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> stepped(&inner, &f, b),
//@ closure 3 || -> (b: B)
    requires effect_(&inner), steps(&f),
    ensures stepped(&inner, &f, b),
//@ fn datatypes/async_monad.rs AsyncM::fmap_owned props C23
    requires self.able(), steps(&f),
    ensures r.able(), forall|b: B| #[trigger] r.gives(b) ==> stepped(&self.inner, &f, b),
//@ closure 0 || -> (t: Fu<B>)
    requires able_(&self.inner), steps(&f),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> stepped(&self.inner, &f, b),
//@ closure 1 || -> (b: B)
    requires able_(&inner), steps(&f),
    ensures stepped(&inner, &f, b),
//@ fn datatypes/async_monad.rs AsyncM::bind props C23
    requires self.able(), binds(&f),
    ensures r.able(), forall|b: B| #[trigger] r.gives(b) ==> bound(&self.inner, &f, b),
//@ closure 0 || -> (t: Fu<B>)
    requires binds(&f),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> bound_at(&*value, &f, b),
//@ closure 1 || -> (b: B)
    requires binds(&f),
    ensures bound_at(&*value, &f, b),
//@ closure 2 || -> (t: Fu<B>)
    requires effect_(&inner), binds(&f),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> bound(&inner, &f, b),
//@ closure 3 || -> (b: B)
    requires effect_(&inner), binds(&f),
    ensures bound(&inner, &f, b),
//@ fn datatypes/async_monad.rs AsyncM::bind_owned props C23
    requires self.able(), binds(&f),
    ensures r.able(), forall|b: B| #[trigger] r.gives(b) ==> bound(&self.inner, &f, b),
//@ closure 0 || -> (t: Fu<B>)
    requires able_(&self.inner), binds(&f),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> bound(&self.inner, &f, b),
//@ closure 1 || -> (b: B)
    requires able_(&inner), binds(&f),
    ensures bound(&inner, &f, b),
//@ fn datatypes/async_monad.rs AsyncM::apply props C23
    requires self.able(), mf.able(), takes::<A, B, F>(&mf.inner),
    ensures r.able(), forall|b: B| #[trigger] r.gives(b) ==> applied::<A, B, F>(&self.inner, &mf.inner, b),
//@ closure 0 || -> (t: Fu<B>)
    requires able_(&self_inner), able_(&mf_inner), takes::<A, B, F>(&mf_inner),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> applied::<A, B, F>(&self_inner, &mf_inner, b),
//@ closure 1 || -> (b: B)
    requires able_(&self_inner), able_(&mf_inner), takes::<A, B, F>(&mf_inner),
    ensures applied::<A, B, F>(&self_inner, &mf_inner, b),
//@ closure 2 || -> (x: A)
    requires able_(&self_inner), ensures gives_(&self_inner, x),
//@ closure 3 || -> (x: F)
    requires able_(&mf_inner), ensures gives_(&mf_inner, x),
//@ fn datatypes/async_monad.rs AsyncM::apply_owned props C23
    requires self.able(), mf.able(), takes::<A, B, F>(&mf.inner),
    ensures r.able(), forall|b: B| #[trigger] r.gives(b) ==> applied::<A, B, F>(&self.inner, &mf.inner, b),
//@ closure 0 || -> (t: Fu<B>)
    requires able_(&self.inner), able_(&mf.inner), takes::<A, B, F>(&mf.inner),
    ensures t.can(), forall|b: B| #[trigger] t.gives(b) ==> applied::<A, B, F>(&self.inner, &mf.inner, b),
//@ closure 1 || -> (b: B)
    requires able_(&self_inner), able_(&mf_inner), takes::<A, B, F>(&mf_inner),
    ensures applied::<A, B, F>(&self_inner, &mf_inner, b),
//@ closure 2 || -> (x: A)
    requires able_(&self_inner), ensures gives_(&self_inner, x),
//@ closure 3 || -> (x: F)
    requires able_(&mf_inner), ensures gives_(&mf_inner, x),
//@ fn datatypes/async_monad.rs AsyncM::zip_with noclone F calls clone=clone_ props C23
    requires self.able(), other.able(), total2(&f),
    ensures r.able(), forall|b: C| #[trigger] r.gives(b) ==> zipped(&self.inner, &other.inner, &f, b),
//@ closure 0 || -> (t: Fu<C>)
    requires able_(&self.inner), able_(&other.inner), total2(&f),
    ensures t.can(), forall|b: C| #[trigger] t.gives(b) ==> zipped(&self.inner, &other.inner, &f, b),
//@ closure 1 || -> (b: C)
    requires able_(&self_inner), able_(&other_inner), total2(&f),
    ensures zipped(&self_inner, &other_inner, &f, b),
//@ closure 2 || -> (x: A)
    requires able_(&self_inner), ensures gives_(&self_inner, x),
//@ closure 3 || -> (x: B)
    requires able_(&other_inner), ensures gives_(&other_inner, x),
//@ fn datatypes/async_monad.rs AsyncM::zip props C23
    requires self.able(), other.able(),
    ensures r.able(), forall|p: (A, B)| #[trigger] r.gives(p) ==> self.gives(p.0) && other.gives(p.1),
//@ closure 0 |a: A, b: B| -> (p: (A, B))
    ensures p == (a, b),
//@ fn datatypes/async_monad.rs AsyncM::from_result_or_default props C23
    requires f.rq0(), forall|u: Fut| #[trigger] f.en0(u) ==> u.can(),
    ensures r.able(), forall|a: A| #[trigger] r.gives(a) ==> or_default(&f, &default_value, a),
//@ closure 0 || -> (t: Fu<A>)
    requires f.rq0(), forall|u: Fut| #[trigger] f.en0(u) ==> u.can(),
    ensures t.can(), forall|a: A| #[trigger] t.gives(a) ==> or_default(&f, &*default_value, a),
//@ closure 1 || -> (a: A)
    requires f.rq0(), forall|u: Fut| #[trigger] f.en0(u) ==> u.can(),
    ensures or_default(&f, &*default_value, a),
//@ fn datatypes/async_monad.rs AsyncM::recover_with props C23
    requires self.able(),
    ensures r.able(), forall|a: A| #[trigger] r.gives(a) ==> self.gives(a) || a == default,
//@ closure 0 || -> (t: Fu<A>)
    requires able_(&self.inner),
    ensures t.can(), forall|a: A| #[trigger] t.gives(a) ==> gives_(&self.inner, a) || is_(&default, a),
//@ closure 1 || -> (a: A)
    requires able_(&inner),
    ensures gives_(&inner, a) || is_(&default, a),
//@ closure 2 || -> (a: A)
    requires able_(&inner), ensures gives_(&inner, a),
//@ raw
/// `f` gives the computation of its argument
pub open spec fn purely<A, U: Future<Output = AsyncM<A>>, F: Fn(A) -> U>(f: &F) -> bool {
    forall|a: A, u: U, n: AsyncM<A>, x: A| #[trigger] f.en(a, u) && #[trigger] u.gives(n) && #[trigger] n.gives(x) ==> x == a
}
pub proof fn left_identity<A, B, U: Future<Output = AsyncM<B>>, F: Fn(A) -> U>(m: AsyncM<A>, a: A, f: &F, b: B)
    requires forall|x: A| #[trigger] m.gives(x) ==> x == a, bound(&m.inner, f, b),
    ensures bound_at(&a, f, b),
{
    let (x, u, n) = choose|x: A, u: U, n: AsyncM<B>| #[trigger] f.en(x, u) && #[trigger] u.gives(n) && m.inner.gives(x) && n.gives(b);
    assert(m.gives(x));
}
pub proof fn right_identity<A, U: Future<Output = AsyncM<A>>, F: Fn(A) -> U>(m: AsyncM<A>, f: &F, b: A)
    requires purely(f), bound(&m.inner, f, b),
    ensures m.gives(b),
{ }
/// what binding twice gives is what binding the second step inside the first gives
pub proof fn associativity<A, B, C, U: Future<Output = AsyncM<B>>, F: Fn(A) -> U, V: Future<Output = AsyncM<C>>, G: Fn(B) -> V>(m: AsyncM<A>, f: &F, mf: AsyncM<B>, g: &G, c: C)
    requires forall|b: B| #[trigger] mf.gives(b) ==> bound(&m.inner, f, b), bound(&mf.inner, g, c),
    ensures exists|a: A, u: U, n: AsyncM<B>| #[trigger] f.en(a, u) && #[trigger] u.gives(n) && m.inner.gives(a) && bound(&n.inner, g, c),
{
    let (b, v, k) = choose|b: B, v: V, k: AsyncM<C>| #[trigger] g.en(b, v) && #[trigger] v.gives(k) && mf.inner.gives(b) && k.gives(c);
    assert(mf.gives(b));
    let (a, u, n) = choose|a: A, u: U, n: AsyncM<B>| #[trigger] f.en(a, u) && #[trigger] u.gives(n) && m.inner.gives(a) && n.gives(b);
    assert(bound(&n.inner, g, c));
}
