// The asynchronous operations of Validated: what awaiting them may give.
// Suspension points are left out, a future is the relation to the values it may be awaited to (see async.spec).
//@ method iter iter_
//@ method into_iter into_iter_
//@ path futures::future::join_all join_all_
//@ bound IntoIterator IntoIt
//@ bound Iterator IntoIt
//@ bound Future Future
//@ raw
use std::marker::PhantomData;
broadcast use {prelude_lemmas, prelude_len, prelude_present};
//@ include inc/future
//@ raw
/// awaits all of them: their values in the order given, whatever order they end in
#[verifier::external_body]
pub fn join_all_<'a, U: Future>(it: It<U>) -> (r: BoxFuture<'a, Vec<U::Output>>)
    requires forall|i: int| 0 <= i < it@.len() ==> (#[trigger] it@[i]).can(),
    ensures r.can(), forall|v: Vec<U::Output>| #[trigger] r.gives(v) ==> v@.len() == it@.len() && forall|i: int| 0 <= i < v@.len() ==> it@[i].gives(#[trigger] v@[i]),
{ unimplemented!() }
//@ type datatypes/validated/core.rs Validated
//@ raw
pub open spec fn errs<E, A>(v: Validated<E, A>) -> Seq<E> {
    match v { Validated::Valid(_) => Seq::empty(), Validated::Invalid(e) => e@ }
}
/// awaiting `f` at `x` may give `y`
pub open spec fn steps_to<X, U: Future, F: Fn(X) -> U>(f: F, x: X, y: U::Output) -> bool {
    exists|u: U| #[trigger] f.ensures((x,), u) && u.gives(y)
}
/// `f` can be called with `x` and what it gives can be awaited
pub open spec fn startable<X, U: Future, F: Fn(X) -> U>(f: F, x: X) -> bool {
    f.requires((x,)) && forall|u: U| #[trigger] f.ensures((x,), u) ==> u.can()
}
//@ fn datatypes/validated/core.rs Validated::fmap_valid_async props C23,C08
    requires self is Valid ==> startable(f, self->Valid_0),
    ensures match *self {
        Validated::Valid(x) => r is Valid && steps_to(f, x, r->Valid_0),
        Validated::Invalid(e) => r is Invalid && errs(r) =~= e@,
    },
//@ fn datatypes/validated/core.rs Validated::fmap_invalid_async props C23,C08
    requires forall|i: int| 0 <= i < errs(*self).len() ==> startable(f, #[trigger] errs(*self)[i]),
    ensures match *self {
        Validated::Valid(x) => r == Validated::<G, A>::Valid(x),
        Validated::Invalid(e) => r is Invalid && errs(r).len() == e@.len() && forall|i: int| 0 <= i < e@.len() ==> steps_to(f, #[trigger] e@[i], errs(r)[i]),
    },
//@ at start
    proof { if self is Invalid { assert forall|i: int| 0 <= i < self->Invalid_0@.len() implies startable(f, #[trigger] self->Invalid_0@[i]) by { assert(errs(*self)[i] == self->Invalid_0@[i]); } } }
//@ closure 0 |e: &E| -> (q: Fut)
    requires startable(f, *e),
    ensures f.ensures((*e,), q), q.can(),
//@ fn datatypes/validated/core.rs Validated::and_then_async props C23,C08
    requires self is Valid ==> startable(f, self->Valid_0),
    ensures match *self {
        Validated::Valid(x) => steps_to(f, x, r),
        Validated::Invalid(e) => r is Invalid && errs(r) =~= e@,
    },
