// Computations over results: what running, mapping errors and adding a context give.
//@ include inc/error
//@ include inc/fun
//@ raw
use std::marker::PhantomData;
broadcast use {prelude_lemmas, faithful_clone, faithful_clone_call};
//@ type datatypes/id.rs Id #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ type transformers/state_t.rs StateT #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(M)]
//@ type datatypes/state.rs StateInner
//@ type datatypes/state.rs State #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(A)]
//@ type transformers/reader_t.rs ReaderT #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(A)]
//@ path crate::datatypes::state::State::new State::new
//@ fn datatypes/id.rs Id::new props C10
    ensures r.value == x,
//@ fn datatypes/id.rs Id::into_inner props C10
    ensures r == self.value,
//@ fn datatypes/id.rs Id::unwrap props C10
    ensures r == self.value,
//@ raw
impl<S, M, A> StateT<S, M, A> {
    pub open spec fn rq(&self, s: S) -> bool {
        match self { StateT::Pure(_) => false, StateT::LiftM(_) => true, StateT::Effect(f) => f.rq(s) }
    }
    pub open spec fn en(&self, s: S, m: M) -> bool {
        match self { StateT::Pure(_) => false, StateT::LiftM(n) => m == n, StateT::Effect(f) => f.en(s, m) }
    }
}
impl<S, M, A> StateT<S, M, A> {
    /// running it from `s` gives something that is `ok`
    pub open spec fn gives(&self, s: S, ok: spec_fn(M) -> bool) -> bool {
        match self { StateT::Pure(_) => false, StateT::LiftM(m) => ok(*m), StateT::Effect(f) => exists|m: M| #[trigger] f.en(s, m) && ok(m) }
    }
}
impl<E, M, A> ReaderT<E, M, A> {
    pub open spec fn rq(&self, e: E) -> bool { self.run_reader_fn.rq(e) }
    pub open spec fn en(&self, e: E, m: M) -> bool { self.run_reader_fn.en(e, m) }
}
impl<S, A> State<S, A> {
    pub closed spec fn rq(&self, s: S) -> bool { self.inner.rq(s) }
    pub closed spec fn en(&self, s: S, o: (A, S)) -> bool { self.inner.en(s, Id { value: o }) }
}
/// `clone`, also of a tuple
pub trait Dup: Sized {
    fn dup_(&self) -> (r: Self)
        ensures r == *self;
}
impl<T: Clone> Dup for T {
    #[verifier::external_body]
    fn dup_(&self) -> (r: Self) { unimplemented!() }
}
/// derived
impl Clone for ErrorContext {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
/// `r` is the success, or the error without a context
pub open spec fn tried<T, E>(m: Result<T, E>, r: ComposableResult<T, E>) -> bool {
    match m {
        Ok(x) => r == Ok::<T, ComposableError<E>>(x),
        Err(e) => r is Err && r->Err_0.bare(e) && r->Err_0.error_code is None,
    }
}
/// `r` is the success, or the error with a context that the message of `c` is
pub open spec fn tried_in<T, E, C: IntoErrorContext>(m: Result<T, E>, c: C, r: ComposableResult<T, E>) -> bool {
    match m {
        Ok(x) => r == Ok::<T, ComposableError<E>>(x),
        Err(e) => r is Err && r->Err_0.core_error == e && r->Err_0.error_code is None && r->Err_0.ctxs().len() == 1 && c.says(r->Err_0.ctxs()[0]),
    }
}
/// a success is kept, an error is what `f` makes of it
pub open spec fn mapped_error<T, E, E2, F: Fn(E) -> E2>(m: Result<T, E>, f: &F, r: Result<T, E2>) -> bool {
    match m { Ok(x) => r == Ok::<T, E2>(x), Err(e) => r is Err && f.ensures((e,), r->Err_0) }
}
//@ fn transformers/state_t.rs StateT::new props C10
    ensures
        forall|s: S| #[trigger] r.rq(s) == f.rq(s),
        forall|s: S, m: M| #[trigger] r.en(s, m) == f.en(s, m),
        r is Effect,
//@ fn transformers/state_t.rs StateT::run_state props C10
    requires self.rq(state),
    ensures self.en(state, r),
//@ fn transformers/state_t.rs StateT::try_run_state props C10,C18
    requires self.rq(state),
    ensures self.gives(state, |m: Result<(S, A), E>| tried(m, r)),
//@ fn transformers/state_t.rs StateT::try_run_state_with_context props C10,C18
    requires self.rq(state), context.ready(),
    ensures self.gives(state, |m: Result<(S, A), E>| tried_in(m, context, r)),
//@ closure 0 |e: E| -> (q: ComposableError<E>)
    ensures q.core_error == e, q.error_code is None, q.ctxs() =~= seq![context.message@],
//@ fn transformers/state_t.rs StateT::map_error props C10,C18
    requires forall|e: E| #[trigger] f.requires((e,)),
    ensures
        self is Pure ==> r is Pure && r->Pure_0 == self->Pure_0,
        forall|s: S| self.rq(s) ==> #[trigger] r.rq(s),
        forall|s: S, n: Result<(S, A), E2>| #[trigger] r.en(s, n) ==> self.gives(s, |m: Result<(S, A), E>| mapped_error(m, &f, n)),
//@ closure 0 |s: S| -> (n: Result<(S, A), E2>)
    requires run_fn.rq(s),
    ensures exists|m: Result<(S, A), E>| #[trigger] run_fn.en(s, m) && mapped_error(m, &f, n),
//@ fn transformers/state_t.rs StateT::try_eval_state props C10,C18
    requires self.rq(state),
    ensures self.gives(state, |m: Result<(S, A), E>| (match m { Ok(x) => r == Ok::<A, ComposableError<E>>(x.1), Err(e) => r is Err && r->Err_0.bare(e) && r->Err_0.error_code is None })),
//@ closure 0 |__p0: (S, A)| -> (a: A)
    ensures a == __p0.1,
//@ fn transformers/state_t.rs StateT::try_eval_state_with_context props C10,C18
    requires self.rq(state), context.ready(),
    ensures self.gives(state, |m: Result<(S, A), E>| tried_in(match m { Ok(x) => Ok::<A, E>(x.1), Err(e) => Err(e) }, context, r)),
//@ closure 0 |__p0: (S, A)| -> (a: A)
    ensures a == __p0.1,
//@ fn transformers/state_t.rs StateT::try_exec_state props C10,C18
    requires self.rq(state),
    ensures self.gives(state, |m: Result<(S, A), E>| tried(match m { Ok(x) => Ok::<S, E>(x.0), Err(e) => Err(e) }, r)),
//@ closure 0 |__p0: (S, A)| -> (s: S)
    ensures s == __p0.0,
//@ fn datatypes/state.rs State::run_state props C10
    requires self.rq(s),
    ensures self.en(s, r),
//@ fn datatypes/state.rs State::new props C10
    ensures
        forall|s: S| f.rq(s) ==> #[trigger] r.rq(s),
        forall|s: S, o: (A, S)| #[trigger] r.en(s, o) ==> f.en(s, o),
//@ closure 0 |s: S| -> (m: Id<(A, S)>)
    requires f.rq(s),
    ensures f.en(s, m.value),
//@ fn datatypes/state.rs State::try_run_state props C10,C18
    requires self.rq(s),
    ensures exists|o: (Result<A, Err>, S)| #[trigger] self.en(s, o) && tried(o.0, r.0) && r.1 == o.1,
//@ fn datatypes/state.rs State::try_run_state_with_context props C10,C18
    requires self.rq(s), context.ready(),
    ensures exists|o: (Result<A, Err>, S)| #[trigger] self.en(s, o) && tried_in(o.0, context, r.0) && r.1 == o.1,
//@ closure 0 |error: Err| -> (q: ComposableError<Err>)
    ensures q.core_error == error, q.error_code is None, q.ctxs() =~= seq![context.message@],
//@ fn datatypes/state.rs State::try_eval_state props C10,C18
    requires self.rq(s),
    ensures exists|o: (Result<A, Err>, S)| #[trigger] self.en(s, o) && tried(o.0, r),
//@ fn datatypes/state.rs State::try_eval_state_with_context props C10,C18
    requires self.rq(s), context.ready(),
    ensures exists|o: (Result<A, Err>, S)| #[trigger] self.en(s, o) && tried_in(o.0, context, r),
//@ fn datatypes/state.rs State::try_exec_state props C10,C18
    requires self.rq(s),
    ensures exists|o: (Result<A, Err>, S)| #[trigger] self.en(s, o) && tried(match o.0 { Ok(_) => Ok::<S, Err>(o.1), Err(e) => Err(e) }, r),
//@ fn datatypes/state.rs State::try_exec_state_with_context props C10,C18
    requires self.rq(s), context.ready(),
    ensures exists|o: (Result<A, Err>, S)| #[trigger] self.en(s, o) && tried_in(match o.0 { Ok(_) => Ok::<S, Err>(o.1), Err(e) => Err(e) }, context, r),
//@ fn transformers/state_t.rs StateT::to_state calls clone=dup_ props C10,C15
    requires forall|s: S| #[trigger] self.rq(s),
    ensures
        forall|s: S| #[trigger] r.rq(s),
        forall|s: S, o: (A, S)| #[trigger] r.en(s, o) ==> self.en(s, Id { value: (o.1, o.0) }),
//@ closure 0 |s: S| -> (o: (A, S))
    requires self.rq(s),
    ensures self.en(s, Id { value: (o.1, o.0) }),
//@ fn transformers/state_t.rs StateT::from_state props C10,C15
    ensures
        forall|s: S| state.rq(s) ==> #[trigger] r.rq(s),
        forall|s: S, o: Id<(S, A)>| #[trigger] r.en(s, o) ==> state.en(s, (o.value.1, o.value.0)),
//@ closure 0 |s: S| -> (o: Id<(S, A)>)
    requires state.rq(s),
    ensures state.en(s, (o.value.1, o.value.0)),
//@ fn transformers/reader_t.rs ReaderT::new props C11
    ensures
        forall|e: E| #[trigger] r.rq(e) == f.rq(e),
        forall|e: E, m: M| #[trigger] r.en(e, m) == f.en(e, m),
//@ fn transformers/reader_t.rs ReaderT::run_reader props C11
    requires self.rq(env),
    ensures self.en(env, r),
//@ fn transformers/reader_t.rs ReaderT::try_run_reader props C11,C18
    requires self.rq(env),
    ensures exists|m: Result<A, Err>| #[trigger] self.en(env, m) && tried(m, r),
//@ fn transformers/reader_t.rs ReaderT::try_run_reader_with_context props C11,C18
    requires self.rq(env), context.ready(),
    ensures exists|m: Result<A, Err>| #[trigger] self.en(env, m) && tried_in(m, context, r),
//@ closure 0 |e: Err| -> (q: ComposableError<Err>)
    ensures q.core_error == e, q.error_code is None, q.ctxs() =~= seq![context.message@],
//@ fn transformers/reader_t.rs ReaderT::map_error props C11,C18
    requires forall|e: Err| #[trigger] f.requires((e,)),
    ensures
        forall|e: E| self.rq(e) ==> #[trigger] r.rq(e),
        forall|e: E, n: Result<A, Err2>| #[trigger] r.en(e, n) ==> exists|m: Result<A, Err>| #[trigger] self.run_reader_fn.en(e, m) && mapped_error(m, &f, n),
//@ closure 0 |e: E| -> (n: Result<A, Err2>)
    requires run_reader_fn_clone.rq(e),
    ensures exists|m: Result<A, Err>| #[trigger] run_reader_fn_clone.en(e, m) && mapped_error(m, &f, n),
