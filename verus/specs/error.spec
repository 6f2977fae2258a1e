// Composable errors: what an error carries through wrapping, conversion and collection.
//@ include inc/error
//@ include inc/result
//@ assoc Either<E,T> Success T
//@ type error/context.rs ErrorPipeline
//@ raw
broadcast use {faithful_clone, faithful_clone_call};
impl<T, E> ErrorPipeline<T, E> {
    pub open spec fn pend(&self) -> Seq<Seq<char>> { texts(self.pending_contexts@) }
}
/// each item may say the text at its place
pub open spec fn said<C: IntoErrorContext>(cs: Seq<C>, s: Seq<Seq<char>>) -> bool {
    s.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).says(s[i])
}
/// `c` carries what happened before with one more context
pub open spec fn one_more<C: IntoErrorContext>(old: Seq<Seq<char>>, new: Seq<Seq<char>>, c: C) -> bool {
    new.len() == old.len() + 1 && new.drop_last() =~= old && c.says(new.last())
}
//@ fn error/context.rs -::with_context props C18
    requires context.ready(),
    ensures r.core_error == error, r.error_code is None, r.ctxs().len() == 1, context.says(r.ctxs()[0]),
//@ fn error/context.rs -::with_context_result props C18
    requires context.ready(),
    ensures
        result matches Ok(v) ==> r == Ok::<T, BoxedComposableError<E>>(v),
        result matches Err(e) ==> r is Err && r->Err_0.core_error == e && r->Err_0.error_code is None && r->Err_0.ctxs().len() == 1 && context.says(r->Err_0.ctxs()[0]),
//@ closure 0 |e: E| -> (b: Box<ComposableError<E>>)
    requires context.ready(),
    ensures b.core_error == e, b.error_code is None, b.ctxs().len() == 1, context.says(b.ctxs()[0]),
//@ fn error/context.rs ErrorPipeline::new props C18
    ensures r.result == result, r.pend() =~= Seq::<Seq<char>>::empty(),
//@ fn error/context.rs ErrorPipeline::with_context props C18
    requires context.ready(),
    ensures
        r.result == self.result,
        self.result is Ok ==> r.pend() == self.pend(),
        self.result is Err ==> one_more(self.pend(), r.pend(), context),
//@ fn error/context.rs ErrorPipeline::map_error props C18
    requires self.result matches Err(e) ==> f.requires((e,)),
    ensures
        r.pend() == self.pend(),
        self.result matches Ok(v) ==> r.result == Ok::<T, NewE>(v),
        self.result matches Err(e) ==> r.result is Err && f.ensures((e,), r.result->Err_0),
//@ fn error/context.rs ErrorPipeline::recover props C18
    requires self.result matches Err(e) ==> recovery.requires((e,)),
    ensures
        r.pend() == self.pend(),
        self.result matches Ok(v) ==> r.result == Ok::<T, E>(v),
        self.result matches Err(e) ==> recovery.ensures((e,), r.result),
//@ fn error/context.rs ErrorPipeline::and_then props C18
    requires self.result matches Ok(v) ==> f.requires((v,)),
    ensures
        r.pend() == self.pend(),
        self.result matches Err(e) ==> r.result == Err::<U, E>(e),
        self.result matches Ok(v) ==> f.ensures((v,), r.result),
//@ fn error/context.rs ErrorPipeline::map props C18
    requires self.result matches Ok(v) ==> f.requires((v,)),
    ensures
        r.pend() == self.pend(),
        self.result matches Err(e) ==> r.result == Err::<U, E>(e),
        self.result matches Ok(v) ==> r.result is Ok && f.ensures((v,), r.result->Ok_0),
//@ fn error/context.rs ErrorPipeline::finish props C18
    ensures
        self.result matches Ok(v) ==> r == Ok::<T, BoxedComposableError<E>>(v),
        self.result matches Err(e) ==> r is Err && r->Err_0.core_error == e && r->Err_0.ctxs() =~= self.pend(),
//@ fn error/context.rs ErrorPipeline::finish_without_box props C18
    ensures
        self.result matches Ok(v) ==> r == Ok::<T, ComposableError<E>>(v),
        self.result matches Err(e) ==> r is Err && r->Err_0.core_error == e && r->Err_0.ctxs() =~= self.pend(),
//@ fn error/context.rs -::error_pipeline props C18
    ensures r.result == result, r.pend() =~= Seq::<Seq<char>>::empty(),
//@ fn error/context.rs -::accumulate_context props C18
    requires forall|i: int| 0 <= i < contexts.items().len() ==> (#[trigger] contexts.items()[i]).ready(),
    ensures r.core_error == error, r.error_code is None, said(contexts.items(), r.ctxs()),
//@ closure 0 |c: C| -> (s: String)
    requires c.ready(),
    ensures c.says(s@),
//@ fn error/context.rs -::extract_context props C18
    ensures texts(r@) =~= error.ctxs().reverse(),
//@ type datatypes/either.rs Either
//@ fn error/convert.rs composable_to_core props C18
    ensures r == composable.core_error,
//@ raw
/// `into` is `From::from`, whose contract is above
pub uninterp spec fn wrapped<E>(e: E) -> ComposableError<E>;
pub broadcast axiom fn wrapped_bare<E>(e: E)
    ensures (#[trigger] wrapped(e)).bare(e), wrapped(e).error_code is None;
impl<E> IntoTo<ComposableError<E>> for E {
    open spec fn conv(&self) -> ComposableError<E> { wrapped(*self) }
    #[verifier::external_body]
    fn into_to_(self) -> (r: ComposableError<E>) { unimplemented!() }
}
//@ fn error/convert.rs core_to_composable props C18
    ensures r.bare(error), r.error_code is None,
//@ at start
    broadcast use wrapped_bare;
//@ fn error/convert.rs flatten_composable_result props C18
    ensures
        result matches Ok(v) ==> r == Ok::<T, E>(v),
        result matches Err(e) ==> r == Err::<T, E>(e.core_error),
//@ fn error/convert.rs wrap_in_composable_result props C18
    ensures
        result matches Ok(v) ==> r == Ok::<T, ComposableError<E>>(v),
        result matches Err(e) ==> r is Err && r->Err_0.bare(e) && r->Err_0.error_code is None,
//@ fn error/convert.rs wrap_in_composable_result_boxed props C18
    ensures
        result matches Ok(v) ==> r == Ok::<T, BoxedComposableError<E>>(v),
        result matches Err(e) ==> r is Err && r->Err_0.bare(e) && r->Err_0.error_code is None,
//@ closure 0 |e: E| -> (b: Box<ComposableError<E>>)
    ensures b.bare(e), b.error_code is None,
//@ fn error/core.rs Result<T,E>[ErrorOps]::recover props C18,C22 free as result_recover
    requires self_ matches Err(e) ==> recovery.requires((e,)),
    ensures
        self_ matches Ok(v) ==> r == Ok::<T, E>(v),
        self_ matches Err(e) ==> recovery.ensures((e,), r),
//@ fn error/core.rs Result<T,E>[ErrorOps]::bimap_result props C18,C20 free as result_bimap_result
    requires
        self_ matches Ok(v) ==> success_f.requires((v,)),
        self_ matches Err(e) ==> error_f.requires((e,)),
    ensures
        self_ matches Ok(v) ==> r is Ok && success_f.ensures((v,), r->Ok_0),
        self_ matches Err(e) ==> r is Err && error_f.ensures((e,), r->Err_0),
//@ fn error/core.rs Either<E,T>[ErrorOps]::recover props C18,C22 free as either_recover
    requires self_ matches Either::Left(e) ==> recovery.requires((e,)),
    ensures
        self_ matches Either::Right(v) ==> r == Either::<E, T>::Right(v),
        self_ matches Either::Left(e) ==> recovery.ensures((e,), r),
//@ fn error/core.rs Either<E,T>[ErrorOps]::bimap_result props C18,C20 free as either_bimap_result
    requires
        self_ matches Either::Right(v) ==> success_f.requires((v,)),
        self_ matches Either::Left(e) ==> error_f.requires((e,)),
    ensures
        self_ matches Either::Right(v) ==> r is Ok && success_f.ensures((v,), r->Ok_0),
        self_ matches Either::Left(e) ==> r is Err && error_f.ensures((e,), r->Err_0),
//@ fn error/context.rs -::context_fn props C18
    requires context.ready(),
    ensures
        forall|e: E| #[trigger] r.requires((e,)),
        forall|e: E, o: ComposableError<E>| #[trigger] r.ensures((e,), o) ==>
            o.core_error == e && o.error_code is None && o.ctxs().len() == 1 && context.says(o.ctxs()[0]),
//@ closure 0 |error: E| -> (o: ComposableError<E>)
    requires context.ready(),
    ensures o.core_error == error, o.error_code is None, o.ctxs().len() == 1, context.says(o.ctxs()[0]),
//@ fn error/context.rs -::context_accumulator props C18
    requires forall|i: int| 0 <= i < contexts.items().len() ==> (#[trigger] contexts.items()[i]).ready(),
    ensures
        forall|e: E| #[trigger] r.requires((e,)),
        forall|e: E, o: ComposableError<E>| #[trigger] r.ensures((e,), o) ==>
            o.core_error == e && o.error_code is None && said(contexts.items(), o.ctxs()),
//@ closure 0 |error: E| -> (o: ComposableError<E>)
    requires forall|i: int| 0 <= i < contexts.items().len() ==> (#[trigger] contexts.items()[i]).ready(),
    ensures o.core_error == error, o.error_code is None, said(contexts.items(), o.ctxs()),
//@ fn error/context.rs -::format_error_chain props C18
    ensures r@ =~= chain_text(*error),
//@ type utils/error_utils.rs AppError
//@ fn utils/error_utils.rs AppError::new props C18
    ensures r.message == message, r.context is None,
//@ fn utils/error_utils.rs AppError::with_context props C18
    ensures r.message == message, r.context == Some(context),
//@ fn utils/error_utils.rs AppError::message props C18
    ensures *r == self.message,
//@ fn utils/error_utils.rs AppError::map props C18
    requires f.requires((self.message,)),
    ensures f.ensures((self.message,), r.message), r.context == self.context,
//@ fn utils/error_utils.rs AppError::map_context props C18
    requires f.requires((self.context,)),
    ensures f.ensures((self.context,), r.context), r.message == self.message,
//@ fn utils/error_utils.rs -::error props C18
    ensures r.message == message, r.context is None,
//@ fn utils/error_utils.rs -::error_with_context props C18
    ensures r.message == message, r.context == Some(context),
