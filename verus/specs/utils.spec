// The utilities over lists, options, results and functions.
//@ include inc/option
//@ include inc/result
//@ method into_iter into_iter_
//@ method into into_to_
//@ method iter iter_
//@ method try_fold try_fold_
//@ bound IntoIterator IntoIt
//@ bound Into IntoTo
//@ bound FnMut Fn
//@ path SmallVec::new Vec::new
//@ path crate::error::result_to_either result_to_either
//@ path crate::error::either_to_result either_to_result
//@ assoc Result<T,E> Success T
//@ assoc Result<T,E> ErrorOutput Result<T,$0>
//@ assoc Either<E,T> Success T
//@ assoc Either<E,T> ErrorOutput Either<$0,T>
//@ type datatypes/validated/core.rs Validated
//@ type datatypes/either.rs Either
//@ type utils/transform_utils.rs Pipeline
//@ type utils/error_utils.rs AppError
//@ raw
broadcast use {prelude_lemmas, prelude_len, prelude_present, faithful_clone, faithful_clone_call};
pub open spec fn errs<E, A>(v: Validated<E, A>) -> Seq<E> {
    match v { Validated::Valid(_) => Seq::empty(), Validated::Invalid(e) => e@ }
}
impl<X> It<X> {
    /// `Iterator::try_fold` over options
    #[verifier::external_body]
    pub fn try_fold_<B, F: Fn(B, X) -> Option<B>>(self, init: B, f: F) -> (r: Option<B>)
        requires forall|b: B, i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((b, self@[i])),
        ensures exists|a: Seq<B>| #[trigger] try_steps(f, init, self@, a, r),
    { unimplemented!() }
}
pub open spec fn try_steps<X, B, F: Fn(B, X) -> Option<B>>(f: F, init: B, s: Seq<X>, a: Seq<B>, r: Option<B>) -> bool {
    &&& 1 <= a.len() <= s.len() + 1 && a[0] == init
    &&& forall|i: int| 0 <= i < a.len() - 1 ==> f.ensures((a[i], #[trigger] s[i]), Some(a[i + 1]))
    &&& match r {
        Some(v) => a.len() == s.len() + 1 && v == a.last(),
        None => a.len() <= s.len() && f.ensures((a.last(), s[a.len() - 1]), None),
    }
}
/// All the values when every member succeeds, the first error otherwise.
pub open spec fn sequenced<A, E>(s: Seq<Result<A, E>>, r: Result<Vec<A>, E>) -> bool {
    match r {
        Ok(v) => v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<A, E>(v@[i]),
        Err(e) => exists|i: int| #[trigger] first_err(s, i, e),
    }
}
/// The same for the images of `s` under `f`; `f` is not applied past the first error.
pub open spec fn traversed<A, B, E, F: Fn(A) -> Result<B, E>>(f: F, s: Seq<A>, r: Result<Vec<B>, E>) -> bool {
    exists|o: Seq<Result<B, E>>| o.len() <= s.len() && (r is Ok ==> o.len() == s.len())
        && (forall|i: int| 0 <= i < o.len() ==> f.ensures((s[i],), #[trigger] o[i])) && #[trigger] sequenced(o, r)
}
pub open spec fn errors_of<A, E>(s: Seq<Result<A, E>>) -> Seq<E>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { match s.last() { Ok(_) => errors_of(s.drop_last()), Err(e) => errors_of(s.drop_last()).push(e) } }
}
pub open spec fn values_of<A, E>(s: Seq<Result<A, E>>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { match s.last() { Err(_) => values_of(s.drop_last()), Ok(v) => values_of(s.drop_last()).push(v) } }
}
/// All the values when every member succeeds, all the errors in order otherwise.
pub open spec fn accumulated<A, E>(s: Seq<Result<A, E>>, r: Validated<E, Vec<A>>) -> bool {
    match r {
        Validated::Valid(v) => errors_of(s).len() == 0 && v@ == values_of(s),
        Validated::Invalid(e) => errors_of(s).len() > 0 && e@ == errors_of(s),
    }
}
pub proof fn lemma_outcomes_push<A, E>(s: Seq<Result<A, E>>, x: Result<A, E>)
    ensures
        errors_of(s.push(x)) == (match x { Ok(_) => errors_of(s), Err(e) => errors_of(s).push(e) }),
        values_of(s.push(x)) == (match x { Ok(v) => values_of(s).push(v), Err(_) => values_of(s) }),
{ assert(s.push(x).drop_last() =~= s); }
/// Without errors every member is a success and the values are theirs.
pub proof fn lemma_no_errors<A, E>(s: Seq<Result<A, E>>)
    requires errors_of(s).len() == 0,
    ensures values_of(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<A, E>(values_of(s)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_no_errors(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == Ok::<A, E>(values_of(s)[i]) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
pub proof fn lemma_select_step<X>(s: Seq<X>, keep: Seq<bool>, b: bool)
    requires keep.len() < s.len(),
    ensures select(s.take(keep.len() as int + 1), keep.push(b)) == (if b { select(s.take(keep.len() as int), keep).push(s[keep.len() as int]) } else { select(s.take(keep.len() as int), keep) }),
{
    let t = s.take(keep.len() as int + 1);
    assert(t.drop_last() =~= s.take(keep.len() as int));
    assert(keep.push(b).drop_last() =~= keep);
}
pub open spec fn steps<A, F: Fn(A) -> A>(fs: Seq<F>, a: Seq<A>) -> bool {
    a.len() == fs.len() + 1 && forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).ensures((a[i],), a[i + 1])
}
pub open spec fn chain_option<B, F: Fn(B) -> Option<B>>(fs: Seq<F>, init: B, a: Seq<B>, r: Option<B>) -> bool {
    &&& 1 <= a.len() <= fs.len() + 1 && a[0] == init
    &&& forall|i: int| 0 <= i < a.len() - 1 ==> (#[trigger] fs[i]).ensures((a[i],), Some(a[i + 1]))
    &&& match r {
        Some(v) => a.len() == fs.len() + 1 && v == a.last(),
        None => a.len() <= fs.len() && fs[a.len() - 1].ensures((a.last(),), None),
    }
}
pub open spec fn chain_result<B, E, F: Fn(B) -> Result<B, E>>(fs: Seq<F>, init: B, a: Seq<B>, r: Result<B, E>) -> bool {
    &&& 1 <= a.len() <= fs.len() + 1 && a[0] == init
    &&& forall|i: int| 0 <= i < a.len() - 1 ==> (#[trigger] fs[i]).ensures((a[i],), Ok(a[i + 1]))
    &&& match r {
        Ok(v) => a.len() == fs.len() + 1 && v == a.last(),
        Err(e) => a.len() <= fs.len() && fs[a.len() - 1].ensures((a.last(),), Err(e)),
    }
}
/// The operations one after the other, up to the first failure.
pub open spec fn piped_option<B, F: Fn(B) -> Option<B>>(fs: Seq<F>, init: B, r: Option<B>) -> bool { exists|a: Seq<B>| #[trigger] chain_option(fs, init, a, r) }
pub open spec fn piped_result<B, E, F: Fn(B) -> Result<B, E>>(fs: Seq<F>, init: B, r: Result<B, E>) -> bool { exists|a: Seq<B>| #[trigger] chain_result(fs, init, a, r) }
pub open spec fn through<A, B, C, F: Fn(A) -> B, G: Fn(B) -> C>(f: F, g: G, x: A, c: C) -> bool {
    exists|b: B| #[trigger] f.ensures((x,), b) && g.ensures((b,), c)
}
pub proof fn lemma_failed<A, E>(s: Seq<Result<A, E>>, i: int, e: E)
    requires first_err(s, i, e),
    ensures sequenced(s, Err::<Vec<A>, E>(e)),
{
    let r = Err::<Vec<A>, E>(e);
    assert(first_err(s, i, r->Err_0));
}
pub open spec fn judged<X, P: Fn(&X) -> bool>(p: P, s: Seq<X>, keep: Seq<bool>) -> bool {
    keep.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> p.ensures((&s[i],), #[trigger] keep[i])
}
pub proof fn lemma_try_steps<B, Func: Fn(B) -> Option<B>, F: Fn(B, Func) -> Option<B>>(f: F, init: B, s: Seq<Func>, a: Seq<B>, r: Option<B>)
    requires try_steps(f, init, s, a, r), forall|b: B, x: Func, q: Option<B>| #[trigger] f.ensures((b, x), q) ==> x.ensures((b,), q),
    ensures piped_option(s, init, r),
{
    assert forall|i: int| 0 <= i < a.len() - 1 implies (#[trigger] s[i]).ensures((a[i],), Some(a[i + 1])) by { assert(f.ensures((a[i], s[i]), Some(a[i + 1]))); }
    if r is None { assert(f.ensures((a.last(), s[a.len() - 1]), None)); }
    assert(chain_option(s, init, a, r));
}
/// The rest of a pipeline after `init`.
pub open spec fn piped_from<B, E, F: Fn(B) -> Result<B, E>>(fs: Seq<F>, init: Result<B, E>, r: Result<B, E>) -> bool {
    match init { Ok(v) => piped_result(fs, v, r), Err(e) => r == Err::<B, E>(e) }
}
pub open spec fn piped_step<B, E, Func: Fn(B) -> Result<B, E>>(acc: Result<B, E>, op: Func, q: Result<B, E>) -> bool {
    match acc { Ok(v) => op.ensures((v,), q), Err(e) => q == Err::<B, E>(e) }
}
pub proof fn lemma_piped_fold<B, E, Func: Fn(B) -> Result<B, E>, F: Fn(Result<B, E>, Func) -> Result<B, E>>(f: F, init: Result<B, E>, s: Seq<Func>, r: Result<B, E>)
    requires folds(f, init, s, r), forall|b: Result<B, E>, x: Func, q: Result<B, E>| #[trigger] f.ensures((b, x), q) ==> piped_step(b, x, q),
    ensures piped_from(s, init, r),
{
    let a = choose|a: Seq<Result<B, E>>| fold_steps(f, init, s, a) && #[trigger] a.last() == r;
    lemma_piped_prefix(f, init, s, a, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_piped_prefix<B, E, Func: Fn(B) -> Result<B, E>, F: Fn(Result<B, E>, Func) -> Result<B, E>>(f: F, init: Result<B, E>, s: Seq<Func>, a: Seq<Result<B, E>>, k: int)
    requires fold_steps(f, init, s, a), 0 <= k <= s.len(), forall|b: Result<B, E>, x: Func, q: Result<B, E>| #[trigger] f.ensures((b, x), q) ==> piped_step(b, x, q),
    ensures piped_from(s.take(k), init, a[k]),
    decreases k,
{
    if k == 0 {
        if init is Ok { assert(chain_result(s.take(0), init->Ok_0, seq![init->Ok_0], init)); }
    } else {
        lemma_piped_prefix(f, init, s, a, k - 1);
        assert(f.ensures((a[k - 1], s[k - 1]), a[k]));
        assert(piped_step(a[k - 1], s[k - 1], a[k]));
        if init is Ok {
            let c = choose|c: Seq<B>| #[trigger] chain_result(s.take(k - 1), init->Ok_0, c, a[k - 1]);
            match a[k - 1] {
                Ok(v) => {
                    match a[k] {
                        Ok(w) => {
                            let d = c.push(w);
                            assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] s.take(k)[i]).ensures((d[i],), Ok(d[i + 1])) by {
                                if i < c.len() - 1 { assert(s.take(k - 1)[i] == s.take(k)[i]); }
                            }
                            assert(chain_result(s.take(k), init->Ok_0, d, a[k]));
                        },
                        Err(e) => {
                            assert forall|i: int| 0 <= i < c.len() - 1 implies (#[trigger] s.take(k)[i]).ensures((c[i],), Ok(c[i + 1])) by { assert(s.take(k - 1)[i] == s.take(k)[i]); }
                            assert(chain_result(s.take(k), init->Ok_0, c, a[k]));
                        },
                    }
                },
                Err(e) => {
                    assert forall|i: int| 0 <= i < c.len() - 1 implies (#[trigger] s.take(k)[i]).ensures((c[i],), Ok(c[i + 1])) by { assert(s.take(k - 1)[i] == s.take(k)[i]); }
                    assert(s.take(k - 1)[c.len() - 1] == s.take(k)[c.len() - 1]);
                    assert(chain_result(s.take(k), init->Ok_0, c, a[k]));
                },
            }
        }
    }
}
/// One operation before the rest.
pub proof fn lemma_piped_cons<B, E, F: Fn(B) -> Result<B, E>>(s: Seq<F>, x: B, q: Result<B, E>, r: Result<B, E>)
    requires s.len() > 0, s[0].ensures((x,), q), piped_from(s.skip(1), q, r),
    ensures piped_result(s, x, r),
{
    match q {
        Ok(v) => {
            let c = choose|c: Seq<B>| #[trigger] chain_result(s.skip(1), v, c, r);
            let d = seq![x] + c;
            assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] s[i]).ensures((d[i],), Ok(d[i + 1])) by {
                if i > 0 { assert(s.skip(1)[i - 1] == s[i]); assert(d[i] == c[i - 1]); assert(d[i + 1] == c[i]); }
            }
            if r is Err { assert(s.skip(1)[c.len() - 1] == s[d.len() - 1]); assert(d.last() == c.last()); }
            assert(chain_result(s, x, d, r));
        },
        Err(e) => { assert(chain_result(s, x, seq![x], r)); },
    }
}
/// A collection member that holds a success or an error.
pub trait WithError<E>: Sized {
    type Success;
    spec fn outcome(&self) -> Result<Self::Success, E>;
    fn to_result(self) -> (r: Result<Self::Success, E>)
        ensures r == self.outcome();
}
pub open spec fn converted<S: IntoTo<T>, T, E>(s: Result<S, E>) -> Result<T, E> { match s { Ok(v) => Ok(v.conv()), Err(e) => Err(e) } }
//@ fn utils/error_utils.rs sequence_result props C21,C08
    ensures sequenced(collection@, r),
//@ at arm 1
    proof { assert(collection@[__it0.pos() - 1] == Err::<A, E>(error)); lemma_failed(collection@, __it0.pos() - 1, error); }
//@ loop 0
    invariant
        __it0.orig() == collection@, 0 <= __it0.pos() <= collection@.len(),
        values@.len() == __it0.pos(), forall|i: int| 0 <= i < values@.len() ==> #[trigger] collection@[i] == Ok::<A, E>(values@[i]),
    ensures __it0.pos() == collection@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ fn utils/error_utils.rs sequence props C21
    ensures sequenced(collection@, r),
//@ fn utils/error_utils.rs traverse_result props C21
    requires forall|i: int| 0 <= i < collection.items().len() ==> f.requires((#[trigger] collection.items()[i],)),
    ensures traversed(f, collection.items(), r),
//@ at before loop 0
    let ghost mut o_: Seq<Result<B, E>> = Seq::empty();
//@ loop 0
    invariant
        __it0.orig() == collection.items(), 0 <= __it0.pos() <= collection.items().len(),
        forall|i: int| 0 <= i < collection.items().len() ==> f.requires((#[trigger] collection.items()[i],)),
        o_.len() == __it0.pos(), forall|i: int| 0 <= i < o_.len() ==> f.ensures((collection.items()[i],), #[trigger] o_[i]),
        values@.len() == o_.len(), forall|i: int| 0 <= i < o_.len() ==> #[trigger] o_[i] == Ok::<B, E>(values@[i]),
    ensures __it0.pos() == collection.items().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at arm 0
    proof { o_ = o_.push(Ok(value)); }
//@ at arm 1
    proof {
        let p_ = o_.push(Err::<B, E>(error));
        assert forall|i: int| 0 <= i < p_.len() implies f.ensures((collection.items()[i],), #[trigger] p_[i]) by { if i < o_.len() { assert(p_[i] == o_[i]); } }
        assert forall|j: int| 0 <= j < o_.len() implies #[trigger] p_[j] is Ok by { assert(p_[j] == o_[j]); }
        assert(first_err(p_, o_.len() as int, error));
        lemma_failed(p_, o_.len() as int, error);
    }
//@ at tail
    proof { assert(sequenced(o_, Ok::<Vec<B>, E>(values))); }
//@ fn utils/error_utils.rs traverse props C21
    requires forall|i: int| 0 <= i < collection.items().len() ==> f.requires((#[trigger] collection.items()[i],)),
    ensures traversed(f, collection.items(), r),
//@ fn utils/error_utils.rs traverse_validated props C21,C08
    requires forall|i: int| 0 <= i < collection.items().len() ==> f.requires((#[trigger] collection.items()[i],)),
    ensures exists|o: Seq<Result<B, E>>| #[trigger] mapped(f, collection.items(), o) && accumulated(o, r),
//@ at before loop 0
    let ghost mut o_: Seq<Result<B, E>> = Seq::empty();
//@ loop 0
    invariant
        __it0.orig() == collection.items(), 0 <= __it0.pos() <= collection.items().len(),
        forall|i: int| 0 <= i < collection.items().len() ==> f.requires((#[trigger] collection.items()[i],)),
        o_.len() == __it0.pos(), forall|i: int| 0 <= i < o_.len() ==> f.ensures((collection.items()[i],), #[trigger] o_[i]),
        values@ == values_of(o_), errors@ == errors_of(o_), had_error == (errors_of(o_).len() > 0),
    ensures __it0.pos() == collection.items().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at arm 0
    proof { lemma_outcomes_push(o_, Ok::<B, E>(value)); o_ = o_.push(Ok(value)); }
//@ at arm 1
    proof { lemma_outcomes_push(o_, Err::<B, E>(error)); o_ = o_.push(Err(error)); }
//@ at tail
    proof { assert(mapped(f, collection.items(), o_)); }
//@ fn utils/error_utils.rs sequence_with_error props C21
    ensures exists|o: Seq<Result<T, E>>| #![trigger sequenced(o, r)] o.len() == collection@.len() && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == converted::<C::Success, T, E>(collection@[i].outcome())) && sequenced(o, r),
//@ at start
    let ghost all_ = collection@.map_values(|c: C| converted::<C::Success, T, E>(c.outcome()));
//@ loop 0
    invariant
        __it0.orig() == collection@, 0 <= __it0.pos() <= collection@.len(),
        all_ == collection@.map_values(|c: C| converted::<C::Success, T, E>(c.outcome())),
        values@.len() == __it0.pos(), forall|i: int| 0 <= i < values@.len() ==> #[trigger] all_[i] == Ok::<T, E>(values@[i]),
    ensures __it0.pos() == collection@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at arm 1
    proof { assert(first_err(all_, __it0.pos() - 1, error)); lemma_failed(all_, __it0.pos() - 1, error); }
//@ at tail
    proof { assert(sequenced(all_, Ok::<Vec<T>, E>(values))); }
//@ fn utils/error_utils.rs Result<T,E>[WithError]::fmap_error as result_fmap_error free props C21,C18
    requires self_ matches Err(e) ==> f.requires((e,)),
    ensures self_ matches Ok(t) ==> r == Ok::<T, G>(t), self_ matches Err(e) ==> r is Err && f.ensures((e,), r->Err_0),
//@ fn utils/error_utils.rs Result<T,E>[WithError]::to_result as result_to_result free props C21,C15
    ensures r == self_,
//@ fn utils/error_utils.rs Either<E,T>[WithError]::fmap_error as either_fmap_error free props C21,C18
    requires self_ matches Either::Left(e) ==> f.requires((e,)),
    ensures self_ matches Either::Right(t) ==> r == Either::<G, T>::Right(t), self_ matches Either::Left(e) ==> r is Left && f.ensures((e,), r->Left_0),
//@ fn utils/error_utils.rs Either<E,T>[WithError]::to_result as either_with_error_to_result free props C21,C15
    ensures r == (match self_ { Either::Left(e) => Err::<T, E>(e), Either::Right(t) => Ok(t) }),
//@ fn error/convert.rs either_to_result props C15
    ensures r == (match either { Either::Left(e) => Err::<T, E>(e), Either::Right(a) => Ok(a) }),
//@ fn error/convert.rs result_to_either props C15
    ensures r == (match result { Err(e) => Either::<E, T>::Left(e), Ok(a) => Either::Right(a) }),
//@ fn utils/error_utils.rs either_to_result as utils_either_to_result props C15
    ensures r == (match either { Either::Left(e) => Err::<T, E>(e), Either::Right(a) => Ok(a) }),
//@ fn utils/error_utils.rs result_to_either as utils_result_to_either props C15
    ensures r == (match result { Err(e) => Either::<E, T>::Left(e), Ok(a) => Either::Right(a) }),
//@ fn utils/error_utils.rs Result<T,E>[ResultExt]::to_validated as result_to_validated free props C15,C08
    ensures self_ matches Ok(t) ==> r == Validated::<E, T>::Valid(t), self_ matches Err(e) ==> r is Invalid && errs(r) =~= seq![e],
//@ fn utils/error_utils.rs Result<T,E>[ResultExt]::to_either as result_ext_to_either free props C15
    ensures r == (match self_ { Err(e) => Either::<E, T>::Left(e), Ok(a) => Either::Right(a) }),
//@ fn utils/error_utils.rs Result<T,E>[ResultExt]::unwrap_or_default as result_unwrap_or_default free props C22
    requires self_ is Err ==> T::default.requires(()),
    ensures self_ matches Ok(t) ==> r == t, self_ is Err ==> T::default.ensures((), r),
//@ closure 0 |__p0: E| -> (q: T)
    requires T::default.requires(()),
    ensures T::default.ensures((), q),
//@ fn utils/error_utils.rs Result<T,E>[ResultExt]::bimap as result_ext_bimap free props C20
    requires self_ matches Ok(t) ==> success_map.requires((t,)), self_ matches Err(e) ==> error_map.requires((e,)),
    ensures
        self_ matches Ok(t) ==> r is Ok && success_map.ensures((t,), r->Ok_0),
        self_ matches Err(e) ==> r is Err && error_map.ensures((e,), r->Err_0),
//@ fn error/core.rs Result<(),E>[ErrorCategory]::lift as result_lift free props C18
    ensures r == Ok::<T, E>(value),
//@ fn error/core.rs Result<(),E>[ErrorCategory]::handle_error as result_handle_error free props C18
    ensures r == Err::<T, E>(error),
//@ fn error/core.rs Either<E,()>[ErrorCategory]::lift as either_lift free props C18
    ensures r == Either::<E, T>::Right(value),
//@ fn error/core.rs Either<E,()>[ErrorCategory]::handle_error as either_handle_error free props C18
    ensures r == Either::<E, T>::Left(error),
//@ fn error/core.rs Validated<E,()>[ErrorCategory]::lift as validated_lift free props C18
    ensures r == Validated::<E, T>::Valid(value),
//@ fn utils/error_utils.rs AppError::context props C18
    ensures r == (match self.context { Some(c) => Some(&c), None => None::<&C> }),
//@ fn utils/transform_utils.rs Pipeline::new props C21
    ensures r.0 == value,
//@ fn utils/transform_utils.rs Pipeline::extract props C21
    ensures r == self.0,
//@ fn utils/categorical_utils.rs map_option props C21
    requires opt matches Some(x) ==> f.requires((x,)),
    ensures opt matches Some(x) ==> r is Some && f.ensures((x,), r->0), opt is None ==> r is None,
//@ fn utils/categorical_utils.rs map_result props C21
    requires result matches Ok(x) ==> f.requires((x,)),
    ensures result matches Ok(x) ==> r is Ok && f.ensures((x,), r->Ok_0), result matches Err(e) ==> r == Err::<U, E>(e),
//@ fn utils/hkt_utils.rs map_result as hkt_map_result props C21
    requires result matches Ok(x) ==> f.requires((x,)),
    ensures result matches Ok(x) ==> r is Ok && f.ensures((x,), r->Ok_0), result matches Err(e) ==> r == Err::<B, E>(e),
//@ fn utils/categorical_utils.rs bimap_result props C21,C20
    requires result matches Ok(x) ==> f_ok.requires((x,)), result matches Err(e) ==> f_err.requires((e,)),
    ensures
        result matches Ok(x) ==> r is Ok && f_ok.ensures((x,), r->Ok_0),
        result matches Err(e) ==> r is Err && f_err.ensures((e,), r->Err_0),
//@ fn utils/categorical_utils.rs flat_map_option props C21
    requires opt matches Some(x) ==> f.requires((x,)),
    ensures opt matches Some(x) ==> f.ensures((x,), r), opt is None ==> r is None,
//@ fn utils/categorical_utils.rs flat_map_result props C21
    requires result matches Ok(x) ==> f.requires((x,)),
    ensures result matches Ok(x) ==> f.ensures((x,), r), result matches Err(e) ==> r == Err::<U, E>(e),
//@ fn utils/categorical_utils.rs compose props C21,C20
    requires forall|x: A| f.requires((x,)), forall|x: A, b: B| #[trigger] f.ensures((x,), b) ==> g.requires((b,)),
    ensures forall|x: A| r.requires((x,)), forall|x: A, c: C| #[trigger] r.ensures((x,), c) ==> through(f, g, x, c),
//@ closure 0 |x: A| -> (q: C)
    requires true,
    ensures through(f, g, x, q),
//@ fn utils/categorical_utils.rs pipe props C21,C20
    requires forall|x: A| f.requires((x,)), forall|x: A, b: B| #[trigger] f.ensures((x,), b) ==> g.requires((b,)),
    ensures forall|x: A| r.requires((x,)), forall|x: A, c: C| #[trigger] r.ensures((x,), c) ==> through(f, g, x, c),
//@ closure 0 |x: A| -> (q: C)
    requires true,
    ensures through(f, g, x, q),
//@ fn utils/categorical_utils.rs flip props C21
    requires forall|a: A, b: B| f.requires((a, b)),
    ensures forall|b: B, a: A| r.requires((b, a)), forall|b: B, a: A, c: C| #[trigger] r.ensures((b, a), c) ==> f.ensures((a, b), c),
//@ closure 0 |b: B, a: A| -> (q: C)
    requires true,
    ensures f.ensures((a, b), q),
//@ fn utils/functions.rs id props C20
    ensures r == a,
//@ fn utils/functions.rs const_fn props C20
    ensures forall|b: B| r.requires((b,)), forall|b: B, a: A| #[trigger] r.ensures((b,), a) ==> a == value,
//@ closure 0 |_b: B| -> (q: A)
    ensures q == value,
//@ fn utils/categorical_utils.rs sequence_options props C21
    ensures match r {
        Some(v) => v@.len() == options@.len() && forall|i: int| 0 <= i < options@.len() ==> #[trigger] options@[i] == Some(v@[i]),
        None => exists|i: int| 0 <= i < options@.len() && #[trigger] options@[i] is None,
    },
//@ at start
    proof { assert forall|i: int| 0 <= i < options@.len() && (#[trigger] options@[i]) is Some implies options@[i] == Some(somes(options@)[i]) by {} }
//@ fn utils/categorical_utils.rs sequence_results props C21
    ensures sequenced(results@, r),
//@ at start
    proof { assert forall|i: int| 0 <= i < results@.len() && (#[trigger] results@[i]) is Ok implies results@[i] == Ok::<T, E>(oks(results@)[i]) by {} }
//@ fn utils/categorical_utils.rs filter_map_collect props C21
    requires forall|i: int| 0 <= i < iter.items().len() ==> f.requires((#[trigger] iter.items()[i],)),
    ensures exists|o: Seq<Option<U>>| #[trigger] mapped(f, iter.items(), o) && r@ == present(o),
//@ at before loop 0
    let ghost mut o_: Seq<Option<U>> = Seq::empty();
    let ghost s_ = iter@;
//@ loop 0
    invariant
        __it0.orig() == s_, 0 <= __it0.pos() <= s_.len(),
        forall|i: int| 0 <= i < s_.len() ==> f.requires((#[trigger] s_[i],)),
        o_.len() == __it0.pos(), forall|i: int| 0 <= i < o_.len() ==> f.ensures((s_[i],), #[trigger] o_[i]),
        result@ == present(o_),
    ensures __it0.pos() == s_.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost q_ = result@;
//@ at loop 0 end
    proof {
        let y_ = if result@.len() > q_.len() { Some(result@.last()) } else { None };
        assert(f.ensures((s_[o_.len() as int],), y_));
        assert(o_.push(y_).drop_last() =~= o_);
        o_ = o_.push(y_);
    }
//@ at tail
    proof { assert(mapped(f, s_, o_)); }
//@ fn utils/hkt_utils.rs filter_map props C21
    requires
        forall|i: int| 0 <= i < collection.items().len() ==> predicate.requires((&#[trigger] collection.items()[i],)),
        forall|i: int| 0 <= i < collection.items().len() && predicate.ensures((&collection.items()[i],), true) ==> f.requires((#[trigger] collection.items()[i],)),
    ensures exists|keep: Seq<bool>| #[trigger] judged(predicate, collection.items(), keep) && mapped(f, select(collection.items(), keep), r@),
//@ at before loop 0
    let ghost mut k_: Seq<bool> = Seq::empty();
    let ghost s_ = iter@;
    proof { assert(s_.take(0) =~= Seq::<A>::empty()); }
//@ loop 0
    invariant
        __it0.orig() == s_, 0 <= __it0.pos() <= s_.len(),
        forall|i: int| 0 <= i < s_.len() ==> predicate.requires((&#[trigger] s_[i],)),
        forall|i: int| 0 <= i < s_.len() && predicate.ensures((&s_[i],), true) ==> f.requires((#[trigger] s_[i],)),
        k_.len() == __it0.pos(), forall|i: int| 0 <= i < k_.len() ==> predicate.ensures((&s_[i],), #[trigger] k_[i]),
        mapped(f, select(s_.take(k_.len() as int), k_), result@),
    ensures __it0.pos() == s_.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost q_ = result@;
//@ at loop 0 end
    proof {
        let b_ = result@.len() > q_.len();
        assert(predicate.ensures((&s_[k_.len() as int],), b_));
        lemma_select_step(s_, k_, b_);
        k_ = k_.push(b_);
    }
//@ at tail
    proof { assert(s_.take(s_.len() as int) =~= s_); assert(judged(predicate, s_, k_)); }
//@ fn utils/hkt_utils.rs zip_with props C21
    requires forall|i: int| 0 <= i < xs@.len() && i < ys@.len() ==> f.requires((#[trigger] xs@[i], ys@[i])),
    ensures r@.len() == (if xs@.len() < ys@.len() { xs@.len() } else { ys@.len() }), forall|i: int| 0 <= i < r@.len() ==> f.ensures((xs@[i], ys@[i]), #[trigger] r@[i]),
//@ closure 0 |p_: (A, B)| -> (q: C)
    requires f.requires((p_.0, p_.1)),
    ensures f.ensures((p_.0, p_.1), q),
//@ fn utils/hkt_utils.rs fan_out props C21
    requires forall|i: int| 0 <= i < operations@.len() ==> (#[trigger] operations@[i]).requires((input,)),
    ensures r@.len() == operations@.len(), forall|i: int| 0 <= i < r@.len() ==> operations@[i].ensures((input,), #[trigger] r@[i]),
//@ closure 0 |op: F| -> (q: B)
    requires op.requires((input,)),
    ensures op.ensures((input,), q),
//@ fn utils/hkt_utils.rs pipeline_option props C21
    requires forall|b: B, i: int| 0 <= i < operations.items().len() ==> #[trigger] operations.items()[i].requires((b,)),
    ensures piped_option(operations.items(), initial.conv(), r),
//@ closure 0 |acc: B, op: Func| -> (q: Option<B>)
    requires op.requires((acc,)),
    ensures op.ensures((acc,), q),
//@ hoist 0
//@ at tail
    proof {
        assert forall|a: Seq<B>, r_: Option<B>| #[trigger] try_steps(__c0, initial.conv(), operations.items(), a, r_) implies piped_option(operations.items(), initial.conv(), r_) by {
            lemma_try_steps(__c0, initial.conv(), operations.items(), a, r_);
        }
    }
//@ fn utils/hkt_utils.rs pipeline_result props C21
    requires forall|b: B, i: int| 0 <= i < operations@.len() ==> #[trigger] operations@[i].requires((b,)),
    ensures piped_result(operations@, initial.conv(), r),
//@ closure 0 |acc: Result<B, E>, op: Func| -> (q: Result<B, E>)
    requires acc matches Ok(v) ==> op.requires((v,)),
    ensures piped_step(acc, op, q),
//@ hoist 0
//@ at tail
    proof {
        assert forall|r_: Result<B, E>| #[trigger] folds(__c0, initial_result, iter@, r_) implies piped_result(operations@, initial.conv(), r_) by {
            lemma_piped_fold(__c0, initial_result, iter@, r_);
            if operations@.len() > 0 {
                assert(iter@ =~= operations@.skip(1));
                lemma_piped_cons(operations@, initial.conv(), initial_result, r_);
            } else {
                assert(iter@ =~= operations@);
            }
        }
    }
//@ fn utils/hkt_utils.rs try_pipeline props C21
    requires forall|b: B, i: int| 0 <= i < operations@.len() ==> #[trigger] operations@[i].requires((b,)),
    ensures piped_result(operations@, initial.conv(), r),
//@ fn utils/hkt_utils.rs lift_option props C21
    requires forall|a: A| f.requires((a,)),
    ensures forall|o: Option<A>| r.requires((o,)), forall|o: Option<A>, q: Option<B>| #[trigger] r.ensures((o,), q) ==> match o { Some(a) => q is Some && f.ensures((a,), q->0), None => q is None },
//@ closure 0 |opt: Option<A>| -> (q: Option<B>)
    ensures match opt { Some(a) => q is Some && f.ensures((a,), q->0), None => q is None },
