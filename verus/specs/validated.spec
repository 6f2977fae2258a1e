//@ method iter iter_
//@ method into into_to_
//@ method into_iter into_iter_
//@ method extend extend_
//@ method drain drain_
//@ method into_vec into_same_
//@ path SmallVec::new Vec::new
//@ path SmallVec::with_capacity Vec::with_capacity
//@ path ErrorVec::new Vec::new
//@ path ErrorVec::with_capacity Vec::with_capacity
//@ path SmallVec::from_vec vec_id_
//@ path smallvec::SmallVec::from_vec vec_id_
//@ path crate::error::result_to_validated result_to_validated
//@ path Monoid::empty Validated::empty
//@ path C::from_iter make_from_
//@ bound IntoIterator IntoIt
//@ bound Iterator IntoIt
//@ bound FromIterator FromIt
//@ bound FnMut Fn
//@ bound FnOnce Fn
//@ bound Into IntoTo
//@ assoc Validated Source A
//@ assoc Validated Source2 E
//@ assoc Validated Output Validated<E,$0>
//@ assoc Validated BinaryOutput Validated<$1,$0>
//@ type datatypes/validated/core.rs Validated
//@ type datatypes/validated/core.rs ErrorVec
//@ type datatypes/validated/core.rs ErrorAccumulator
//@ type datatypes/validated/iter.rs Iter
//@ type datatypes/validated/iter.rs IntoIter
//@ type datatypes/either.rs Either
//@ assoc ResultValidatedIso From Result<A,E>
//@ assoc ResultValidatedIso To Validated<E,A>
//@ raw
broadcast use {prelude_lemmas, prelude_len, prelude_present};
impl<E: Clone, A: Clone> Clone for Validated<E, A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
/// The errors of a validated value, in order (none when it is valid).
pub open spec fn errs<E, A>(v: Validated<E, A>) -> Seq<E> {
    match v { Validated::Valid(_) => Seq::empty(), Validated::Invalid(e) => e@ }
}
/// `r` is invalid with the errors `s`.
pub open spec fn fails<E, A>(r: Validated<E, A>, s: Seq<E>) -> bool { r is Invalid && errs(r) =~= s }
/// All errors of all of `s`, in order.
pub open spec fn all_errs<E, A>(s: Seq<Validated<E, A>>) -> Seq<E>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { all_errs(s.drop_last()) + errs(s.last()) } }
/// The values of the valid members of `s`, in order.
pub open spec fn values_<E, A>(s: Seq<Validated<E, A>>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { match s.last() { Validated::Valid(a) => values_(s.drop_last()).push(a), Validated::Invalid(_) => values_(s.drop_last()) } }
}
pub open spec fn any_invalid<E, A>(s: Seq<Validated<E, A>>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Invalid }
/// What an unsuccessful recovery leaves, one outcome per error.
pub open spec fn recovered<E, A, F: Fn(E) -> Validated<E, A>>(f: F, es: Seq<E>, o: Seq<Validated<E, A>>) -> bool {
    &&& o.len() <= es.len()
    &&& forall|i: int| 0 <= i < o.len() ==> f.ensures((es[i],), #[trigger] o[i])
    &&& forall|i: int| 0 <= i < o.len() - 1 ==> (#[trigger] o[i]) is Invalid
}
pub proof fn lemma_push<E, A>(s: Seq<Validated<E, A>>, v: Validated<E, A>)
    ensures
        all_errs(s.push(v)) == all_errs(s) + errs(v),
        values_(s.push(v)) == (match v { Validated::Valid(a) => values_(s).push(a), Validated::Invalid(_) => values_(s) }),
        any_invalid(s.push(v)) == (any_invalid(s) || v is Invalid),
{
    let t = s.push(v);
    assert(t.drop_last() =~= s);
    if any_invalid(s) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Invalid; assert(t[i] is Invalid); }
    if v is Invalid { assert(t[s.len() as int] is Invalid); }
    if any_invalid(t) && !(v is Invalid) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Invalid; assert(s[i] is Invalid); }
}
pub proof fn lemma_take_step<E, A>(s: Seq<Validated<E, A>>, k: int)
    requires 0 <= k < s.len(),
    ensures
        all_errs(s.take(k + 1)) == all_errs(s.take(k)) + errs(s[k]),
        values_(s.take(k + 1)) == (match s[k] { Validated::Valid(a) => values_(s.take(k)).push(a), Validated::Invalid(_) => values_(s.take(k)) }),
        any_invalid(s.take(k + 1)) == (any_invalid(s.take(k)) || s[k] is Invalid),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    lemma_push(s.take(k), s[k]);
}
/// One step of accumulation.
pub open spec fn accumulated<E, A>(b: (Vec<A>, Vec<E>, bool), x: Validated<E, A>, q: (Vec<A>, Vec<E>, bool)) -> bool {
    &&& q.0@ =~= (match x { Validated::Valid(a) => b.0@.push(a), Validated::Invalid(_) => b.0@ })
    &&& q.1@ =~= b.1@ + errs(x)
    &&& q.2 == (b.2 || x is Invalid)
}
pub proof fn lemma_collected<E, A, F: Fn((Vec<A>, Vec<E>, bool), Validated<E, A>) -> (Vec<A>, Vec<E>, bool)>(f: F, init: (Vec<A>, Vec<E>, bool), s: Seq<Validated<E, A>>, r: (Vec<A>, Vec<E>, bool))
    requires
        folds(f, init, s, r), init.0@.len() == 0, init.1@.len() == 0, !init.2,
        forall|b: (Vec<A>, Vec<E>, bool), x: Validated<E, A>, q: (Vec<A>, Vec<E>, bool)| #[trigger] f.ensures((b, x), q) ==> accumulated(b, x, q),
    ensures r.0@ == values_(s), r.1@ == all_errs(s), r.2 == any_invalid(s),
{
    let a = choose|a: Seq<(Vec<A>, Vec<E>, bool)>| fold_steps(f, init, s, a) && #[trigger] a.last() == r;
    lemma_collected_prefix(f, init, s, a, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_collected_prefix<E, A, F: Fn((Vec<A>, Vec<E>, bool), Validated<E, A>) -> (Vec<A>, Vec<E>, bool)>(f: F, init: (Vec<A>, Vec<E>, bool), s: Seq<Validated<E, A>>, a: Seq<(Vec<A>, Vec<E>, bool)>, k: int)
    requires
        fold_steps(f, init, s, a), init.0@.len() == 0, init.1@.len() == 0, !init.2, 0 <= k <= s.len(),
        forall|b: (Vec<A>, Vec<E>, bool), x: Validated<E, A>, q: (Vec<A>, Vec<E>, bool)| #[trigger] f.ensures((b, x), q) ==> accumulated(b, x, q),
    ensures a[k].0@ == values_(s.take(k)), a[k].1@ == all_errs(s.take(k)), a[k].2 == any_invalid(s.take(k)),
    decreases k,
{
    if k > 0 {
        lemma_collected_prefix(f, init, s, a, k - 1);
        lemma_take_step(s, k - 1);
        assert(f.ensures((a[k - 1], s[k - 1]), a[k]));
    } else {
        assert(a[0].0@ =~= values_(s.take(0)));
        assert(a[0].1@ =~= all_errs(s.take(0)));
    }
}
/// With every member valid, the values are those of the members.
pub proof fn lemma_all_valid<E, A>(s: Seq<Validated<E, A>>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Valid,
    ensures values_(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> values_(s)[i] == (#[trigger] s[i])->Valid_0, all_errs(s).len() == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_all_valid(t);
        assert forall|i: int| 0 <= i < s.len() implies values_(s)[i] == (#[trigger] s[i])->Valid_0 by { if i < t.len() { assert(t[i] == s[i]); } }
    }
}
pub open spec fn value_<E, A>(v: Validated<E, A>) -> Option<A> { match v { Validated::Valid(a) => Some(a), Validated::Invalid(_) => None } }
pub broadcast proof fn lemma_present_values<E, A>(s: Seq<Validated<E, A>>, o: Seq<Option<A>>)
    requires o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] o[i] == value_(s[i]),
    ensures #![trigger present(o), values_(s)] present(o) == values_(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_present_values(s.drop_last(), o.drop_last()); }
}
//@ fn datatypes/validated/core.rs ErrorAccumulator::new props C08
    ensures r.buffer@.len() == 0,
//@ fn datatypes/validated/core.rs ErrorAccumulator::with_capacity props C08
    ensures r.buffer@.len() == 0,
//@ fn datatypes/validated/core.rs ErrorAccumulator::into_inner props C08
    ensures r == self.buffer,
//@ fn datatypes/validated/core.rs ErrorAccumulator::extend_owned props C08
    ensures final(self).buffer@ =~= old(self).buffer@ + errors@,
//@ fn datatypes/validated/core.rs ErrorAccumulator::extend_cloned props C08
    ensures final(self).buffer@ =~= old(self).buffer@ + errors@,
//@ fn datatypes/validated/core.rs Validated::is_valid props C08
    ensures r == (self is Valid),
//@ fn datatypes/validated/core.rs Validated::is_invalid props C08
    ensures r == (self is Invalid),
//@ fn datatypes/validated/core.rs Validated::recover_all props C08,C22
    requires forall|i: int| 0 <= i < errs(self).len() ==> recovery.requires((#[trigger] errs(self)[i],)),
    ensures
        self is Valid ==> r == self,
        self is Invalid ==> exists|o: Seq<Validated<E, A>>| #[trigger] recovered(recovery, errs(self), o)
            && if r is Valid { o.len() > 0 && o.last() == r } else { o.len() == errs(self).len() && (o.len() > 0 ==> o.last() is Invalid) && fails(r, all_errs(o)) },
//@ at before loop 0
    let ghost mut o_: Seq<Validated<E, A>> = Seq::empty();
//@ loop 0
    invariant
        __it0.orig() == errs(self), 0 <= __it0.pos() <= errs(self).len(), self is Invalid,
        forall|i: int| 0 <= i < errs(self).len() ==> recovery.requires((#[trigger] errs(self)[i],)),
        o_.len() == __it0.pos(), recovered(recovery, errs(self), o_), forall|i: int| 0 <= i < o_.len() ==> (#[trigger] o_[i]) is Invalid,
        accumulated@ =~= all_errs(o_),
    ensures __it0.pos() == errs(self).len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at arm 2
    let ghost out_ = Validated::<E, A>::Valid(v);
    proof { assert(recovered(recovery, errs(self), o_.push(out_))); }
//@ at arm 3
    let ghost out_ = Validated::<E, A>::Invalid(more_errors);
    proof { lemma_push(o_, out_); o_ = o_.push(out_); }
//@ fn datatypes/validated/core.rs Validated::recover_all_at_once props C08,C22
    requires self is Invalid ==> forall|v: Vec<E>| v@ == errs(self) ==> #[trigger] recovery.requires((v,)),
    ensures self is Valid ==> r == self, self is Invalid ==> exists|v: Vec<E>| v@ == errs(self) && #[trigger] recovery.ensures((v,), r),
//@ fn datatypes/validated/core.rs Validated::recover_with props C08,C22
    ensures r == (if self is Valid { self } else { Validated::Valid(default) }),
//@ fn datatypes/validated/core.rs Validated::errors props C08
    ensures r@ =~= errs(*self),
//@ fn datatypes/validated/core.rs Validated::error_slice props C08
    ensures r@ =~= errs(*self),
//@ fn datatypes/validated/core.rs Validated::iter_errors props C08
    ensures r.fresh(refs(errs(*self))),
//@ retty It<&E>
//@ fn datatypes/validated/core.rs Validated::error_payload props C08
    ensures r == (match *self { Validated::Valid(_) => None, Validated::Invalid(es) => Some(&es) }),
//@ fn datatypes/validated/core.rs Validated::into_value as into_value_result props C08,C15
    ensures r == (match self { Validated::Valid(a) => Ok::<A, SmallVec<[E; 8]>>(a), Validated::Invalid(es) => Err(es) }),
//@ fn datatypes/validated/core.rs Validated::into_error_payload props C08,C15
    ensures r == (match self { Validated::Valid(a) => Err::<SmallVec<[E; 8]>, A>(a), Validated::Invalid(es) => Ok(es) }),
//@ fn datatypes/validated/core.rs Validated::valid props C08
    ensures r == Validated::<E, A>::Valid(x),
//@ fn datatypes/validated/core.rs Validated::invalid props C08
    ensures fails(r, seq![e]),
//@ fn datatypes/validated/core.rs Validated::invalid_many props C08
    ensures fails(r, errors.items()),
//@ fn datatypes/validated/core.rs Validated::invalid_vec props C08
    requires errors.items().len() > 0,
    ensures fails(r, errors.items()),
//@ fn datatypes/validated/core.rs Validated::fmap_invalid props C08
    requires forall|i: int| 0 <= i < errs(*self).len() ==> f.requires((&#[trigger] errs(*self)[i],)),
    ensures self is Valid ==> r == Validated::<G, A>::Valid(self->Valid_0),
        self is Invalid ==> r is Invalid && errs(r).len() == errs(*self).len() && forall|i: int| 0 <= i < errs(r).len() ==> f.ensures((&errs(*self)[i],), #[trigger] errs(r)[i]),
//@ fn datatypes/validated/core.rs Validated::fmap_invalid_owned props C08
    requires forall|i: int| 0 <= i < errs(self).len() ==> f.requires((#[trigger] errs(self)[i],)),
    ensures self is Valid ==> r == Validated::<G, A>::Valid(self->Valid_0),
        self is Invalid ==> r is Invalid && errs(r).len() == errs(self).len() && forall|i: int| 0 <= i < errs(r).len() ==> f.ensures((errs(self)[i],), #[trigger] errs(r)[i]),
//@ at start
    proof { if self is Invalid { assert(errs(self) == self->Invalid_0@); } }
//@ fn datatypes/validated/core.rs Validated::combine_errors props C08
    requires self is Invalid || other is Invalid, errs(*self).len() + errs(*other).len() <= usize::MAX,
    ensures fails(r, errs(*self) + errs(*other)),
//@ fn datatypes/validated/core.rs Validated::combine_errors_owned props C08
    requires self is Invalid || other is Invalid, errs(self).len() + errs(other).len() <= usize::MAX,
    ensures fails(r, errs(self) + errs(other)),
//@ fn error/convert.rs result_to_validated props C08,C15
    ensures result matches Ok(a) ==> r == Validated::<E, T>::Valid(a), result matches Err(e) ==> fails(r, seq![e]),
//@ fn error/convert.rs validated_to_result props C08,C15
    requires validated is Invalid ==> errs(validated).len() > 0,
    ensures r == (match validated { Validated::Valid(a) => Ok::<T, E>(a), Validated::Invalid(e) => Err(e@[0]) }),
//@ fn error/convert.rs either_to_validated props C08,C15
    ensures either matches Either::Right(a) ==> r == Validated::<E, T>::Valid(a), either matches Either::Left(e) ==> fails(r, seq![e]),
//@ fn error/convert.rs validated_to_either props C08,C15
    requires validated is Invalid ==> errs(validated).len() > 0,
    ensures r == (match validated { Validated::Valid(a) => Either::<E, T>::Right(a), Validated::Invalid(e) => Either::Left(e@[0]) }),
//@ fn error/convert.rs either_to_result props C15
    ensures r == (match either { Either::Left(e) => Err::<T, E>(e), Either::Right(a) => Ok(a) }),
//@ fn error/convert.rs result_to_either props C15
    ensures r == (match result { Err(e) => Either::<E, T>::Left(e), Ok(a) => Either::Right(a) }),
//@ fn error/convert.rs collect_errors props C08,C21
    ensures errors.items().len() == 0 ==> r is Valid, errors.items().len() > 0 ==> fails(r, errors.items()),
//@ fn error/convert.rs split_validated_errors props C08,C15
    ensures
        validated matches Validated::Valid(a) ==> r@ =~= seq![Ok::<T, E>(a)],
        validated is Invalid ==> r@ =~= errs(validated).map_values(|e: E| Err::<T, E>(e)),
//@ closure 0 |e: E| -> (q: Result<T, E>)
    ensures q == Err::<T, E>(e),
//@ fn utils/error_utils.rs Validated[WithError]::to_result as with_error_to_result props C08,C15,C21
    requires self is Invalid ==> errs(self).len() > 0,
    ensures r == (match self { Validated::Valid(a) => Ok::<T, E>(a), Validated::Invalid(e) => Err(e@[0]) }),
//@ retty Result<T, E>
//@ fn datatypes/validated/core.rs Validated::to_result calls to_result=with_error_to_result props C08,C15
    requires self is Invalid ==> errs(*self).len() > 0,
    ensures r == (match *self { Validated::Valid(a) => Ok::<A, E>(a), Validated::Invalid(e) => Err(e@[0]) }),
//@ fn datatypes/validated/core.rs Validated::to_result_owned calls to_result=with_error_to_result props C08,C15
    requires self is Invalid ==> errs(self).len() > 0,
    ensures r == (match self { Validated::Valid(a) => Ok::<A, E>(a), Validated::Invalid(e) => Err(e@[0]) }),
//@ fn utils/error_utils.rs Validated[WithError]::fmap_error props C08,C21
    requires forall|i: int| 0 <= i < errs(self).len() ==> f.requires((#[trigger] errs(self)[i],)),
    ensures self is Valid ==> r == Validated::<G, T>::Valid(self->Valid_0),
        self is Invalid ==> r is Invalid && errs(r).len() == errs(self).len() && forall|i: int| 0 <= i < errs(r).len() ==> f.ensures((errs(self)[i],), #[trigger] errs(r)[i]),
//@ retty Validated<G, T>
//@ at start
    proof { if self is Invalid { assert(errs(self) == self->Invalid_0@); } }
//@ fn datatypes/validated/core.rs Validated::from_result props C08,C15
    ensures *result matches Ok(a) ==> r == Validated::<E, A>::Valid(a), *result matches Err(e) ==> fails(r, seq![e]),
//@ fn datatypes/validated/core.rs Validated::from_result_owned props C08,C15
    ensures result matches Ok(a) ==> r == Validated::<E, A>::Valid(a), result matches Err(e) ==> fails(r, seq![e]),
//@ fn datatypes/validated/core.rs Validated::from_option props C08,C15
    ensures *option matches Some(a) ==> r == Validated::<E, A>::Valid(a), *option is None ==> fails(r, seq![*error]),
//@ fn datatypes/validated/core.rs Validated::from_option_owned props C08,C15
    ensures option matches Some(a) ==> r == Validated::<E, A>::Valid(a), option is None ==> fails(r, seq![error]),
//@ fn datatypes/validated/core.rs Validated::from_option_with props C08,C15
    requires *option is None ==> error_fn.requires(()),
    ensures *option matches Some(a) ==> r == Validated::<E, A>::Valid(a), *option is None ==> exists|e: E| #[trigger] error_fn.ensures((), e) && fails(r, seq![e]),
//@ fn datatypes/validated/core.rs Validated::from_option_with_owned props C08,C15
    requires option is None ==> error_fn.requires(()),
    ensures option matches Some(a) ==> r == Validated::<E, A>::Valid(a), option is None ==> exists|e: E| #[trigger] error_fn.ensures((), e) && fails(r, seq![e]),
//@ fn datatypes/validated/core.rs Validated::unwrap props C08
    requires self is Valid,
    ensures r == self->Valid_0,
//@ fn datatypes/validated/core.rs Validated::unwrap_or props C08
    ensures r == (match *self { Validated::Valid(a) => a, Validated::Invalid(_) => *default }),
//@ fn datatypes/validated/core.rs Validated::as_ref props C08
    ensures r == (match *self { Validated::Valid(a) => Some(&a), Validated::Invalid(_) => None }),
//@ fn datatypes/validated/core.rs Validated::unwrap_invalid props C08
    requires self is Invalid,
    ensures r@ =~= errs(*self),
//@ fn datatypes/validated/core.rs Validated::unwrap_owned props C08
    requires self is Valid,
    ensures r == self->Valid_0,
//@ fn datatypes/validated/core.rs Validated::unwrap_invalid_owned props C08
    requires self is Invalid,
    ensures r@ =~= errs(self),
//@ fn datatypes/validated/core.rs Validated::sequence props C08,C21
    requires forall|s: &[A]| s@ =~= values_(derefs(values@)) && !any_invalid(derefs(values@)) ==> #[trigger] f.requires((s,)),
    ensures
        !any_invalid(derefs(values@)) ==> exists|s: &[A], b: B| s@ =~= values_(derefs(values@)) && #[trigger] f.ensures((s,), b) && r == Validated::<E, B>::Valid(b),
        any_invalid(derefs(values@)) ==> fails(r, all_errs(derefs(values@))),
//@ loop 0
    invariant
        __it0.orig() == refs(values@), 0 <= __it0.pos() <= values@.len(),
        acc.buffer@ =~= all_errs(derefs(values@).take(__it0.pos())),
    ensures __it0.pos() == values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { lemma_take_step(derefs(values@), __it0.pos() - 1); }
//@ closure 0 |v: &&Validated<E, A>| -> (q: bool)
    ensures q == (**v is Valid),
//@ closure 1 |v: &&Validated<E, A>| -> (q: Option<A>)
    ensures q == value_(**v),
//@ at after loop 0
    proof { assert(derefs(values@).take(values@.len() as int) =~= derefs(values@)); }
//@ at start
    broadcast use lemma_present_values;
    proof {
        assert forall|i: int| 0 <= i < values@.len() implies *refs(values@)[i] == values@[i] && *values@[i] == #[trigger] derefs(values@)[i] by {}
        assert forall|i: int| 0 <= i < values@.len() implies **(#[trigger] refs(values@)[i]) == derefs(values@)[i] by {}
    }
//@ fn datatypes/validated/core.rs Validated::sequence_owned props C08,C21
    requires forall|v: Vec<A>| v@ =~= values_(values@) && !any_invalid(values@) ==> #[trigger] f.requires((v,)),
    ensures
        !any_invalid(values@) ==> exists|v: Vec<A>, b: B| v@ =~= values_(values@) && #[trigger] f.ensures((v,), b) && r == Validated::<E, B>::Valid(b),
        any_invalid(values@) ==> fails(r, all_errs(values@)),
//@ loop 0
    invariant
        __it0.orig() == values@, 0 <= __it0.pos() <= values@.len(),
        acc.buffer@ =~= all_errs(values@.take(__it0.pos())),
    ensures __it0.pos() == values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { lemma_take_step(values@, __it0.pos() - 1); }
//@ closure 0 |v: &Validated<E, A>| -> (q: bool)
    ensures q == (*v is Valid),
//@ closure 1 |v: Validated<E, A>| -> (q: Option<A>)
    ensures q == value_(v),
//@ at after loop 0
    proof { assert(values@.take(values@.len() as int) =~= values@); }
//@ at start
    broadcast use lemma_present_values;
    proof {
        assert forall|i: int| 0 <= i < values@.len() implies *refs(values@)[i] == #[trigger] values@[i] by {}
    }
//@ fn datatypes/validated/core.rs Validated::collect props C08,C21
    ensures
        !any_invalid(iter.items()) ==> r is Valid && r->Valid_0.made_from(values_(iter.items())),
        any_invalid(iter.items()) ==> fails(r, all_errs(iter.items())),
//@ hoist 0
//@ at let (values,errors,invalid)
    proof {
        let i_ = choose|i: (Vec<A>, Vec<E>, bool)| i.0@.len() == 0 && i.1@.len() == 0 && !i.2 && #[trigger] folds(__c0, i, iter.items(), (values, errors, invalid));
        lemma_collected(__c0, i_, iter.items(), (values, errors, invalid));
    }
//@ closure 0 |__p0: (Vec<A>, Vec<E>, bool), item: Validated<E, A>| -> (q: (Vec<A>, Vec<E>, bool))
    ensures accumulated(__p0, item, q),
//@ fn datatypes/validated/core.rs Validated::collect_owned props C08,C21
    ensures
        !any_invalid(iter.items()) ==> r is Valid && r->Valid_0.made_from(values_(iter.items())),
        any_invalid(iter.items()) ==> fails(r, all_errs(iter.items())),
//@ loop 0
    invariant
        __it0.orig() == iter.items(), 0 <= __it0.pos() <= iter.items().len(),
        acc.buffer@ =~= all_errs(iter.items().take(__it0.pos())), values@ =~= values_(iter.items().take(__it0.pos())),
        invalid == any_invalid(iter.items().take(__it0.pos())),
    ensures __it0.pos() == iter.items().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { lemma_take_step(iter.items(), __it0.pos() - 1); }
//@ at after loop 0
    proof { assert(iter.items().take(iter.items().len() as int) =~= iter.items()); }
//@ fn datatypes/validated/core.rs Validated::to_option props C08,C15
    ensures r == (match *self { Validated::Valid(a) => Some(a), Validated::Invalid(_) => None }),
//@ raw
/// Mapping of the errors of `v`.
pub open spec fn errs_mapped<E, D, A, C, G: Fn(&E) -> D>(g: G, v: Validated<E, A>, r: Validated<D, C>) -> bool {
    r is Invalid && errs(r).len() == errs(v).len() && forall|i: int| 0 <= i < errs(r).len() ==> g.ensures((&errs(v)[i],), #[trigger] errs(r)[i])
}
//@ fn datatypes/validated/traits.rs Validated[AsRef]::as_ref as as_ref_or_panic props C08
    requires self is Valid,
    ensures *r == self->Valid_0,
//@ fn datatypes/validated/traits.rs Validated[Pure]::pure props C08
    ensures r == Validated::<E, T>::Valid(*x),
//@ fn datatypes/validated/traits.rs Validated[Pure]::pure_owned props C08
    ensures r == Validated::<E, T>::Valid(x),
//@ fn datatypes/validated/traits.rs Validated[Functor]::fmap props C08
    requires *self matches Validated::Valid(a) ==> f.requires((&a,)),
    ensures
        *self matches Validated::Valid(a) ==> (r matches Validated::Valid(b) && f.ensures((&a,), b)),
        *self is Invalid ==> fails(r, errs(*self)),
//@ fn datatypes/validated/traits.rs Validated[Functor]::fmap_owned props C08
    requires self matches Validated::Valid(a) ==> f.requires((a,)),
    ensures
        self matches Validated::Valid(a) ==> (r matches Validated::Valid(b) && f.ensures((a,), b)),
        self is Invalid ==> fails(r, errs(self)),
//@ fn datatypes/validated/traits.rs Validated[BinaryHKT]::map_second props C08,C20
    requires forall|i: int| 0 <= i < errs(*self).len() ==> f.requires((&#[trigger] errs(*self)[i],)),
    ensures *self matches Validated::Valid(a) ==> r == Validated::<C, A>::Valid(a), *self is Invalid ==> errs_mapped(f, *self, r),
//@ at start
    proof { if self is Invalid { assert(errs(*self) == self->Invalid_0@); } }
//@ fn datatypes/validated/traits.rs Validated[BinaryHKT]::map_second_owned props C08,C20
    requires forall|i: int| 0 <= i < errs(self).len() ==> f.requires((#[trigger] errs(self)[i],)),
    ensures self matches Validated::Valid(a) ==> r == Validated::<C, A>::Valid(a),
        self is Invalid ==> r is Invalid && errs(r).len() == errs(self).len() && forall|i: int| 0 <= i < errs(r).len() ==> f.ensures((errs(self)[i],), #[trigger] errs(r)[i]),
//@ at start
    proof { if self is Invalid { assert(errs(self) == self->Invalid_0@); } }
//@ fn datatypes/validated/traits.rs Validated[Bifunctor]::bimap props C08,C20
    requires *self matches Validated::Valid(a) ==> f.requires((&a,)), forall|i: int| 0 <= i < errs(*self).len() ==> g.requires((&#[trigger] errs(*self)[i],)),
    ensures *self matches Validated::Valid(a) ==> (r matches Validated::Valid(c) && f.ensures((&a,), c)), *self is Invalid ==> errs_mapped(g, *self, r),
//@ at start
    proof { if self is Invalid { assert(errs(*self) == self->Invalid_0@); } }
//@ fn datatypes/validated/traits.rs Validated[Bifunctor]::first props C08,C20
    requires *self matches Validated::Valid(a) ==> f.requires((&a,)),
    ensures *self matches Validated::Valid(a) ==> (r matches Validated::Valid(c) && f.ensures((&a,), c)), *self is Invalid ==> fails(r, errs(*self)),
//@ fn datatypes/validated/traits.rs Validated[Bifunctor]::second props C08,C20
    requires forall|i: int| 0 <= i < errs(*self).len() ==> g.requires((&#[trigger] errs(*self)[i],)),
    ensures *self matches Validated::Valid(a) ==> r == Validated::<D, A>::Valid(a), *self is Invalid ==> errs_mapped(g, *self, r),
//@ at start
    proof { if self is Invalid { assert(errs(*self) == self->Invalid_0@); } }
//@ fn datatypes/validated/traits.rs Validated[Applicative]::apply props C08
    requires errs(*self).len() + errs(*value).len() <= usize::MAX, (*self, *value) matches (Validated::Valid(f), Validated::Valid(a)) ==> f.requires((&a,)),
    ensures
        (*self, *value) matches (Validated::Valid(f), Validated::Valid(a)) ==> (r matches Validated::Valid(b) && f.ensures((&a,), b)),
        *self is Invalid || *value is Invalid ==> fails(r, errs(*self) + errs(*value)),
//@ fn datatypes/validated/traits.rs Validated[Applicative]::apply_owned props C08
    requires (self, value) matches (Validated::Valid(f), Validated::Valid(a)) ==> f.requires((a,)),
    ensures
        (self, value) matches (Validated::Valid(f), Validated::Valid(a)) ==> (r matches Validated::Valid(b) && f.ensures((a,), b)),
        self is Invalid || value is Invalid ==> fails(r, errs(self) + errs(value)),
//@ fn datatypes/validated/traits.rs Validated[Applicative]::lift2 props C08
    requires (*fa, *fb) matches (Validated::Valid(a), Validated::Valid(b)) ==> f.requires((&a, &b)),
    ensures
        (*fa, *fb) matches (Validated::Valid(a), Validated::Valid(b)) ==> (r matches Validated::Valid(c) && f.ensures((&a, &b), c)),
        *fa is Invalid || *fb is Invalid ==> fails(r, errs(*fa) + errs(*fb)),
//@ fn datatypes/validated/traits.rs Validated[Applicative]::lift2_owned props C08
    requires (fa, fb) matches (Validated::Valid(a), Validated::Valid(b)) ==> f.requires((a, b)),
    ensures
        (fa, fb) matches (Validated::Valid(a), Validated::Valid(b)) ==> (r matches Validated::Valid(c) && f.ensures((a, b), c)),
        fa is Invalid || fb is Invalid ==> fails(r, errs(fa) + errs(fb)),
//@ fn datatypes/validated/traits.rs Validated[Applicative]::lift3 props C08
    requires (*fa, *fb, *fc) matches (Validated::Valid(a), Validated::Valid(b), Validated::Valid(c)) ==> f.requires((&a, &b, &c)),
    ensures
        (*fa, *fb, *fc) matches (Validated::Valid(a), Validated::Valid(b), Validated::Valid(c)) ==> (r matches Validated::Valid(d) && f.ensures((&a, &b, &c), d)),
        *fa is Invalid || *fb is Invalid || *fc is Invalid ==> fails(r, errs(*fa) + errs(*fb) + errs(*fc)),
//@ fn datatypes/validated/traits.rs Validated[Applicative]::lift3_owned props C08
    requires errs(fa).len() + errs(fb).len() + errs(fc).len() <= usize::MAX, (fa, fb, fc) matches (Validated::Valid(a), Validated::Valid(b), Validated::Valid(c)) ==> f.requires((a, b, c)),
    ensures
        (fa, fb, fc) matches (Validated::Valid(a), Validated::Valid(b), Validated::Valid(c)) ==> (r matches Validated::Valid(d) && f.ensures((a, b, c), d)),
        fa is Invalid || fb is Invalid || fc is Invalid ==> fails(r, errs(fa) + errs(fb) + errs(fc)),
//@ fn datatypes/validated/traits.rs Validated[Monad]::bind props C08
    requires *self matches Validated::Valid(a) ==> f.requires((&a,)),
    ensures *self matches Validated::Valid(a) ==> f.ensures((&a,), r), *self is Invalid ==> fails(r, errs(*self)),
//@ fn datatypes/validated/traits.rs Validated[Monad]::bind_owned props C08
    requires self matches Validated::Valid(a) ==> f.requires((a,)),
    ensures self matches Validated::Valid(a) ==> f.ensures((a,), r), self is Invalid ==> fails(r, errs(self)),
//@ fn datatypes/validated/traits.rs Validated[Monad]::join props C08
    ensures *self matches Validated::Valid(a) ==> r == a.conv(), *self is Invalid ==> fails(r, errs(*self)),
//@ fn datatypes/validated/traits.rs Validated[Monad]::join_owned props C08
    ensures self matches Validated::Valid(a) ==> r == a.conv(), self is Invalid ==> fails(r, errs(self)),
//@ fn datatypes/validated/traits.rs Validated[Identity]::value props C08
    requires self is Valid,
    ensures *r == self->Valid_0,
//@ fn datatypes/validated/traits.rs Validated[Identity]::into_value props C08
    requires self is Valid,
    ensures r == self->Valid_0,
//@ fn datatypes/validated/traits.rs Validated[Foldable]::fold_left props C08,C17
    requires *self matches Validated::Valid(a) ==> f.requires((init, &a)),
    ensures *self matches Validated::Valid(a) ==> f.ensures((init, &a), r), *self is Invalid ==> r == *init,
//@ fn datatypes/validated/traits.rs Validated[Foldable]::fold_right props C08,C17
    requires *self matches Validated::Valid(a) ==> f.requires((&a, init)),
    ensures *self matches Validated::Valid(a) ==> f.ensures((&a, init), r), *self is Invalid ==> r == *init,
//@ fn datatypes/validated/traits.rs Validated[Alternative]::alt props C22
    ensures r == (if *self is Valid { *self } else { *other }),
//@ fn datatypes/validated/traits.rs Validated[Alternative]::empty_alt props C22
    ensures r is Invalid,
//@ fn datatypes/validated/traits.rs Validated[Alternative]::guard props C22
    ensures r is Valid == condition,
//@ fn datatypes/validated/traits.rs Validated[Alternative]::many props C22
    ensures *self matches Validated::Valid(a) ==> (r matches Validated::Valid(v) && v@ =~= seq![a]), *self is Invalid ==> r is Invalid,
//@ fn datatypes/validated/traits.rs Validated[Monoid]::empty props C05,C22
    ensures fails(r, Seq::empty()),
//@ fn datatypes/validated/traits.rs Validated[MonadPlus]::mzero props C22
    ensures fails(r, Seq::empty()),
//@ raw
/// The first success, or every error of both in order.
pub open spec fn plus_<E, A>(a: Validated<E, A>, b: Validated<E, A>, r: Validated<E, A>) -> bool {
    if a is Valid { r == a } else if b is Valid { r == b } else { fails(r, errs(a) + errs(b)) }
}
//@ fn datatypes/validated/traits.rs Validated[MonadPlus]::mplus props C22
    requires errs(*self).len() + errs(*other).len() <= usize::MAX,
    ensures plus_(*self, *other, r),
//@ fn datatypes/validated/traits.rs Validated[MonadPlus]::mplus_owned props C22
    ensures plus_(self, other, r),
//@ fn datatypes/validated/traits.rs Validated[Semigroup]::combine props C05
    requires errs(*self).len() + errs(*other).len() <= usize::MAX,
    ensures plus_(*self, *other, r),
//@ fn datatypes/validated/traits.rs Validated[Semigroup]::combine_owned props C05
    ensures plus_(self, other, r),
//@ raw
/// The alternative is associative, and an empty failure is neutral (up to the identity of the error list).
pub proof fn law_plus<E, A>(a: Validated<E, A>, b: Validated<E, A>, c: Validated<E, A>, z: Validated<E, A>, ab: Validated<E, A>, bc: Validated<E, A>, l: Validated<E, A>, r: Validated<E, A>, za: Validated<E, A>, az: Validated<E, A>)
    requires plus_(a, b, ab), plus_(ab, c, l), plus_(b, c, bc), plus_(a, bc, r), fails(z, Seq::empty()), plus_(z, a, za), plus_(a, z, az),
    ensures
        l is Valid == r is Valid, l is Valid ==> l == r, errs(l) == errs(r),
        a is Valid ==> za == a && az == a, a is Invalid ==> fails(za, errs(a)) && fails(az, errs(a)),
{
    assert(errs(l) =~= errs(r));
}
//@ fn datatypes/validated/iter.rs Iter[Iterator]::next as next_iter props C08,C17
    ensures r == old(self).inner, final(self).inner is None,
//@ retty Option<&'a A>
//@ fn datatypes/validated/iter.rs IntoIter[Iterator]::next as next_into props C08,C17
    ensures r == old(self).inner, final(self).inner is None,
//@ retty Option<A>
//@ fn datatypes/validated/iter.rs Validated::iter props C08,C17
    ensures r.inner == (match *self { Validated::Valid(a) => Some(&a), Validated::Invalid(_) => None }),
//@ fn datatypes/validated/iter.rs Validated[IntoIterator]::into_iter props C08,C17
    ensures r.inner == (match self { Validated::Valid(a) => Some(a), Validated::Invalid(_) => None }),
//@ fn datatypes/validated/traits.rs Validated[Functor]::replace provided traits/functor.rs props C08
    ensures *self is Valid ==> r == Validated::<E, B>::Valid(*value), *self is Invalid ==> fails(r, errs(*self)),
//@ closure 0 |_x: &A| -> (o: B)
    ensures o == *value,
//@ fn datatypes/validated/traits.rs Validated[Functor]::replace_owned provided traits/functor.rs props C08
    ensures *self is Valid ==> r == Validated::<E, B>::Valid(value), *self is Invalid ==> fails(r, errs(*self)),
//@ closure 0 |_x: &A| -> (o: B)
    ensures o == value,
//@ fn datatypes/validated/traits.rs Validated[Functor]::void provided traits/functor.rs props C08
    ensures *self is Valid ==> r is Valid, *self is Invalid ==> fails(r, errs(*self)),
//@ closure 0 |_x: &A| -> (o: ())
    ensures true,
//@ fn datatypes/validated/traits.rs Validated[Functor]::void_owned provided traits/functor.rs props C08
    ensures self is Valid ==> r is Valid, self is Invalid ==> fails(r, errs(self)),
//@ closure 0 |_x: A| -> (o: ())
    ensures true,
//@ fn datatypes/validated/traits.rs Validated[Applicative]::sequence_right provided traits/applicative.rs tparams X,Y props C08
    ensures (*fa, *fb) matches (Validated::Valid(_), Validated::Valid(b)) ==> r == Validated::<E, Y>::Valid(b), *fa is Invalid || *fb is Invalid ==> fails(r, errs(*fa) + errs(*fb)),
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn datatypes/validated/traits.rs Validated[Applicative]::sequence_left provided traits/applicative.rs tparams X,Y props C08
    ensures (*fa, *fb) matches (Validated::Valid(a), Validated::Valid(_)) ==> r == Validated::<E, X>::Valid(a), *fa is Invalid || *fb is Invalid ==> fails(r, errs(*fa) + errs(*fb)),
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn datatypes/validated/traits.rs Validated[Applicative]::sequence_right_owned provided traits/applicative.rs tparams X,Y props C08
    ensures (fa, fb) matches (Validated::Valid(_), Validated::Valid(b)) ==> r == Validated::<E, Y>::Valid(b), fa is Invalid || fb is Invalid ==> fails(r, errs(fa) + errs(fb)),
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn datatypes/validated/traits.rs Validated[Applicative]::sequence_left_owned provided traits/applicative.rs tparams X,Y props C08
    ensures (fa, fb) matches (Validated::Valid(a), Validated::Valid(_)) ==> r == Validated::<E, X>::Valid(a), fa is Invalid || fb is Invalid ==> fails(r, errs(fa) + errs(fb)),
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn datatypes/validated/traits.rs Validated[Applicative]::ap2 provided traits/applicative.rs tparams X,Y,Z,F props C08
    requires (*fa, *fb) matches (Validated::Valid(a), Validated::Valid(b)) ==> f.requires((&a, &b)),
    ensures (*fa, *fb) matches (Validated::Valid(a), Validated::Valid(b)) ==> (r matches Validated::Valid(c) && f.ensures((&a, &b), c)), *fa is Invalid || *fb is Invalid ==> fails(r, errs(*fa) + errs(*fb)),
//@ fn datatypes/validated/traits.rs Validated[Monad]::flat_map provided traits/monad.rs props C08
    requires *self matches Validated::Valid(a) ==> f.requires((&a,)),
    ensures *self matches Validated::Valid(a) ==> f.ensures((&a,), r), *self is Invalid ==> fails(r, errs(*self)),
//@ fn datatypes/validated/traits.rs Validated[Monad]::flat_map_owned provided traits/monad.rs props C08
    requires self matches Validated::Valid(a) ==> f.requires((a,)),
    ensures self matches Validated::Valid(a) ==> f.ensures((a,), r), self is Invalid ==> fails(r, errs(self)),
//@ fn datatypes/validated/traits.rs Validated[Monad]::map_and_pure provided traits/monad.rs props C08
    requires *self matches Validated::Valid(a) ==> f.requires((&a,)),
    ensures *self matches Validated::Valid(a) ==> (r is Valid && f.ensures((&a,), r->Valid_0)), *self is Invalid ==> fails(r, errs(*self)),
//@ closure 0 |x: &A| -> (o: Validated<E, U>)
    requires f.requires((x,)), ensures o is Valid && f.ensures((x,), o->Valid_0),
//@ fn datatypes/validated/traits.rs Validated[Monad]::try_bind provided traits/monad.rs tparams U,ER,F props C08
    requires *self matches Validated::Valid(a) ==> f.requires((&a,)),
    ensures *self matches Validated::Valid(a) ==> exists|q: Result<Validated<E, U>, ER>| #[trigger] f.ensures((&a,), q) && (match q { Ok(m) => r == m, Err(_) => r == Validated::<E, U>::Valid(*default) }), *self is Invalid ==> fails(r, errs(*self)),
//@ closure 0 |x: &A| -> (o: Validated<E, U>)
    requires f.requires((x,)), ensures exists|q: Result<Validated<E, U>, ER>| #[trigger] f.ensures((x,), q) && (match q { Ok(m) => o == m, Err(_) => o == Validated::<E, U>::Valid(*default) }),
//@ type traits/iso.rs ResultValidatedIso
//@ fn traits/iso.rs ResultValidatedIso[Iso]::forward as result_validated_forward free props C15
    ensures *from matches Ok(a) ==> r == Validated::<E, A>::Valid(a), *from matches Err(e) ==> fails(r, seq![e]),
//@ fn traits/iso.rs ResultValidatedIso[Iso]::backward as result_validated_backward free props C15
    requires *to is Invalid ==> errs(*to).len() > 0,
    ensures r == (match *to { Validated::Valid(a) => Ok::<A, E>(a), Validated::Invalid(e) => Err(e@[0]) }),
