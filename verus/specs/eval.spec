// Evaluation: what the computation yields is what the derived operations act on.
//@ assoc Thunk Source T
//@ raw
use std::marker::PhantomData;
broadcast use {faithful_clone, faithful_clone_call};
/// `gives` is what evaluating may yield, `can` where it is defined.
pub trait Evaluate: Sized {
    type Source;
    spec fn can(&self) -> bool;
    spec fn gives(&self, v: Self::Source) -> bool;
    fn evaluate(&self) -> (r: Self::Source)
        requires self.can(),
        ensures self.gives(r);
//@ fn traits/evaluate.rs Evaluate::evaluate_owned inside props C19
    requires self.can(),
    ensures self.gives(r),
//@ raw
}
pub trait EvaluateExt: Evaluate {
//@ fn traits/evaluate.rs EvaluateExt::fmap_evaluate inside props C19
    requires self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
    ensures exists|a: Self::Source| #[trigger] self.gives(a) && f.ensures((a,), r),
//@ fn traits/evaluate.rs EvaluateExt::map_evaluate inside props C19
    requires self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
    ensures exists|a: Self::Source| #[trigger] self.gives(a) && f.ensures((a,), r),
//@ fn traits/evaluate.rs EvaluateExt::fmap_evaluate_owned inside props C19
    requires self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
    ensures exists|a: Self::Source| #[trigger] self.gives(a) && f.ensures((a,), r),
//@ fn traits/evaluate.rs EvaluateExt::map_evaluate_owned inside props C19
    requires self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
    ensures exists|a: Self::Source| #[trigger] self.gives(a) && f.ensures((a,), r),
//@ fn traits/evaluate.rs EvaluateExt::bind_evaluate inside props C19
    requires
        self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
        forall|a: Self::Source, c: C| self.gives(a) && #[trigger] f.ensures((a,), c) ==> c.can(),
    ensures exists|a: Self::Source, c: C| #[trigger] self.gives(a) && #[trigger] f.ensures((a,), c) && c.gives(r),
//@ fn traits/evaluate.rs EvaluateExt::and_then_evaluate inside props C19
    requires
        self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
        forall|a: Self::Source, c: C| self.gives(a) && #[trigger] f.ensures((a,), c) ==> c.can(),
    ensures exists|a: Self::Source, c: C| #[trigger] self.gives(a) && #[trigger] f.ensures((a,), c) && c.gives(r),
//@ fn traits/evaluate.rs EvaluateExt::bind_evaluate_owned inside props C19
    requires
        self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
        forall|a: Self::Source, c: C| self.gives(a) && #[trigger] f.ensures((a,), c) ==> c.can(),
    ensures exists|a: Self::Source, c: C| #[trigger] self.gives(a) && #[trigger] f.ensures((a,), c) && c.gives(r),
//@ fn traits/evaluate.rs EvaluateExt::and_then_evaluate_owned inside props C19
    requires
        self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> f.requires((a,)),
        forall|a: Self::Source, c: C| self.gives(a) && #[trigger] f.ensures((a,), c) ==> c.can(),
    ensures exists|a: Self::Source, c: C| #[trigger] self.gives(a) && #[trigger] f.ensures((a,), c) && c.gives(r),
//@ fn traits/evaluate.rs EvaluateExt::combine_evaluate inside props C19
    requires
        self.can(), other.can(),
        forall|a: Self::Source, b: C::Source| #[trigger] self.gives(a) && #[trigger] other.gives(b) ==> f.requires((a, b)),
    ensures exists|a: Self::Source, b: C::Source| #[trigger] self.gives(a) && #[trigger] other.gives(b) && f.ensures((a, b), r),
//@ fn traits/evaluate.rs EvaluateExt::combine_evaluate_owned inside props C19
    requires
        self.can(), other.can(),
        forall|a: Self::Source, b: C::Source| #[trigger] self.gives(a) && #[trigger] other.gives(b) ==> f.requires((a, b)),
    ensures exists|a: Self::Source, b: C::Source| #[trigger] self.gives(a) && #[trigger] other.gives(b) && f.ensures((a, b), r),
//@ fn traits/evaluate.rs EvaluateExt::filter_evaluate inside props C19
    requires self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> pred.requires((&a,)),
    ensures
        exists|a: Self::Source| #[trigger] self.gives(a) && match r { Some(x) => x == a && pred.ensures((&a,), true), None => pred.ensures((&a,), false) },
//@ fn traits/evaluate.rs EvaluateExt::filter_evaluate_owned inside props C19
    requires self.can(), forall|a: Self::Source| #[trigger] self.gives(a) ==> pred.requires((&a,)),
    ensures
        exists|a: Self::Source| #[trigger] self.gives(a) && match r { Some(x) => x == a && pred.ensures((&a,), true), None => pred.ensures((&a,), false) },
//@ raw
}
impl<T: Evaluate> EvaluateExt for T {}
//@ type datatypes/wrapper/thunk.rs Thunk #[verifier::reject_recursive_types(F)] #[verifier::reject_recursive_types(T)]
//@ fn datatypes/wrapper/thunk.rs Thunk::new props C19
    ensures r.function == f,
//@ open datatypes/wrapper/thunk.rs Thunk[Evaluate]
    type Source = T;
    open spec fn can(&self) -> bool { self.function.requires(()) }
    open spec fn gives(&self, v: T) -> bool { self.function.ensures((), v) }
//@ fn datatypes/wrapper/thunk.rs Thunk[Evaluate]::evaluate inside props C19
//@ fn datatypes/wrapper/thunk.rs Thunk[Evaluate]::evaluate_owned inside props C19
//@ raw
}
