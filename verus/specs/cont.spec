// Continuations: which continuation each part is given and what it is called with.
//@ include inc/fun
//@ raw
use std::marker::PhantomData;
broadcast use {faithful_clone, faithful_clone_call};
/// only named in a bound; no method of it is called here
pub trait Monad { }
//@ type datatypes/id.rs Id #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ fn datatypes/id.rs Id::new props C12
    ensures r.value == x,
//@ fn datatypes/id.rs Id::unwrap props C12
    ensures r == self.value,
//@ type transformers/cont_t.rs ContTFn
//@ type transformers/cont_t.rs ContT #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(A)] #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ type datatypes/cont.rs ContFn2
//@ type datatypes/cont.rs Cont #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(A)]
//@ raw
pub type Kont<A, M> = Arc<dyn Fun1<A, M>>;
/// the continuation takes every value
pub open spec fn all_of<A, M>(k: &Kont<A, M>) -> bool { forall|a: A| #[trigger] k.rq(a) }
/// it takes every total continuation
pub open spec fn takes_all<M, A>(c: &Arc<ContTFn<M, A>>) -> bool { forall|k: Kont<A, M>| all_of(&k) ==> #[trigger] c.rq(k) }
impl<R, M, A> ContT<R, M, A> {
    pub open spec fn rq(&self, k: Kont<A, M>) -> bool { self.run_cont.rq(k) }
    pub open spec fn en(&self, k: Kont<A, M>, m: M) -> bool { self.run_cont.en(k, m) }
    pub open spec fn total(&self) -> bool { forall|k: Kont<A, M>| #![trigger self.rq(k)] #![trigger self.run_cont.rq(k)] all_of(&k) ==> self.rq(k) }
    /// running it with `k` may give `m`
    pub open spec fn gives(&self, k: &Kont<A, M>, m: M) -> bool { self.en(*k, m) }
}
/// `p` does what `k` does with what `f` makes of the value
pub open spec fn after<A, B, M, F: Fn(A) -> B>(p: Kont<A, M>, f: &F, k: &Kont<B, M>) -> bool {
    &&& all_of(&p)
    &&& forall|a: A, m: M| #[trigger] p.en(a, m) ==> exists|b: B| #[trigger] f.en(a, b) && k.en(b, m)
}
/// `p` runs with `k` the computation `f` gives for the value
pub open spec fn continues<R, A, B, M, F: Fn(A) -> ContT<R, M, B>>(p: Kont<A, M>, f: &F, k: &Kont<B, M>) -> bool {
    &&& all_of(&p)
    &&& forall|a: A, m: M| #[trigger] p.en(a, m) ==> exists|t: ContT<R, M, B>| #[trigger] f.en(a, t) && t.gives(k, m)
}
//@ fn transformers/cont_t.rs ContT::new props C12
    ensures
        forall|k: Kont<A, M>| #[trigger] r.run_cont.rq(k) == f.rq(k),
        forall|k: Kont<A, M>, m: M| #[trigger] r.run_cont.en(k, m) == f.en(k, m),
//@ fn transformers/cont_t.rs ContT::run props C12
    requires self.total(), forall|a: A| #[trigger] k.rq(a),
    ensures exists|p: Kont<A, M>| (forall|a: A, m: M| #[trigger] p.en(a, m) == k.en(a, m)) && #[trigger] self.run_cont.en(p, r),
//@ fn transformers/cont_t.rs ContT::pure props C12
    ensures
        r.total(),
        forall|k: Kont<A, M>, m: M| #[trigger] r.run_cont.en(k, m) ==> k.en(a, m),
//@ closure 0 |k: Kont<A, M>| -> (m: M)
    requires all_of(&k),
    ensures k.en(a, m),
//@ fn transformers/cont_t.rs ContT::fmap props C12
    requires self.total(), forall|a: A| #[trigger] f.rq(a),
    ensures
        r.total(),
        forall|k: Kont<B, M>, m: M| #[trigger] r.run_cont.en(k, m) ==> exists|p: Kont<A, M>| after(p, &f, &k) && #[trigger] self.run_cont.en(p, m),
//@ closure 0 |k: Kont<B, M>| -> (m: M)
    requires all_of(&k), takes_all(&self.run_cont), forall|a: A| #[trigger] f.rq(a),
    ensures exists|p: Kont<A, M>| after(p, &*f, &k) && #[trigger] self.run_cont.en(p, m),
//@ closure 1 |a: A| -> (m: M)
    requires f.rq(a), all_of(&k),
    ensures exists|b: B| #[trigger] f.en(a, b) && k.en(b, m),
//@ fn transformers/cont_t.rs ContT::bind props C12
    requires
        self.total(), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: ContT<R, M, B>| #[trigger] f.en(a, t) ==> t.total(),
    ensures
        r.total(),
        forall|k: Kont<B, M>, m: M| #[trigger] r.run_cont.en(k, m) ==> exists|p: Kont<A, M>| continues(p, &f, &k) && #[trigger] self.run_cont.en(p, m),
//@ closure 0 |k: Kont<B, M>| -> (m: M)
    requires
        all_of(&k), takes_all(&self.run_cont), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: ContT<R, M, B>| #[trigger] f.en(a, t) ==> t.total(),
    ensures exists|p: Kont<A, M>| continues(p, &*f, &k) && #[trigger] self.run_cont.en(p, m),
//@ closure 1 |a: A| -> (m: M)
    requires
        f.rq(a), all_of(&k),
        forall|a: A, t: ContT<R, M, B>| #[trigger] f.en(a, t) ==> t.total(),
    ensures exists|t: ContT<R, M, B>| #[trigger] f.en(a, t) && t.gives(&k, m),
//@ raw
/// `p` runs the value computation for each function it is called with, and calls `k` with the images
pub open spec fn applies<R, A, B, M>(p: Kont<Arc<dyn Fun1<A, B>>, M>, v: &ContT<R, M, A>, k: &Kont<B, M>) -> bool { applies_(p, &v.run_cont, k) }
pub open spec fn applies_<A, B, M>(p: Kont<Arc<dyn Fun1<A, B>>, M>, v: &Arc<ContTFn<M, A>>, k: &Kont<B, M>) -> bool {
    &&& forall|g: Arc<dyn Fun1<A, B>>| total_fn(&g) ==> #[trigger] p.rq(g)
    &&& forall|g: Arc<dyn Fun1<A, B>>, m: M| #[trigger] p.en(g, m) ==> exists|q: Kont<A, M>| after_dyn(q, &g, k) && #[trigger] v.en(q, m)
}
pub open spec fn after_dyn<A, B, M>(p: Kont<A, M>, g: &Arc<dyn Fun1<A, B>>, k: &Kont<B, M>) -> bool {
    &&& all_of(&p)
    &&& forall|a: A, m: M| #[trigger] p.en(a, m) ==> exists|b: B| #[trigger] g.en(a, b) && k.en(b, m)
}
pub open spec fn total_fn<A, B>(g: &Arc<dyn Fun1<A, B>>) -> bool { forall|a: A| #[trigger] g.rq(a) }
/// `c` may be run with any continuation that takes every total function
pub open spec fn total_on_functions<R, M, A, B>(c: &ContT<R, M, Arc<dyn Fun1<A, B>>>) -> bool {
    total_on_(&c.run_cont)
}
pub open spec fn total_on_<M, A, B>(c: &Arc<ContTFn<M, Arc<dyn Fun1<A, B>>>>) -> bool {
    forall|p: Kont<Arc<dyn Fun1<A, B>>, M>| (forall|g: Arc<dyn Fun1<A, B>>| total_fn(&g) ==> #[trigger] p.rq(g)) ==> #[trigger] c.rq(p)
}
//@ fn transformers/cont_t.rs ContT::apply props C12
    requires self.total(), total_on_functions(&cf),
    ensures
        r.total(),
        forall|k: Kont<B, M>, m: M| #[trigger] r.run_cont.en(k, m) ==> exists|p: Kont<Arc<dyn Fun1<A, B>>, M>| applies(p, &self, &k) && #[trigger] cf.run_cont.en(p, m),
//@ closure 0 |k: Kont<B, M>| -> (m: M)
    requires all_of(&k), takes_all(&self.run_cont), total_on_(&cf.run_cont),
    ensures exists|p: Kont<Arc<dyn Fun1<A, B>>, M>| applies_(p, &self.run_cont, &k) && #[trigger] cf.run_cont.en(p, m),
//@ closure 1 |f: Arc<dyn Fun1<A, B>>| -> (m: M)
    requires total_fn(&f), all_of(&*k), forall|p: Kont<A, M>| all_of(&p) ==> #[trigger] run_val.rq(p),
    ensures exists|q: Kont<A, M>| after_dyn(q, &f, &*k) && #[trigger] run_val.en(q, m),
//@ closure 2 |a: A| -> (m: M)
    requires f.rq(a), all_of(&*k),
    ensures exists|b: B| #[trigger] f.en(a, b) && k.en(b, m),
//@ raw
pub type Escape<R, M, A, B> = Arc<dyn Fun1<A, ContT<R, M, B>>>;
/// whatever it is called with, it may be run
pub open spec fn tame<R, M, A, B>(e: &Escape<R, M, A, B>) -> bool {
    &&& forall|a: A| #[trigger] e.rq(a)
    &&& forall|a: A, t: ContT<R, M, B>| #[trigger] e.en(a, t) ==> t.total()
}
/// calling it drops its own continuation and goes on with `k`
pub open spec fn escapes<R, M, A, B>(e: &Escape<R, M, A, B>, k: &Kont<A, M>) -> bool {
    &&& tame(e)
    &&& forall|a: A, t: ContT<R, M, B>, j: Kont<B, M>, m: M| #[trigger] e.en(a, t) && #[trigger] t.run_cont.en(j, m) ==> k.en(a, m)
}
//@ fn transformers/cont_t.rs ContT::call_cc props C12
    requires
        forall|e: Escape<R, M, A, B>| tame(&e) ==> #[trigger] f.rq(e),
        forall|e: Escape<R, M, A, B>, c: ContT<R, M, A>| #[trigger] f.en(e, c) ==> c.total(),
    ensures
        r.total(),
        forall|k: Kont<A, M>, m: M| #[trigger] r.run_cont.en(k, m) ==> exists|e: Escape<R, M, A, B>, c: ContT<R, M, A>|
            escapes(&e, &k) && #[trigger] f.en(e, c) && c.en(k, m),
//@ closure 0 |k: Kont<A, M>| -> (m: M)
    requires
        all_of(&k),
        forall|e: Escape<R, M, A, B>| tame(&e) ==> #[trigger] f.rq(e),
        forall|e: Escape<R, M, A, B>, c: ContT<R, M, A>| #[trigger] f.en(e, c) ==> c.total(),
    ensures exists|e: Escape<R, M, A, B>, c: ContT<R, M, A>| escapes(&e, &k) && #[trigger] f.en(e, c) && c.gives(&k, m),
//@ closure 1 |a: A| -> (t: ContT<R, M, B>)
    requires all_of(&k_clone),
    ensures
        t.total(),
        forall|j: Kont<B, M>, m: M| #[trigger] t.run_cont.en(j, m) ==> k_clone.en(a, m),
//@ closure 2 |_ignored: Kont<B, M>| -> (m: M)
    requires k_inner.rq(a),
    ensures k_inner.en(a, m),
//@ fn transformers/cont_t.rs ContT[MonadTransformer]::lift props C12
    ensures
        r.total(),
        forall|k: Kont<A, M>, m: M| #[trigger] r.run_cont.en(k, m) ==> m == base,
//@ closure 0 |_k: Kont<A, M>| -> (m: M)
    ensures m == base,
//@ fn transformers/cont_t.rs ContT::to_cont props C12
    ensures r.inner == self,
//@ fn transformers/cont_t.rs ContT::from_cont props C12
    ensures r == cont.inner,
//@ fn datatypes/cont.rs Cont[Clone]::clone props C12
    ensures r == *self,
//@ fn datatypes/cont.rs Cont[From]::from props C12
    ensures r.inner == cont_t,
//@ fn datatypes/cont.rs Cont::new_inner props C12
    ensures
        forall|k: Kont<A, Id<R>>| #[trigger] r.inner.run_cont.rq(k) == f.rq(k),
        forall|k: Kont<A, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) == f.en(k, m),
//@ raw
/// `p` gives the value `k` wraps
pub open spec fn unwraps<A, R>(p: &Kont<A, R>, k: &Kont<A, Id<R>>) -> bool {
    &&& all_of(p)
    &&& forall|a: A, x: R| #[trigger] p.en(a, x) ==> k.en(a, Id { value: x })
}
//@ fn datatypes/cont.rs Cont::new props C12
    requires forall|p: Kont<A, R>| all_of(&p) ==> #[trigger] f.rq(p),
    ensures
        r.inner.total(),
        forall|k: Kont<A, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) ==> exists|p: Kont<A, R>| unwraps(&p, &k) && #[trigger] f.en(p, m.value),
//@ closure 0 |k: Kont<A, Id<R>>| -> (m: Id<R>)
    requires all_of(&k), forall|p: Kont<A, R>| all_of(&p) ==> #[trigger] f.rq(p),
    ensures exists|p: Kont<A, R>| unwraps(&p, &k) && #[trigger] f.en(p, m.value),
//@ closure 1 |a: A| -> (x: R)
    requires k.rq(a),
    ensures k.en(a, Id { value: x }),
//@ raw
/// `p` wraps what `k` gives
pub open spec fn wraps<A, R, F: Fn(A) -> R>(p: &Kont<A, Id<R>>, k: &F) -> bool {
    forall|a: A, i: Id<R>| #[trigger] p.en(a, i) ==> k.en(a, i.value)
}
//@ fn datatypes/cont.rs Cont::run props C12
    requires self.inner.total(), forall|a: A| #[trigger] k.rq(a),
    ensures exists|p: Kont<A, Id<R>>| wraps(&p, &k) && #[trigger] self.inner.run_cont.en(p, Id { value: r }),
//@ closure 0 |a: A| -> (i: Id<R>)
    requires k.rq(a),
    ensures k.en(a, i.value),
//@ fn datatypes/cont.rs Cont::return_cont props C12
    ensures
        r.inner.total(),
        forall|k: Kont<A, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) ==> k.en(a, m),
//@ fn datatypes/cont.rs Cont::pure props C12
    ensures
        r.inner.total(),
        forall|k: Kont<A, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) ==> k.en(a, m),
//@ fn datatypes/cont.rs Cont::fmap props C12
    requires self.inner.total(), forall|a: A| #[trigger] f.rq(a),
    ensures
        r.inner.total(),
        forall|k: Kont<B, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) ==> exists|p: Kont<A, Id<R>>| after(p, &f, &k) && #[trigger] self.inner.run_cont.en(p, m),
//@ raw
/// as `continues`, for a function giving a `Cont`
pub open spec fn continues_c<R, A, B, F: Fn(A) -> Cont<R, B>>(p: Kont<A, Id<R>>, f: &F, k: &Kont<B, Id<R>>) -> bool {
    &&& all_of(&p)
    &&& forall|a: A, m: Id<R>| #[trigger] p.en(a, m) ==> exists|t: Cont<R, B>| #[trigger] f.en(a, t) && t.inner.gives(k, m)
}
//@ fn datatypes/cont.rs Cont::bind props C12
    requires
        self.inner.total(), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: Cont<R, B>| #[trigger] f.en(a, t) ==> t.inner.total(),
    ensures
        r.inner.total(),
        forall|k: Kont<B, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) ==> exists|p: Kont<A, Id<R>>| continues_c(p, &f, &k) && #[trigger] self.inner.run_cont.en(p, m),
//@ closure 0 |a: A| -> (t: ContT<R, Id<R>, B>)
    requires f.rq(a), forall|a: A, t: Cont<R, B>| #[trigger] f.en(a, t) ==> t.inner.total(),
    ensures t.total(), exists|c: Cont<R, B>| #[trigger] f.en(a, c) && c.inner == t,
//@ fn datatypes/cont.rs Cont::apply props C12
    requires self.inner.total(), total_on_functions(&cf.inner),
    ensures
        r.inner.total(),
        forall|k: Kont<B, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) ==> exists|p: Kont<ContFn2<A, B>, Id<R>>|
            applies(p, &self.inner, &k) && #[trigger] cf.inner.run_cont.en(p, m),
//@ raw
pub type EscapeC<R, A, B> = Box<dyn Fun1<B, Cont<R, A>>>;
pub open spec fn tame_c<R, A, B>(e: &EscapeC<R, A, B>) -> bool {
    &&& forall|b: B| #[trigger] e.rq(b)
    &&& forall|b: B, t: Cont<R, A>| #[trigger] e.en(b, t) ==> t.inner.total()
}
/// calling it drops its own continuation and goes on with `k`
pub open spec fn escapes_c<R, A, B>(e: &EscapeC<R, A, B>, k: &Kont<B, Id<R>>) -> bool {
    &&& tame_c(e)
    &&& forall|b: B, t: Cont<R, A>, j: Kont<A, Id<R>>, m: Id<R>| #[trigger] e.en(b, t) && #[trigger] t.inner.run_cont.en(j, m) ==> k.en(b, m)
}
/// `e` is the escape `d`, wrapped
pub open spec fn wrapped<R, A, B>(e: &EscapeC<R, A, B>, d: &Escape<R, Id<R>, B, A>) -> bool {
    &&& tame_c(e)
    &&& forall|b: B, t: Cont<R, A>| #[trigger] e.en(b, t) ==> d.en(b, t.inner)
}
//@ fn datatypes/cont.rs Cont::call_cc props C12
    requires
        forall|e: EscapeC<R, A, B>| tame_c(&e) ==> #[trigger] call_requires(f, (e,)),
        forall|e: EscapeC<R, A, B>, c: Cont<R, B>| #[trigger] call_ensures(f, (e,), c) ==> c.inner.total(),
    ensures
        r.inner.total(),
        forall|k: Kont<B, Id<R>>, m: Id<R>| #[trigger] r.inner.run_cont.en(k, m) ==> exists|e: EscapeC<R, A, B>, c: Cont<R, B>|
            escapes_c(&e, &k) && #[trigger] call_ensures(f, (e,), c) && c.inner.run_cont.en(k, m),
//@ closure 0 |k: Escape<R, Id<R>, B, A>| -> (t: ContT<R, Id<R>, B>)
    requires
        tame(&k),
        forall|e: EscapeC<R, A, B>| tame_c(&e) ==> #[trigger] call_requires(f, (e,)),
        forall|e: EscapeC<R, A, B>, c: Cont<R, B>| #[trigger] call_ensures(f, (e,), c) ==> c.inner.total(),
    ensures
        t.total(),
        exists|e: EscapeC<R, A, B>, c: Cont<R, B>| wrapped(&e, &k) && #[trigger] call_ensures(f, (e,), c) && c.inner == t,
//@ closure 1 |b: B| -> (t: Cont<R, A>)
    requires tame(&k),
    ensures t.inner.total(), k.en(b, t.inner),
//@ raw
/// Laws, as functions checked against the contracts above only.
/// a pure computation gives the continuation's value
pub fn law_pure<R: Clone + 'static, A: Clone + 'static, K: Fn(A) -> R + 'static>(a: A, k: K) -> (r: R)
    requires forall|x: A| #[trigger] k.rq(x),
    ensures k.en(a, r),
{ Cont::<R, A>::pure(a).run(k) }
/// binding a pure value is running the computation it leads to
pub fn law_left_identity<R: Clone + 'static, A: Clone + 'static, B: Clone + 'static, F: Fn(A) -> Cont<R, B> + 'static, K: Fn(B) -> R + 'static>(a: A, f: F, k: K) -> (r: R)
    requires
        forall|x: B| #[trigger] k.rq(x), forall|x: A| #[trigger] f.rq(x),
        forall|x: A, t: Cont<R, B>| #[trigger] f.en(x, t) ==> t.inner.total(),
    ensures exists|t: Cont<R, B>, p: Kont<B, Id<R>>| f.en(a, t) && wraps(&p, &k) && #[trigger] t.inner.run_cont.en(p, Id { value: r }),
{ Cont::<R, A>::pure(a).bind(f).run(k) }
/// mapping a pure value
pub fn law_fmap_pure<R: Clone + 'static, A: Clone + 'static, B: Clone + 'static, F: Fn(A) -> B + 'static, K: Fn(B) -> R + 'static>(a: A, f: F, k: K) -> (r: R)
    requires forall|x: B| #[trigger] k.rq(x), forall|x: A| #[trigger] f.rq(x),
    ensures exists|b: B| #[trigger] f.en(a, b) && k.en(b, r),
{ Cont::<R, A>::pure(a).fmap(f).run(k) }
