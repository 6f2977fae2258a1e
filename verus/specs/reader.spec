// Reader computations: which environment each part is run with, in what order, and what comes out.
//@ include inc/fun
//@ raw
use std::marker::PhantomData;
broadcast use {faithful_clone, faithful_clone_call};
/// What the base monad is taken to provide (`Output<B>` is `Self` in every bound of the file).
/// A relation says what a function may give; nothing else about the function matters, and a
/// weaker relation allows no less.
pub trait HKT { type Source; }
pub trait Monad: HKT + Sized {
    spec fn mapped<B>(&self, rel: spec_fn(Self::Source, B) -> bool, r: Self) -> bool;
    spec fn chained<B>(&self, rel: spec_fn(Self::Source, Self) -> bool, r: Self) -> bool;
    spec fn lifted2<A, B, C>(&self, other: &Self, rel: spec_fn(A, B, C) -> bool, r: Self) -> bool;
    proof fn lifted2_mono<A, B, C>(&self, other: &Self, p: spec_fn(A, B, C) -> bool, q: spec_fn(A, B, C) -> bool, r: Self)
        requires self.lifted2(other, p, r), forall|a: A, b: B, c: C| #[trigger] p(a, b, c) ==> q(a, b, c),
        ensures self.lifted2(other, q, r),
    ;
    fn fmap<B, F: Fn(&Self::Source) -> B>(&self, f: F) -> (r: Self)
        requires forall|a: &Self::Source| #[trigger] f.requires((a,)),
        ensures forall|q: spec_fn(Self::Source, B) -> bool|
            (forall|a: Self::Source, b: B| f.ensures((&a,), b) ==> #[trigger] q(a, b)) ==> #[trigger] self.mapped(q, r),
    ;
    fn bind<B, F: Fn(&Self::Source) -> Self>(&self, f: F) -> (r: Self)
        requires forall|a: &Self::Source| #[trigger] f.requires((a,)),
        ensures forall|q: spec_fn(Self::Source, Self) -> bool|
            (forall|a: Self::Source, b: Self| f.ensures((&a,), b) ==> #[trigger] q(a, b)) ==> #[trigger] self.chained::<B>(q, r),
    ;
    fn lift2<A, B, C, F: Fn(&A, &B) -> C>(f: F, x: &Self, y: &Self) -> (r: Self)
        requires forall|a: &A, b: &B| #[trigger] f.requires((a, b)),
        ensures forall|q: spec_fn(A, B, C) -> bool|
            (forall|a: A, b: B, c: C| f.ensures((&a, &b), c) ==> #[trigger] q(a, b, c)) ==> #[trigger] x.lifted2(y, q, r),
    ;
}
pub broadcast proof fn weaker2<M: Monad, A, B, C>(x: &M, y: &M, p: spec_fn(A, B, C) -> bool, q: spec_fn(A, B, C) -> bool, r: M)
    requires #[trigger] x.lifted2(y, p, r), forall|a: A, b: B, c: C| #[trigger] p(a, b, c) ==> q(a, b, c),
    ensures #[trigger] x.lifted2(y, q, r),
{ x.lifted2_mono(y, p, q, r); }
pub open spec fn graph<A, B, F: Fn(A) -> B>(f: &F) -> spec_fn(A, B) -> bool { |a: A, b: B| f.en(a, b) }
pub open spec fn graph2<A, B, C, F: Fn(A, B) -> C>(f: &F) -> spec_fn(A, B, C) -> bool { |a: A, b: B, c: C| f.en2(a, b, c) }
/// `b` is what the function gives for `a`
pub open spec fn applied<A, B, G: Fn(A) -> B>() -> spec_fn(A, G, B) -> bool { |a: A, g: G, b: B| g.en(a, b) }
/// what is run in `e` for the value
pub open spec fn run_in<E, M, A, B, F: Fn(A) -> ReaderT<E, M, B>>(f: &F, e: &E) -> spec_fn(A, M) -> bool {
    |a: A, m: M| exists|t: ReaderT<E, M, B>| #[trigger] f.en(a, t) && t.en(*e, m)
}
impl<T> HKT for Id<T> { type Source = T; }
impl<T> Monad for Id<T> {
    open spec fn mapped<B>(&self, rel: spec_fn(T, B) -> bool, r: Self) -> bool { true }
    open spec fn chained<B>(&self, rel: spec_fn(T, Self) -> bool, r: Self) -> bool { true }
    open spec fn lifted2<A, B, C>(&self, other: &Self, rel: spec_fn(A, B, C) -> bool, r: Self) -> bool { true }
    proof fn lifted2_mono<A, B, C>(&self, other: &Self, p: spec_fn(A, B, C) -> bool, q: spec_fn(A, B, C) -> bool, r: Self) {}
    #[verifier::external_body]
    fn fmap<B, F: Fn(&T) -> B>(&self, f: F) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn bind<B, F: Fn(&T) -> Self>(&self, f: F) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn lift2<A, B, C, F: Fn(&A, &B) -> C>(f: F, x: &Self, y: &Self) -> (r: Self) { unimplemented!() }
}
pub trait FunR2<A, B, C> {
    spec fn rqr2(&self, a: &A, b: &B) -> bool;
    spec fn enr2(&self, a: &A, b: &B, c: C) -> bool;
    fn car2_(&self, a: &A, b: &B) -> (c: C)
        requires self.rqr2(a, b),
        ensures self.enr2(a, b, c),
    ;
}
impl<A, B, C, F: Fn(&A, &B) -> C> FunR2<A, B, C> for F {
    open spec fn rqr2(&self, a: &A, b: &B) -> bool { self.requires((a, b)) }
    open spec fn enr2(&self, a: &A, b: &B, c: C) -> bool { self.ensures((a, b), c) }
    fn car2_(&self, a: &A, b: &B) -> (c: C) { (self)(a, b) }
}
//@ type datatypes/id.rs Id #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ type transformers/reader_t.rs ReaderT #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(A)]
//@ type datatypes/reader.rs Reader #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(A)]
//@ fn datatypes/id.rs Id::new props C11
    ensures r.value == x,
//@ fn datatypes/id.rs Id::into_inner props C11
    ensures r == self.value,
//@ raw
impl<E, M, A> ReaderT<E, M, A> {
    pub open spec fn rq(&self, e: E) -> bool { self.run_reader_fn.rq(e) }
    pub open spec fn en(&self, e: E, m: M) -> bool { self.run_reader_fn.en(e, m) }
    pub open spec fn total(&self) -> bool { forall|e: E| #![trigger self.rq(e)] #![trigger self.run_reader_fn.rq(e)] self.rq(e) }
    pub open spec fn en_at(&self, e: &E, m: M) -> bool { self.en(*e, m) }
}
//@ fn transformers/reader_t.rs ReaderT[Clone]::clone props C11
    ensures r == *self,
//@ fn transformers/reader_t.rs ReaderT::new props C11
    ensures
        forall|e: E| #[trigger] r.rq(e) == f.rq(e),
        forall|e: E, m: M| #[trigger] r.en(e, m) == f.en(e, m),
//@ fn transformers/reader_t.rs ReaderT::run_reader props C11
    requires self.rq(env),
    ensures self.en(env, r),
//@ fn transformers/reader_t.rs ReaderT::unwrap_with props C11
    requires self.rq(env),
    ensures self.en(env, r),
//@ fn transformers/reader_t.rs ReaderT::ask props C11
    ensures
        forall|e: E| #[trigger] r.rq(e) == pure.rq(e),
        forall|e: E, m: M| #[trigger] r.en(e, m) == pure.en(e, m),
//@ fn transformers/reader_t.rs ReaderT::local props C11
    requires self.total(), forall|e: E| #[trigger] f.rq(e),
    ensures
        r.total(),
        forall|e: E, m: M| #[trigger] r.en(e, m) ==> exists|g: E| #[trigger] f.en(e, g) && self.en(g, m),
//@ closure 0 |e: E| -> (m: M)
    requires f.rq(e), forall|g: E| #[trigger] inner_fn.rq(g),
    ensures exists|g: E| #[trigger] f.en(e, g) && inner_fn.en(g, m),
//@ fn transformers/reader_t.rs ReaderT::asks props C11
    requires forall|e: E| #[trigger] f.rq(e), forall|b: B| #[trigger] pure.rq(b),
    ensures
        r.total(),
        forall|e: E, m: M| #[trigger] r.en(e, m) ==> exists|b: B| #[trigger] f.en(e, b) && pure.en(b, m),
//@ closure 0 |e: E| -> (m: M)
    requires f.rq(e), forall|b: B| #[trigger] pure.rq(b),
    ensures exists|b: B| #[trigger] f.en(e, b) && pure.en(b, m),
//@ fn transformers/reader_t.rs ReaderT::ask_with props C11
    requires forall|e: &E| #[trigger] f.rq(e), forall|b: B| #[trigger] pure.rq(b),
    ensures
        r.total(),
        forall|e: E, m: M| #[trigger] r.en(e, m) ==> exists|b: B| #[trigger] f.en(&e, b) && pure.en(b, m),
//@ closure 0 |e: E| -> (m: M)
    requires f.rq(&e), forall|b: B| #[trigger] pure.rq(b),
    ensures exists|b: B| #[trigger] f.en(&e, b) && pure.en(b, m),
//@ fn transformers/reader_t.rs ReaderT::asks_with props C11
    requires forall|e: &E| #[trigger] select.rq(e), forall|b: B| #[trigger] transform.rq(b), forall|c: C| #[trigger] pure.rq(c),
    ensures
        r.total(),
        forall|e: E, m: M| #[trigger] r.en(e, m) ==> exists|b: B, c: C| #[trigger] select.en(&e, b) && transform.en(b, c) && #[trigger] pure.en(c, m),
//@ closure 0 |e: E| -> (m: M)
    requires select.rq(&e), forall|b: B| #[trigger] transform.rq(b), forall|c: C| #[trigger] pure.rq(c),
    ensures exists|b: B, c: C| #[trigger] select.en(&e, b) && transform.en(b, c) && #[trigger] pure.en(c, m),
//@ fn transformers/reader_t.rs ReaderT::pure props C11
    requires pure_fn.rq(value),
    ensures
        r.total(),
        forall|e: E, m: M| #[trigger] r.en(e, m) ==> pure_fn.en(value, m),
//@ closure 0 |__w: E| -> (m: M)
    requires pure_fn.rq(value),
    ensures pure_fn.en(value, m),
//@ fn transformers/reader_t.rs ReaderT[MonadTransformer]::lift props C11
    ensures
        r.total(),
        forall|e: E, m: M| #[trigger] r.en(e, m) ==> m == base,
//@ closure 0 |__w: E| -> (m: M)
    ensures m == base_clone,
//@ fn transformers/reader_t.rs ReaderT::fmap_with props C11
    requires self.total(), forall|m: M| #[trigger] map_fn.rq2(m, f),
    ensures
        r.total(),
        forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|m: M| self.en(e, m) && #[trigger] map_fn.en2(m, f, n),
//@ closure 0 |e: E| -> (n: M)
    requires inner_fn.rq(e), forall|m: M| #[trigger] map_fn.rq2(m, f_clone),
    ensures exists|m: M| inner_fn.en(e, m) && #[trigger] map_fn.en2(m, f_clone, n),
//@ raw
/// `p` takes every argument
pub open spec fn all_of<A, N>(p: Arc<dyn Fun1<A, N>>) -> bool { forall|a: A| #[trigger] p.rq(a) }
/// `p` runs, from the environment `e`, the computation `f` gives for the value
pub open spec fn continues<E, N, A, B, F: Fn(A) -> ReaderT<E, N, B>>(p: Arc<dyn Fun1<A, N>>, f: F, e: E) -> bool {
    &&& forall|a: A| #[trigger] p.rq(a)
    &&& forall|a: A, n: N| #[trigger] p.en(a, n) ==> exists|t: ReaderT<E, N, B>| f.en(a, t) && #[trigger] t.en(e, n)
}
//@ fn transformers/reader_t.rs ReaderT::bind_with props C11
    requires
        self.total(),
        forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: ReaderT<E, N, B>| #[trigger] f.en(a, t) ==> t.total(),
        forall|m: M, p: Arc<dyn Fun1<A, N>>| all_of(p) ==> #[trigger] bind_fn.rq2(m, p),
    ensures
        r.total(),
        forall|e: E, n: N| #[trigger] r.en(e, n) ==> exists|m: M, p: Arc<dyn Fun1<A, N>>|
            self.en(e, m) && continues(p, f, e) && #[trigger] bind_fn.en2(m, p, n),
//@ closure 0 |e: E| -> (n: N)
    requires
        inner_fn.rq(e),
        forall|a: A| #[trigger] f_clone.rq(a),
        forall|a: A, t: ReaderT<E, N, B>| #[trigger] f_clone.en(a, t) ==> t.total(),
        forall|m: M, p: Arc<dyn Fun1<A, N>>| all_of(p) ==> #[trigger] bind_fn.rq2(m, p),
    ensures
        exists|m: M, p: Arc<dyn Fun1<A, N>>|
            inner_fn.en(e, m) && continues(p, f_clone, e) && #[trigger] bind_fn.en2(m, p, n),
//@ closure 1 |a: A| -> (n: N)
    requires
        f_for_closure.rq(a),
        forall|a: A, t: ReaderT<E, N, B>| #[trigger] f_for_closure.en(a, t) ==> t.total(),
    ensures exists|t: ReaderT<E, N, B>| #[trigger] f_for_closure.en(a, t) && t.en_at(&e_for_closure, n),
//@ fn transformers/reader_t.rs ReaderT::apply_with props C11
    requires self.total(), f.total(), forall|m: M, n: M| #[trigger] ap_fn.rq2(m, n),
    ensures
        r.total(),
        forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|a: M, b: M| self.en(e, a) && f.en(e, b) && #[trigger] ap_fn.en2(a, b, n),
//@ closure 0 |e: E| -> (n: M)
    requires self_fn.rq(e), f_fn.rq(e), forall|m: M, n: M| #[trigger] ap_fn_clone.rq2(m, n),
    ensures exists|a: M, b: M| self_fn.en(e, a) && f_fn.en(e, b) && #[trigger] ap_fn_clone.en2(a, b, n),
//@ type transformers/reader_t.rs ReaderCombineFn
//@ raw
/// `p` combines the two results with `f`
pub open spec fn combines<A, B, C, F: Fn(A, B) -> C>(p: Box<dyn FunR2<A, B, C>>, f: F) -> bool {
    &&& forall|a: &A, b: &B| #[trigger] p.rqr2(a, b)
    &&& forall|a: &A, b: &B, c: C| #[trigger] p.enr2(a, b, c) ==> f.en2(*a, *b, c)
}
pub open spec fn takes<M, F, G: Fn(M, M, F) -> M>(g: &G, f: &F) -> bool { forall|a: M, b: M| #[trigger] g.rq3(a, b, *f) }
/// both readers run in the same environment, the first one first
pub open spec fn both<E, M, A, B, C, F, G: Fn(M, M, F) -> M>(x: &ReaderT<E, M, A>, y: &ReaderT<E, M, B>, f: &F, g: &G, r: ReaderT<E, M, C>) -> bool {
    &&& r.total()
    &&& forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|a: M, b: M| x.en(e, a) && y.en(e, b) && #[trigger] g.en3(a, b, *f, n)
}
//@ fn transformers/reader_t.rs ReaderT::lift2 props C11
    requires forall|a: M, b: M| #[trigger] combine_fn.rq3(a, b, f),
    ensures
        forall|x: &ReaderT<E, M, A>, y: &ReaderT<E, M, B>| x.total() && y.total() ==> #[trigger] r.rqr2(x, y),
        forall|x: &ReaderT<E, M, A>, y: &ReaderT<E, M, B>, t: ReaderT<E, M, C>| #[trigger] r.enr2(x, y, t) ==> both(x, y, &f, &combine_fn, t),
//@ closure 0 |reader1: &ReaderT<E, M, A>, reader2: &ReaderT<E, M, B>| -> (t: ReaderT<E, M, C>)
    requires reader1.total(), reader2.total(), takes(&combine_fn_clone, &f_clone),
    ensures both(reader1, reader2, &f_clone, &combine_fn_clone, t),
//@ closure 1 |e: E| -> (n: M)
    requires run1.rq(e), run2.rq(e), takes(&combine_fn_inner, &f_clone),
    ensures exists|a: M, b: M| run1.en(e, a) && run2.en(e, b) && #[trigger] combine_fn_inner.en3(a, b, f_clone, n),
//@ fn transformers/reader_t.rs ReaderT::combine_with props C11
    requires
        self.total(), other.total(), forall|a: A, b: B| #[trigger] f.rq2(a, b),
        forall|m: M, n: M, p: Box<dyn FunR2<A, B, C>>| combines(p, f) ==> #[trigger] combine_fn.rq3(m, n, p),
    ensures
        r.total(),
        forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|a: M, b: M, p: Box<dyn FunR2<A, B, C>>|
            self.en(e, a) && other.en(e, b) && combines(p, f) && #[trigger] combine_fn.en3(a, b, p, n),
//@ closure 0 |e: E| -> (n: M)
    requires
        self_fn.rq(e), other_fn.rq(e), forall|a: A, b: B| #[trigger] f.rq2(a, b),
        forall|m: M, n: M, p: Box<dyn FunR2<A, B, C>>| combines(p, *f) ==> #[trigger] combine_fn.rq3(m, n, p),
    ensures exists|a: M, b: M, p: Box<dyn FunR2<A, B, C>>|
        self_fn.en(e, a) && other_fn.en(e, b) && combines(p, *f) && #[trigger] combine_fn.en3(a, b, p, n),
//@ closure 1 |a: &A, b: &B| -> (c: C)
    requires f_clone.rq2(*a, *b),
    ensures f_clone.en2(*a, *b, c),
//@ at let boxed_f
    proof { assert(combines(boxed_f, *f)); }
//@ fn transformers/reader_t.rs ReaderT::fmap props C11
    requires self.total(), forall|a: A| #[trigger] f.rq(a),
    ensures
        r.total(),
        forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|m: M| self.en(e, m) && #[trigger] m.mapped(graph(&f), n),
//@ closure 0 |e: E| -> (n: M)
    requires reader_fn.rq(e), forall|a: A| #[trigger] f.rq(a),
    ensures exists|m: M| #[trigger] reader_fn.en(e, m) && m.mapped(graph(&f), n),
//@ closure 1 |a: &A| -> (b: B)
    requires f_clone.rq(*a),
    ensures f_clone.en(*a, b),
//@ fn transformers/reader_t.rs ReaderT::bind props C11
    requires
        self.total(), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: ReaderT<E, M, B>| #[trigger] f.en(a, t) ==> t.total(),
    ensures
        r.total(),
        forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|m: M| self.en(e, m) && #[trigger] m.chained::<B>(run_in(&f, &e), n),
//@ closure 0 |e: E| -> (n: M)
    requires
        inner_fn.rq(e), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: ReaderT<E, M, B>| #[trigger] f.en(a, t) ==> t.total(),
    ensures exists|m: M| #[trigger] inner_fn.en(e, m) && m.chained::<B>(run_in(&*f, &e), n),
//@ closure 1 |source_ref: &M::Source| -> (m: M)
    requires
        forall|a: A| #[trigger] f_clone.rq(a),
        forall|a: A, t: ReaderT<E, M, B>| #[trigger] f_clone.en(a, t) ==> t.total(),
    ensures run_in(&*f_clone, &e_clone)(*source_ref, m),
//@ fn transformers/reader_t.rs ReaderT::combine noclone F props C11
    requires self.total(), other.total(), forall|a: A, b: B| #[trigger] f.rq2(a, b),
    ensures
        r.total(),
        forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|a: M, b: M| self.en(e, a) && other.en(e, b) && #[trigger] a.lifted2(&b, graph2(&f), n),
//@ closure 0 |e: E| -> (n: M)
    requires self_fn.rq(e), other_fn.rq(e), forall|a: A, b: B| #[trigger] f.rq2(a, b),
    ensures exists|a: M, b: M| #[trigger] self_fn.en(e, a) && #[trigger] other_fn.en(e, b) && a.lifted2(&b, graph2(&*f), n),
//@ closure 1 |a: &A, b: &B| -> (c: C)
    requires f_clone.rq2(*a, *b),
    ensures f_clone.en2(*a, *b, c),
//@ fn transformers/reader_t.rs ReaderT::apply props C11
    requires self.total(), f.total(), forall|a: A, g: Func| #[trigger] g.rq(a),
    ensures
        r.total(),
        forall|e: E, n: M| #[trigger] r.en(e, n) ==> exists|a: M, b: M| #![trigger self.run_reader_fn.en(e, a), f.run_reader_fn.en(e, b)] self.en(e, a) && f.en(e, b) && a.lifted2(&b, applied::<A, B, Func>(), n),
//@ at start
    broadcast use weaker2;
//@ closure 0 |a: A, func: Func| -> (b: B)
    requires func.rq(a),
    ensures func.en(a, b),
//@ raw
impl<E, A> Reader<E, A> {
    pub open spec fn rq(&self, e: E) -> bool { self.inner.rq(e) }
    pub open spec fn en(&self, e: E, a: A) -> bool { self.inner.en(e, Id { value: a }) }
    pub open spec fn total(&self) -> bool { self.inner.total() }
}
//@ fn datatypes/reader.rs Reader::new props C11
    ensures
        forall|e: E| f.rq(e) ==> #[trigger] r.rq(e),
        forall|e: E, a: A| #[trigger] r.en(e, a) ==> f.en(e, a),
//@ closure 0 |e: E| -> (m: Id<A>)
    requires f.rq(e),
    ensures f.en(e, m.value),
//@ fn datatypes/reader.rs Reader::run_reader props C11
    requires self.rq(env),
    ensures self.en(env, r),
//@ fn datatypes/reader.rs Reader::fmap props C11
    requires self.total(), forall|a: A| #[trigger] f.rq(a),
    ensures
        r.total(),
        forall|e: E, b: B| #[trigger] r.en(e, b) ==> exists|a: A| self.en(e, a) && #[trigger] f.en(a, b),
//@ closure 0 |e: E| -> (m: Id<B>)
    requires inner_clone.rq(e), forall|a: A| #[trigger] f.rq(a),
    ensures exists|a: A| inner_clone.en(e, Id { value: a }) && #[trigger] f.en(a, m.value),
//@ fn datatypes/reader.rs Reader::bind props C11
    requires
        self.total(), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: Reader<E, B>| #[trigger] f.en(a, t) ==> t.total(),
    ensures
        r.total(),
        forall|e: E, b: B| #[trigger] r.en(e, b) ==> exists|a: A, t: Reader<E, B>| self.en(e, a) && #[trigger] f.en(a, t) && t.en(e, b),
//@ closure 0 |e: E| -> (m: Id<B>)
    requires
        inner_clone.rq(e), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: Reader<E, B>| #[trigger] f.en(a, t) ==> t.total(),
    ensures exists|a: A, t: Reader<E, B>| inner_clone.en(e, Id { value: a }) && #[trigger] f.en(a, t) && t.en(e, m.value),
//@ fn datatypes/reader.rs Reader::ask_transform props C11
    ensures
        forall|e: E| f.rq(e) ==> #[trigger] r.rq(e),
        forall|e: E, a: A| #[trigger] r.en(e, a) ==> f.en(e, a),
//@ closure 0 |e: E| -> (m: Id<A>)
    requires f.rq(e),
    ensures f.en(e, m.value),
//@ fn datatypes/reader.rs Reader::asks props C11
    ensures
        forall|e: E| selector.rq(e) ==> #[trigger] r.rq(e),
        forall|e: E, a: A| #[trigger] r.en(e, a) ==> selector.en(e, a),
//@ closure 0 |e: E| -> (m: Id<A>)
    requires selector.rq(e),
    ensures selector.en(e, m.value),
//@ fn datatypes/reader.rs Reader::ask_with props C11
    requires forall|e: &E| #[trigger] f.rq(e), forall|a: A| #[trigger] transform.rq(a),
    ensures
        r.total(),
        forall|e: E, b: A| #[trigger] r.en(e, b) ==> exists|a: A| #[trigger] f.en(&e, a) && transform.en(a, Id { value: b }),
//@ closure 0 |e: E| -> (m: Id<A>)
    requires f.rq(&e), forall|a: A| #[trigger] transform.rq(a),
    ensures exists|a: A| #[trigger] f.en(&e, a) && transform.en(a, m),
//@ fn datatypes/reader.rs Reader::local props C11
    requires self.total(), forall|e: E| #[trigger] f.rq(e),
    ensures
        r.total(),
        forall|e: E, a: A| #[trigger] r.en(e, a) ==> exists|g: E| #[trigger] f.en(e, g) && self.en(g, a),
//@ closure 0 |e: E| -> (m: Id<A>)
    requires inner_clone.total(), f.rq(e),
    ensures exists|g: E| #[trigger] f.en(e, g) && inner_clone.en(g, m),
//@ fn datatypes/reader.rs Reader::combine props C11
    requires self.total(), other.total(), forall|a: A, b: B| #[trigger] f.rq2(a, b),
    ensures
        r.total(),
        forall|e: E, c: C| #[trigger] r.en(e, c) ==> exists|a: A, b: B| self.en(e, a) && other.en(e, b) && #[trigger] f.en2(a, b, c),
//@ closure 0 |e: E| -> (m: Id<C>)
    requires self_inner.rq(e), other_inner.rq(e), forall|a: A, b: B| #[trigger] f.rq2(a, b),
    ensures exists|a: A, b: B| self_inner.en(e, Id { value: a }) && other_inner.en(e, Id { value: b }) && #[trigger] f.en2(a, b, m.value),
//@ fn datatypes/reader.rs Reader[Clone]::clone props C11
    ensures r == *self,
//@ fn datatypes/reader.rs Reader[From]::from props C11
    ensures
        forall|e: E| #[trigger] r.rq(e) == reader_t.rq(e),
        forall|e: E, a: A| #[trigger] r.en(e, a) == reader_t.en(e, Id { value: a }),
