// State computations: which state each step is given and which state and value come out.
//@ include inc/fun
//@ raw
broadcast use {faithful_clone, faithful_clone_call};
/// only named in a bound; no method of it is called here
pub trait Monad { type Source; }
//@ type datatypes/id.rs Id #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ type transformers/state_t.rs StateT #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(M)]
//@ type transformers/state_t.rs StateValueMapper
//@ type transformers/state_t.rs StateCombiner
//@ type datatypes/state.rs StateInner
//@ type datatypes/state.rs State #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(A)]
//@ fn datatypes/id.rs Id::new props C10
    ensures r.value == x,
//@ fn datatypes/id.rs Id::into_inner props C10
    ensures r == self.value,
//@ fn datatypes/id.rs Id::unwrap props C10
    ensures r == self.value,
//@ raw
impl<S, M, A> StateT<S, M, A> {
    /// it may be run from `s`
    pub open spec fn rq(&self, s: S) -> bool {
        match self { StateT::Pure(_) => false, StateT::LiftM(_) => true, StateT::Effect(f) => f.rq(s) }
    }
    /// running it from `s` may give `m`
    pub open spec fn en(&self, s: S, m: M) -> bool {
        match self { StateT::Pure(_) => false, StateT::LiftM(n) => m == n, StateT::Effect(f) => f.en(s, m) }
    }
    pub open spec fn total(&self) -> bool { forall|s: S| #[trigger] self.rq(s) }
}
/// `p` maps the value with `f` and leaves the state alone
pub open spec fn maps_value<S, A, B, F: Fn(A) -> B>(p: Box<dyn Fun1<(S, A), (S, B)>>, f: F) -> bool {
    &&& forall|x: (S, A)| #[trigger] p.rq(x)
    &&& forall|x: (S, A), y: (S, B)| #[trigger] p.en(x, y) ==> y.0 == x.0 && f.en(x.1, y.1)
}
/// `p` runs the computation `f` gives for the value, from the state
pub open spec fn continues<S, N, A, B, F: Fn(A) -> StateT<S, N, B>>(p: Box<dyn Fun1<(S, A), N>>, f: F) -> bool {
    &&& forall|x: (S, A)| #[trigger] p.rq(x)
    &&& forall|x: (S, A), n: N| #[trigger] p.en(x, n) ==> exists|t: StateT<S, N, B>| f.en(x.1, t) && #[trigger] t.en(x.0, n)
}
//@ fn transformers/state_t.rs StateT::new props C10
    ensures
        forall|s: S| #[trigger] r.rq(s) == f.rq(s),
        forall|s: S, m: M| #[trigger] r.en(s, m) == f.en(s, m),
        r is Effect,
//@ fn transformers/state_t.rs StateT::run_state props C10
    requires self.rq(state),
    ensures self.en(state, r),
//@ fn transformers/state_t.rs StateT[Clone]::clone props C10
    ensures r == *self,
//@ fn transformers/state_t.rs StateT::get props C10
    requires forall|s: S| #[trigger] pure.rq((s, s)),
    ensures
        r.total(),
        forall|s: S, m: M| #[trigger] r.en(s, m) ==> pure.en((s, s), m),
//@ closure 0 |s: S| -> (m: M)
    requires pure.rq((s, s)),
    ensures pure.en((s, s), m),
//@ fn transformers/state_t.rs StateT::put props C10
    requires forall|s: S| #[trigger] pure.rq((new_state, s)),
    ensures
        r.total(),
        forall|s: S, m: M| #[trigger] r.en(s, m) ==> pure.en((new_state, s), m),
//@ closure 0 |s: S| -> (m: M)
    requires pure.rq((new_state, s)),
    ensures pure.en((new_state, s), m),
//@ fn transformers/state_t.rs StateT::modify props C10
    requires
        forall|s: S| #[trigger] f.rq(s),
        forall|s: S| #[trigger] pure.rq((s, ())),
    ensures
        r.total(),
        forall|s: S, m: M| #[trigger] r.en(s, m) ==> exists|t: S| #[trigger] f.en(s, t) && pure.en((t, ()), m),
//@ closure 0 |s: S| -> (m: M)
    requires f.rq(s), forall|t: S| #[trigger] pure.rq((t, ())),
    ensures exists|t: S| #[trigger] f.en(s, t) && pure.en((t, ()), m),
//@ fn transformers/state_t.rs StateT::pure props C10
    requires forall|s: S| #[trigger] pure_fn.rq((s, a)),
    ensures
        r.total(),
        forall|s: S, m: M| #[trigger] r.en(s, m) ==> pure_fn.en((s, a), m),
//@ closure 0 |s: S| -> (m: M)
    requires pure_fn.rq((s, a)),
    ensures pure_fn.en((s, a), m),
//@ fn transformers/state_t.rs StateT::exec_state props C10
    requires self.rq(s), forall|m: M| #[trigger] extract_state_fn.requires((m,)),
    ensures exists|m: M| self.en(s, m) && #[trigger] extract_state_fn.ensures((m,), r),
//@ fn transformers/state_t.rs StateT::fmap_with props C10
    requires
        forall|a: A| #[trigger] f.rq(a),
        forall|m: M, p: StateValueMapper<S, A, B>| maps_value(p, f) ==> #[trigger] map_fn.rq2(m, p),
    ensures
        self is Pure ==> r is Pure && f.en(self->Pure_0, r->Pure_0),
        self is LiftM ==> r is LiftM,
        !(self is Pure) ==> (forall|s: S| self.rq(s) ==> #[trigger] r.rq(s)),
        forall|s: S, n: M| #[trigger] r.en(s, n) ==> exists|m: M, p: StateValueMapper<S, A, B>|
            self.en(s, m) && maps_value(p, f) && #[trigger] map_fn.en2(m, p, n),
//@ closure 0 |__p0: (S, A)| -> (y: (S, B))
    requires f_clone.rq(__p0.1),
    ensures y.0 == __p0.0, f_clone.en(__p0.1, y.1),
//@ closure 1 |s: S| -> (n: M)
    requires
        run_fn.rq(s), forall|a: A| #[trigger] f.rq(a),
        forall|m: M, p: StateValueMapper<S, A, B>| maps_value(p, f) ==> #[trigger] map_fn.rq2(m, p),
    ensures
        exists|m: M, p: StateValueMapper<S, A, B>| run_fn.en(s, m) && maps_value(p, f) && #[trigger] map_fn.en2(m, p, n),
//@ closure 2 |__p0: (S, A)| -> (y: (S, B))
    requires f_clone.rq(__p0.1),
    ensures y.0 == __p0.0, f_clone.en(__p0.1, y.1),
//@ at let mapper
    proof {
        assert forall|x: (S, A)| #[trigger] mapper.rq(x) by { assert(f.rq(x.1)); }
        assert forall|x: (S, A), y: (S, B)| #[trigger] mapper.en(x, y) implies y.0 == x.0 && f.en(x.1, y.1) by {}
        assert(maps_value(mapper, f));
    }
//@ at let mapper 1
    proof {
        assert forall|x: (S, A)| #[trigger] mapper.rq(x) by { assert(f.rq(x.1)); }
        assert forall|x: (S, A), y: (S, B)| #[trigger] mapper.en(x, y) implies y.0 == x.0 && f.en(x.1, y.1) by {}
        assert(maps_value(mapper, f));
    }
//@ fn transformers/state_t.rs StateT::bind_with props C10
    requires
        forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: StateT<S, N, B>| #[trigger] f.en(a, t) ==> t.total(),
        forall|m: M, p: Box<dyn Fun1<(S, A), N>>| continues(p, f) ==> #[trigger] bind_fn.rq2(m, p),
    ensures
        self is Pure ==> f.en(self->Pure_0, r),
        forall|s: S| self.rq(s) ==> #[trigger] r.rq(s),
        !(self is Pure) ==> (forall|s: S, n: N| #[trigger] r.en(s, n) ==> exists|m: M, p: Box<dyn Fun1<(S, A), N>>|
            self.en(s, m) && continues(p, f) && #[trigger] bind_fn.en2(m, p, n)),
//@ closure 0 |__w: S| -> (n: N)
    requires
        forall|a: A| #[trigger] f_clone.rq(a),
        forall|a: A, t: StateT<S, N, B>| #[trigger] f_clone.en(a, t) ==> t.total(),
        forall|m: M, p: Box<dyn Fun1<(S, A), N>>| continues(p, f_clone) ==> #[trigger] bind_fn.rq2(m, p),
    ensures
        exists|p: Box<dyn Fun1<(S, A), N>>| continues(p, f_clone) && #[trigger] bind_fn.en2(m_clone, p, n),
//@ closure 1 |__p0: (S, A)| -> (n: N)
    requires
        f_for_closure.rq(__p0.1),
        forall|a: A, t: StateT<S, N, B>| #[trigger] f_for_closure.en(a, t) ==> t.total(),
    ensures exists|t: StateT<S, N, B>| f_for_closure.en(__p0.1, t) && #[trigger] t.en(__p0.0, n),
//@ closure 2 |s: S| -> (n: N)
    requires
        run_fn.rq(s),
        forall|a: A| #[trigger] f_clone.rq(a),
        forall|a: A, t: StateT<S, N, B>| #[trigger] f_clone.en(a, t) ==> t.total(),
        forall|m: M, p: Box<dyn Fun1<(S, A), N>>| continues(p, f_clone) ==> #[trigger] bind_fn.rq2(m, p),
    ensures
        exists|m: M, p: Box<dyn Fun1<(S, A), N>>| run_fn.en(s, m) && continues(p, f_clone) && #[trigger] bind_fn.en2(m, p, n),
//@ closure 3 |__p0: (S, A)| -> (n: N)
    requires
        f_for_closure.rq(__p0.1),
        forall|a: A, t: StateT<S, N, B>| #[trigger] f_for_closure.en(a, t) ==> t.total(),
    ensures exists|t: StateT<S, N, B>| f_for_closure.en(__p0.1, t) && #[trigger] t.en(__p0.0, n),
//@ at let binder
    proof {
        assert forall|x: (S, A)| #[trigger] binder.rq(x) by { assert(f_clone.rq(x.1)); }
        assert(continues(binder, f_clone));
    }
//@ at let binder 1
    proof {
        assert forall|x: (S, A)| #[trigger] binder.rq(x) by { assert(f_clone.rq(x.1)); }
        assert(continues(binder, f_clone));
    }
//@ raw
/// `p` combines the two values with `f`, and goes on from the first state, or from the second one
pub open spec fn combines<S, A, B, C, F: Fn(A, B) -> C>(p: Box<dyn Fun2<(S, A), (S, B), (S, C)>>, f: F, second: bool) -> bool {
    &&& forall|x: (S, A), y: (S, B)| #[trigger] p.rq2(x, y)
    &&& forall|x: (S, A), y: (S, B), z: (S, C)| #[trigger] p.en2(x, y, z) ==>
        z.0 == (if second { y.0 } else { x.0 }) && f.en2(x.1, y.1, z.1)
}
//@ raw
/// two base computations combined
pub open spec fn combined<S, M, A, B, C, F: Fn(A, B) -> C, G: Fn(M, M, StateCombiner<S, A, B, C>) -> M>(a: M, b: M, f: F, g: G, n: M) -> bool {
    exists|p: StateCombiner<S, A, B, C>| combines(p, f, false) && #[trigger] g.en3(a, b, p, n)
}
//@ fn transformers/state_t.rs StateT::combine_with props C10
    requires
        self is Pure <==> other is Pure, self is LiftM <==> other is LiftM,
        forall|a: A, b: B| #[trigger] f.rq2(a, b),
        forall|m: M, n: M, p: StateCombiner<S, A, B, C>| combines(p, f, self is Effect) ==> #[trigger] combine_fn.rq3(m, n, p),
    ensures
        self is Pure ==> r is Pure && f.en2(self->Pure_0, other->Pure_0, r->Pure_0),
        self is LiftM ==> r is LiftM
            && combined::<S, M, A, B, C, F, CombineFn>(self->LiftM_0, other->LiftM_0, f, combine_fn, r->LiftM_0),
        self is Effect ==> (forall|s: S| self.rq(s) && other.rq(s) ==> #[trigger] r.rq(s)),
        self is Effect ==> (forall|s: S, n: M| #[trigger] r.en(s, n) ==> exists|a: M, b: M, p: StateCombiner<S, A, B, C>|
            self.en(s, a) && other.en(s, b) && combines(p, f, true) && #[trigger] combine_fn.en3(a, b, p, n)),
//@ closure 0 |__p0: (S, A), __p1: (S, B)| -> (z: (S, C))
    requires f.rq2(__p0.1, __p1.1),
    ensures z.0 == __p0.0, f.en2(__p0.1, __p1.1, z.1),
//@ closure 1 |s: S| -> (n: M)
    requires
        self_run_fn.rq(s), other_run_fn.rq(s),
        forall|a: A, b: B| #[trigger] f.rq2(a, b),
        forall|m: M, n: M, p: StateCombiner<S, A, B, C>| combines(p, f, true) ==> #[trigger] combine_fn.rq3(m, n, p),
    ensures
        exists|a: M, b: M, p: StateCombiner<S, A, B, C>|
            self_run_fn.en(s, a) && other_run_fn.en(s, b) && combines(p, f, true) && #[trigger] combine_fn.en3(a, b, p, n),
//@ closure 2 |__p0: (S, A), __p1: (S, B)| -> (z: (S, C))
    requires f_clone.rq2(__p0.1, __p1.1),
    ensures z.0 == __p1.0, f_clone.en2(__p0.1, __p1.1, z.1),
//@ at let combiner
    proof {
        assert forall|x: (S, A), y: (S, B)| #[trigger] combiner.rq2(x, y) by { assert(f.rq2(x.1, y.1)); }
        assert(combines(combiner, f, false));
        assert forall|n: M| #[trigger] combine_fn.en3(*m1, *m2, combiner, n)
            implies combined::<S, M, A, B, C, F, CombineFn>(*m1, *m2, f, combine_fn, n) by {}
    }
//@ at let combiner 1
    proof {
        assert forall|x: (S, A), y: (S, B)| #[trigger] combiner.rq2(x, y) by { assert(f.rq2(x.1, y.1)); }
        assert(combines(combiner, f, true));
    }
//@ fn transformers/state_t.rs StateT::apply props C10
    requires forall|m: M, n: M| #[trigger] apply_fn.rq2(m, n),
    ensures
        !(self is LiftM && other is LiftM) ==> r is Effect
            && (forall|s: S| self.rq(s) && other.rq(s) ==> #[trigger] r.rq(s)),
        forall|s: S, n: M| #[trigger] r.en(s, n) ==> exists|a: M, b: M| self.en(s, a) && other.en(s, b) && #[trigger] apply_fn.en2(a, b, n),
//@ closure 0 |s: S| -> (n: M)
    requires false,
    ensures false,
//@ closure 1 |s: S| -> (n: M)
    requires self_run.rq(s), other_run.rq(s), forall|m: M, n: M| #[trigger] apply_fn.rq2(m, n),
    ensures exists|a: M, b: M| self_run.en(s, a) && other_run.en(s, b) && #[trigger] apply_fn.en2(a, b, n),
//@ closure 2 |s: S| -> (m: M)
    requires self_clone.rq(s),
    ensures self_clone.en(s, m),
//@ closure 3 |s: S| -> (m: M)
    requires other_clone.rq(s),
    ensures other_clone.en(s, m),
//@ closure 4 |s: S| -> (n: M)
    requires self_run.rq(s), other_run.rq(s), forall|m: M, n: M| #[trigger] apply_fn.rq2(m, n),
    ensures exists|a: M, b: M| self_run.en(s, a) && other_run.en(s, b) && #[trigger] apply_fn.en2(a, b, n),
//@ fn transformers/state_t.rs StateT::join props C10
    requires forall|m: M| #[trigger] join_fn.rq(m),
    ensures
        self is Pure ==> r == StateT::<S, OuterM, A>::Pure(self->Pure_0),
        !(self is Pure) ==> (forall|s: S| self.rq(s) ==> #[trigger] r.rq(s)),
        forall|s: S, n: OuterM| #[trigger] r.en(s, n) ==> exists|m: M| self.en(s, m) && #[trigger] join_fn.en(m, n),
//@ closure 0 |s: S| -> (n: OuterM)
    requires run_fn.rq(s), forall|m: M| #[trigger] join_fn.rq(m),
    ensures exists|m: M| run_fn.en(s, m) && #[trigger] join_fn.en(m, n),
//@ fn transformers/state_t.rs StateT[MonadTransformer]::lift props C10
    ensures
        r.total(),
        forall|s: S, m: M| #[trigger] r.en(s, m) ==> m == base,
//@ closure 0 |__w: S| -> (m: M)
    ensures m == base,
//@ raw
impl<S, A> State<S, A> {
    pub closed spec fn rq(&self, s: S) -> bool { self.inner.rq(s) }
    pub closed spec fn en(&self, s: S, o: (A, S)) -> bool { self.inner.en(s, Id { value: o }) }
    pub open spec fn total(&self) -> bool { forall|s: S| #[trigger] self.rq(s) }
}
//@ fn datatypes/state.rs State::new props C10
    ensures
        forall|s: S| f.rq(s) ==> #[trigger] r.rq(s),
        forall|s: S, o: (A, S)| #[trigger] r.en(s, o) ==> f.en(s, o),
//@ closure 0 |s: S| -> (m: Id<(A, S)>)
    requires f.rq(s),
    ensures f.en(s, m.value),
//@ fn datatypes/state.rs State[Clone]::clone props C10
    ensures r == *self,
//@ fn datatypes/state.rs State::run_state props C10
    requires self.rq(s),
    ensures self.en(s, r),
//@ fn datatypes/state.rs State::eval_state props C10
    requires self.rq(s),
    ensures exists|o: (A, S)| #[trigger] self.en(s, o) && r == o.0,
//@ fn datatypes/state.rs State::exec_state props C10
    requires self.rq(s),
    ensures exists|o: (A, S)| #[trigger] self.en(s, o) && r == o.1,
//@ fn datatypes/state.rs State::exec_pure props C10
    requires self.rq(s),
    ensures exists|o: (A, S)| #[trigger] self.en(s, o) && r == o.1,
//@ fn datatypes/state.rs State::fmap props C10
    requires self.total(), forall|a: A| #[trigger] f.rq(a),
    ensures
        r.total(),
        forall|s: S, o: (B, S)| #[trigger] r.en(s, o) ==> exists|p: (A, S)| #[trigger] self.en(s, p) && o.1 == p.1 && f.en(p.0, o.0),
//@ closure 0 |s: S| -> (o: (B, S))
    requires self.total(), forall|a: A| #[trigger] f.rq(a),
    ensures exists|p: (A, S)| #[trigger] self.en(s, p) && o.1 == p.1 && f.en(p.0, o.0),
//@ fn datatypes/state.rs State::bind props C10
    requires
        self.total(), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, k: State<S, B>| #[trigger] f.en(a, k) ==> k.total(),
    ensures
        r.total(),
        forall|s: S, o: (B, S)| #[trigger] r.en(s, o) ==>
            exists|p: (A, S), k: State<S, B>| #[trigger] self.en(s, p) && f.en(p.0, k) && #[trigger] k.en(p.1, o),
//@ closure 0 |s: S| -> (o: (B, S))
    requires
        self.total(), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, k: State<S, B>| #[trigger] f.en(a, k) ==> k.total(),
    ensures exists|p: (A, S), k: State<S, B>| #[trigger] self.en(s, p) && f.en(p.0, k) && #[trigger] k.en(p.1, o),
//@ fn datatypes/state.rs State::pure props C10
    ensures
        r.total(),
        forall|s: S, o: (A, S)| #[trigger] r.en(s, o) ==> o == (a, s),
//@ closure 0 |s: S| -> (o: (A, S))
    ensures o == (a, s),
//@ fn datatypes/state.rs State::apply props C10
    requires
        self.total(), other.total(),
        forall|f: A, b: B| #[trigger] f.rq(b),
    ensures
        r.total(),
        forall|s: S, o: (C, S)| #[trigger] r.en(s, o) ==> exists|p: (A, S), q: (B, S)|
            #[trigger] self.en(s, p) && #[trigger] other.en(p.1, q) && o.1 == q.1 && p.0.en(q.0, o.0),
//@ closure 0 |s: S| -> (o: (C, S))
    requires self.total(), other.total(), forall|f: A, b: B| #[trigger] f.rq(b),
    ensures exists|p: (A, S), q: (B, S)|
        #[trigger] self.en(s, p) && #[trigger] other.en(p.1, q) && o.1 == q.1 && p.0.en(q.0, o.0),
//@ fn datatypes/state.rs get props C10
    ensures
        r.total(),
        forall|s: S, o: (S, S)| #[trigger] r.en(s, o) ==> o == (s, s),
//@ closure 0 |s: S| -> (o: (S, S))
    ensures o == (s, s),
//@ fn datatypes/state.rs put props C10
    ensures
        r.total(),
        forall|t: S, o: ((), S)| #[trigger] r.en(t, o) ==> o.1 == s,
//@ closure 0 |__w: S| -> (o: ((), S))
    ensures o.1 == s,
//@ fn datatypes/state.rs modify props C10
    requires forall|s: S| #[trigger] f.rq(s),
    ensures
        r.total(),
        forall|s: S, o: ((), S)| #[trigger] r.en(s, o) ==> f.en(s, o.1),
//@ closure 0 |s: S| -> (o: ((), S))
    requires f.rq(s),
    ensures f.en(s, o.1),
//@ fn datatypes/state.rs State[From]::from props C10
    ensures
        forall|s: S| #[trigger] r.rq(s) == state_t.rq(s),
        forall|s: S, o: (A, S)| #[trigger] r.en(s, o) == state_t.en(s, Id { value: o }),
