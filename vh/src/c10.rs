//! C10: state computations thread the state exactly once, in order.
use crate::src::*;
use crate::tracked::{hit, start, trace};
use crate::{ck, eq};
use rustica::datatypes::id::Id;
use rustica::datatypes::state::{get, modify, put, State};
use rustica::error::*;
use rustica::traits::identity::Identity;
use rustica::transformers::{MonadTransformer, StateT};

type M = Result<(u8, u8), u8>;
/// An arbitrary state action `s -> (value, state)` that records effect `id`.
#[derive(Clone, Copy, Debug)]
struct Act(Tab, Tab, u64);
impl Act {
    fn run(&self, s: u8) -> (u8, u8) {
        (self.0.at(s), self.1.at(s))
    }
    fn state(self) -> State<u8, u8> {
        State::new(move |s| {
            hit(self.2);
            self.run(s)
        })
    }
}
fn act<S: Src>(s: &mut S, id: u64) -> Act {
    Act(s.tab(), s.tab(), id)
}

/// run/eval/exec return the value and the final state; pure leaves the state alone; get, put, modify.
fn prims<S: Src>(s: &mut S) {
    let (a, x, y, t) = (act(s, 1), s.u8(), s.u8(), s.tab());
    let m = a.state();
    start();
    eq!(m.run_state(x), a.run(x), "run_state");
    eq!(trace(), 1, "the step runs exactly once");
    eq!(m.eval_state(x), a.run(x).0, "eval_state");
    eq!(m.exec_state(x), a.run(x).1, "exec_state");
    eq!(m.exec_pure(x), a.run(x).1, "exec_pure");
    eq!(m.clone().run_state(x), a.run(x), "clone");
    eq!(State::<u8, u8>::pure(y).run_state(x), (y, x), "pure");
    eq!(get::<u8>().run_state(x), (x, x), "get");
    eq!(put(y).run_state(x), ((), y), "put");
    eq!(modify(move |v: u8| t.at(v)).run_state(x), ((), t.at(x)), "modify");
}
/// fmap maps the value once, leaves the state, runs the step first.
fn fmap<S: Src>(s: &mut S) {
    let (a, x, t) = (act(s, 1), s.u8(), s.tab());
    let m = a.state().fmap(move |v| {
        hit(2);
        t.at(v)
    });
    start();
    eq!(m.run_state(x), (t.at(a.run(x).0), a.run(x).1), "fmap");
    eq!(trace(), 0x12, "fmap: the step, then the function, once each");
}
/// An arbitrary continuation `v -> action`: value and state depend on both `v` and the state.
#[derive(Clone, Copy, Debug)]
struct Kont(Tab2, Tab2, u64);
impl Kont {
    fn run(&self, v: u8, s: u8) -> (u8, u8) {
        (self.0.at(v, s), self.1.at(v, s))
    }
    fn call(self, v: u8) -> State<u8, u8> {
        hit(self.2);
        State::new(move |s| {
            hit(self.2 + 1);
            self.run(v, s)
        })
    }
}
fn kont<S: Src>(s: &mut S, id: u64) -> Kont {
    Kont(s.tab2(), s.tab2(), id)
}
/// bind passes the value to the continuation and the state on, each step once, in order.
fn bind<S: Src>(s: &mut S) {
    let (a, k, x) = (act(s, 1), kont(s, 2), s.u8());
    let m = a.state().bind(move |v| k.call(v));
    start();
    let (v, s1) = a.run(x);
    eq!(m.run_state(x), k.run(v, s1), "bind");
    eq!(trace(), 0x123, "bind: every step once, in order");
}
fn left_id<S: Src>(s: &mut S) {
    let (k, x, y) = (kont(s, 2), s.u8(), s.u8());
    eq!(State::pure(y).bind(move |v| k.call(v)).run_state(x), k.run(y, x), "left identity");
}
fn right_id<S: Src>(s: &mut S) {
    let (a, x) = (act(s, 1), s.u8());
    eq!(a.state().bind(|v| State::pure(v)).run_state(x), a.run(x), "right identity");
}
fn assoc_l<S: Src>(s: &mut S) {
    let (a, k, h, x) = (act(s, 1), kont(s, 2), kont(s, 4), s.u8());
    let (v, s1) = a.run(x);
    let (w, s2) = k.run(v, s1);
    let l = a.state().bind(move |v| k.call(v)).bind(move |v| h.call(v));
    start();
    eq!(l.run_state(x), h.run(w, s2), "bind twice");
    eq!(trace(), 0x12345, "bind twice: every step once, in order");
}
fn assoc_r<S: Src>(s: &mut S) {
    let (a, k, h, x) = (act(s, 1), kont(s, 2), kont(s, 4), s.u8());
    let (v, s1) = a.run(x);
    let (w, s2) = k.run(v, s1);
    let r = a.state().bind(move |v| k.call(v).bind(move |v| h.call(v)));
    start();
    eq!(r.run_state(x), h.run(w, s2), "nested bind");
    eq!(trace(), 0x12345, "nested bind: every step once, in order");
}
/// apply runs the function computation, then the argument with the state it left.
fn apply<S: Src>(s: &mut S) {
    let (f, a, t, x) = (act(s, 1), act(s, 2), s.tab2(), s.u8());
    let fs = State::new(move |s: u8| {
        hit(1);
        let (v, s1) = f.run(s);
        (move |w: u8| t.at(v, w), s1)
    });
    let m = fs.apply(a.state());
    start();
    let (v, s1) = f.run(x);
    let (w, s2) = a.run(s1);
    eq!(m.run_state(x), (t.at(v, w), s2), "apply");
    eq!(trace(), 0x12, "apply: function first, argument second, once each");
}
/// The error-carrying forms keep the value or the error, the state and the context.
fn tries<S: Src>(s: &mut S) {
    let (k, t, x) = (s.ktab(), s.tab(), s.u8());
    let m: State<u8, Result<u8, u8>> = State::new(move |s| (k.at(s), t.at(s)));
    let (want, st) = (k.at(x), t.at(x));
    fn flat<T>(r: ComposableResult<T, u8>) -> Result<T, (u8, usize)> {
        r.map_err(|e| (*e.core_error(), e.context().len()))
    }
    let bare = |e: u8| (e, 0);
    let ctx = |e: u8| (e, 1);
    let (r, f) = m.try_run_state(x);
    eq!((flat(r), f), (want.map_err(bare), st), "try_run_state");
    eq!(flat(m.try_eval_state(x)), want.map_err(bare), "try_eval_state");
    eq!(flat(m.try_exec_state(x)), want.map(|_| st).map_err(bare), "try_exec_state");
    let (r, f) = m.try_run_state_with_context(x, "c");
    eq!((flat(r), f), (want.map_err(ctx), st), "try_run_state_with_context");
    eq!(flat(m.try_eval_state_with_context(x, "c")), want.map_err(ctx), "try_eval_state_with_context");
    eq!(flat(m.try_exec_state_with_context(x, "c")), want.map(|_| st).map_err(ctx), "try_exec_state_with_context");
    if want.is_err() {
        let e = m.try_eval_state_with_context(x, "why").unwrap_err();
        eq!(e.context(), vec!["why".to_string()], "the context is kept");
    }
}
/// Conversions between State and StateT keep the computation.
fn from_state<S: Src>(s: &mut S) {
    let (a, x) = (act(s, 1), s.u8());
    let (v, s1) = a.run(x);
    let t: StateT<u8, Id<(u8, u8)>, u8> = StateT::from_state(a.state());
    start();
    eq!(t.run_state(x).unwrap(), (s1, v), "from_state");
    eq!(trace(), 1, "from_state: once");
}
fn to_state<S: Src>(s: &mut S) {
    let (a, x) = (act(s, 1), s.u8());
    let t: StateT<u8, Id<(u8, u8)>, u8> = StateT::new(move |s| {
        hit(1);
        let (v, s1) = a.run(s);
        Id::new((s1, v))
    });
    start();
    eq!(t.to_state().run_state(x), a.run(x), "to_state");
    eq!(trace(), 1, "to_state: once");
}
fn from_t<S: Src>(s: &mut S) {
    let (a, x) = (act(s, 1), s.u8());
    let i: StateT<u8, Id<(u8, u8)>, u8> = StateT::new(move |s| Id::new(a.run(s)));
    eq!(State::from(i).run_state(x), a.run(x), "From<StateT>");
}

// ---- StateT over Result
/// An arbitrary fallible state action.
#[derive(Clone, Copy, Debug)]
struct TAct(KTab, Tab, u64);
impl TAct {
    fn run(&self, s: u8) -> M {
        self.0.at(s).map(|v| (self.1.at(s), v))
    }
    fn st(self) -> StateT<u8, M, u8> {
        StateT::new(move |s| {
            hit(self.2);
            self.run(s)
        })
    }
}
fn tact<S: Src>(s: &mut S, id: u64) -> TAct {
    TAct(s.ktab(), s.tab(), id)
}
fn t_prims<S: Src>(s: &mut S) {
    let (a, x, y, c, t) = (tact(s, 1), s.u8(), s.u8(), s.u8(), s.tab());
    start();
    eq!(a.st().run_state(x), a.run(x), "run_state");
    eq!(trace(), 1, "once");
    eq!(StateT::<u8, M, u8>::LiftM(a.run(c)).run_state(x), a.run(c), "run_state of a lifted value");
    eq!(a.st().clone().run_state(x), a.run(x), "clone");
    eq!(a.st().exec_state(x, |m| m), a.run(x), "exec_state");
    eq!(StateT::<u8, M, u8>::get(Ok).run_state(x), Ok((x, x)), "get");
    eq!(StateT::<u8, M, u8>::put(y, Ok).run_state(x), Ok((y, x)), "put");
    eq!(
        StateT::<u8, Result<(u8, ()), u8>, ()>::modify(move |v| t.at(v), Ok).run_state(x),
        Ok((t.at(x), ())),
        "modify"
    );
    eq!(StateT::<u8, M, u8>::pure(y, Ok).run_state(x), Ok((x, y)), "pure");
    eq!(StateT::<u8, M, u8>::lift(a.run(c)).run_state(x), a.run(c), "lift");
}
fn t_fmap<S: Src>(s: &mut S) {
    let (a, x, t) = (tact(s, 1), s.u8(), s.tab());
    let r: StateT<u8, M, u8> = a.st().fmap_with(move |v| t.at(v), |m: M, f| m.map(|p| f(p)));
    start();
    eq!(r.run_state(x), a.run(x).map(|(s, v)| (s, t.at(v))), "fmap_with");
    eq!(trace(), 1, "fmap_with: the step runs once");
}
fn t_fmap_lifted<S: Src>(s: &mut S) {
    let (a, x, c, t) = (tact(s, 1), s.u8(), s.u8(), s.tab());
    let m: StateT<u8, M, u8> = StateT::LiftM(a.run(c));
    let r: StateT<u8, M, u8> = m.fmap_with(move |v| t.at(v), |m: M, f| m.map(|p| f(p)));
    eq!(r.run_state(x), a.run(c).map(|(s, v)| (s, t.at(v))), "fmap_with of a lifted value");
}
fn t_fmap_pure<S: Src>(s: &mut S) {
    let (x, t) = (s.u8(), s.tab());
    match StateT::<u8, M, u8>::Pure(x).fmap_with(move |v| t.at(v), |m: M, f| m.map(|p| f(p))) {
        StateT::Pure(v) => eq!(v, t.at(x), "fmap_with on Pure"),
        _ => ck!(false, "fmap_with on Pure stays Pure"),
    }
}
#[derive(Clone, Copy, Debug)]
struct TKont([KTab; 2], Tab2, u64);
impl TKont {
    fn run(&self, v: u8, s: u8) -> M {
        self.0[(v & 1) as usize].at(s).map(|w| (self.1.at(v, s), w))
    }
    fn call(self, v: u8) -> StateT<u8, M, u8> {
        hit(self.2);
        StateT::new(move |s| {
            hit(self.2 + 1);
            self.run(v, s)
        })
    }
}
fn tkont<S: Src>(s: &mut S, id: u64) -> TKont {
    TKont([s.ktab(), s.ktab()], s.tab2(), id)
}
fn binder(m: M, f: Box<dyn Fn((u8, u8)) -> M + Send + Sync>) -> M {
    match m {
        Ok(p) => f(p),
        Err(e) => Err(e),
    }
}
fn t_bind<S: Src>(s: &mut S) {
    let (a, k, x) = (tact(s, 1), tkont(s, 2), s.u8());
    let r = a.st().bind_with(move |v| k.call(v), binder);
    let base = a.run(x);
    start();
    eq!(r.run_state(x), base.and_then(|(s1, v)| k.run(v, s1)), "bind_with");
    eq!(trace(), if base.is_ok() { 0x123 } else { 1 }, "bind_with: every reached step once, in order");
}
fn t_bind_lifted<S: Src>(s: &mut S) {
    let (a, k, x, c) = (tact(s, 1), tkont(s, 2), s.u8(), s.u8());
    let r = StateT::<u8, M, u8>::LiftM(a.run(c)).bind_with(move |v| k.call(v), binder);
    let base = a.run(c);
    start();
    eq!(r.run_state(x), base.and_then(|(s1, v)| k.run(v, s1)), "bind_with of a lifted value");
    eq!(trace(), if base.is_ok() { 0x23 } else { 0 }, "bind_with: every reached step once, in order");
}
fn t_bind_pure<S: Src>(s: &mut S) {
    let (k, x, c) = (tkont(s, 2), s.u8(), s.u8());
    eq!(
        StateT::<u8, M, u8>::Pure(c).bind_with(move |v| k.call(v), binder).run_state(x),
        k.run(c, x),
        "bind_with on Pure"
    );
}
fn t_right_id<S: Src>(s: &mut S) {
    let (a, x) = (tact(s, 1), s.u8());
    eq!(a.st().bind_with(|v| StateT::pure(v, Ok), binder).run_state(x), a.run(x), "right identity");
}
fn t_left_id<S: Src>(s: &mut S) {
    let (k, x) = (tkont(s, 2), s.u8());
    eq!(
        StateT::<u8, M, u8>::pure(x, Ok).bind_with(move |v| k.call(v), binder).run_state(x),
        k.run(x, x),
        "left identity"
    );
}
fn t_assoc_l<S: Src>(s: &mut S) {
    let (a, k, h, x) = (tact(s, 1), tkont(s, 2), tkont(s, 4), s.u8());
    let want = a.run(x).and_then(|(s1, v)| k.run(v, s1)).and_then(|(s2, w)| h.run(w, s2));
    let l = a.st().bind_with(move |v| k.call(v), binder).bind_with(move |v| h.call(v), binder);
    eq!(l.run_state(x), want, "bind twice");
}
fn t_assoc_r<S: Src>(s: &mut S) {
    let (a, k, h, x) = (tact(s, 1), tkont(s, 2), tkont(s, 4), s.u8());
    let want = a.run(x).and_then(|(s1, v)| k.run(v, s1)).and_then(|(s2, w)| h.run(w, s2));
    let r = a.st().bind_with(move |v| k.call(v).bind_with(move |v| h.call(v), binder), binder);
    eq!(r.run_state(x), want, "nested bind");
}
fn first_error(a: M, b: M, f: Box<dyn Fn((u8, u8), (u8, u8)) -> (u8, u8) + Send + Sync>) -> M {
    Ok(f(a?, b?))
}
fn t_combine<S: Src>(s: &mut S) {
    let (a, b, t, x) = (tact(s, 1), tact(s, 2), s.tab2(), s.u8());
    let r: StateT<u8, M, u8> = a.st().combine_with(&b.st(), move |v, w| t.at(v, w), first_error);
    start();
    let want = match (a.run(x), b.run(x)) {
        (Ok((_, v)), Ok((s2, w))) => Ok((s2, t.at(v, w))),
        (Err(e), _) | (_, Err(e)) => Err(e),
    };
    eq!(r.run_state(x), want, "combine_with");
    eq!(trace(), 0x12, "combine_with: both steps once, in order");
}
fn t_combine_lifted<S: Src>(s: &mut S) {
    let (a, b, t, x, c) = (tact(s, 1), tact(s, 2), s.tab2(), s.u8(), s.u8());
    let l: StateT<u8, M, u8> = StateT::<u8, M, u8>::LiftM(a.run(c)).combine_with(
        &StateT::<u8, M, u8>::LiftM(b.run(c)),
        move |v, w| t.at(v, w),
        first_error,
    );
    let want = match (a.run(c), b.run(c)) {
        (Ok((s1, v)), Ok((_, w))) => Ok((s1, t.at(v, w))),
        (Err(e), _) | (_, Err(e)) => Err(e),
    };
    eq!(l.run_state(x), want, "combine_with of lifted values");
    match StateT::<u8, M, u8>::Pure(x).combine_with(&StateT::<u8, M, u8>::Pure(c), move |v, w| t.at(v, w), first_error) {
        StateT::Pure(v) => eq!(v, t.at(x, c), "combine_with on Pure"),
        _ => ck!(false, "combine_with on Pure stays Pure"),
    }
}
fn applier(t: Tab2) -> impl Fn(M, M) -> M + Send + Sync + 'static {
    move |p: M, q: M| match (p, q) {
        (Ok((s1, v)), Ok((s2, w))) => Ok((t.at(s1, s2), t.at(v, w))),
        (Err(e), _) | (_, Err(e)) => Err(e),
    }
}
fn t_apply<S: Src>(s: &mut S) {
    let (a, b, t, x) = (tact(s, 1), tact(s, 2), s.tab2(), s.u8());
    let r: StateT<u8, M, u8> = a.st().apply(b.st(), applier(t));
    start();
    eq!(r.run_state(x), applier(t)(a.run(x), b.run(x)), "apply");
    eq!(trace(), 0x12, "apply: both steps once, in order");
}
fn t_apply_lifted<S: Src>(s: &mut S) {
    let (a, b, t, x, c) = (tact(s, 1), tact(s, 2), s.tab2(), s.u8(), s.u8());
    let (m, n) = (StateT::<u8, M, u8>::LiftM(a.run(c)), StateT::<u8, M, u8>::LiftM(b.run(x)));
    let r: StateT<u8, M, u8> = m.apply(n, applier(t));
    eq!(r.run_state(x), applier(t)(a.run(c), b.run(x)), "apply of lifted values");
}
fn t_apply_mixed<S: Src>(s: &mut S) {
    let (a, b, t, x, c) = (tact(s, 1), tact(s, 2), s.tab2(), s.u8(), s.u8());
    let l: StateT<u8, M, u8> = a.st().apply(StateT::<u8, M, u8>::LiftM(b.run(c)), applier(t));
    start();
    eq!(l.run_state(x), applier(t)(a.run(x), b.run(c)), "apply to a lifted value");
    eq!(trace(), 1, "once");
    let r: StateT<u8, M, u8> = StateT::<u8, M, u8>::LiftM(a.run(c)).apply(b.st(), applier(t));
    start();
    eq!(r.run_state(x), applier(t)(a.run(c), b.run(x)), "apply of a lifted function");
    eq!(trace(), 2, "once");
}
fn t_join<S: Src>(s: &mut S) {
    let (a, x, t) = (tact(s, 1), s.u8(), s.tab());
    let j: StateT<u8, M, u8> = a.st().join(move |m: M| m.map(|(s, v)| (s, t.at(v))));
    start();
    eq!(j.run_state(x), a.run(x).map(|(s, v)| (s, t.at(v))), "join");
    eq!(trace(), 1, "join: once");
}
fn t_join_lifted<S: Src>(s: &mut S) {
    let (a, x, c, t) = (tact(s, 1), s.u8(), s.u8(), s.tab());
    let j: StateT<u8, M, u8> =
        StateT::<u8, M, u8>::LiftM(a.run(c)).join(move |m: M| m.map(|(s, v)| (s, t.at(v))));
    eq!(j.run_state(x), a.run(c).map(|(s, v)| (s, t.at(v))), "join of a lifted value");
    match StateT::<u8, M, u8>::Pure(x).join(|m: M| m) {
        StateT::Pure(v) => eq!(v, x, "join on Pure"),
        _ => ck!(false, "join on Pure stays Pure"),
    }
}
fn t_tries<S: Src>(s: &mut S) {
    let (a, x, c, t) = (tact(s, 1), s.u8(), s.u8(), s.tab());
    let eff = s.bool();
    let m = if eff { a.st() } else { StateT::LiftM(a.run(c)) };
    let base = if eff { a.run(x) } else { a.run(c) };
    fn flat<T>(r: ComposableResult<T, u8>) -> Result<T, (u8, usize)> {
        r.map_err(|e| (*e.core_error(), e.context().len()))
    }
    start();
    eq!(flat(m.try_run_state(x)), base.map_err(|e| (e, 0)), "try_run_state");
    eq!(trace(), if eff { 1 } else { 0 }, "try_run_state: once");
    eq!(flat(m.try_eval_state(x)), base.map(|p| p.1).map_err(|e| (e, 0)), "try_eval_state");
    eq!(flat(m.try_exec_state(x)), base.map(|p| p.0).map_err(|e| (e, 0)), "try_exec_state");
    eq!(flat(m.try_run_state_with_context(x, "c")), base.map_err(|e| (e, 1)), "try_run_state_with_context");
    eq!(flat(m.try_eval_state_with_context(x, "c")), base.map(|p| p.1).map_err(|e| (e, 1)), "try_eval_state_with_context");
    eq!(m.map_error(move |e| t.at(e)).run_state(x), base.map_err(|e| t.at(e)), "map_error");
}

harnesses! {
    "C10";
    prove {
        prims 2, fmap 3, bind 3, left_id 3, right_id 3, assoc_l 3, apply 3, from_state 3, to_state 3, from_t 3,
        t_prims 2, t_fmap 2, t_fmap_lifted 2, t_fmap_pure 2, t_bind 2, t_bind_lifted 2, t_bind_pure 2,
        t_left_id 2, t_right_id 2, t_assoc_l 3, t_combine 2, t_combine_lifted 2,
        t_apply 2, t_apply_lifted 2, t_apply_mixed 2, t_join 2, t_join_lifted 2,
    }
    test { assoc_r 1.0, t_assoc_r 1.0, tries 1.0, t_tries 1.0, program 1.0, t_program 1.0 }
}

/// Arbitrary programs of the transformer, with shared parts, against a direct interpreter: result and effects.
fn t_program<S: Src>(s: &mut S) {
    use std::rc::Rc;
    type T = StateT<u8, M, u8>;
    enum P {
        Base(TAct),
        Get,
        Put(u8),
        Map(Rc<P>, Tab),
        Bind(Rc<P>, TKont),
        Then(Rc<P>, Tab, Rc<P>),
        Both(Rc<P>, Rc<P>, Tab2),
        Ap(Rc<P>, Rc<P>, Tab2),
    }
    fn gen_<S: Src>(s: &mut S, d: u32, pool: &Pool<P>) -> P {
        let id = 1 + s.below(14) as u64;
        let mut go = |s: &mut S| sub(s, pool, |s| gen_(s, d - 1, pool));
        match if d == 0 { s.below(4) } else { s.below(10) } {
            0 | 1 => P::Base(tact(s, id)),
            2 => P::Get,
            3 => P::Put(s.u8()),
            4 => P::Map(go(s), s.tab()),
            5 => P::Bind(go(s), tkont(s, id)),
            6 | 7 => P::Then(go(s), s.tab(), go(s)),
            8 => P::Both(go(s), go(s), s.tab2()),
            _ => P::Ap(go(s), go(s), s.tab2()),
        }
    }
    fn build(p: &P, built: &Built<P, T>) -> T {
        let go = |q: &Rc<P>| part(q, built, |q| build(q, built));
        match p {
            P::Base(a) => a.st(),
            P::Get => T::get(Ok),
            P::Put(x) => T::put(*x, Ok),
            P::Map(p, t) => {
                let t = *t;
                go(p).fmap_with(move |v| t.at(v), |m: M, f| m.map(|p| f(p)))
            },
            P::Bind(p, k) => {
                let k = *k;
                go(p).bind_with(move |v| k.call(v), binder)
            },
            P::Then(p, t, q) => {
                let (t, q) = (*t, go(q));
                go(p).bind_with(move |v| q.fmap_with(move |w| t.at(v).wrapping_add(w), |m: M, f| m.map(|p| f(p))), binder)
            },
            P::Both(p, q, t) => {
                let t = *t;
                go(p).combine_with(&go(q), move |v, w| t.at(v, w), first_error)
            },
            P::Ap(p, q, t) => go(p).apply(go(q), applier(*t)),
        }
    }
    fn eval(p: &P, s: u8, tr: &mut u64) -> M {
        let mut note = |id: u64| *tr = tr.wrapping_mul(16).wrapping_add(id);
        match p {
            P::Base(a) => {
                note(a.2);
                a.run(s)
            },
            P::Get => Ok((s, s)),
            P::Put(x) => Ok((*x, s)),
            P::Map(p, t) => eval(p, s, tr).map(|(s, v)| (s, t.at(v))),
            P::Bind(p, k) => {
                let (s, v) = eval(p, s, tr)?;
                *tr = tr.wrapping_mul(16).wrapping_add(k.2);
                *tr = tr.wrapping_mul(16).wrapping_add(k.2 + 1);
                k.run(v, s)
            },
            P::Then(p, t, q) => {
                let (s, v) = eval(p, s, tr)?;
                eval(q, s, tr).map(|(s, w)| (s, t.at(v).wrapping_add(w)))
            },
            P::Both(p, q, t) => {
                let (a, b) = (eval(p, s, tr), eval(q, s, tr));
                let ((_, v), (s, w)) = (a?, b?);
                Ok((s, t.at(v, w)))
            },
            P::Ap(p, q, t) => {
                let (a, b) = (eval(p, s, tr), eval(q, s, tr));
                applier(*t)(a, b)
            },
        }
    }
    let (p, x) = (gen_(s, 4, &Default::default()), s.u8());
    let m = build(&p, &Default::default());
    for _ in 0..2 {
        start();
        let mut tr = 0;
        let want = eval(&p, x, &mut tr);
        eq!(m.run_state(x), want, "the program's value and final state");
        eq!(trace(), tr, "the program's effects");
    }
}

/// Arbitrary programs of get/put/modify/pure/bind/fmap/apply against a direct interpreter.
fn program<S: Src>(s: &mut S) {
    #[derive(Clone, Debug)]
    enum P {
        Pure(u8),
        Get,
        Put(u8),
        Modify(Tab),
        Map(std::rc::Rc<P>, Tab),
        Seq(std::rc::Rc<P>, Tab, std::rc::Rc<P>),
        Ap(std::rc::Rc<P>, std::rc::Rc<P>, Tab2),
    }
    fn gen_<S: Src>(s: &mut S, d: u32, pool: &Pool<P>) -> P {
        match if d == 0 { s.below(4) } else { s.below(9) } {
            0 => P::Pure(s.u8()),
            1 => P::Get,
            2 => P::Put(s.u8()),
            3 => P::Modify(s.tab()),
            4 => P::Map(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab()),
            5 | 6 | 7 => P::Seq(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab(), sub(s, pool, |s| gen_(s, d - 1, pool))),
            _ => P::Ap(sub(s, pool, |s| gen_(s, d - 1, pool)), sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab2()),
        }
    }
    fn build(p: &P, built: &Built<P, State<u8, u8>>) -> State<u8, u8> {
        match p.clone() {
            P::Pure(x) => State::pure(x),
            P::Get => get(),
            P::Put(x) => put(x).fmap(|_| 9),
            P::Modify(t) => modify(move |v: u8| t.at(v)).fmap(|_| 8),
            P::Map(p, t) => part(&p, built, |p| build(p, built)).fmap(move |v| t.at(v)),
            P::Seq(p, t, q) => {
                let q = part(&q, built, |p| build(p, built));
                part(&p, built, |p| build(p, built)).bind(move |v| {
                    let q = q.clone();
                    modify(move |s: u8| s.wrapping_add(t.at(v))).bind(move |_| q.clone())
                })
            },
            P::Ap(p, q, t) => part(&p, built, |p| build(p, built)).fmap(move |v| move |w: u8| t.at(v, w)).apply(part(&q, built, |p| build(p, built))),
        }
    }
    fn eval(p: &P, s: u8) -> (u8, u8) {
        match p {
            P::Pure(x) => (*x, s),
            P::Get => (s, s),
            P::Put(x) => (9, *x),
            P::Modify(t) => (8, t.at(s)),
            P::Map(p, t) => {
                let (v, s) = eval(p, s);
                (t.at(v), s)
            },
            P::Seq(p, t, q) => {
                let (v, s) = eval(p, s);
                eval(q, s.wrapping_add(t.at(v)))
            },
            P::Ap(p, q, t) => {
                let (v, s) = eval(p, s);
                let (w, s) = eval(q, s);
                (t.at(v, w), s)
            },
        }
    }
    let p = gen_(s, 4, &Default::default());
    let x = s.u8();
    let m = build(&p, &Default::default());
    eq!(m.run_state(x), eval(&p, x), "the program's value and final state");
    for _ in 0..1 + s.below(3) {
        eq!(m.run_state(x), eval(&p, x), "and again when run again");
    }
}
