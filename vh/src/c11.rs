//! C11: reader computations see one unchanged environment.
use crate::src::*;
use crate::tracked::{self, hit, start, trace, Tracked};
use crate::{ck, eq};
use rustica::datatypes::id::Id;
use rustica::datatypes::reader::Reader;
use rustica::error::*;
use rustica::traits::identity::Identity;
use rustica::transformers::{MonadTransformer, ReaderT};
use std::sync::Arc;

type M = Result<u8, u8>;

/// An arbitrary reader `env -> value` recording effect `id`.
#[derive(Clone, Copy, Debug)]
struct Rd(Tab, u64);
impl Rd {
    fn r(self) -> Reader<u8, u8> {
        Reader::new(move |e| {
            hit(self.1);
            self.0.at(e)
        })
    }
}
fn rd<S: Src>(s: &mut S, id: u64) -> Rd {
    Rd(s.tab(), id)
}
/// An arbitrary continuation: its reader's value depends on the value and the environment.
#[derive(Clone, Copy, Debug)]
struct Kont(Tab2, u64);
impl Kont {
    fn call(self, v: u8) -> Reader<u8, u8> {
        hit(self.1);
        Reader::new(move |e| {
            hit(self.1 + 1);
            self.0.at(v, e)
        })
    }
}
fn kont<S: Src>(s: &mut S, id: u64) -> Kont {
    Kont(s.tab2(), id)
}

/// Running gives the function of the environment; ask gives the environment; asks and friends apply the selector.
fn prims<S: Src>(s: &mut S) {
    let (a, e, t, u) = (rd(s, 1), s.u8(), s.tab(), s.tab());
    let m = a.r();
    start();
    eq!(m.run_reader(e), a.0.at(e), "run_reader");
    eq!(trace(), 1, "runs once");
    eq!(m.clone().run_reader(e), a.0.at(e), "clone");
    eq!(Reader::<u8, u8>::ask().run_reader(e), e, "ask");
    eq!(Reader::<u8, u8>::asks(move |e| t.at(e)).run_reader(e), t.at(e), "asks");
    eq!(Reader::<u8, u8>::ask_transform(move |e| t.at(e)).run_reader(e), t.at(e), "ask_transform");
    eq!(
        Reader::<u8, u8>::ask_with(move |e: &u8| t.at(*e), move |v| Id::new(u.at(v))).run_reader(e),
        u.at(t.at(e)),
        "ask_with"
    );
}
fn from_t<S: Src>(s: &mut S) {
    let (t, e) = (s.tab(), s.u8());
    let r: ReaderT<u8, Id<u8>, u8> = ReaderT::new(move |e| Id::new(t.at(e)));
    eq!(Reader::from(r).run_reader(e), t.at(e), "From<ReaderT>");
}
fn fmap<S: Src>(s: &mut S) {
    let (a, e, t) = (rd(s, 1), s.u8(), s.tab());
    let m = a.r();
    let r = m.fmap(move |v| {
        hit(2);
        t.at(v)
    });
    start();
    eq!(r.run_reader(e), t.at(a.0.at(e)), "fmap");
    eq!(trace(), 0x12, "fmap: the reader, then the function, once each");
}
/// local changes the environment of the inner computation only.
fn local<S: Src>(s: &mut S) {
    let (a, e, t) = (rd(s, 2), s.u8(), s.tab());
    let m = a.r();
    let r = m.local(move |e| {
        hit(1);
        t.at(e)
    });
    start();
    eq!(r.run_reader(e), a.0.at(t.at(e)), "local");
    eq!(trace(), 0x12, "local: modifier, then the reader, once each");
    eq!(m.run_reader(e), a.0.at(e), "the original reader still sees the outer environment");
}
fn bind<S: Src>(s: &mut S) {
    let (a, k, e) = (rd(s, 1), kont(s, 2), s.u8());
    let r = a.r().bind(move |v| k.call(v));
    start();
    eq!(r.run_reader(e), k.0.at(a.0.at(e), e), "bind: every step sees the same environment");
    eq!(trace(), 0x123, "bind: every step once, in order");
}
fn local_bind<S: Src>(s: &mut S) {
    let (a, k, e, t) = (rd(s, 1), kont(s, 2), s.u8(), s.tab());
    let r = a.r().local(move |e| t.at(e)).bind(move |v| k.call(v));
    eq!(r.run_reader(e), k.0.at(a.0.at(t.at(e)), e), "local does not leak into later steps");
}
fn right_id<S: Src>(s: &mut S) {
    let (a, e) = (rd(s, 1), s.u8());
    eq!(a.r().bind(|v| Reader::new(move |_| v)).run_reader(e), a.0.at(e), "right identity");
}
fn assoc_l<S: Src>(s: &mut S) {
    let (a, k, h, e) = (rd(s, 1), kont(s, 2), kont(s, 4), s.u8());
    let r = a.r().bind(move |v| k.call(v)).bind(move |v| h.call(v));
    start();
    eq!(r.run_reader(e), h.0.at(k.0.at(a.0.at(e), e), e), "bind twice");
    eq!(trace(), 0x12345, "bind twice: every step once, in order");
}
fn assoc_r<S: Src>(s: &mut S) {
    let (a, k, h, e) = (rd(s, 1), kont(s, 2), kont(s, 4), s.u8());
    let r = a.r().bind(move |v| k.call(v).bind(move |v| h.call(v)));
    start();
    eq!(r.run_reader(e), h.0.at(k.0.at(a.0.at(e), e), e), "nested bind");
    eq!(trace(), 0x12345, "nested bind: every step once, in order");
}
fn combine<S: Src>(s: &mut S) {
    let (a, b, t, e) = (rd(s, 1), rd(s, 2), s.tab2(), s.u8());
    let r = a.r().combine(&b.r(), move |v, w| t.at(v, w));
    start();
    eq!(r.run_reader(e), t.at(a.0.at(e), b.0.at(e)), "combine");
    eq!(trace(), 0x12, "combine: both once, in order");
}

// ---- ReaderT over Result
#[derive(Clone, Copy, Debug)]
struct TRd(KTab, u64);
impl TRd {
    fn at(&self, e: u8) -> M {
        self.0.at(e)
    }
    fn r(self) -> ReaderT<u8, M, u8> {
        ReaderT::new(move |e| {
            hit(self.1);
            self.0.at(e)
        })
    }
}
fn trd<S: Src>(s: &mut S, id: u64) -> TRd {
    TRd(s.ktab(), id)
}
#[derive(Clone, Copy, Debug)]
struct TKont([KTab; 2], u64);
impl TKont {
    fn at(&self, v: u8, e: u8) -> M {
        self.0[(v & 1) as usize].at(e)
    }
    fn call(self, v: u8) -> ReaderT<u8, M, u8> {
        hit(self.1);
        ReaderT::new(move |e| {
            hit(self.1 + 1);
            self.at(v, e)
        })
    }
}
fn tkont<S: Src>(s: &mut S, id: u64) -> TKont {
    TKont([s.ktab(), s.ktab()], id)
}
fn t_prims<S: Src>(s: &mut S) {
    let (a, e, c, t, k) = (trd(s, 1), s.u8(), s.u8(), s.tab(), s.ktab());
    let m = a.r();
    start();
    eq!(m.run_reader(e), a.at(e), "run_reader");
    eq!(trace(), 1, "once");
    eq!(m.clone().unwrap_with(e), a.at(e), "unwrap_with");
    eq!(ReaderT::<u8, M, u8>::ask(Ok).run_reader(e), Ok(e), "ask");
    eq!(ReaderT::<u8, M, u8>::asks(move |e| t.at(e), move |v| k.at(v)).run_reader(e), k.at(t.at(e)), "asks");
    eq!(
        ReaderT::<u8, M, u8>::ask_with(move |e: &u8| t.at(*e), move |v| k.at(v)).run_reader(e),
        k.at(t.at(e)),
        "ask_with"
    );
    eq!(ReaderT::<u8, M, u8>::pure(c, move |v| k.at(v)).run_reader(e), k.at(c), "pure");
    eq!(ReaderT::<u8, M, u8>::lift(a.at(c)).run_reader(e), a.at(c), "lift");
}
fn t_asks_with<S: Src>(s: &mut S) {
    let (e, t, u, k) = (s.u8(), s.tab(), s.tab(), s.ktab());
    let r: ReaderT<u8, M, u8> =
        ReaderT::<u8, M, u8>::asks_with(move |e: &u8| t.at(*e), move |v| u.at(v), move |v| k.at(v));
    eq!(r.run_reader(e), k.at(u.at(t.at(e))), "asks_with");
}
fn t_local<S: Src>(s: &mut S) {
    let (a, e, t) = (trd(s, 2), s.u8(), s.tab());
    let m = a.r();
    let r = m.local(move |e| {
        hit(1);
        t.at(e)
    });
    start();
    eq!(r.run_reader(e), a.at(t.at(e)), "local");
    eq!(trace(), 0x12, "local: once each, modifier first");
}
fn t_fmap<S: Src>(s: &mut S) {
    let (a, e, t) = (trd(s, 1), s.u8(), s.tab());
    let r = a.r().fmap(move |v| t.at(v));
    start();
    eq!(r.run_reader(e), a.at(e).map(|v| t.at(v)), "fmap");
    eq!(trace(), 1, "fmap: once");
}
fn t_fmap_with<S: Src>(s: &mut S) {
    let (a, e, t) = (trd(s, 1), s.u8(), s.tab());
    let r: ReaderT<u8, M, u8> = a.r().fmap_with(move |v| t.at(v), |m: M, f| m.map(f));
    start();
    eq!(r.run_reader(e), a.at(e).map(|v| t.at(v)), "fmap_with");
    eq!(trace(), 1, "fmap_with: once");
}
fn t_bind<S: Src>(s: &mut S) {
    let (a, k, e) = (trd(s, 1), tkont(s, 2), s.u8());
    let r = a.r().bind(move |v| k.call(v));
    start();
    eq!(r.run_reader(e), a.at(e).and_then(|v| k.at(v, e)), "bind");
    eq!(trace(), if a.at(e).is_ok() { 0x123 } else { 1 }, "bind: every reached step once, in order");
}
fn t_bind_with<S: Src>(s: &mut S) {
    let (a, k, e) = (trd(s, 1), tkont(s, 2), s.u8());
    let r = a.r().bind_with(move |v| k.call(v), |m: M, f: Arc<dyn Fn(u8) -> M + Send + Sync>| match m {
        Ok(v) => f(v),
        Err(e) => Err(e),
    });
    start();
    eq!(r.run_reader(e), a.at(e).and_then(|v| k.at(v, e)), "bind_with");
    eq!(trace(), if a.at(e).is_ok() { 0x123 } else { 1 }, "bind_with: every reached step once, in order");
}
fn t_right_id<S: Src>(s: &mut S) {
    let (a, e) = (trd(s, 1), s.u8());
    let r = a.r().bind(|v| ReaderT::new(move |_| Ok(v)));
    eq!(r.run_reader(e), a.at(e), "right identity");
}
fn t_assoc_l<S: Src>(s: &mut S) {
    let (a, k, h, e) = (trd(s, 1), tkont(s, 2), tkont(s, 4), s.u8());
    let want = a.at(e).and_then(|v| k.at(v, e)).and_then(|v| h.at(v, e));
    eq!(a.r().bind(move |v| k.call(v)).bind(move |v| h.call(v)).run_reader(e), want, "bind twice");
}
fn t_assoc_r<S: Src>(s: &mut S) {
    let (a, k, h, e) = (trd(s, 1), tkont(s, 2), tkont(s, 4), s.u8());
    let want = a.at(e).and_then(|v| k.at(v, e)).and_then(|v| h.at(v, e));
    eq!(a.r().bind(move |v| k.call(v).bind(move |v| h.call(v))).run_reader(e), want, "nested bind");
}
fn both(p: M, q: M, f: impl Fn(u8, u8) -> u8) -> M {
    match (p, q) {
        (Ok(v), Ok(w)) => Ok(f(v, w)),
        (Err(e), _) | (_, Err(e)) => Err(e),
    }
}
fn t_combine<S: Src>(s: &mut S) {
    let (a, b, t, e) = (trd(s, 1), trd(s, 2), s.tab2(), s.u8());
    let r: ReaderT<u8, M, u8> = a.r().combine(&b.r(), move |v, w| t.at(v, w));
    start();
    eq!(r.run_reader(e), both(a.at(e), b.at(e), |v, w| t.at(v, w)), "combine");
    eq!(trace(), 0x12, "combine: both once, in order");
}
fn t_combine_with<S: Src>(s: &mut S) {
    let (a, b, t, e) = (trd(s, 1), trd(s, 2), s.tab2(), s.u8());
    let r: ReaderT<u8, M, u8> = a.r().combine_with(&b.r(), move |v, w| t.at(v, w), CombineWith);
    start();
    eq!(r.run_reader(e), both(a.at(e), b.at(e), |v, w| t.at(v, w)), "combine_with");
    eq!(trace(), 0x12, "combine_with: both once, in order");
}
#[allow(non_snake_case)]
fn CombineWith(p: M, q: M, f: Box<dyn Fn(&u8, &u8) -> u8 + Send + Sync + '_>) -> M {
    both(p, q, |v, w| f(&v, &w))
}
fn t_lift2<S: Src>(s: &mut S) {
    let (a, b, t, e) = (trd(s, 1), trd(s, 2), s.tab2(), s.u8());
    let f = a.r().lift2::<u8, u8, _, _>(move |v: u8, w: u8| t.at(v, w), |p: M, q: M, f| both(p, q, f));
    let r: ReaderT<u8, M, u8> = f(&a.r(), &b.r());
    start();
    eq!(r.run_reader(e), both(a.at(e), b.at(e), |v, w| t.at(v, w)), "lift2");
    eq!(trace(), 0x12, "lift2: both once, in order");
}
fn t_apply_with<S: Src>(s: &mut S) {
    let (a, b, t, e) = (trd(s, 1), trd(s, 2), s.tab2(), s.u8());
    // the function reader's payload type is only a marker here: the base values are combined by ap_fn
    let f: ReaderT<u8, M, fn(u8) -> u8> = ReaderT::new(move |e| {
        hit(b.1);
        b.at(e)
    });
    let r: ReaderT<u8, M, u8> = a.r().apply_with(&f, move |p: M, q: M| both(p, q, |v, w| t.at(v, w)));
    start();
    eq!(r.run_reader(e), both(a.at(e), b.at(e), |v, w| t.at(v, w)), "apply_with");
    eq!(trace(), 0x12, "apply_with: both once, in order");
}
fn t_map_error<S: Src>(s: &mut S) {
    let (a, e, t) = (trd(s, 1), s.u8(), s.tab());
    let r = a.r().map_error(move |x| t.at(x));
    start();
    eq!(r.run_reader(e), a.at(e).map_err(|x| t.at(x)), "map_error");
    eq!(trace(), 1, "map_error: once");
}
fn tries<S: Src>(s: &mut S) {
    let (a, e) = (trd(s, 1), s.u8());
    let flat = |r: ComposableResult<u8, u8>| r.map_err(|e| (*e.core_error(), e.context()));
    let m = a.r();
    start();
    eq!(flat(m.try_run_reader(e)), a.at(e).map_err(|x| (x, vec![])), "try_run_reader");
    eq!(trace(), 1, "try_run_reader: once");
    start();
    eq!(
        flat(m.try_run_reader_with_context(e, "why")),
        a.at(e).map_err(|x| (x, vec!["why".to_string()])),
        "try_run_reader_with_context"
    );
    eq!(trace(), 1, "try_run_reader_with_context: once");
}
/// Every value is released exactly once, whatever the transformer does with it.
fn drops<S: Src>(s: &mut S) {
    type O = Option<Tracked>;
    let (t, k, some, x) = (s.tab(), s.tab2(), s.ptab(), s.u8());
    let k_some = s.ptab();
    {
        let m: ReaderT<u8, O, Tracked> =
            ReaderT::new(move |e| if some.at(e) { Some(Tracked::new(t.at(e))) } else { None });
        let want = if some.at(x) { Some(t.at(x)) } else { None };
        let f = move |v: Tracked| -> ReaderT<u8, O, Tracked> {
            let v = v.get();
            ReaderT::new(move |e| if k_some.at(e) { Some(Tracked::new(k.at(v, e))) } else { None })
        };
        let r = m.bind(f).run_reader(x);
        let w2 = want.and_then(|v| if k_some.at(x) { Some(k.at(v, x)) } else { None });
        eq!(r.map(|v| v.get()), w2, "bind");
        let r = m.fmap(move |v: Tracked| Tracked::new(t.at(v.get()))).run_reader(x);
        eq!(r.map(|v| v.get()), want.map(|v| t.at(v)), "fmap");
        let r: ReaderT<u8, O, Tracked> = m.combine(&m, move |a: Tracked, b: Tracked| Tracked::new(k.at(a.get(), b.get())));
        eq!(r.run_reader(x).map(|v| v.get()), want.map(|v| k.at(v, v)), "combine");
        let r: ReaderT<u8, O, Tracked> = m.bind_with(f, |m: O, g: Arc<dyn Fn(Tracked) -> O + Send + Sync>| m.and_then(|v| g(v)));
        eq!(r.run_reader(x).map(|v| v.get()), w2, "bind_with");
        let kept = m.clone();
        drop(m);
        eq!(kept.run_reader(x).map(|v| v.get()), want, "clone");
    }
    tracked::check();
    eq!(tracked::live(), 0, "every value is released");
}
/// Arbitrary programs of the transformer, with shared parts, against a direct interpreter: result and effects.
fn t_program<S: Src>(s: &mut S) {
    use std::rc::Rc;
    type T = ReaderT<u8, M, u8>;
    enum P {
        Base(TRd),
        Ask,
        Map(Rc<P>, Tab, bool),
        Local(Rc<P>, Tab),
        Bind(Rc<P>, TKont, bool),
        Then(Rc<P>, Tab, Rc<P>),
        Both(Rc<P>, Rc<P>, Tab2, u8),
    }
    fn gen_<S: Src>(s: &mut S, d: u32, pool: &Pool<P>) -> P {
        let id = 1 + s.below(14) as u64;
        let mut go = |s: &mut S| sub(s, pool, |s| gen_(s, d - 1, pool));
        match if d == 0 { s.below(3) } else { s.below(10) } {
            0 | 1 => P::Base(trd(s, id)),
            2 => P::Ask,
            3 => P::Map(go(s), s.tab(), s.bool()),
            4 => P::Local(go(s), s.tab()),
            5 => P::Bind(go(s), tkont(s, id), s.bool()),
            6 | 7 => P::Then(go(s), s.tab(), go(s)),
            _ => P::Both(go(s), go(s), s.tab2(), s.below(4) as u8),
        }
    }
    fn build(p: &P, built: &Built<P, T>) -> T {
        let go = |q: &Rc<P>| part(q, built, |q| build(q, built));
        match p {
            P::Base(a) => a.r(),
            P::Ask => T::ask(Ok),
            P::Map(p, t, plain) => {
                let t = *t;
                if *plain { go(p).fmap(move |v| t.at(v)) } else { go(p).fmap_with(move |v| t.at(v), |m: M, f| m.map(f)) }
            },
            P::Local(p, t) => {
                let t = *t;
                go(p).local(move |e| t.at(e))
            },
            P::Bind(p, k, plain) => {
                let k = *k;
                if *plain {
                    go(p).bind(move |v| k.call(v))
                } else {
                    go(p).bind_with(move |v| k.call(v), |m: M, f: Arc<dyn Fn(u8) -> M + Send + Sync>| m.and_then(|v| f(v)))
                }
            },
            P::Then(p, t, q) => {
                let (t, q) = (*t, go(q));
                go(p).bind(move |v| q.fmap(move |w| t.at(v).wrapping_add(w)))
            },
            P::Both(p, q, t, how) => {
                let (p, q, t) = (go(p), go(q), *t);
                match how {
                    0 => p.combine(&q, move |v, w| t.at(v, w)),
                    1 => p.combine_with(&q, move |v, w| t.at(v, w), CombineWith),
                    2 => p.lift2::<u8, u8, _, _>(move |v: u8, w: u8| t.at(v, w), |p: M, q: M, f| both(p, q, f))(&p, &q),
                    _ => {
                        // the payload type of the function reader is only a marker
                        let f: ReaderT<u8, M, fn(u8) -> u8> = ReaderT::new(move |e| q.run_reader(e));
                        p.apply_with(&f, move |p: M, q: M| both(p, q, |v, w| t.at(v, w)))
                    },
                }
            },
        }
    }
    fn eval(p: &P, e: u8, tr: &mut u64) -> M {
        match p {
            P::Base(a) => {
                *tr = tr.wrapping_mul(16).wrapping_add(a.1);
                a.at(e)
            },
            P::Ask => Ok(e),
            P::Map(p, t, _) => eval(p, e, tr).map(|v| t.at(v)),
            P::Local(p, t) => eval(p, t.at(e), tr),
            P::Bind(p, k, _) => {
                let v = eval(p, e, tr)?;
                *tr = tr.wrapping_mul(16).wrapping_add(k.1);
                *tr = tr.wrapping_mul(16).wrapping_add(k.1 + 1);
                k.at(v, e)
            },
            P::Then(p, t, q) => {
                let v = eval(p, e, tr)?;
                eval(q, e, tr).map(|w| t.at(v).wrapping_add(w))
            },
            P::Both(p, q, t, _) => {
                let (a, b) = (eval(p, e, tr), eval(q, e, tr));
                both(a, b, |v, w| t.at(v, w))
            },
        }
    }
    let (p, e) = (gen_(s, 4, &Default::default()), s.u8());
    let m = build(&p, &Default::default());
    for _ in 0..2 {
        start();
        let mut tr = 0;
        let want = eval(&p, e, &mut tr);
        eq!(m.run_reader(e), want, "the program's value");
        eq!(trace(), tr, "the program's effects");
    }
}
/// Arbitrary programs of readers against a direct interpreter.
fn program<S: Src>(s: &mut S) {
    #[derive(Clone, Debug)]
    enum P {
        Pure(u8),
        Ask,
        Asks(Tab),
        Map(std::rc::Rc<P>, Tab),
        Local(std::rc::Rc<P>, Tab),
        Seq(std::rc::Rc<P>, Tab, std::rc::Rc<P>),
        Two(std::rc::Rc<P>, std::rc::Rc<P>, Tab2),
    }
    fn gen_<S: Src>(s: &mut S, d: u32, pool: &Pool<P>) -> P {
        match if d == 0 { s.below(3) } else { s.below(9) } {
            0 => P::Pure(s.u8()),
            1 => P::Ask,
            2 => P::Asks(s.tab()),
            3 => P::Map(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab()),
            4 | 5 => P::Local(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab()),
            6 | 7 => P::Seq(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab(), sub(s, pool, |s| gen_(s, d - 1, pool))),
            _ => P::Two(sub(s, pool, |s| gen_(s, d - 1, pool)), sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab2()),
        }
    }
    fn build(p: &P, built: &Built<P, Reader<u8, u8>>) -> Reader<u8, u8> {
        match p.clone() {
            P::Pure(x) => Reader::new(move |_| x),
            P::Ask => Reader::ask(),
            P::Asks(t) => Reader::asks(move |e| t.at(e)),
            P::Map(p, t) => part(&p, built, |p| build(p, built)).fmap(move |v| t.at(v)),
            P::Local(p, t) => part(&p, built, |p| build(p, built)).local(move |e| t.at(e)),
            P::Seq(p, t, q) => {
                let q = part(&q, built, |p| build(p, built));
                part(&p, built, |p| build(p, built)).bind(move |v| q.fmap(move |w| t.at(v).wrapping_add(w)))
            },
            P::Two(p, q, t) => part(&p, built, |p| build(p, built)).combine(&part(&q, built, |p| build(p, built)), move |v, w| t.at(v, w)),
        }
    }
    fn eval(p: &P, e: u8) -> u8 {
        match p {
            P::Pure(x) => *x,
            P::Ask => e,
            P::Asks(t) => t.at(e),
            P::Map(p, t) => t.at(eval(p, e)),
            P::Local(p, t) => eval(p, t.at(e)),
            P::Seq(p, t, q) => t.at(eval(p, e)).wrapping_add(eval(q, e)),
            P::Two(p, q, t) => t.at(eval(p, e), eval(q, e)),
        }
    }
    let (p, e) = (gen_(s, 4, &Default::default()), s.u8());
    let m = build(&p, &Default::default());
    eq!(m.run_reader(e), eval(&p, e), "the program's value");
    for _ in 0..1 + s.below(3) {
        eq!(m.run_reader(e), eval(&p, e), "and again when run again");
    }
}

harnesses! {
    "C11";
    prove {
        prims 2, from_t 2, fmap 3, local 2, bind 3, local_bind 3, right_id 3, assoc_l 3, combine 3,
        t_prims 2, t_asks_with 2, t_local 2, t_fmap 2, t_fmap_with 2, t_bind 2, t_bind_with 2,
        t_right_id 2, t_assoc_l 3, t_combine 2, t_lift2 2, t_apply_with 2, t_map_error 2,
    }
    test { t_combine_with 1.0, assoc_r 1.0, t_assoc_r 1.0, tries 1.0, drops 2.0, program 2.0, t_program 2.0 }
}
