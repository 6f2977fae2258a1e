//! C12: continuation monad laws and escapes.
use crate::src::*;
use crate::tracked::{hit, start, trace};
use crate::{ck, eq};
use rustica::datatypes::cont::Cont;
use rustica::datatypes::id::Id;
use rustica::traits::identity::Identity;
use rustica::transformers::cont_t::ContT;
use rustica::transformers::MonadTransformer;
use std::sync::Arc;

type C = Cont<u8, u8>;
type T = ContT<u8, Id<u8>, u8>;
type K = Arc<dyn Fn(u8) -> u8 + Send + Sync>;
type KT = Arc<dyn Fn(u8) -> Id<u8> + Send + Sync>;

/// An arbitrary computation: never calls its continuation, calls it once, or calls it twice.
#[derive(Clone, Copy, Debug)]
enum Cm {
    Never(u8),
    Once(u8, Tab),
    Twice(u8, u8, Tab2),
}
impl Cm {
    fn run(&self, k: impl Fn(u8) -> u8) -> u8 {
        match *self {
            Cm::Never(r) => r,
            Cm::Once(x, t) => t.at(k(x)),
            Cm::Twice(x, y, t) => {
                let a = k(x);
                t.at(a, k(y))
            },
        }
    }
    fn c(self) -> C {
        Cont::new(move |k: K| self.run(|x| k(x)))
    }
    fn t(self) -> T {
        ContT::new(move |k: KT| Id::new(self.run(|x| k(x).unwrap())))
    }
}
fn cm<S: Src>(s: &mut S) -> Cm {
    match s.below(3) {
        0 => Cm::Never(s.u8()),
        1 => Cm::Once(s.u8(), s.tab()),
        _ => Cm::Twice(s.u8(), s.u8(), s.tab2()),
    }
}
/// A computation that calls its continuation once (cheap instance for nested contracts).
fn once<S: Src>(s: &mut S) -> Cm {
    Cm::Once(s.u8(), s.tab())
}
/// An arbitrary continuation-valued function.
#[derive(Clone, Copy, Debug)]
struct Kf(Tab, Tab2);
impl Kf {
    fn run(&self, v: u8, k: impl Fn(u8) -> u8) -> u8 {
        self.1.at(v, k(self.0.at(v)))
    }
    fn c(self, v: u8) -> C {
        Cont::new(move |k: K| self.run(v, |x| k(x)))
    }
    fn t(self, v: u8) -> T {
        ContT::new(move |k: KT| Id::new(self.run(v, |x| k(x).unwrap())))
    }
}
fn kf<S: Src>(s: &mut S) -> Kf {
    Kf(s.tab(), s.tab2())
}

fn run<S: Src>(s: &mut S) {
    let (m, k) = (cm(s), s.tab());
    eq!(m.c().run(move |x| k.at(x)), m.run(|x| k.at(x)), "run");
}
fn clone<S: Src>(s: &mut S) {
    let (m, k) = (once(s), s.tab());
    let c = m.c();
    let d = c.clone();
    drop(c);
    eq!(d.run(move |x| k.at(x)), m.run(|x| k.at(x)), "clone");
}
fn pure<S: Src>(s: &mut S) {
    let (x, k) = (s.u8(), s.tab());
    start();
    eq!(C::pure(x).run(move |x| { hit(1); k.at(x) }), k.at(x), "pure");
    eq!(trace(), 1, "the final continuation is called exactly once");
}
fn return_cont<S: Src>(s: &mut S) {
    let (x, k) = (s.u8(), s.tab());
    eq!(C::return_cont(x).run(move |x| k.at(x)), k.at(x), "return_cont");
}
fn fmap<S: Src>(s: &mut S) {
    let (m, f, k) = (cm(s), s.tab(), s.tab());
    eq!(m.c().fmap(move |x| f.at(x)).run(move |x| k.at(x)), m.run(|x| k.at(f.at(x))), "fmap");
}
fn bind<S: Src>(s: &mut S) {
    let (m, g, k) = (cm(s), kf(s), s.tab());
    eq!(
        m.c().bind(move |x| g.c(x)).run(move |x| k.at(x)),
        m.run(|x| g.run(x, |y| k.at(y))),
        "bind"
    );
}
fn bind_once<S: Src>(s: &mut S) {
    let (m, g, k) = (once(s), kf(s), s.tab());
    eq!(
        m.c().bind(move |x| g.c(x)).run(move |x| k.at(x)),
        m.run(|x| g.run(x, |y| k.at(y))),
        "bind"
    );
}
fn left_id<S: Src>(s: &mut S) {
    let (x, g, k) = (s.u8(), kf(s), s.tab());
    eq!(C::pure(x).bind(move |x| g.c(x)).run(move |x| k.at(x)), g.run(x, |y| k.at(y)), "left identity");
}
fn right_id<S: Src>(s: &mut S) {
    let (m, k) = (once(s), s.tab());
    eq!(m.c().bind(|x| C::pure(x)).run(move |x| k.at(x)), m.run(|x| k.at(x)), "right identity");
}
fn assoc_l<S: Src>(s: &mut S) {
    let (m, g, h, k) = (once(s), kf(s), kf(s), s.tab());
    eq!(
        m.c().bind(move |x| g.c(x)).bind(move |x| h.c(x)).run(move |x| k.at(x)),
        m.run(|x| g.run(x, |y| h.run(y, |z| k.at(z)))),
        "bind twice"
    );
}
fn assoc_r<S: Src>(s: &mut S) {
    let (m, g, h, k) = (once(s), kf(s), kf(s), s.tab());
    eq!(
        m.c().bind(move |x| g.c(x).bind(move |x| h.c(x))).run(move |x| k.at(x)),
        m.run(|x| g.run(x, |y| h.run(y, |z| k.at(z)))),
        "nested bind"
    );
}
/// apply runs the function computation, then the value computation, then the continuation.
fn apply<S: Src>(s: &mut S) {
    let (m, f, g, t, k) = (cm(s), s.u8(), s.u8(), s.tab2(), s.tab());
    let both = s.tab2();
    let mk = move |i: u8| Arc::new(move |x: u8| t.at(i, x)) as Arc<dyn Fn(u8) -> u8 + Send + Sync>;
    let cf: Cont<u8, Arc<dyn Fn(u8) -> u8 + Send + Sync>> =
        Cont::new(move |k: Arc<dyn Fn(Arc<dyn Fn(u8) -> u8 + Send + Sync>) -> u8 + Send + Sync>| {
            let a = k(mk(f));
            both.at(a, k(mk(g)))
        });
    let part = |i: u8| m.run(|x| k.at(t.at(i, x)));
    eq!(m.c().apply(cf).run(move |x| k.at(x)), both.at(part(f), part(g)), "apply");
}
fn apply_pure<S: Src>(s: &mut S) {
    let (m, f, t, k) = (once(s), s.u8(), s.tab2(), s.tab());
    let cf: Cont<u8, Arc<dyn Fn(u8) -> u8 + Send + Sync>> =
        Cont::pure(Arc::new(move |x: u8| t.at(f, x)) as Arc<dyn Fn(u8) -> u8 + Send + Sync>);
    eq!(m.c().apply(cf).run(move |x| k.at(x)), m.run(|x| k.at(t.at(f, x))), "apply");
}
/// Escaping delivers the escaped value and abandons the rest of the block.
fn escape<S: Src>(s: &mut S) {
    let (x, y, k, g) = (s.u8(), s.u8(), s.tab(), s.tab());
    let c: C = C::pure(x).call_cc(move |exit| {
        exit(y).bind(move |v| {
            hit(2);
            C::pure(g.at(v))
        })
    });
    start();
    eq!(c.run(move |v| { hit(1); k.at(v) }), k.at(y), "the escaped value is delivered");
    eq!(trace(), 1, "the rest of the block is abandoned, the continuation is called once");
}
/// Not escaping delivers the block's own value.
fn no_escape<S: Src>(s: &mut S) {
    let (x, g, k, y) = (s.u8(), kf(s), s.tab(), s.u8());
    let c: C = C::pure(x).call_cc(move |_exit: Box<dyn Fn(u8) -> C + Send + Sync>| g.c(y));
    eq!(c.run(move |v| k.at(v)), g.run(y, |v| k.at(v)), "not escaping delivers the block's own value");
}
/// Escaping on a condition inside a block.
fn maybe_escape<S: Src>(s: &mut S) {
    let (x, y, p, k, f, g) = (s.u8(), s.u8(), s.ptab(), s.tab(), s.tab(), s.tab());
    let c: C = C::pure(x).call_cc(move |exit| {
        let exit: Arc<dyn Fn(u8) -> C + Send + Sync> = Arc::from(exit);
        C::pure(y)
            .bind(move |v| if p.at(v) { exit(f.at(v)) } else { C::pure(v) })
            .fmap(move |v| g.at(v))
    });
    let want = if p.at(y) { k.at(f.at(y)) } else { k.at(g.at(y)) };
    eq!(c.run(move |v| k.at(v)), want, "conditional escape");
    let k2 = f;
    let want = if p.at(y) { k2.at(f.at(y)) } else { k2.at(g.at(y)) };
    eq!(c.run(move |v| k2.at(v)), want, "and again under another continuation");
}

// ---- transformer form
fn t_run<S: Src>(s: &mut S) {
    let (m, k, x) = (cm(s), s.tab(), s.u8());
    eq!(m.t().run(move |x| Id::new(k.at(x))).unwrap(), m.run(|x| k.at(x)), "run");
    eq!(T::pure(x).run(move |x| Id::new(k.at(x))).unwrap(), k.at(x), "pure");
}
fn t_fmap<S: Src>(s: &mut S) {
    let (m, f, k) = (cm(s), s.tab(), s.tab());
    eq!(m.t().fmap(move |x| f.at(x)).run(move |x| Id::new(k.at(x))).unwrap(), m.run(|x| k.at(f.at(x))), "fmap");
}
fn t_bind<S: Src>(s: &mut S) {
    let (m, g, k) = (cm(s), kf(s), s.tab());
    eq!(
        m.t().bind(move |x| g.t(x)).run(move |x| Id::new(k.at(x))).unwrap(),
        m.run(|x| g.run(x, |y| k.at(y))),
        "bind"
    );
}
fn t_assoc_l<S: Src>(s: &mut S) {
    let (m, g, h, k) = (once(s), kf(s), kf(s), s.tab());
    let want = m.run(|x| g.run(x, |y| h.run(y, |z| k.at(z))));
    eq!(m.t().bind(move |x| g.t(x)).bind(move |x| h.t(x)).run(move |x| Id::new(k.at(x))).unwrap(), want, "bind twice");
}
fn t_assoc_r<S: Src>(s: &mut S) {
    let (m, g, h, k) = (once(s), kf(s), kf(s), s.tab());
    let want = m.run(|x| g.run(x, |y| h.run(y, |z| k.at(z))));
    eq!(m.t().bind(move |x| g.t(x).bind(move |x| h.t(x))).run(move |x| Id::new(k.at(x))).unwrap(), want, "nested bind");
}
fn t_apply<S: Src>(s: &mut S) {
    type F = Arc<dyn Fn(u8) -> u8 + Send + Sync>;
    let (m, f, g, t, k, both) = (cm(s), s.u8(), s.u8(), s.tab2(), s.tab(), s.tab2());
    let mk = move |i: u8| Arc::new(move |x: u8| t.at(i, x)) as F;
    let cf: ContT<u8, Id<u8>, F> = ContT::new(move |k: Arc<dyn Fn(F) -> Id<u8> + Send + Sync>| {
        let a = k(mk(f)).unwrap();
        Id::new(both.at(a, k(mk(g)).unwrap()))
    });
    let part = |i: u8| m.run(|x| k.at(t.at(i, x)));
    eq!(m.t().apply(cf).run(move |x| Id::new(k.at(x))).unwrap(), both.at(part(f), part(g)), "apply");
}
fn t_escape<S: Src>(s: &mut S) {
    let (y, k, g) = (s.u8(), s.tab(), s.tab());
    let c: T = T::call_cc(move |exit: Arc<dyn Fn(u8) -> ContT<u8, Id<u8>, u8> + Send + Sync>| {
        exit(y).bind(move |v| {
            hit(2);
            T::pure(g.at(v))
        })
    });
    start();
    eq!(c.run(move |v| { hit(1); Id::new(k.at(v)) }).unwrap(), k.at(y), "the escaped value is delivered");
    eq!(trace(), 1, "the rest of the block is abandoned, the continuation is called once");
}
fn t_no_escape<S: Src>(s: &mut S) {
    let (y, g, k) = (s.u8(), kf(s), s.tab());
    let c: T = T::call_cc(move |_e: Arc<dyn Fn(u8) -> ContT<u8, Id<u8>, u8> + Send + Sync>| g.t(y));
    eq!(c.run(move |v| Id::new(k.at(v))).unwrap(), g.run(y, |v| k.at(v)), "not escaping delivers the block's own value");
}
fn to_cont<S: Src>(s: &mut S) {
    let (m, k) = (once(s), s.tab());
    eq!(m.t().to_cont().run(move |x| k.at(x)), m.run(|x| k.at(x)), "to_cont");
}
fn from_t<S: Src>(s: &mut S) {
    let (m, k) = (once(s), s.tab());
    eq!(C::from(m.t()).run(move |x| k.at(x)), m.run(|x| k.at(x)), "From<ContT>");
}
fn from_cont<S: Src>(s: &mut S) {
    let (m, k) = (once(s), s.tab());
    eq!(T::from_cont(m.c()).run(move |x| Id::new(k.at(x))).unwrap(), m.run(|x| k.at(x)), "from_cont");
}
/// Continuations into a fallible base: the first failure ends the computation.
fn t_result<S: Src>(s: &mut S) {
    type M = Result<u8, u8>;
    type R = ContT<u8, M, u8>;
    let (x, f, k, c) = (s.u8(), s.ktab(), s.ktab(), s.u8());
    let step = move |v: u8| -> R {
        match f.at(v) {
            Ok(w) => R::pure(w),
            Err(e) => ContT::new(move |_| Err(e)),
        }
    };
    let r = R::pure(x).bind(step).run(move |v| k.at(v));
    eq!(r, f.at(x).and_then(|v| k.at(v)), "fallible steps");
    let _ = c;
}
/// Arbitrary programs of pure/fmap/bind/apply/call_cc against a direct interpreter.
fn program<S: Src>(s: &mut S) {
    #[derive(Clone, Debug)]
    enum P {
        Base(Cm),
        Map(std::rc::Rc<P>, Tab),
        Seq(std::rc::Rc<P>, Tab, std::rc::Rc<P>),
        Ap(std::rc::Rc<P>, Tab2, u8),
        CallCc(std::rc::Rc<P>, PTab, Tab, std::rc::Rc<P>),
    }
    fn gen_<S: Src>(s: &mut S, d: u32, pool: &Pool<P>) -> P {
        match if d == 0 { 0 } else { s.below(8) } {
            0 | 1 => P::Base(cm(s)),
            2 => P::Map(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab()),
            3 | 4 => P::Seq(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab(), sub(s, pool, |s| gen_(s, d - 1, pool))),
            5 => P::Ap(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab2(), s.u8()),
            _ => P::CallCc(sub(s, pool, |s| gen_(s, d - 1, pool)), s.ptab(), s.tab(), sub(s, pool, |s| gen_(s, d - 1, pool))),
        }
    }
    fn build(p: &P, built: &Built<P, C>) -> C {
        match p.clone() {
            P::Base(m) => m.c(),
            P::Map(p, t) => part(&p, built, |p| build(p, built)).fmap(move |v| t.at(v)),
            P::Seq(p, t, q) => {
                let q = part(&q, built, |p| build(p, built));
                part(&p, built, |p| build(p, built)).bind(move |v| q.clone().fmap(move |w| t.at(v).wrapping_add(w)))
            },
            P::Ap(p, t, f) => part(&p, built, |p| build(p, built))
                .apply(Cont::pure(Arc::new(move |x: u8| t.at(f, x)) as Arc<dyn Fn(u8) -> u8 + Send + Sync>)),
            P::CallCc(p, c, t, q) => {
                // the block: run p; escape with t(v) when c(v); otherwise continue with q
                let (p, q) = (part(&p, built, |p| build(p, built)), part(&q, built, |p| build(p, built)));
                let (p, q): (&'static C, &'static C) = (Box::leak(Box::new(p)), Box::leak(Box::new(q)));
                C::pure(0).call_cc(move |exit| {
                    let exit: Arc<dyn Fn(u8) -> C + Send + Sync> = Arc::from(exit);
                    p.clone().bind(move |v| if c.at(v) { exit(t.at(v)) } else { q.clone() })
                })
            },
        }
    }
    fn eval(p: &P, k: &dyn Fn(u8) -> u8) -> u8 {
        match p {
            P::Base(m) => m.run(|x| k(x)),
            P::Map(p, t) => eval(p, &|v| k(t.at(v))),
            P::Seq(p, t, q) => eval(p, &|v| eval(q, &|w| k(t.at(v).wrapping_add(w)))),
            P::Ap(p, t, f) => eval(p, &|v| k(t.at(*f, v))),
            P::CallCc(p, c, t, q) => eval(p, &|v| if c.at(v) { k(t.at(v)) } else { eval(q, k) }),
        }
    }
    let (p, k) = (gen_(s, 3, &Default::default()), s.tab());
    let m = build(&p, &Default::default());
    let want = eval(&p, &|v| k.at(v));
    eq!(m.run(move |v| k.at(v)), want, "the program's result");
    for _ in 0..1 + s.below(3) {
        eq!(m.run(move |v| k.at(v)), want, "and again when run again");
    }
}

harnesses! {
    "C12";
    prove {
        run 3, clone 3, pure 3, return_cont 3, fmap 3, bind_once 3, left_id 3, right_id 3, apply_pure 3, escape 3, no_escape 3,
        t_run 2, t_fmap 2, t_bind 2, t_escape 3, t_no_escape 2, bind 3, assoc_l 3, assoc_r 3, apply 3, maybe_escape 3,
        t_assoc_l 3, t_assoc_r 3, t_apply 3, to_cont 3, from_t 3, from_cont 3, t_result 3,
    }
    test { program 1.0 }
}
