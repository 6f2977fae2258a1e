//! C13: IO actions are lazy and ordered.
use crate::src::*;
use crate::tracked::{hit, start, trace};
use crate::{ck, eq};
use rustica::datatypes::io::{IO, IOError};
use rustica::traits::evaluate::Evaluate;
use std::sync::Arc;

/// An arbitrary action: pure, or an effect whose value depends on everything that ran before it.
#[derive(Clone, Copy, Debug)]
enum Act {
    Pure(u8),
    Eff(u64, Tab),
}
impl Act {
    /// the meaning: value, given the trace so far; extends the trace
    fn run(&self, tr: &mut u64) -> u8 {
        match *self {
            Act::Pure(x) => x,
            Act::Eff(id, t) => {
                *tr = tr.wrapping_mul(16).wrapping_add(id);
                t.at((*tr ^ (*tr >> 4)) as u8)
            },
        }
    }
    fn io(self) -> IO<u8> {
        match self {
            Act::Pure(x) => IO::pure(x),
            Act::Eff(id, t) => IO::new(move || {
                hit(id);
                t.at((trace() ^ (trace() >> 4)) as u8)
            }),
        }
    }
}
fn eff<S: Src>(s: &mut S, id: u64) -> Act {
    Act::Eff(id, s.tab())
}
fn act<S: Src>(s: &mut S, id: u64) -> Act {
    if s.bool() { eff(s, id) } else { Act::Pure(s.u8()) }
}

/// Constructing an action performs nothing; every run performs the effect once more.
fn run<S: Src>(s: &mut S) {
    let a = act(s, 3);
    start();
    let io = a.io();
    let io2 = io.clone();
    eq!(trace(), 0, "building performs no effect");
    let mut tr = 0;
    eq!(io.run(), a.run(&mut tr), "run");
    eq!(trace(), tr, "run performs the effect once");
    eq!(io.run(), a.run(&mut tr), "run again");
    eq!(trace(), tr, "running again performs it again");
    eq!(io2.run(), a.run(&mut tr), "a clone");
    eq!(trace(), tr, "a clone performs it too");
    eq!(io.evaluate(), a.run(&mut tr), "evaluate");
    eq!(trace(), tr, "evaluate performs it once");
    ck!(io.is_pure() == matches!(a, Act::Pure(_)) && io.is_effect() != io.is_pure(), "is_pure/is_effect");
}
fn fmap_of<S: Src>(s: &mut S, a: Act) {
    let t = s.tab();
    start();
    let io = a.io().fmap(move |v| t.at(v));
    eq!(trace(), 0, "fmap: building performs no effect");
    let mut tr = 0;
    eq!(io.run(), t.at(a.run(&mut tr)), "fmap");
    eq!(trace(), tr, "fmap: the effect once");
    eq!(io.run(), t.at(a.run(&mut tr)), "fmap again");
    eq!(trace(), tr, "fmap again: the effect once more");
}
fn fmap<S: Src>(s: &mut S) {
    let a = eff(s, 3);
    fmap_of(s, a)
}
fn fmap_pure<S: Src>(s: &mut S) {
    let a = Act::Pure(s.u8());
    fmap_of(s, a)
}
/// An arbitrary continuation: for each value (mod 4) an arbitrary action.
#[derive(Clone, Copy, Debug)]
struct Kont([Act; 4]);
impl Kont {
    fn at(&self, v: u8) -> Act {
        self.0[(v & 3) as usize]
    }
}
fn kont<S: Src>(s: &mut S, id: u64) -> Kont {
    Kont([act(s, id), act(s, id + 1), act(s, id + 2), act(s, id + 3)])
}
fn bind_of<S: Src>(s: &mut S, a: Act) {
    let k = kont(s, 4);
    start();
    let io = a.io().bind(move |v| k.at(v).io());
    eq!(trace(), 0, "bind: building performs no effect");
    let mut tr = 0;
    let v = a.run(&mut tr);
    eq!(io.run(), k.at(v).run(&mut tr), "bind");
    eq!(trace(), tr, "bind: the effects in order, once each");
}
fn bind<S: Src>(s: &mut S) {
    let a = eff(s, 3);
    bind_of(s, a)
}
fn bind_pure<S: Src>(s: &mut S) {
    let a = Act::Pure(s.u8());
    bind_of(s, a)
}
fn right_id<S: Src>(s: &mut S) {
    let a = eff(s, 3);
    start();
    let io = a.io().bind(|v| IO::pure(v));
    let mut tr = 0;
    eq!(io.run(), a.run(&mut tr), "right identity");
    eq!(trace(), tr, "right identity: effects");
}
fn assoc_of<S: Src>(s: &mut S, nested: bool) {
    let (a, k, h) = (act(s, 3), kont(s, 4), kont(s, 8));
    start();
    let io = if nested {
        a.io().bind(move |v| k.at(v).io().bind(move |v| h.at(v).io()))
    } else {
        a.io().bind(move |v| k.at(v).io()).bind(move |v| h.at(v).io())
    };
    eq!(trace(), 0, "building performs no effect");
    let mut tr = 0;
    let v = a.run(&mut tr);
    let w = k.at(v).run(&mut tr);
    eq!(io.run(), h.at(w).run(&mut tr), "two binds");
    eq!(trace(), tr, "two binds: the effects in order, once each");
}
fn assoc_l<S: Src>(s: &mut S) {
    assoc_of(s, false)
}
fn assoc_r<S: Src>(s: &mut S) {
    assoc_of(s, true)
}
/// apply: the function's effects, then the argument's.
fn apply_of<S: Src>(s: &mut S, a: Act, fe: bool) {
    let (t, i) = (s.tab2(), s.u8());
    start();
    let mk = move |i: u8| move |v: u8| t.at(i, v);
    let f = if fe {
        IO::new(move || {
            hit(1);
            mk(i)
        })
    } else {
        IO::pure(mk(i))
    };
    let io: IO<u8> = a.io().apply(f);
    eq!(trace(), 0, "apply: building performs no effect");
    let mut tr = if fe { 1 } else { 0 };
    let v = a.run(&mut tr);
    eq!(io.run(), t.at(i, v), "apply");
    eq!(trace(), tr, "apply: function's effect, then the argument's, once each");
}
fn apply_pp<S: Src>(s: &mut S) {
    let a = Act::Pure(s.u8());
    apply_of(s, a, false)
}
fn apply_pe<S: Src>(s: &mut S) {
    let a = Act::Pure(s.u8());
    apply_of(s, a, true)
}
fn apply_ep<S: Src>(s: &mut S) {
    let a = eff(s, 3);
    apply_of(s, a, false)
}
fn apply_ee<S: Src>(s: &mut S) {
    let a = eff(s, 3);
    apply_of(s, a, true)
}
fn combine<S: Src>(s: &mut S) {
    let (a, b) = (act(s, 3), act(s, 4));
    start();
    let io = IO::combine(&a.io(), &b.io());
    eq!(trace(), 0, "combine: building performs no effect");
    let mut tr = 0;
    let v = a.run(&mut tr);
    let w = b.run(&mut tr);
    eq!(io.run(), (v, w), "combine");
    eq!(trace(), tr, "combine: the effects in order, once each");
}
/// when: the predicate is asked at run time, exactly one branch runs.
fn when<S: Src>(s: &mut S) {
    let (p, x, y) = (s.bool(), s.u8(), s.u8());
    start();
    let io = IO::when(
        move || {
            hit(1);
            p
        },
        move || {
            hit(2);
            x
        },
        move || {
            hit(3);
            y
        },
    );
    eq!(trace(), 0, "when: building performs no effect");
    eq!(io.run(), if p { x } else { y }, "when");
    eq!(trace(), if p { 0x12 } else { 0x13 }, "when: only the chosen branch runs");
}
fn delay<S: Src>(s: &mut S) {
    let x = s.u8();
    let io = IO::delay_sync(std::time::Duration::from_micros(1), x);
    eq!(io.run(), x, "delay_sync");
    eq!(io.run(), x, "delay_sync again");
}
fn sequence<S: Src>(s: &mut S) {
    let n = if s.below(8) == 7 { s.below(15) } else { s.below(6) };
    let mut acts: Vec<Act> = (0..n).map(|i| act(s, 1 + i as u64)).collect();
    start();
    let mut ios: Vec<IO<u8>> = acts.iter().map(|a| a.io()).collect();
    // the same action more than once
    for i in 1..n as usize {
        if s.below(4) == 0 {
            let j = s.below(i as u32) as usize;
            acts[i] = acts[j];
            ios[i] = ios[j].clone();
        }
    }
    let io = IO::sequence(many(s, ios));
    eq!(trace(), 0, "sequence: building performs no effect");
    let mut tr = 0;
    for _ in 0..2 {
        let want: Vec<u8> = acts.iter().map(|a| a.run(&mut tr)).collect();
        eq!(io.run(), want, "sequence");
        eq!(trace(), tr, "sequence: the effects in order, once each");
    }
}
/// An action that may fail: by panicking with a static text, a formatted text, or another payload.
#[derive(Clone, Copy, Debug)]
enum F {
    Ok(Act),
    Str(u64),
    Text(u64, u8),
    Other(u64),
}
impl F {
    fn io(self) -> IO<u8> {
        match self {
            F::Ok(a) => a.io(),
            F::Str(id) => IO::new(move || {
                hit(id);
                panic!("static text")
            }),
            F::Text(id, x) => IO::new(move || {
                hit(id);
                panic!("text {x}")
            }),
            F::Other(id) => IO::new(move || {
                hit(id);
                std::panic::panic_any(5i32)
            }),
        }
    }
    fn run(&self, tr: &mut u64) -> Result<u8, IOError> {
        let (id, m) = match *self {
            F::Ok(a) => return Ok(a.run(tr)),
            F::Str(id) => (id, "static text".to_string()),
            F::Text(id, x) => (id, format!("text {x}")),
            F::Other(id) => (id, "IO operation panicked with unknown error".to_string()),
        };
        *tr = tr.wrapping_mul(16).wrapping_add(id);
        Err(IOError::Other(m))
    }
}
fn fal<S: Src>(s: &mut S, id: u64) -> F {
    match s.below(6) {
        0 => F::Str(id),
        1 => F::Text(id, s.u8()),
        2 => F::Other(id),
        _ => F::Ok(act(s, id)),
    }
}
/// The catching forms run the action once, keep a success, and return the failure as a value.
fn catching<S: Src>(s: &mut S) {
    let f = fal(s, 3);
    let io = f.io();
    let mut tr = 0;
    start();
    eq!(io.try_get().map_err(|e| (e.core_error().clone(), e.context())), f.run(&mut tr).map_err(|e| (e, vec![])), "try_get");
    eq!(
        io.try_get_with_context("why").map_err(|e| (e.core_error().clone(), e.context())),
        f.run(&mut tr).map_err(|e| (e, vec!["why".to_string()])),
        "try_get_with_context"
    );
    eq!(
        io.try_get_composable().map_err(|e| (e.core_error().clone(), e.context())),
        f.run(&mut tr).map_err(|e| (e, vec![])),
        "try_get_composable"
    );
    eq!(
        io.try_get_composable_with_context("why").map_err(|e| (e.core_error().clone(), e.context())),
        f.run(&mut tr).map_err(|e| (e, vec!["why".to_string()])),
        "try_get_composable_with_context"
    );
    eq!(trace(), tr, "each catching form runs the action once");
    eq!(
        io.into_error_pipeline().finish().map_err(|e| e.core_error().core_error().clone()),
        f.run(&mut tr),
        "into_error_pipeline"
    );
    eq!(trace(), tr, "into_error_pipeline runs the action once");
}
fn recovering<S: Src>(s: &mut S) {
    let (f, g, d) = (fal(s, 3), act(s, 5), s.u8());
    start();
    let io = f.io().recover(move |_| g.io());
    eq!(trace(), 0, "recover: building performs no effect");
    let mut tr = 0;
    let want = match f.run(&mut tr) {
        Ok(v) => v,
        Err(_) => g.run(&mut tr),
    };
    eq!(io.run(), want, "recover");
    eq!(trace(), tr, "recover: effects in order, once each");
    start();
    let io = f.io().recover_with(d);
    eq!(trace(), 0, "recover_with: building performs no effect");
    let mut tr = 0;
    let want = f.run(&mut tr).unwrap_or(d);
    eq!(io.run(), want, "recover_with");
    eq!(trace(), tr, "recover_with: the effect once");
}
fn sequence_composable<S: Src>(s: &mut S) {
    let n = if s.below(8) == 7 { s.below(15) } else { s.below(5) };
    let fs: Vec<F> = (0..n).map(|i| fal(s, 1 + i as u64)).collect();
    start();
    let got = IO::sequence_composable(many(s, fs.iter().map(|f| f.io()).collect()));
    let mut tr = 0;
    let rs: Vec<Result<u8, IOError>> = fs.iter().map(|f| f.run(&mut tr)).collect();
    let errs: Vec<IOError> = rs.iter().filter_map(|r| r.clone().err()).collect();
    eq!(trace(), tr, "sequence_composable: every effect once, in order");
    match got {
        Ok(v) => eq!(Ok(v), rs.into_iter().collect::<Result<Vec<u8>, IOError>>(), "sequence_composable: values"),
        Err(es) => eq!(es.iter().map(|e| e.core_error().clone()).collect::<Vec<_>>(), errs, "sequence_composable: all errors in order"),
    }
}
/// Arbitrary programs against a direct interpreter: value and effects.
fn program<S: Src>(s: &mut S) {
    #[derive(Clone, Debug)]
    enum P {
        Base(Act),
        Map(std::rc::Rc<P>, Tab),
        Seq(std::rc::Rc<P>, Tab, std::rc::Rc<P>),
        Ap(std::rc::Rc<P>, std::rc::Rc<P>, Tab2),
        Both(std::rc::Rc<P>, std::rc::Rc<P>, Tab2),
        Recover(F, std::rc::Rc<P>),
    }
    fn gen_<S: Src>(s: &mut S, d: u32, pool: &Pool<P>) -> P {
        let id = 1 + s.below(15) as u64;
        match if d == 0 { 0 } else { s.below(8) } {
            0 | 1 => P::Base(act(s, id)),
            2 => P::Map(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab()),
            3 | 4 => P::Seq(sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab(), sub(s, pool, |s| gen_(s, d - 1, pool))),
            5 => P::Ap(sub(s, pool, |s| gen_(s, d - 1, pool)), sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab2()),
            6 => P::Both(sub(s, pool, |s| gen_(s, d - 1, pool)), sub(s, pool, |s| gen_(s, d - 1, pool)), s.tab2()),
            _ => P::Recover(fal(s, id), sub(s, pool, |s| gen_(s, d - 1, pool))),
        }
    }
    fn build(p: &P, built: &Built<P, IO<u8>>) -> IO<u8> {
        match p.clone() {
            P::Base(a) => a.io(),
            P::Map(p, t) => part(&p, built, |p| build(p, built)).fmap(move |v| t.at(v)),
            P::Seq(p, t, q) => {
                let q = part(&q, built, |p| build(p, built));
                part(&p, built, |p| build(p, built)).bind(move |v| q.fmap(move |w| t.at(v).wrapping_add(w)))
            },
            P::Ap(f, x, t) => part(&x, built, |p| build(p, built)).apply(part(&f, built, |p| build(p, built)).fmap(move |v| move |w: u8| t.at(v, w))),
            P::Both(p, q, t) => IO::combine(&part(&p, built, |p| build(p, built)), &part(&q, built, |p| build(p, built))).fmap(move |(v, w)| t.at(v, w)),
            P::Recover(f, q) => {
                let q = part(&q, built, |p| build(p, built));
                f.io().recover(move |_| q.clone())
            },
        }
    }
    fn eval(p: &P, tr: &mut u64) -> u8 {
        match p {
            P::Base(a) => a.run(tr),
            P::Map(p, t) => t.at(eval(p, tr)),
            P::Seq(p, t, q) => {
                let v = eval(p, tr);
                t.at(v).wrapping_add(eval(q, tr))
            },
            P::Ap(p, q, t) | P::Both(p, q, t) => {
                let v = eval(p, tr);
                t.at(v, eval(q, tr))
            },
            P::Recover(f, q) => match f.run(tr) {
                Ok(v) => v,
                Err(_) => eval(q, tr),
            },
        }
    }
    let p = gen_(s, 4, &Default::default());
    start();
    let io = build(&p, &Default::default());
    eq!(trace(), 0, "building performs no effect");
    let mut tr = 0;
    for _ in 0..2 + s.below(2) {
        let want = eval(&p, &mut tr);
        eq!(io.run(), want, "the program's value");
        eq!(trace(), tr, "the program's effects");
    }
}

harnesses! {
    "C13";
    prove {
        run 2, fmap 2, fmap_pure 2, bind 2, bind_pure 2, right_id 2, apply_pp 2, apply_pe 2, apply_ep 2, apply_ee 2,
        combine 2, when 2,
    }
    test { assoc_l 1.0, assoc_r 1.0, delay 0.2, sequence 1.0, catching 1.0, recovering 1.0, sequence_composable 1.0, program 3.0 }
}
