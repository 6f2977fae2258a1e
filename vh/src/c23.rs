//! C23: asynchronous computations. Bounded: arbitrary small programs over AsyncM, awaited by an
//! executor whose schedule (which pending wait finishes next, spurious polls, dropped futures) is
//! drawn from the source; the oracle interprets the same program step by step in sequence.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::io::IO;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

// ------------------------------------------------------------------------------------ the world

const STEPS: usize = 64;
#[derive(Default)]
struct Gate {
    fired: AtomicBool,
    waker: Mutex<Option<Waker>>,
}
struct World {
    gates: Mutex<Vec<Arc<Gate>>>,
    hits: Vec<AtomicU32>,
    /// with `share`, what each part of the program was built into: its other uses are clones
    share: AtomicBool,
    built: Mutex<std::collections::HashMap<usize, AsyncM<u8>>>,
}
impl World {
    fn new() -> Arc<World> {
        Arc::new(World {
            gates: Mutex::new(Vec::new()),
            hits: (0..STEPS).map(|_| AtomicU32::new(0)).collect(),
            share: AtomicBool::new(false),
            built: Mutex::default(),
        })
    }
    fn reset(&self) {
        self.gates.lock().unwrap().clear();
        self.hits.iter().for_each(|h| h.store(0, Ordering::SeqCst));
    }
    /// one more run of a step; how many there were before
    fn hit(&self, id: usize) -> u32 {
        self.hits[id].fetch_add(1, Ordering::SeqCst)
    }
    fn counts(&self) -> Vec<u32> {
        self.hits.iter().map(|h| h.load(Ordering::SeqCst)).collect()
    }
}
/// Pending `n` times; each time the executor decides when it may go on.
struct Waits {
    w: Arc<World>,
    n: u8,
    gate: Option<Arc<Gate>>,
}
impl Future for Waits {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        loop {
            if let Some(g) = &self.gate {
                if !g.fired.load(Ordering::SeqCst) {
                    *g.waker.lock().unwrap() = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                self.gate = None;
            }
            if self.n == 0 {
                return Poll::Ready(());
            }
            self.n -= 1;
            let g = Arc::new(Gate::default());
            self.w.gates.lock().unwrap().push(g.clone());
            self.gate = Some(g);
        }
    }
}
fn waits(w: &Arc<World>, n: u8) -> Waits {
    Waits { w: w.clone(), n, gate: None }
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
/// Polls the future under a drawn schedule. `None`: dropped after `polls` polls.
fn drive<S: Src, T>(s: &mut S, w: &World, fut: impl Future<Output = T>, mut polls: u32) -> Option<T> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut fut = Box::pin(fut);
    loop {
        if polls == 0 {
            return None;
        }
        polls -= 1;
        flag.0.store(false, Ordering::SeqCst);
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Some(v);
        }
        // let waits finish until the future is woken (or polled although it was not)
        loop {
            let open: Vec<Arc<Gate>> = w.gates.lock().unwrap().iter().filter(|g| !g.fired.load(Ordering::SeqCst)).cloned().collect();
            let again = flag.0.load(Ordering::SeqCst);
            if again && (open.is_empty() || s.bool()) {
                break;
            }
            if open.is_empty() {
                panic!("the computation waits for nothing: it would never be polled again");
            }
            let k = s.below(open.len() as u32 + (!again) as u32) as usize;
            if k == open.len() {
                break; // a spurious poll
            }
            open[k].fired.store(true, Ordering::SeqCst);
            if let Some(wk) = open[k].waker.lock().unwrap().take() {
                wk.wake()
            }
        }
    }
}

// ---------------------------------------------------------------------------------- the programs

#[derive(Debug, Clone)]
struct Step {
    id: usize,
    pend: u8,
    /// panics: 0 no, 1 at once, 2 after the waits
    dies: u8,
}
#[derive(Debug, Clone)]
enum Prog {
    Pure(u8),
    /// gives the n-th entry of its table on its n-th run
    Eff(Step, Tab),
    Res(Step, KTab, u8),
    Fmap(bool, Arc<Prog>, Step, Tab),
    Bind(bool, Arc<Prog>, Step, [Arc<Prog>; 2]),
    /// value, function
    Apply(bool, Arc<Prog>, Arc<Prog>, usize, Tab2),
    ZipWith(Arc<Prog>, Arc<Prog>, usize, Tab2),
    Zip(Arc<Prog>, Arc<Prog>, Tab2),
    Recover(Arc<Prog>, u8),
}
use Prog::*;
#[derive(Default)]
struct Gen {
    next: usize,
    /// parts that may occur again (whether they may panic, the part)
    pool: Vec<(bool, Arc<Prog>)>,
}
impl Gen {
    fn step<S: Src>(&mut self, s: &mut S, dies: bool) -> Step {
        let id = self.next;
        self.next += 1;
        Step { id, pend: s.below(3) as u8, dies: if dies && s.bool() { 1 + s.below(2) as u8 } else { 0 } }
    }
    fn leaf<S: Src>(&mut self, s: &mut S, dies: bool) -> Prog {
        match s.below(4) {
            0 => Pure(s.u8()),
            1 => Res(self.step(s, dies), s.ktab(), s.u8()),
            _ => Eff(self.step(s, dies), s.tab()),
        }
    }
    /// `dies`: under a recovery, where steps may panic and joins are left out (how far the other
    /// side got would be open)
    fn prog<S: Src>(&mut self, s: &mut S, depth: u32, dies: bool) -> Prog {
        if depth == 0 || self.next > 24 {
            return self.leaf(s, dies);
        }
        let sub = |g: &mut Gen, s: &mut S, dies: bool| {
            let fit: Vec<_> = g.pool.iter().filter(|(d, _)| dies || !*d).map(|(_, p)| p.clone()).collect();
            if !fit.is_empty() && s.below(3) == 0 {
                return fit[s.below(fit.len() as u32) as usize].clone();
            }
            let p = Arc::new(g.prog(s, depth - 1, dies));
            g.pool.push((dies, p.clone()));
            p
        };
        // the sides of a join run in any order: nothing in them is shared with the rest
        let side = |g: &mut Gen, s: &mut S| {
            let rest = std::mem::take(&mut g.pool);
            let p = Arc::new(g.prog(s, depth - 1, false));
            g.pool = rest;
            p
        };
        match s.below(if dies { 4 } else { 8 }) {
            0 => self.leaf(s, dies),
            1 => Fmap(s.bool(), sub(self, s, dies), self.step(s, dies), s.tab()),
            2 => Bind(s.bool(), sub(self, s, dies), self.step(s, dies), [sub(self, s, dies), sub(self, s, dies)]),
            3 => Recover(sub(self, s, true), s.u8()),
            4 => {
                self.next += 1;
                let id = self.next - 1;
                Apply(s.bool(), side(self, s), side(self, s), id, s.tab2())
            },
            5 => {
                self.next += 1;
                let id = self.next - 1;
                ZipWith(side(self, s), side(self, s), id, s.tab2())
            },
            6 => Zip(side(self, s), side(self, s), s.tab2()),
            _ => Bind(s.bool(), sub(self, s, false), self.step(s, false), [sub(self, s, false), sub(self, s, false)]),
        }
    }
}
async fn run_step(w: &Arc<World>, st: &Step) -> u32 {
    let n = w.hit(st.id);
    if st.dies == 1 {
        panic!("step")
    }
    waits(w, st.pend).await;
    if st.dies == 2 {
        panic!("step")
    }
    n
}
fn build(w: &Arc<World>, p: &Prog) -> AsyncM<u8> {
    match p.clone() {
        Pure(x) => AsyncM::pure(x),
        Eff(st, t) => {
            let w = w.clone();
            AsyncM::new(move || {
                let (w, st) = (w.clone(), st.clone());
                async move { t.at(run_step(&w, &st).await as u8) }
            })
        },
        Res(st, t, d) => {
            let w = w.clone();
            AsyncM::<u8>::from_result_or_default(
                move || {
                    let (w, st) = (w.clone(), st.clone());
                    async move { t.at(run_step(&w, &st).await as u8) }
                },
                d,
            )
        },
        Fmap(owned, p, st, t) => {
            let (m, w) = (part(w, &p), w.clone());
            let f = move |x: u8| {
                let (w, st) = (w.clone(), st.clone());
                async move {
                    run_step(&w, &st).await;
                    t.at(x)
                }
            };
            if owned { m.fmap_owned(f) } else { m.fmap(f) }
        },
        Bind(owned, p, st, ks) => {
            let (m, w) = (part(w, &p), w.clone());
            let f = move |x: u8| {
                let (w, st, ks) = (w.clone(), st.clone(), ks.clone());
                async move {
                    run_step(&w, &st).await;
                    part(&w, &ks[(x & 1) as usize])
                }
            };
            if owned { m.bind_owned(f) } else { m.bind(f) }
        },
        Apply(owned, p, q, id, t) => {
            let (a, w2) = (part(w, &p), w.clone());
            let mk = move |y: u8| {
                let w = w2.clone();
                move |x: u8| {
                    w.hit(id);
                    t.at(x, y)
                }
            };
            let mf = match *q {
                Pure(y) => AsyncM::pure(mk(y)),
                _ => part(w, &q).fmap(move |y| {
                    let f = mk(y);
                    async move { f }
                }),
            };
            if owned { a.apply_owned(mf) } else { a.apply(mf) }
        },
        ZipWith(p, q, id, t) => {
            let (a, b, w) = (part(w, &p), part(w, &q), w.clone());
            a.zip_with(b, move |x, y| {
                w.hit(id);
                t.at(x, y)
            })
        },
        Zip(p, q, t) => part(w, &p).zip(part(w, &q)).fmap(move |(x, y)| async move { t.at(x, y) }),
        Recover(p, d) => part(w, &p).recover_with(d),
    }
}
fn part(w: &Arc<World>, p: &Arc<Prog>) -> AsyncM<u8> {
    if !w.share.load(Ordering::Relaxed) {
        return build(w, p);
    }
    let key = Arc::as_ptr(p) as usize;
    if let Some(m) = w.built.lock().unwrap().get(&key) {
        return m.clone();
    }
    let m = build(w, p);
    w.built.lock().unwrap().insert(key, m.clone());
    m
}
fn all_pure(p: &Prog) -> bool {
    match p {
        Pure(_) => true,
        Apply(_, a, b, _, _) | ZipWith(a, b, _, _) => all_pure(a) && all_pure(b),
        _ => false,
    }
}
/// The meaning: the value and what ran, in sequence. `Err`: a step panicked.
fn meaning(p: &Prog, hits: &mut Vec<u32>) -> Result<u8, ()> {
    fn step(st: &Step, hits: &mut Vec<u32>) -> Result<u8, ()> {
        hits[st.id] += 1;
        if st.dies > 0 { Err(()) } else { Ok((hits[st.id] - 1) as u8) }
    }
    Ok(match p {
        Pure(x) => *x,
        Eff(st, t) => t.at(step(st, hits)?),
        Res(st, t, d) => t.at(step(st, hits)?).unwrap_or(*d),
        Fmap(_, p, st, t) => {
            let x = meaning(p, hits)?;
            step(st, hits)?;
            t.at(x)
        },
        Bind(_, p, st, ks) => {
            let x = meaning(p, hits)?;
            step(st, hits)?;
            meaning(&ks[(x & 1) as usize], hits)?
        },
        Apply(_, p, q, id, t) | ZipWith(p, q, id, t) => {
            let (x, y) = (meaning(p, hits)?, meaning(q, hits)?);
            hits[*id] += 1;
            t.at(x, y)
        },
        Zip(p, q, t) => t.at(meaning(p, hits)?, meaning(q, hits)?),
        Recover(p, d) => meaning(p, hits).unwrap_or(*d),
    })
}
/// Which steps are pure combinations of pure values: those may run when the program is built.
fn eager(p: &Prog, out: &mut Vec<usize>) {
    match p {
        Pure(_) | Eff(..) | Res(..) => {},
        Fmap(_, p, ..) | Recover(p, _) => eager(p, out),
        Bind(_, p, _, ks) => {
            eager(p, out);
            ks.iter().for_each(|k| eager(k, out));
        },
        Apply(_, a, b, id, _) | ZipWith(a, b, id, _) => {
            if all_pure(p) {
                out.push(*id);
            }
            eager(a, out);
            eager(b, out);
        },
        Zip(a, b, _) => {
            eager(a, out);
            eager(b, out);
        },
    }
}
fn await_prog<S: Src>(s: &mut S, p: &Prog) {
    let w = World::new();
    w.share.store(s.bool(), Ordering::Relaxed);
    let mut open = Vec::new();
    eager(p, &mut open);
    let ran = |w: &World, m: &[u32]| {
        let mut c = w.counts();
        let mut m = m.to_vec();
        for &i in &open {
            c[i] = 0;
            m[i] = 0;
        }
        (c, m)
    };
    let m = build(&w, p);
    let (c, z) = ran(&w, &[0; STEPS]);
    eq!(c, z, "building runs nothing");
    let mut hits = vec![0; STEPS];
    for i in 0..2 {
        let want = meaning(p, &mut hits).unwrap();
        let m2 = m.clone();
        let got = drive(s, &w, async { if i == 0 { m.try_get().await } else { m2.try_get().await } }, u32::MAX);
        eq!(got, Some(want), "the awaited value");
        let (c, h) = ran(&w, &hits);
        eq!(c, h, "each step runs once per await");
    }
    // a future dropped half way leaves the computation as it was
    w.reset();
    let polls = s.below(4);
    let _ = drive(s, &w, m.try_get(), polls);
    w.reset();
    hits = vec![0; STEPS];
    let want = meaning(p, &mut hits).unwrap();
    eq!(drive(s, &w, m.try_get(), u32::MAX), Some(want), "awaited again after a dropped future");
    let (c, h) = ran(&w, &hits);
    eq!(c, h, "each step runs once after a dropped future");
    drop(m);
    let parts = std::mem::take(&mut *w.built.lock().unwrap());
    drop(parts);
}

/// One combinator over leaves, every form.
fn single<S: Src>(s: &mut S) {
    let p = Gen::default().prog(s, 1, false);
    await_prog(s, &p)
}
/// Nested programs.
fn nested<S: Src>(s: &mut S) {
    let d = 2 + s.below(2);
    let p = Gen::default().prog(s, d, false);
    await_prog(s, &p)
}
/// Recovery: the success untouched, otherwise the default; panics before and after a suspension.
fn recover<S: Src>(s: &mut S) {
    let mut g = Gen::default();
    let d = s.below(3);
    let p = Recover(Arc::new(g.prog(s, d, true)), s.u8());
    await_prog(s, &p)
}
/// Two sides of a join wait at the same time: neither needs the other to have finished.
fn concurrent<S: Src>(s: &mut S) {
    let t = s.tab2();
    let (x, y) = (s.u8(), s.u8());
    let g = Arc::new((Gate::default(), Gate::default()));
    // each side first opens the other's gate, then waits for its own
    struct On(Arc<(Gate, Gate)>, bool, bool);
    impl Future for On {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let (mine, other) = if self.1 { (&self.0.0, &self.0.1) } else { (&self.0.1, &self.0.0) };
            other.fired.store(true, Ordering::SeqCst);
            if let Some(k) = other.waker.lock().unwrap().take() {
                k.wake()
            }
            if mine.fired.load(Ordering::SeqCst) {
                return Poll::Ready(());
            }
            *mine.waker.lock().unwrap() = Some(cx.waker().clone());
            self.2 = true;
            Poll::Pending
        }
    }
    let side = |first: bool, v: u8| {
        let g = g.clone();
        AsyncM::new(move || {
            let g = g.clone();
            async move {
                On(g, first, false).await;
                v
            }
        })
    };
    let (a, b) = (side(true, x), side(false, y));
    let m = match s.below(4) {
        0 => a.zip_with(b, move |x, y| t.at(x, y)),
        1 => a.zip(b).fmap(move |(x, y)| async move { t.at(x, y) }),
        k => {
            let mf = b.fmap(move |y| async move { move |x: u8| t.at(x, y) });
            if k == 2 { a.apply(mf) } else { a.apply_owned(mf) }
        },
    };
    let w = World::new();
    eq!(drive(s, &w, m.try_get(), u32::MAX), Some(t.at(x, y)), "sides that wait for each other");
}
/// The asynchronous operations of Validated, against the same steps in sequence.
fn validated<S: Src>(s: &mut S) {
    use rustica::datatypes::validated::Validated;
    let w = World::new();
    let t = s.tab();
    let pend = s.below(3) as u8;
    let n = 1 + s.len(20);
    let v: Validated<u8, u8> = if s.bool() { Validated::Valid(s.u8()) } else { Validated::Invalid((0..n).map(|_| s.u8()).collect()) };
    let f = {
        let w = w.clone();
        move |x: u8| {
            let w = w.clone();
            async move {
                w.hit(0);
                waits(&w, pend).await;
                t.at(x)
            }
        }
    };
    let g = {
        let f = f.clone();
        move |x: u8| {
            let r = f(x);
            async move {
                let y = r.await;
                if y % 2 == 0 { Validated::Valid(y) } else { Validated::Invalid([x, y].into_iter().collect()) }
            }
        }
    };
    let k = s.below(3);
    let (want, calls) = match (k, &v) {
        (0, Validated::Valid(x)) => (Validated::Valid(t.at(*x)), 1),
        (1, Validated::Invalid(es)) => (Validated::Invalid(es.iter().map(|e| t.at(*e)).collect()), es.len() as u32),
        (2, Validated::Valid(x)) if t.at(*x) % 2 == 0 => (Validated::Valid(t.at(*x)), 1),
        (2, Validated::Valid(x)) => (Validated::Invalid([*x, t.at(*x)].into_iter().collect()), 1),
        _ => (v.clone(), 0),
    };
    for i in 1..3 {
        let got = match k {
            0 => drive(s, &w, v.fmap_valid_async(f.clone()), u32::MAX),
            1 => drive(s, &w, v.fmap_invalid_async(f.clone()), u32::MAX),
            _ => drive(s, &w, v.and_then_async(g.clone()), u32::MAX),
        };
        eq!(got, Some(want.clone()), "the awaited validation");
        eq!(w.counts()[0], calls * i, "the step once per value");
    }
}
/// An action made from a future runs it once; every run, from any thread, gives its value.
fn io_new_async<S: Src>(s: &mut S) {
    let v = s.u8();
    let t = s.tab();
    let threads = 1 + s.below(4);
    let ms = s.below(3) as u64;
    let runs = Arc::new(AtomicU32::new(0));
    let io = if s.bool() {
        let r = runs.clone();
        IO::new_async(async move {
            r.fetch_add(1, Ordering::SeqCst);
            (0..ms * 500).for_each(|_| std::hint::spin_loop());
            v
        })
    } else {
        runs.store(1, Ordering::SeqCst);
        IO::delay(std::time::Duration::from_millis(ms), v)
    };
    let go = std::sync::Barrier::new(threads as usize);
    let got: Vec<Option<u8>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (io, go) = (io.clone(), &go);
                sc.spawn(move || {
                    go.wait();
                    if k % 2 == 0 { io.run() } else { io.fmap(move |x| t.at(x)).run() }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    let want: Vec<Option<u8>> = (0..threads).map(|k| Some(if k % 2 == 0 { v } else { t.at(v) })).collect();
    eq!(got, want, "every run gives the future's value");
    eq!(io.run(), v, "a later run");
    eq!(runs.load(Ordering::SeqCst), 1, "the future runs once");
}
/// Awaiting an action gives what running it gives, and performs its effect once.
fn io_run_async<S: Src>(s: &mut S) {
    let v = s.u8();
    let t = s.tab();
    let pure = s.bool();
    let n = Arc::new(AtomicU32::new(0));
    let io = if pure {
        IO::pure(v)
    } else {
        let n = n.clone();
        IO::new(move || {
            n.fetch_add(1, Ordering::SeqCst);
            v
        })
    };
    let io = io.bind(move |x| IO::pure(t.at(x)));
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let (a, b) = rt.block_on(async { (io.run_async().await, io.run_async().await) });
    eq!((a, b), (t.at(v), t.at(v)), "the awaited action");
    eq!(n.load(Ordering::SeqCst), if pure { 0 } else { 2 }, "the effect once per await");
}
crate::harnesses! { "C23"; prove { } test { single 2.0, nested 3.0, recover 1.0, concurrent 0.3, io_new_async 0.5, io_run_async 0.3, validated 0.5 } }
