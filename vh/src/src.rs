//! Sources of inputs for the contract harnesses.
//!
//! Every contract harness is a generic function `fn(s: &mut S) where S: Src`: it draws its inputs
//! from `s`, calls the real rustica function, and asserts the postcondition.  Under Kani the inputs
//! are symbolic (`kani::any`), so a loop-free harness is a proof for its instance; in the concrete
//! runner they are enumerated/random, which is how a failing obligation is replayed on real code.

pub trait Src {
    /// Any number in `0..n`.
    fn below(&mut self, n: u32) -> u32;
    /// Any byte (the concrete runner uses few distinct ones, so that equal values do occur).
    fn u8(&mut self) -> u8;
    fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// `true` only for the symbolic source.
    fn symbolic(&self) -> bool {
        false
    }
    /// An arbitrary function on the domain `0..4` (everything else is folded onto it).
    fn tab(&mut self) -> Tab {
        Tab([self.u8(), self.u8(), self.u8(), self.u8()])
    }
    /// An arbitrary predicate.
    fn ptab(&mut self) -> PTab {
        PTab([self.bool(), self.bool(), self.bool(), self.bool()])
    }
    /// An arbitrary success/failure.
    fn res(&mut self) -> Result<u8, u8> {
        if self.bool() { Ok(self.u8()) } else { Err(self.u8()) }
    }
    fn opt(&mut self) -> Option<u8> {
        if self.bool() { Some(self.u8()) } else { None }
    }
    /// An arbitrary function into success/failure.
    fn ktab(&mut self) -> KTab {
        KTab([self.res(), self.res(), self.res(), self.res()])
    }
    /// A two-argument function, given by a table over the low bit pairs.
    fn tab2(&mut self) -> Tab2 {
        Tab2(self.tab(), self.tab())
    }
    fn tab3(&mut self) -> Tab3 {
        Tab3(self.tab(), self.tab(), self.tab())
    }
    /// A length below `n`; the concrete runner draws a much larger one now and then.
    fn len(&mut self, n: u32) -> u32 {
        self.below(n)
    }
    fn vec(&mut self, max: u32) -> Vec<u8> {
        let n = self.len(max + 1);
        let mut v = Vec::new();
        let mut i = 0;
        while i < n {
            v.push(self.u8());
            i += 1;
        }
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tab(pub [u8; 4]);
impl Tab {
    #[inline]
    pub fn at(&self, x: u8) -> u8 {
        self.0[(x & 3) as usize]
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct PTab(pub [bool; 4]);
impl PTab {
    #[inline]
    pub fn at(&self, x: u8) -> bool {
        self.0[(x & 3) as usize]
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct KTab(pub [Result<u8, u8>; 4]);
impl KTab {
    #[inline]
    pub fn at(&self, x: u8) -> Result<u8, u8> {
        self.0[(x & 3) as usize]
    }
    #[inline]
    pub fn opt(&self, x: u8) -> Option<u8> {
        self.at(x).ok()
    }
}
/// `f(a, b) = t0[a] + 3 * t1[b]`: not symmetric, depends on both arguments.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tab2(pub Tab, pub Tab);
impl Tab2 {
    #[inline]
    pub fn at(&self, a: u8, b: u8) -> u8 {
        self.0.at(a).wrapping_add(self.1.at(b).rotate_left(3))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tab3(pub Tab, pub Tab, pub Tab);
impl Tab3 {
    #[inline]
    pub fn at(&self, a: u8, b: u8, c: u8) -> u8 {
        self.0
            .at(a)
            .wrapping_add(self.1.at(b).rotate_left(3))
            .wrapping_add(self.2.at(c).rotate_left(5))
    }
}

/// The items of a list from an iterator whose size hint is right but need not be exact.
#[derive(Clone, Debug)]
pub struct Many<T> {
    items: std::vec::IntoIter<T>,
    below: usize,
    above: Option<usize>,
}
impl<T> Iterator for Many<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        (n.saturating_sub(self.below), self.above.map(|a| n + a))
    }
}
pub fn many<S: Src, T>(s: &mut S, items: Vec<T>) -> Many<T> {
    let below = match s.below(5) {
        0 | 1 => 0,
        2 => 1,
        3 => 3,
        _ => usize::MAX,
    };
    let above = [Some(0), Some(0), Some(1), Some(7), None][s.below(5) as usize];
    Many { items: items.into_iter(), below, above }
}

/// Programs whose parts may be the same part: a sub-program is a new one or one generated before.
pub type Pool<P> = std::cell::RefCell<Vec<std::rc::Rc<P>>>;
pub fn sub<S: Src, P>(s: &mut S, pool: &Pool<P>, make: impl FnOnce(&mut S) -> P) -> std::rc::Rc<P> {
    let n = pool.borrow().len() as u32;
    if n > 0 && s.below(5) == 0 {
        return pool.borrow()[s.below(n) as usize].clone();
    }
    let p = std::rc::Rc::new(make(s));
    pool.borrow_mut().push(p.clone());
    p
}
/// What was built from each part; the same part gives clones of the same computation.
pub type Built<P, C> = std::cell::RefCell<std::collections::HashMap<*const P, C>>;
pub fn part<P, C: Clone>(p: &std::rc::Rc<P>, built: &Built<P, C>, build: impl FnOnce(&P) -> C) -> C {
    let k = std::rc::Rc::as_ptr(p);
    if let Some(c) = built.borrow().get(&k) {
        return c.clone();
    }
    let c = build(p);
    built.borrow_mut().insert(k, c.clone());
    c
}

/// A value that is equal to, ordered and hashed like every other value of the same key.
#[derive(Clone, Copy, Debug)]
pub struct Tied {
    pub key: u8,
    pub tag: u8,
}
impl PartialEq for Tied {
    fn eq(&self, o: &Tied) -> bool {
        self.key == o.key
    }
}
impl Eq for Tied {}
impl PartialOrd for Tied {
    fn partial_cmp(&self, o: &Tied) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tied {
    fn cmp(&self, o: &Tied) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}
impl std::hash::Hash for Tied {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.key.hash(h)
    }
}
impl Tied {
    pub fn both(&self) -> (u8, u8) {
        (self.key, self.tag)
    }
}
/// Values that all have the same hash.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Clash(pub u8);
impl std::hash::Hash for Clash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
pub fn tied<S: Src>(s: &mut S, max: u32) -> Vec<Tied> {
    let n = s.len(max + 1);
    (0..n).map(|i| Tied { key: s.below(4) as u8, tag: i as u8 }).collect()
}

// ------------------------------------------------------------------------------------------------

#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Src for Sym {
    fn below(&mut self, n: u32) -> u32 {
        let x: u32 = kani::any();
        kani::assume(x < n);
        x
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn symbolic(&self) -> bool {
        true
    }
    fn vec(&mut self, max: u32) -> Vec<u8> {
        let n = self.below(max + 1);
        let mut v = Vec::with_capacity(max as usize);
        let mut i = 0;
        while i < max {
            if i < n {
                v.push(self.u8());
            }
            i += 1;
        }
        v
    }
}

// ------------------------------------------------------------------------------------------------

use std::sync::{Arc, Mutex};

/// One recorded choice: the value drawn and the size of the domain it was drawn from.
pub type Choice = (u32, u32);

pub enum Mode {
    /// Follow the given prefix, then take 0 (used by the enumerator and by replay).
    Follow(Vec<u32>),
    /// Seeded random.
    Random(u64),
    /// The verifier's counterexample: the exact values drawn, in order (full byte domain).
    Raw(Vec<u32>),
}

/// The concrete source: replays a prefix or draws pseudo-random choices, and records all of them.
pub struct Conc {
    pub mode: Mode,
    pub rec: Arc<Mutex<Vec<Choice>>>,
    pub small: bool,
    /// What is left for long lists (so that products of lists stay affordable).
    left: u32,
}
impl Conc {
    pub fn new(mode: Mode, rec: Arc<Mutex<Vec<Choice>>>) -> Self {
        rec.lock().unwrap_or_else(|e| e.into_inner()).clear();
        Conc { mode, rec, small: false, left: 1_500 }
    }
}
pub fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Src for Conc {
    fn below(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        let mut rec = self.rec.lock().unwrap_or_else(|e| e.into_inner());
        let v = match &mut self.mode {
            Mode::Follow(p) => {
                let v = p.get(rec.len()).copied().unwrap_or(0);
                if v >= n { n - 1 } else { v }
            },
            Mode::Random(st) => (mix(st) % n as u64) as u32,
            Mode::Raw(p) => p.get(rec.len()).copied().unwrap_or(0).min(n - 1),
        };
        rec.push((v, n));
        v
    }
    fn len(&mut self, n: u32) -> u32 {
        if !matches!(self.mode, Mode::Raw(_)) && self.below(24) == 23 {
            const LONG: [u32; 11] = [12, 12, 20, 20, 40, 40, 80, 80, 200, 200, 1_200];
            let m = LONG[self.below(11) as usize];
            let n = self.below(m).min(self.left);
            self.left -= n;
            return n.max(3);
        }
        self.below(n)
    }
    fn u8(&mut self) -> u8 {
        // few distinct values; all residues mod 4 occur, and some values beyond 3
        const VALS: [u8; 8] = [0, 1, 2, 3, 7, 50, 128, 253];
        if let Mode::Raw(_) = self.mode {
            return self.below(256) as u8;
        }
        VALS[self.below(8) as usize]
    }
}

/// An iterator over `want`, driven by an arbitrary sequence of the calls a caller may make.
/// `exact`: the size hint tells exactly what remains.
pub fn walk<S: Src, I>(s: &mut S, mut it: I, want: &[I::Item], exact: bool, what: &str)
where
    I: Iterator,
    I::Item: PartialEq + Clone + std::fmt::Debug,
{
    let mut at = 0;
    let hint = |it: &I, at: usize| {
        let (lo, hi) = it.size_hint();
        let left = want.len() - at;
        assert!(lo <= left && hi.is_none_or(|h| left <= h) && (!exact || (lo == left && hi == Some(left))),
            "{what}: size_hint {:?} with {left} elements left", (lo, hi));
    };
    let steps = s.len(6);
    for _ in 0..steps {
        hint(&it, at);
        let left = want.len() - at;
        match s.below(7) {
            0 | 1 => {
                assert_eq!(it.next(), want.get(at).cloned(), "{what}: next");
                at += (left > 0) as usize;
            },
            2 | 3 => {
                let k = match s.below(4) {
                    0 => s.below(4) as usize,
                    1 => left,
                    2 => (left + s.below(3) as usize).saturating_sub(1),
                    _ => s.below(left as u32 + 2) as usize,
                };
                assert_eq!(it.nth(k), want.get(at + k).cloned(), "{what}: nth({k}) with {left} elements left");
                at = want.len().min(at + k + 1);
            },
            4 => {
                let k = s.below(left as u32 + 2) as usize;
                assert_eq!(it.by_ref().take(k).collect::<Vec<_>>(), want[at..at + k.min(left)].to_vec(), "{what}: take({k})");
                at += k.min(left);
            },
            5 => {
                let k = s.below(left as u32 + 2) as usize;
                assert_eq!(it.by_ref().skip(k).next(), want.get(at + k).cloned(), "{what}: skip({k})");
                at = want.len().min(at + k + 1);
            },
            _ => {
                let k = s.below(left as u32 + 2) as usize;
                let mut n = 0;
                let got = it.by_ref().find(|_| {
                    n += 1;
                    n > k
                });
                assert_eq!(got, want.get(at + k).cloned(), "{what}: find");
                at = want.len().min(at + k + 1);
            },
        }
    }
    hint(&it, at);
    let rest = &want[at..];
    match s.below(6) {
        0 => assert_eq!(it.count(), rest.len(), "{what}: count"),
        1 => assert_eq!(it.last(), rest.last().cloned(), "{what}: last"),
        2 => {
            let mut v = Vec::new();
            it.for_each(|x| v.push(x));
            assert_eq!(v, rest.to_vec(), "{what}: for_each");
        },
        3 => assert_eq!(it.fold(Vec::new(), |mut v, x| { v.push(x); v }), rest.to_vec(), "{what}: fold"),
        4 => {
            let k = 1 + s.below(9) as usize;
            assert_eq!(it.step_by(k).collect::<Vec<_>>(), rest.iter().step_by(k).cloned().collect::<Vec<_>>(), "{what}: step_by");
        },
        _ => {
            let got: Vec<_> = it.by_ref().collect();
            assert_eq!(got, rest.to_vec(), "{what}: collect");
            assert_eq!(it.next(), None, "{what}: next after the end");
            hint(&it, want.len());
        },
    }
}
