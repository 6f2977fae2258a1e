//! Histories of persistent vectors next to the plain sequences they should contain.
use crate::src::*;
use crate::{ck, eq};
use rustica::pvec::PersistentVector as PV;
use rustica::traits::semigroup::Semigroup;

/// The elements seen through `len` and `get` alone.
pub fn seen<T: Clone>(v: &PV<T>) -> Vec<T> {
    (0..v.len()).map(|i| v.get(i).expect("get gives an element at every index below len").clone()).collect()
}
/// A size near the boundaries of the chunked representation.
pub fn size<S: Src>(s: &mut S) -> usize {
    let base = match s.below(12) {
        0 | 1 => return s.below(5) as usize,
        2 => 32,
        3 | 4 => 64,
        5 | 6 => 128,
        7 => 192,
        8 => 64 * (2 + s.below(12) as usize),
        9 => return s.below(300) as usize,
        10 => {
            if s.below(6) == 0 {
                2048
            } else {
                96
            }
        },
        _ => {
            if s.below(40) == 0 {
                4096 + 64 * s.below(34) as usize
            } else {
                65
            }
        },
    };
    (base + s.below(5) as usize).saturating_sub(2)
}
pub fn index<S: Src>(s: &mut S, n: usize) -> usize {
    match s.below(8) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n,
        3 => (64 * s.below(4) as usize + s.below(3) as usize).saturating_sub(1),
        4 => n.saturating_sub(s.below(70) as usize),
        5 => n + s.below(3) as usize,
        _ => s.below(n as u32 + 1) as usize,
    }
}
/// Supplies elements: all different when `alphabet == 0`, else from a small alphabet.
pub struct Fresh {
    pub next: u32,
    pub alphabet: u32,
}
impl Fresh {
    pub fn new<S: Src>(s: &mut S) -> Fresh {
        let alphabet = match s.below(4) {
            0 => 3,
            _ => 0,
        };
        Fresh { next: 0, alphabet }
    }
    pub fn get(&mut self) -> u32 {
        self.next += 1;
        if self.alphabet == 0 {
            self.next
        } else {
            (self.next.wrapping_mul(2654435761) >> 7) % self.alphabet
        }
    }
    pub fn many(&mut self, n: usize) -> Vec<u32> {
        (0..n).map(|_| self.get()).collect()
    }
}
pub type Pair = (PV<u32>, Vec<u32>);
fn burst<S: Src>(s: &mut S) -> usize {
    match s.below(8) {
        0..=3 => 1,
        4 => 1 + s.below(5) as usize,
        5 => 30 + s.below(6) as usize,
        6 => 62 + s.below(5) as usize,
        _ => 100 + s.below(60) as usize,
    }
}
/// One operation on vectors of the pool; the results are added to the pool.  The plain sequence is
/// computed by `Vec` operations, independently of the vector.
pub fn step<S: Src>(s: &mut S, fresh: &mut Fresh, pool: &mut Vec<Pair>) {
    let k = if pool.is_empty() { 0 } else { s.below(17) };
    if k <= 1 {
        let n = size(s);
        let m = fresh.many(n);
        let v = match s.below(4) {
            0 => PV::from_slice(&m),
            1 => PV::from(m.clone()),
            2 => m.iter().copied().collect::<PV<u32>>(),
            _ => {
                if n == 0 {
                    if s.bool() { PV::new() } else { PV::default() }
                } else if n == 1 {
                    PV::unit(m[0])
                } else {
                    let mut v = PV::unit(m[0]);
                    v.extend(m[1..].iter().copied());
                    v
                }
            },
        };
        pool.push((v, m));
        return;
    }
    let at = if s.below(3) == 0 { s.below(pool.len() as u32) as usize } else { pool.len() - 1 };
    let (mut v, mut m) = pool[at].clone();
    match k {
        2 | 3 => {
            for _ in 0..burst(s) {
                let x = fresh.get();
                v = v.push_back(x);
                m.push(x);
            }
        },
        4 | 5 => {
            let b = burst(s);
            for _ in 0..b {
                let x = fresh.get();
                v = v.push_front(x);
                m.insert(0, x);
            }
        },
        6 => {
            for _ in 0..burst(s) {
                match (v.pop_back(), m.pop()) {
                    (Some((w, x)), Some(y)) => {
                        eq!(x, y, "pop_back returns the last element");
                        v = w;
                    },
                    (None, None) => {},
                    (Some(_), None) => panic!("pop_back of an empty vector gives nothing"),
                    (None, Some(_)) => panic!("pop_back of a non-empty vector gives an element"),
                }
            }
        },
        7 => {
            for _ in 0..burst(s) {
                let y = if m.is_empty() { None } else { Some(m.remove(0)) };
                match (v.pop_front(), y) {
                    (Some((w, x)), Some(y)) => {
                        eq!(x, y, "pop_front returns the first element");
                        v = w;
                    },
                    (None, None) => {},
                    (Some(_), None) => panic!("pop_front of an empty vector gives nothing"),
                    (None, Some(_)) => panic!("pop_front of a non-empty vector gives an element"),
                }
            }
        },
        8 => {
            let (i, x) = (index(s, m.len()), fresh.get());
            if i < m.len() {
                m[i] = x;
                v = if s.bool() { v.update(i, x) } else { v.try_update(i, x).expect("try_update of an index in range") };
            } else {
                ck!(v.try_update(i, x).is_err(), "try_update of an index out of range is an error");
                v = v.update(i, x);
            }
        },
        9 | 10 => {
            let o = s.below(pool.len() as u32) as usize;
            let (w, n) = pool[o].clone();
            if m.len() + n.len() < 12000 {
                let flip = s.bool();
                let (a, b) = if flip { ((w, n), (v, m)) } else { ((v, m), (w, n)) };
                v = match s.below(3) {
                    0 => a.0.combine(&b.0),
                    1 => a.0.clone().combine_owned(b.0.clone()),
                    _ => a.0.concat(&b.0),
                };
                m = a.1;
                m.extend(b.1);
            }
        },
        11 | 12 => {
            let i = index(s, m.len());
            let (a, b) = v.split_at(i);
            let r = m.split_off(i.min(m.len()));
            if s.bool() {
                pool.push((a, m));
                v = b;
                m = r;
            } else {
                pool.push((b, r));
                v = a;
            }
        },
        13 => {
            let i = index(s, m.len());
            if s.bool() {
                v = v.take(i);
                m.truncate(i);
            } else {
                v = v.skip(i);
                m = m.split_off(i.min(m.len()));
            }
        },
        14 => {
            let (i, x) = (s.below(m.len() as u32 + 1) as usize, fresh.get());
            v = v.insert(i, x);
            m.insert(i, x);
        },
        15 => {
            let i = index(s, m.len());
            match v.remove(i) {
                Some(w) => {
                    ck!(i < m.len(), "remove out of range gives nothing");
                    m.remove(i);
                    v = w;
                },
                None => ck!(i >= m.len(), "remove in range gives the rest"),
            }
        },
        _ => {
            if s.bool() {
                v = v.filter(|x| x % 3 != 0);
                m.retain(|x| x % 3 != 0);
            } else {
                v = v.map(|x| x ^ 1);
                m.iter_mut().for_each(|x| *x ^= 1);
            }
        },
    }
    pool.push((v, m));
    if pool.len() > 12 {
        pool.remove(0);
    }
}
/// A vector with a history, and its contents as seen through `len`/`get`.
pub fn any<S: Src>(s: &mut S, fresh: &mut Fresh) -> PV<u32> {
    let mut pool = Vec::new();
    let n = 1 + s.below(10);
    for _ in 0..n {
        step(s, fresh, &mut pool);
    }
    pool.pop().unwrap().0
}
/// A short history over few sizes.
pub fn small<S: Src>(s: &mut S, fresh: &mut Fresh) -> PV<u32> {
    let n = s.below(5) as usize;
    let v: PV<u32> = fresh.many(n).into_iter().collect();
    match s.below(4) {
        0 => v.push_front(fresh.get()),
        1 => v.concat(&fresh.many(2).into_iter().collect()),
        _ => v,
    }
}
