//! C24: a memoizer shared between threads. Bounded: real threads under the schedules the seeds give,
//! with pauses at every point where the memoizer calls back (hashing and comparing keys, cloning
//! values, the function itself).
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Barrier;

thread_local! { static PAUSE: Cell<u64> = const { Cell::new(0) }; }
/// A point where another thread may get in between.
fn pause() {
    PAUSE.with(|p| {
        let mut x = p.get();
        if x == 0 {
            return;
        }
        let r = mix(&mut x);
        p.set(x | 1);
        match r % 8 {
            0 | 1 => std::thread::yield_now(),
            2 => (0..300).for_each(|_| std::hint::spin_loop()),
            3 => std::thread::sleep(std::time::Duration::from_micros(r >> 8 & 63)),
            _ => {},
        }
    })
}
#[derive(Debug)]
struct Key(u8);
impl Clone for Key {
    fn clone(&self) -> Self {
        pause();
        Key(self.0)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        pause();
        self.0 == o.0
    }
}
impl Eq for Key {}
impl std::hash::Hash for Key {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        pause();
        // some keys clash
        (self.0 & 1).hash(h)
    }
}
#[derive(Debug)]
struct Val(u8, u8);
impl Clone for Val {
    fn clone(&self) -> Self {
        pause();
        Val(self.0, self.1)
    }
}
#[derive(Clone, Copy)]
enum Op {
    Look(u8),
    Clear,
}
/// Threads looking up few keys, some of them clearing in between. Every lookup gives the function's
/// value for its key; without clears the function runs once per key; with them once per key and
/// period, which bounds its runs by the clears.
fn shared<S: Src>(s: &mut S) {
    let threads = 2 + s.below(3) as usize;
    let clears = s.bool();
    let keys = 1 + s.below(4);
    let plan: Vec<(u64, Vec<Op>)> = (0..threads)
        .map(|t| {
            let n = 1 + s.below(6);
            let ops = (0..n).map(|_| if clears && s.below(4) == 0 { Op::Clear } else { Op::Look(s.below(keys) as u8) }).collect();
            ((s.below(1 << 16) as u64) << 8 | t as u64 | 1 << 40, ops)
        })
        .collect();
    let table: Vec<u8> = (0..keys).map(|_| s.u8()).collect();
    let m: Memoizer<Key, Val> = Memoizer::new();
    let runs: Vec<AtomicU32> = (0..keys).map(|_| AtomicU32::new(0)).collect();
    let cleared = AtomicU32::new(0);
    let go = Barrier::new(threads);
    let bad: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = plan
            .iter()
            .map(|(seed, ops)| {
                let (m, table, runs, cleared, go) = (&m, &table, &runs, &cleared, &go);
                sc.spawn(move || {
                    PAUSE.with(|p| p.set(*seed));
                    go.wait();
                    let mut bad = Vec::new();
                    for o in ops {
                        match *o {
                            Op::Clear => {
                                cleared.fetch_add(1, Ordering::SeqCst);
                                m.clear();
                            },
                            Op::Look(k) => {
                                let v = m.get_or_compute(Key(k), |key| {
                                    pause();
                                    runs[key.0 as usize].fetch_add(1, Ordering::SeqCst);
                                    let v = Val(key.0, table[key.0 as usize]);
                                    pause();
                                    v
                                });
                                if (v.0, v.1) != (k, table[k as usize]) {
                                    bad.push(format!("key {k}: got the value of key {}: {}", v.0, v.1));
                                }
                            },
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["a lookup or clear panicked".to_string()])).collect()
    });
    eq!(bad, Vec::<String>::new(), "every lookup gives the function's value for its key");
    let periods = 1 + cleared.load(Ordering::SeqCst);
    for r in &runs {
        ck!(r.load(Ordering::SeqCst) <= periods, "the function runs at most once per key between clears");
    }
    // what is left in the cache is right as well
    for k in 0..keys as u8 {
        let v = m.get_or_compute(Key(k), |key| Val(key.0, table[key.0 as usize]));
        eq!((v.0, v.1), (k, table[k as usize]), "afterwards");
    }
}
/// All threads ask for the same key at once: one of them computes.
pub fn same_key<S: Src>(s: &mut S) {
    let threads = 2 + s.below(5) as usize;
    let seed = s.below(1 << 16) as u64;
    let m: Memoizer<Key, Val> = Memoizer::new();
    let runs = AtomicU32::new(0);
    let go = Barrier::new(threads);
    let got: Vec<Option<u8>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (m, runs, go) = (&m, &runs, &go);
                sc.spawn(move || {
                    PAUSE.with(|p| p.set(seed << 8 | t as u64 | 1 << 40));
                    go.wait();
                    m.get_or_compute(Key(3), |k| {
                        let n = runs.fetch_add(1, Ordering::SeqCst) as u8;
                        pause();
                        Val(k.0, n)
                    })
                    .1
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    eq!(runs.load(Ordering::SeqCst), 1, "the function runs once for a key asked for by several threads");
    eq!(got, vec![Some(0); threads], "every thread gets that value");
}
crate::harnesses! { "C24"; prove { } test { shared 3.0, same_key 1.0 } }
