//! C01: persistent vector element operations agree with a plain sequence.
use crate::pv::*;
use crate::src::*;
use crate::tracked::{self, Tracked};
use crate::{ck, eq};
use rustica::pvec::{PVecError, PersistentVector as PV};
use rustica::traits::identity::Identity;

fn observe<S: Src>(s: &mut S, v: &PV<u32>, m: &[u32]) {
    eq!(v.len(), m.len(), "len");
    eq!(v.is_empty(), m.is_empty(), "is_empty");
    eq!(v.first(), m.first(), "first");
    eq!(v.last(), m.last(), "last");
    for _ in 0..4 {
        let i = index(s, m.len());
        eq!(v.get(i), m.get(i), "get");
        match m.get(i) {
            Some(x) => {
                eq!(v.try_get(i), Ok(x), "try_get");
                eq!(v[i], *x, "indexing");
            },
            None => eq!(v.try_get(i), Err(PVecError::IndexOutOfBounds { index: i, len: m.len() }), "try_get out of range"),
        }
    }
    eq!(v.try_value(), m.first(), "try_value");
}
/// Mixed histories; every vector of the pool is compared with its plain sequence.
fn history<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let mut pool: Vec<Pair> = Vec::new();
    let n = 1 + s.below(14);
    for _ in 0..n {
        step(s, &mut fresh, &mut pool);
        let (v, m) = pool.last().unwrap().clone();
        observe(s, &v, &m);
    }
    for (v, m) in &pool {
        eq!(v.len(), m.len(), "len at the end");
        for i in 0..m.len() {
            eq!(v.get(i), Some(&m[i]), "get at every index");
        }
        eq!(v.get(m.len()), None, "get at len");
    }
}
/// One element operation on a vector with any history, against its own contents.
fn element<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let mut m = seen(&v);
    let x = 1_000_000 + s.u8() as u32;
    match s.below(5) {
        0 => {
            let w = v.push_back(x);
            m.push(x);
            eq!(seen(&w), m, "push_back adds one element at the end");
        },
        1 => {
            let w = v.push_front(x);
            m.insert(0, x);
            eq!(seen(&w), m, "push_front adds one element at the front");
        },
        2 => match (v.pop_back(), m.pop()) {
            (Some((w, a)), Some(b)) => {
                eq!(a, b, "pop_back returns the last element");
                eq!(seen(&w), m, "pop_back leaves the rest");
            },
            (a, b) => ck!(a.is_none() && b.is_none(), "pop_back gives nothing exactly on an empty vector"),
        },
        3 => {
            let b = if m.is_empty() { None } else { Some(m.remove(0)) };
            match (v.pop_front(), b) {
                (Some((w, a)), Some(b)) => {
                    eq!(a, b, "pop_front returns the first element");
                    eq!(seen(&w), m, "pop_front leaves the rest");
                },
                (a, b) => ck!(a.is_none() && b.is_none(), "pop_front gives nothing exactly on an empty vector"),
            }
        },
        _ => {
            let i = index(s, m.len());
            let w = v.update(i, x);
            let inside = i < m.len();
            if inside {
                m[i] = x;
            }
            eq!(seen(&w), m, "update replaces exactly one position");
            match v.try_update(i, x) {
                Ok(w) => {
                    ck!(inside, "try_update out of range is an error");
                    eq!(seen(&w), m, "try_update replaces exactly one position");
                },
                Err(e) => {
                    ck!(!inside, "try_update in range succeeds");
                    eq!(e, PVecError::IndexOutOfBounds { index: i, len: m.len() }, "try_update error");
                },
            }
        },
    }
}
/// Draining from both ends gives every element once, in order.
fn drain<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let mut v = any(s, &mut fresh);
    let m = seen(&v);
    let (mut lo, mut hi) = (0, m.len());
    let bias = s.below(3);
    while lo < hi {
        eq!(v.len(), hi - lo, "len while draining");
        if bias == 0 || (bias == 2 && s.bool()) {
            let (w, x) = v.pop_back().expect("pop_back of a non-empty vector");
            hi -= 1;
            eq!(x, m[hi], "pop_back while draining");
            v = w;
        } else {
            let (w, x) = v.pop_front().expect("pop_front of a non-empty vector");
            eq!(x, m[lo], "pop_front while draining");
            lo += 1;
            v = w;
        }
    }
    ck!(v.is_empty() && v.pop_back().is_none() && v.pop_front().is_none(), "drained");
}
/// Element types that own something: nothing is dropped twice or leaked.
fn owned<S: Src>(s: &mut S) {
    tracked::reset();
    {
        let n = size(s).min(200);
        let mut v: PV<Tracked> = (0..n).map(|i| Tracked::new(i as u8)).collect();
        let mut m: Vec<u8> = (0..n).map(|i| i as u8).collect();
        for _ in 0..1 + s.below(5) {
            let x = s.u8();
            match s.below(5) {
                0 => {
                    v = v.push_back(Tracked::new(x));
                    m.push(x);
                },
                1 => {
                    v = v.push_front(Tracked::new(x));
                    m.insert(0, x);
                },
                2 => {
                    if let Some((w, a)) = v.pop_back() {
                        eq!(Some(a.get()), m.pop(), "pop_back");
                        v = w;
                    }
                },
                3 => {
                    if let Some((w, a)) = v.pop_front() {
                        eq!(a.get(), m.remove(0), "pop_front");
                        v = w;
                    }
                },
                _ => {
                    let i = index(s, m.len());
                    v = v.update(i, Tracked::new(x));
                    if i < m.len() {
                        m[i] = x;
                    }
                },
            }
        }
        eq!(seen(&v).iter().map(|t| t.get()).collect::<Vec<u8>>(), m, "contents of owned elements");
        tracked::check();
    }
    tracked::check();
    eq!(tracked::live(), 0, "every element is released exactly once");
}
/// Trees of three branch levels.
fn large<S: Src>(s: &mut S) {
    let n = 65_536 + [0, 1, 64, 65, 2_047, 2_112][s.below(6) as usize];
    let mut v: PV<usize> = (0..n).collect();
    let (front, back) = (s.below(200) as usize, s.below(200) as usize);
    for k in 0..front {
        v = v.push_front(n + k);
    }
    for k in 0..back {
        v = v.push_back(n + k);
    }
    let at = |i: usize| if i < front { n + front - 1 - i } else if i < front + n { i - front } else { i - front };
    for _ in 0..200 {
        let i = s.below((n + front + back) as u32) as usize;
        eq!(v.get(i), Some(&at(i)), "get in a large vector");
    }
    let i = s.below((n + front + back) as u32) as usize;
    let w = v.update(i, 1 << 30);
    eq!(w.get(i), Some(&(1 << 30)), "update in a large vector");
    for _ in 0..50 {
        let j = s.below((n + front + back) as u32) as usize;
        if j != i {
            eq!(w.get(j), Some(&at(j)), "update in a large vector leaves the others");
        }
    }
    eq!((v.len(), v.first(), v.last()), (n + front + back, Some(&at(0)), Some(&at(n + front + back - 1))), "ends of a large vector");
}

harnesses! {
    "C01";
    prove { }
    test { history 3.0, element 3.0, drain 1.0, owned 1.0, large 0.3 }
}
