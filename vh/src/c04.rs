//! C04: persistent vectors are values: persistence and structural equality.
use crate::pv::*;
use crate::src::*;
use crate::{ck, eq};
use rustica::pvec::PersistentVector as PV;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
/// Every version keeps its contents while later ones are derived from it.
fn persistence<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let mut pool: Vec<Pair> = Vec::new();
    let mut kept: Vec<(PV<u32>, Vec<u32>)> = Vec::new();
    for _ in 0..2 + s.below(12) {
        step(s, &mut fresh, &mut pool);
        let v = pool.last().unwrap().0.clone();
        let m = seen(&v);
        kept.push((v, m));
    }
    for (v, m) in &kept {
        eq!(seen(v), *m, "an older version keeps its contents");
    }
}
fn one_step<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let w = any(s, &mut fresh);
    let (c, m, n) = (v.clone(), seen(&v), seen(&w));
    let x = fresh.get();
    let i = index(s, m.len());
    let mut e = v.clone();
    match s.below(12) {
        0 => drop(v.push_back(x)),
        1 => drop(v.push_front(x)),
        2 => drop(v.pop_back()),
        3 => drop(v.pop_front()),
        4 => drop(v.update(i, x)),
        5 => drop(v.concat(&w)),
        6 => drop(w.concat(&v)),
        7 => drop(v.split_at(i)),
        8 => drop(v.insert(i, x)),
        9 => drop(v.remove(i)),
        10 => e.extend(n.iter().copied().take(100)),
        _ => drop((v.map(|x| x + 1), v.filter(|x| x % 2 == 0), v.sorted(), v.dedup(), v.chunk(7))),
    }
    eq!(seen(&v), m, "the vector an operation is applied to keeps its contents");
    eq!(seen(&c), m, "a clone keeps its contents");
    eq!(seen(&w), n, "the other operand keeps its contents");
}
/// Two vectors with the same or almost the same elements and different histories.
fn compare<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let a = any(s, &mut fresh);
    let ma = seen(&a);
    let b = match s.below(8) {
        0 => any(s, &mut fresh),
        1 => small(s, &mut fresh),
        2 => PV::from_slice(&ma),
        3 => {
            let k = index(s, ma.len());
            let (l, r) = a.split_at(k);
            l.concat(&r)
        },
        4 => ma.iter().rev().fold(PV::new(), |v, x| v.push_front(*x)),
        5 => a.push_back(9).pop_back().unwrap().0,
        6 => {
            let k = index(s, ma.len());
            a.update(k, s.u8() as u32)
        },
        _ => {
            let k = index(s, ma.len());
            a.take(k)
        },
    };
    let mb = seen(&b);
    eq!(a == b, ma == mb, "equality is equality of the elements");
    eq!(a != b, ma != mb, "inequality is inequality of the elements");
    eq!(a.cmp(&b), ma.cmp(&mb), "the order is the order of the elements");
    eq!(b.cmp(&a), mb.cmp(&ma), "the order, other way");
    eq!(a.partial_cmp(&b), ma.partial_cmp(&mb), "the partial order is the order of the elements");
    eq!(a < b, ma < mb, "less than");
    eq!(a >= b, ma >= mb, "at least");
    if ma == mb {
        eq!(hash(&a), hash(&b), "equal vectors hash equally");
    }
    ck!(a == a.clone() && hash(&a) == hash(&a.clone()), "a clone is equal and hashes equally");
}

/// Elements that are equal without being the same, and different ones with the same hash.
fn compare_ties<S: Src>(s: &mut S) {
    let x = tied(s, 40);
    let mut y: Vec<Tied> = x.iter().map(|e| Tied { key: e.key, tag: e.tag ^ 1 }).collect();
    match s.below(4) {
        0 if !y.is_empty() => {
            let i = index(s, y.len()) % y.len();
            y[i].key ^= 1;
        },
        1 => drop(y.pop()),
        _ => {},
    }
    let (a, b): (PV<Tied>, PV<Tied>) = (x.iter().copied().collect(), y.iter().rev().fold(PV::new(), |v, e| v.push_front(*e)));
    eq!(a == b, x == y, "equality is equality of the elements");
    eq!(a.cmp(&b), x.cmp(&y), "the order is the order of the elements");
    if x == y {
        eq!(hash(&a), hash(&b), "equal vectors hash equally");
    }
    let c: PV<Clash> = x.iter().map(|e| Clash(e.key)).collect();
    let d: PV<Clash> = y.iter().map(|e| Clash(e.key)).collect();
    eq!(c == d, x == y, "equality compares the elements, not their hashes");
    eq!(c.cmp(&d), x.cmp(&y), "the order compares the elements");
}
/// Elements that are only partially ordered.
fn compare_floats<S: Src>(s: &mut S) {
    let mut fl = |s: &mut S| -> f64 {
        match s.below(4) {
            0 => f64::NAN,
            1 => 0.0,
            2 => -0.0,
            _ => 1.5,
        }
    };
    let n = s.below(4);
    let ma: Vec<f64> = (0..n).map(|_| fl(s)).collect();
    let n = s.below(4);
    let mb: Vec<f64> = (0..n).map(|_| fl(s)).collect();
    let a: PV<f64> = ma.iter().rev().fold(PV::new(), |v, x| v.push_front(*x));
    let b: PV<f64> = mb.iter().copied().collect();
    // the same storage is no reason for equality when an element is not equal to itself
    let n = [0, 3, 40, 70, 1100][s.below(5) as usize];
    let big: Vec<f64> = (0..n).map(|_| if s.below(64) == 0 { f64::NAN } else { 2.0 }).collect();
    let c: PV<f64> = big.iter().copied().collect();
    let d = c.clone();
    eq!(c == d, big == big.clone(), "equality of a vector of floats and its clone");
    eq!(c.partial_cmp(&d), big.partial_cmp(&big.clone()), "order of a vector of floats and its clone");
    eq!(a == b, ma == mb, "equality of floats");
    eq!(a.partial_cmp(&b), ma.partial_cmp(&mb), "partial order of floats");
}
harnesses! {
    "C04";
    prove { }
    test { persistence 2.0, one_step 2.0, compare 3.0, compare_ties 0.5, compare_floats 0.5 }
}
