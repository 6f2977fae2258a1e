//! C03: persistent vector iteration and bulk operations agree with a plain sequence.
use crate::pv::*;
use crate::src::*;
use crate::{ck, eq};
use rustica::pvec::{pvec, PersistentVector as PV};
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::datatypes::wrapper::{first::First, last::Last};

fn iterate<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let m = seen(&v);
    let mut it = v.iter();
    for (i, x) in m.iter().enumerate() {
        eq!(it.len(), m.len() - i, "iter reports the remaining length");
        eq!(it.size_hint(), (m.len() - i, Some(m.len() - i)), "iter size_hint");
        eq!(it.next(), Some(x), "iter visits every element in order");
    }
    eq!(it.len(), 0, "iter at the end");
    eq!(it.next(), None, "iter ends after the last element");
    eq!(it.next(), None, "iter stays at the end");
    let mut it = v.clone().into_iter();
    for (i, x) in m.iter().enumerate() {
        eq!(it.len(), m.len() - i, "into_iter reports the remaining length");
        eq!(it.size_hint(), (m.len() - i, Some(m.len() - i)), "into_iter size_hint");
        eq!(it.next(), Some(*x), "into_iter visits every element in order");
    }
    eq!(it.next(), None, "into_iter ends after the last element");
    eq!(it.len(), 0, "into_iter at the end");
    let mut k = 0;
    for x in &v {
        eq!(Some(x), m.get(k), "a for loop visits every element in order");
        k += 1;
    }
    eq!(k, m.len(), "a for loop visits every element");
    // adaptors that jump
    let j = index(s, m.len());
    eq!(v.iter().nth(j), m.get(j), "nth");
    eq!(v.iter().skip(j).count(), m.len().saturating_sub(j), "count after skip");
    eq!(v.iter().last(), m.last(), "last through the iterator");
    let step = 1 + s.below(70) as usize;
    eq!(v.iter().step_by(step).copied().collect::<Vec<u32>>(), m.iter().step_by(step).copied().collect::<Vec<u32>>(), "step_by");
}
/// The iterators driven by arbitrary sequences of calls.
fn walks<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let m = seen(&v);
    let refs: Vec<&u32> = m.iter().collect();
    walk(s, v.iter(), &refs, true, "iter");
    walk(s, (&v).into_iter(), &refs, true, "into_iter of a reference");
    walk(s, v.into_iter(), &m, true, "into_iter");
}
fn build<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let n = size(s);
    let m = fresh.many(n);
    eq!(seen(&PV::from_slice(&m)), m, "from_slice");
    eq!(seen(&PV::from(m.clone())), m, "from Vec");
    eq!(seen(&many(s, m.clone()).collect::<PV<u32>>()), m, "from_iter");
    // an iterator that does not know its length
    eq!(seen(&m.iter().copied().filter(|x| x % 2 == 0).collect::<PV<u32>>()), m.iter().copied().filter(|x| x % 2 == 0).collect::<Vec<u32>>(), "from_iter of a filter");
    eq!(seen(&pvec![n as u32, 1, 2]), vec![n as u32, 1, 2], "pvec!");
    let mut v = any(s, &mut fresh);
    let mut w = seen(&v);
    v.extend(many(s, m.clone()));
    w.extend(m.iter().copied());
    eq!(seen(&v), w, "extend");
    eq!(v.to_vec(), w, "to_vec");
    eq!(Vec::from(v.clone()), w, "Vec from a persistent vector");
    eq!(seen(&PV::from(v.to_vec())), w, "round trip through Vec");
}
fn bulk<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let m = seen(&v);
    let (t, p) = (s.tab(), s.ptab());
    let f = |x: &u32| t.at(*x as u8) as u64 * 100_000 + *x as u64;
    let mapped: Vec<u64> = m.iter().map(f).collect();
    eq!(seen(&v.map(f)), mapped, "map");
    eq!(seen(&v.fmap(f)), mapped, "fmap");
    eq!(seen(&v.clone().fmap_owned(|x| f(&x))), mapped, "fmap_owned");
    let q = |x: &u32| p.at(*x as u8);
    let kept: Vec<u32> = m.iter().copied().filter(q).collect();
    eq!(seen(&v.filter(q)), kept, "filter");
    let (a, b) = v.partition(q);
    eq!(seen(&a), kept, "partition: accepted");
    eq!(seen(&b), m.iter().copied().filter(|x| !q(x)).collect::<Vec<u32>>(), "partition: rejected");
    let g = |x: &u32| if q(x) { Some(f(x)) } else { None };
    eq!(seen(&v.filter_map(g)), m.iter().filter_map(g).collect::<Vec<u64>>(), "filter_map");
    let h = |x: &u32| vec![*x; (t.at(*x as u8) % 4) as usize];
    eq!(seen(&v.flat_map(h)), m.iter().flat_map(h).collect::<Vec<u32>>(), "flat_map");
    let mut d = m.clone();
    d.dedup();
    eq!(seen(&v.dedup()), d, "dedup");
    let key = |x: &u32| (t.at(*x as u8), *x);
    let sorted: PV<(u8, u32)> = v.map(key).sorted();
    let mut want: Vec<(u8, u32)> = m.iter().map(key).collect();
    want.sort();
    eq!(seen(&sorted), want, "sorted");
    let size = s.below(130) as usize;
    let chunks: Vec<Vec<u32>> = seen(&v.chunk(size)).iter().map(seen).collect();
    let want: Vec<Vec<u32>> = if size == 0 { vec![] } else { m.chunks(size).map(|c| c.to_vec()).collect() };
    eq!(chunks, want, "chunk");
    let w = any(s, &mut fresh);
    eq!(seen(&v.zip(&w)), m.iter().copied().zip(seen(&w)).collect::<Vec<(u32, u32)>>(), "zip");
}
fn folds<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let m = seen(&v);
    let step = |a: u64, x: u32| a.wrapping_mul(31).wrapping_add(x as u64);
    let left = m.iter().fold(7, |a, x| step(a, *x));
    eq!(v.fold(7, |a, x| step(a, *x)), left, "fold");
    eq!(v.fold_left(&7, |a, x| step(*a, *x)), left, "fold_left");
    eq!(v.fold_right(&7, |x, a| step(*a, *x)), m.iter().rev().fold(7, |a, x| step(a, *x)), "fold_right");
    eq!(v.length(), m.len(), "length");
    eq!(Foldable::is_empty(&v), m.is_empty(), "Foldable is_empty");
    let p = s.ptab();
    let q = |x: &u32| p.at((*x >> 3) as u8) && p.at(*x as u8);
    eq!(FoldableExt::find(&v, q), m.iter().copied().find(|x| q(x)), "find");
    eq!(FoldableExt::all(&v, q), m.iter().all(q), "all");
    eq!(FoldableExt::any(&v, q), m.iter().any(q), "any");
    let y = s.below(300);
    eq!(FoldableExt::contains(&v, &y), m.contains(&y), "contains");
    eq!(FoldableExt::to_vec(&v), m, "FoldableExt to_vec");
    eq!(FoldableExt::maximum(&v), m.iter().copied().max(), "maximum");
    eq!(FoldableExt::minimum(&v), m.iter().copied().min(), "minimum");
    eq!(v.fold_map(|x| First(Some(*x))), First(m.first().copied()), "fold_map First");
    eq!(v.fold_map(|x| Last(Some(*x))), Last(m.last().copied()), "fold_map Last");
    eq!(v.fold_map(|x| vec![*x]), m, "fold_map into a list");
    eq!(v.clone().try_into_value(), m.first().copied(), "try_into_value");
}
/// Elements that are equal without being the same.
fn ties<S: Src>(s: &mut S) {
    let m = tied(s, 40);
    let v: PV<Tied> = if s.bool() { m.iter().copied().collect() } else { m.iter().rev().fold(PV::new(), |v, x| v.push_front(*x)) };
    let tags = |l: Vec<Tied>| l.iter().map(Tied::both).collect::<Vec<_>>();
    let (mut so, mut de) = (m.clone(), m.clone());
    so.sort();
    de.dedup();
    eq!(tags(v.sorted().to_vec()), tags(so), "sorted keeps equal elements in their order");
    eq!(tags(v.dedup().to_vec()), tags(de), "dedup keeps the first of equal elements");
    let y = Tied { key: s.below(4) as u8, tag: 255 };
    eq!(v.find(|x| *x == y).map(|x| x.both()), m.iter().find(|x| **x == y).map(|x| x.both()), "find the first of equal elements");
}
/// Trees of three branch levels.
fn large<S: Src>(s: &mut S) {
    let n = 65_536 + [1, 63, 64, 65, 2_047, 2_112, 4_500, 65_600][s.below(8) as usize] + s.below(3) as usize;
    let v: PV<usize> = (0..n).collect();
    eq!(v.len(), n, "length of a large vector");
    let mut i = 0;
    for x in v.iter() {
        ck!(*x == i, "iterating a large vector visits every element in order");
        i += 1;
    }
    eq!(i, n, "iterating a large vector visits every element");
    let w = v.map(|x| x + 1);
    let j = s.below(n as u32) as usize;
    eq!(w.get(j), Some(&(j + 1)), "map of a large vector");
}

harnesses! {
    "C03";
    prove { }
    test { iterate 1.0, walks 1.0, build 1.0, bulk 2.0, folds 1.0, ties 0.5, large 0.3 }
}
