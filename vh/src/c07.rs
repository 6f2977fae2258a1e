//! C07: Choice behaves as a (possibly empty) ordered list of alternatives.
#![allow(deprecated)]
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::choice::Choice;
use rustica::traits::applicative::Applicative;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use std::collections::HashMap;

type C = Choice<u8>;
const BIG: u32 = 11;

/// Builds a Choice from a list in one of several ways.
fn mk<S: Src, T: Clone>(s: &mut S, v: &[T]) -> Choice<T> {
    if v.is_empty() {
        return match s.below(3) {
            0 => Choice::new_empty(),
            1 => Choice::of_many(Vec::new()),
            _ => std::iter::empty::<T>().collect(),
        };
    }
    match s.below(7) {
        0 => Choice::new(v[0].clone(), v[1..].to_vec()),
        1 => Choice::from(v.to_vec()),
        2 => Choice::from(v),
        3 => Choice::of_many(many(s, v.to_vec())),
        4 => many(s, v.to_vec()).collect(),
        // iterators whose size hints are inexact
        5 => Choice::new(v[0].clone(), many(s, v[1..].to_vec())),
        _ => Choice::new(v[0].clone(), vec![]).add_alternatives(many(s, v[1..].to_vec())),
    }
}
fn un<T: Clone>(c: &Choice<T>) -> Vec<T> {
    c.iter().cloned().collect()
}
/// The iterators driven by arbitrary sequences of calls.
fn walks<S: Src>(s: &mut S) {
    let a = s.vec(BIG);
    let c = mk(s, &a);
    let refs: Vec<&u8> = a.iter().collect();
    walk(s, c.iter(), &refs, false, "iter");
    walk(s, (&c).into_iter(), &refs, false, "into_iter of a reference");
    walk(s, c.into_iter(), &a, false, "into_iter");
}
fn build<S: Src>(s: &mut S) {
    let (a, b) = (s.vec(BIG), s.vec(5));
    let c = mk(s, &a);
    eq!(un(&c), a, "construction");
    eq!(c.len(), a.len(), "len");
    eq!(c.is_empty(), a.is_empty(), "is_empty");
    eq!(c.first().copied(), a.first().copied(), "first");
    let rest: Vec<u8> = a.iter().skip(1).copied().collect();
    eq!(c.alternatives().to_vec(), rest, "alternatives");
    eq!(c.iter_alternatives().copied().collect::<Vec<_>>(), rest, "iter_alternatives");
    eq!(c.has_alternatives(), a.len() > 1, "has_alternatives");
    eq!(c.to_vec(), a, "to_vec");
    eq!(Vec::<u8>::from(c.clone()), a, "into Vec");
    eq!(c.clone().into_iter().collect::<Vec<_>>(), a, "into_iter");
    eq!((&c).into_iter().copied().collect::<Vec<_>>(), a, "ref into_iter");
    eq!(un(&<C as Monoid>::empty()), Vec::<u8>::new(), "empty");
    eq!(un(&C::default()), Vec::<u8>::new(), "default");
    if let Some(x) = a.first() {
        eq!(*c.value(), *x, "value");
        eq!(c.clone().into_value(), *x, "into_value");
    }
    eq!(un(&c.clone().add_alternatives(many(s, b.clone()))), [&a[..], &b[..]].concat(), "add_alternatives");
    let d = mk(s, &b);
    eq!(c == d, a == b, "equality is that of the lists");
    eq!(mk(s, &a), c, "equality does not depend on the construction");
}
fn combine<S: Src>(s: &mut S) {
    let (a, b, d) = (s.vec(BIG), s.vec(BIG), s.vec(4));
    let (x, y, z) = (mk(s, &a), mk(s, &b), mk(s, &d));
    let cat = [&a[..], &b[..]].concat();
    eq!(un(&x.combine(&y)), cat, "combine");
    eq!(un(&x.clone().combine_owned(y.clone())), cat, "combine_owned");
    eq!(un(&x.combine(&x)), [&a[..], &a[..]].concat(), "combine with itself");
    eq!(un(&x.clone().combine_owned(x.clone())), [&a[..], &a[..]].concat(), "combine_owned with itself");
    let all = [&a[..], &b[..], &d[..]].concat();
    let flat: Choice<u8> = vec![x.clone(), y.clone(), z.clone()].into_iter().collect();
    eq!(un(&flat), all, "collecting choices concatenates them");
    let sum: Choice<u8> = vec![x.clone(), y.clone(), z].into_iter().sum();
    eq!(un(&sum), all, "summing choices concatenates them");
    eq!(un(&x), a, "operands are unchanged");
    eq!(un(&y), b, "operands are unchanged");
}
fn functor<S: Src>(s: &mut S) {
    let (a, t, k) = (s.vec(BIG), s.tab(), s.u8());
    let c = mk(s, &a);
    let want: Vec<u8> = a.iter().map(|x| t.at(*x)).collect();
    eq!(un(&c.fmap(|x| t.at(*x))), want, "fmap");
    let seen = std::cell::RefCell::new(Vec::new());
    let got = c.clone().fmap_owned(|x| { seen.borrow_mut().push(x); t.at(x) });
    eq!(un(&got), want, "fmap_owned");
    eq!(*seen.borrow(), a, "fmap_owned visits every alternative once, in order");
    let mut want: Vec<u8> = a.clone();
    for x in want.iter_mut().skip(1) {
        *x = t.at(*x);
    }
    eq!(un(&c.fmap_alternatives(|x| t.at(*x))), want, "fmap_alternatives keeps the primary");
    eq!(un(&c.replace(&k)), vec![k; a.len()], "replace");
    eq!(un(&<C as Pure>::pure(&k)), vec![k], "pure");
    eq!(un(&<C as Pure>::pure_owned(k)), vec![k], "pure_owned");
}
fn select<S: Src>(s: &mut S) {
    let (a, p, t) = (s.vec(BIG), s.ptab(), s.tab());
    let c = mk(s, &a);
    eq!(un(&c.filter_values(|x| p.at(*x))), a.iter().copied().filter(|x| p.at(*x)).collect::<Vec<_>>(), "filter_values");
    let want: Vec<u8> = a.iter().enumerate().filter(|(i, x)| *i == 0 || p.at(**x)).map(|(_, x)| *x).collect();
    eq!(un(&c.filter(|x| p.at(*x))), want, "filter keeps the primary and the matching alternatives");
    eq!(c.find_first(|x| p.at(**x)).copied(), a.iter().copied().find(|x| p.at(*x)), "find_first");
    let mut want: Vec<u8> = Vec::new();
    for x in &a {
        if !want.contains(x) {
            want.push(*x);
        }
    }
    eq!(un(&c.dedup()), want, "dedup keeps the first of equal values");
    let mut want: Vec<u8> = Vec::new();
    let mut map: HashMap<u8, u8> = HashMap::new();
    for x in &a {
        if !want.iter().any(|y| t.at(*y) == t.at(*x)) {
            want.push(*x);
            map.insert(t.at(*x), *x);
        }
    }
    eq!(un(&c.dedup_by_key(|x| t.at(*x))), want, "dedup_by_key keeps the first of equal keys");
    eq!(c.to_map_with_key(|x| t.at(*x)), map, "to_map_with_key keeps the first of equal keys");
    let f = Tab2(t, s.tab());
    let i = s.u8();
    eq!(c.fold(i, |acc, x| f.at(acc, *x)), a.iter().fold(i, |acc, x| f.at(acc, *x)), "fold");
    eq!(c.fold_left(&i, |acc, x| f.at(*acc, *x)), a.iter().fold(i, |acc, x| f.at(acc, *x)), "fold_left");
    eq!(c.fold_right(&i, |x, acc| f.at(*acc, *x)), a.iter().rev().fold(i, |acc, x| f.at(acc, *x)), "fold_right");
}
/// Alternatives that are equal without being the same.
fn ties<S: Src>(s: &mut S) {
    let a = tied(s, BIG);
    let c = mk(s, &a);
    let tags = |l: &[Tied]| l.iter().map(Tied::both).collect::<Vec<_>>();
    let mut want: Vec<Tied> = Vec::new();
    let mut first: HashMap<u8, u8> = HashMap::new();
    for x in &a {
        if !want.contains(x) {
            want.push(*x);
        }
        first.entry(x.key).or_insert(x.tag);
    }
    eq!(tags(&un(&c.dedup())), tags(&want), "dedup keeps the first of equal values");
    eq!(tags(&un(&c.dedup_by_key(|x| *x))), tags(&want), "dedup_by_key keeps the first of equal keys");
    let seen: HashMap<u8, u8> = c.to_map_with_key(|x| x.key).into_iter().map(|(k, x)| (k, x.tag)).collect();
    eq!(seen, first, "to_map_with_key keeps the first of equal keys");
    // different values with the same hash
    let k: Vec<Clash> = a.iter().map(|x| Clash(x.key)).collect();
    let mut want: Vec<Clash> = Vec::new();
    let mut rest: Vec<u8> = Vec::new();
    for (x, t) in k.iter().zip(&a) {
        if !want.contains(x) {
            want.push(*x);
            rest.push(t.tag);
        }
    }
    eq!(un(&mk(s, &k).dedup()), want, "dedup compares the values, not their hashes");
    eq!(un(&c.dedup_by_key(|x| Clash(x.key))).iter().map(|x| x.tag).collect::<Vec<_>>(), rest, "dedup_by_key compares the keys, not their hashes");
    let map: HashMap<Clash, u8> = c.to_map_with_key(|x| Clash(x.key)).into_iter().map(|(k, x)| (k, x.tag)).collect();
    eq!(map, want.iter().copied().zip(rest).collect::<HashMap<Clash, u8>>(), "to_map_with_key compares the keys, not their hashes");
    if !a.is_empty() {
        // one item per value: the primary stays, the alternatives are sorted, equal ones in their order
        let b: Vec<Vec<Tied>> = a.iter().map(|x| vec![*x]).collect();
        let mut want = a[1..].to_vec();
        want.sort();
        want.insert(0, a[0]);
        eq!(tags(&un(&mk(s, &b).flatten_sorted())), tags(&want), "flatten_sorted keeps equal values in their order");
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
fn index<S: Src>(s: &mut S) {
    let (a, i) = (s.vec(BIG), s.below(12) as usize);
    let c = mk(s, &a);
    let (mut rem, mut swp) = (None, None);
    if a.len() > 1 && i + 1 < a.len() {
        let mut r = a.clone();
        r.remove(i + 1);
        rem = Some(r);
        let mut w = a.clone();
        w.swap(0, i + 1);
        swp = Some(w);
    }
    eq!(c.clone().try_remove_alternative(i).ok().map(|c| un(&c)), rem, "try_remove_alternative");
    eq!(c.clone().try_swap_with_alternative(i).ok().map(|c| un(&c)), swp, "try_swap_with_alternative");
    if let Some(r) = rem {
        eq!(un(&c.clone().remove_alternative(i)), r, "remove_alternative");
        eq!(Some(un(&c.clone().swap_with_alternative(i))), swp, "swap_with_alternative");
    }
}
fn monad<S: Src>(s: &mut S) {
    let a = s.vec(9);
    let c = mk(s, &a);
    let tab: Vec<Vec<u8>> = (0..4).map(|_| s.vec(4)).collect();
    let tab2: Vec<Vec<u8>> = (0..4).map(|_| s.vec(3)).collect();
    let k = |x: u8| tab[(x & 3) as usize].clone();
    let h = |x: u8| tab2[(x & 3) as usize].clone();
    let ch = |v: Vec<u8>| -> C { v.into_iter().collect() };
    let want: Vec<u8> = a.iter().flat_map(|x| k(*x)).collect();
    eq!(un(&c.bind(|x| ch(k(*x)))), want, "bind");
    let seen = std::cell::RefCell::new(Vec::new());
    eq!(un(&c.clone().bind_owned(|x| { seen.borrow_mut().push(x); ch(k(x)) })), want, "bind_owned");
    eq!(*seen.borrow(), a, "bind_owned visits every alternative once, in order");
    eq!(c.bind_lazy(|x| ch(k(*x))).collect::<Vec<_>>(), want, "bind_lazy");
    let nested: Vec<C> = a.iter().map(|x| ch(k(*x))).collect();
    let cc = mk(s, &nested);
    eq!(un(&cc.join::<u8>()), want, "join");
    eq!(un(&cc.clone().join_owned::<u8>()), want, "join_owned");
    let x = s.u8();
    eq!(un(&<C as Pure>::pure(&x).bind(|x| ch(k(*x)))), k(x), "left identity");
    eq!(un(&c.bind(|x| <C as Pure>::pure(x))), a, "right identity");
    eq!(
        un(&c.bind(|x| ch(k(*x))).bind(|y| ch(h(*y)))),
        un(&c.bind(|x| ch(k(*x)).bind(|y| ch(h(*y))))),
        "associativity"
    );
}
fn flatten<S: Src>(s: &mut S) {
    let n = s.len(6) as usize;
    let a: Vec<Vec<u8>> = (0..n).map(|_| s.vec(5)).collect();
    let m: Vec<Many<u8>> = a.iter().map(|l| many(s, l.clone())).collect();
    let c = mk(s, &m);
    let cat = a.concat();
    let ok = a.first().map(|f| !f.is_empty()).unwrap_or(true);
    eq!(c.try_flatten::<u8>().ok().map(|c| un(&c)), if ok { Some(cat.clone()) } else { None }, "try_flatten");
    if ok {
        eq!(un(&c.flatten::<u8>()), cat, "flatten");
        let mut want = cat.clone();
        if !want.is_empty() {
            want[1..].sort();
        }
        eq!(un(&c.flatten_sorted::<u8>()), want, "flatten_sorted keeps the primary and sorts the rest");
    }
    let m = s.len(6) as usize;
    let o: Vec<Option<u8>> = (0..m).map(|_| s.opt()).collect();
    let want: Option<Vec<u8>> = o.iter().cloned().collect();
    eq!(mk(s, &o).sequence().map(|c| un(&c)), want, "sequence");
}
fn applicative<S: Src>(s: &mut S) {
    let (a, b, d) = (s.vec(4), s.vec(4), s.vec(3));
    let (t, u) = (s.tab2(), s.tab3());
    let (x, y, z) = (mk(s, &a), mk(s, &b), mk(s, &d));
    let mut w2 = Vec::new();
    let mut w3 = Vec::new();
    for p in &a {
        for q in &b {
            w2.push(t.at(*p, *q));
            for r in &d {
                w3.push(u.at(*p, *q, *r));
            }
        }
    }
    eq!(un(&C::lift2(|p: &u8, q: &u8| t.at(*p, *q), &x, &y)), w2, "lift2");
    eq!(un(&C::lift2_owned(|p: u8, q: u8| t.at(p, q), x.clone(), y.clone())), w2, "lift2_owned");
    eq!(un(&C::lift3(|p: &u8, q: &u8, r: &u8| u.at(*p, *q, *r), &x, &y, &z)), w3, "lift3");
    eq!(un(&C::lift3_owned(|p: u8, q: u8, r: u8| u.at(p, q, r), x.clone(), y.clone(), z)), w3, "lift3_owned");
    // one choice as several arguments
    let of = |p: &[u8], q: &[u8]| p.iter().flat_map(|x| q.iter().map(|y| t.at(*x, *y))).collect::<Vec<u8>>();
    eq!(un(&C::lift2(|p: &u8, q: &u8| t.at(*p, *q), &x, &x)), of(&a, &a), "lift2 of one choice");
    eq!(un(&C::ap2(|p: &u8, q: &u8| t.at(*p, *q), &x, &x)), of(&a, &a), "ap2 of one choice");
    for (p, q, r, l, m, n) in [(&x, &x, &x, &a, &a, &a), (&x, &x, &y, &a, &a, &b), (&x, &y, &x, &a, &b, &a), (&y, &x, &x, &b, &a, &a)] {
        let mut want = Vec::new();
        for i in l {
            for j in m {
                want.extend(n.iter().map(|k| u.at(*i, *j, *k)));
            }
        }
        eq!(un(&C::lift3(|p: &u8, q: &u8, r: &u8| u.at(*p, *q, *r), p, q, r)), want, "lift3 of one choice twice");
    }
    // apply pairs every function with every value; the first of each give the primary
    let mut wa = Vec::new();
    for q in &b {
        for p in &a {
            wa.push(t.at(*p, *q));
        }
    }
    let fs: Vec<_> = a.iter().map(|p| { let p = *p; move |q: &u8| t.at(p, *q) }).collect();
    let f = mk(s, &fs);
    eq!(un(&Applicative::apply(&f, &y)), wa, "apply");
    let fs: Vec<_> = a.iter().map(|p| { let p = *p; move |q: u8| t.at(p, q) }).collect();
    let f = mk(s, &fs);
    eq!(un(&Applicative::apply_owned(f, y)), wa, "apply_owned");
}
fn display<S: Src>(s: &mut S) {
    let a = s.vec(5);
    let c = mk(s, &a);
    let mut want = String::new();
    if let Some(x) = a.first() {
        want = x.to_string();
        if a.len() > 1 {
            want += " | ";
            want += &a[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
        }
    }
    eq!(format!("{}", c), want, "display");
}
crate::harnesses! { "C07";
    prove { }
    test { build 2.0, walks 0.7, combine 1.0, functor 1.0, select 1.0, ties 0.5, index 1.0, monad 2.0, flatten 1.0, applicative 2.0, display 0.5 } }
