//! C09: Writer keeps the whole log in program order.
#![allow(deprecated)]
use crate::c05::{aff, Aff};
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::writer::Writer;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use std::cell::Cell;

type W<T> = Writer<Aff, T>;

fn basics<S: Src>(s: &mut S) {
    let (l, x, k) = (aff(s), s.u8(), s.u8());
    let w = W::new(l, x);
    eq!(w.clone().run(), (l, x), "run");
    eq!(w.unwrap(), x, "unwrap");
    eq!(w.clone().log(), l, "log");
    eq!(W::<()>::tell(l).run(), (l, ()), "tell");
    eq!(W::pure_value(x).run(), (Aff::empty(), x), "pure_value");
    eq!(<W<u8> as Pure>::pure(&x).run(), (Aff::empty(), x), "pure");
    eq!(<W<u8> as Pure>::pure_owned(x).run(), (Aff::empty(), x), "pure_owned");
    eq!(*w.value(), x, "value");
    eq!(w.clone().into_value(), x, "into_value");
    let (l2, x2) = (aff(s), aff(s));
    let a = W::new(l, x2);
    let b = W::new(l2, Aff(x, k, 1));
    eq!(a.combine(&b).run(), (l.then(l2), x2.then(Aff(x, k, 1))), "combine");
    eq!(a.combine(&a).run(), (l.then(l), x2.then(x2)), "combine with itself");
    eq!(a.clone().combine_owned(a.clone()).run(), (l.then(l), x2.then(x2)), "combine_owned with itself");
    eq!(a.clone().combine_owned(b).run(), (l.then(l2), x2.then(Aff(x, k, 1))), "combine_owned");
    eq!(<W<Aff> as Monoid>::empty().run(), (Aff::empty(), Aff::empty()), "empty");
}
fn functor<S: Src>(s: &mut S) {
    let (l, x, t, k) = (aff(s), s.u8(), s.tab(), s.u8());
    let w = W::new(l, x);
    let n = Cell::new(0u8);
    eq!(w.fmap(|v| { n.set(n.get() + 1); t.at(*v) }).run(), (l, t.at(x)), "fmap");
    eq!(w.clone().fmap_owned(|v| { n.set(n.get() + 1); t.at(v) }).run(), (l, t.at(x)), "fmap_owned");
    eq!(n.get(), 2, "fmap calls the function once");
    eq!(w.replace(&k).run(), (l, k), "replace");
    eq!(w.run(), (l, x), "mapping by reference leaves the writer unchanged");
}
fn apply<S: Src>(s: &mut S) {
    let (l, m, t, x, i) = (aff(s), aff(s), s.tab2(), s.u8(), s.u8());
    let want = (l.then(m), t.at(i, x));
    let f = W::new(l, move |v: &u8| t.at(i, *v));
    eq!(Applicative::apply(&f, &W::new(m, x)).run(), want, "apply");
    let f = W::new(l, move |v: u8| t.at(i, v));
    eq!(Applicative::apply_owned(f, W::new(m, x)).run(), want, "apply_owned");
}
fn lift2<S: Src>(s: &mut S) {
    let (l, m, t, x, y) = (aff(s), aff(s), s.tab2(), s.u8(), s.u8());
    let (a, b) = (W::new(l, x), W::new(m, y));
    let want = (l.then(m), t.at(x, y));
    eq!(W::<u8>::lift2(|p: &u8, q: &u8| t.at(*p, *q), &a, &b).run(), want, "lift2");
    eq!(W::<u8>::ap2(|p: &u8, q: &u8| t.at(*p, *q), &a, &b).run(), want, "ap2");
    eq!(W::<u8>::sequence_right::<u8, u8>(&a, &b).run(), (l.then(m), y), "sequence_right");
    eq!(W::<u8>::sequence_left::<u8, u8>(&a, &b).run(), (l.then(m), x), "sequence_left");
    eq!(W::<u8>::sequence_right_owned::<u8, u8>(a.clone(), b.clone()).run(), (l.then(m), y), "sequence_right_owned");
    eq!(W::<u8>::sequence_left_owned::<u8, u8>(a.clone(), b.clone()).run(), (l.then(m), x), "sequence_left_owned");
    if !s.symbolic() {
        // one writer as several arguments
        eq!(W::<u8>::lift2(|p: &u8, q: &u8| t.at(*p, *q), &a, &a).run(), (l.then(l), t.at(x, x)), "lift2 of one writer");
        eq!(W::<u8>::ap2(|p: &u8, q: &u8| t.at(*p, *q), &a, &a).run(), (l.then(l), t.at(x, x)), "ap2 of one writer");
        eq!(W::<u8>::sequence_right::<u8, u8>(&a, &a).run(), (l.then(l), x), "sequence_right of one writer");
        eq!(W::<u8>::sequence_left::<u8, u8>(&a, &a).run(), (l.then(l), x), "sequence_left of one writer");
        let u = s.tab3();
        for (p, q, r) in [(&a, &a, &a), (&a, &a, &b), (&a, &b, &a), (&b, &a, &a)] {
            let ((i, v), (j, w), (k, z)) = (p.clone().run(), q.clone().run(), r.clone().run());
            eq!(W::<u8>::lift3(|p: &u8, q: &u8, r: &u8| u.at(*p, *q, *r), p, q, r).run(), (i.then(j).then(k), u.at(v, w, z)), "lift3 of one writer twice");
        }
    }
    eq!(W::<u8>::lift2_owned(|p: u8, q: u8| t.at(p, q), a, b).run(), want, "lift2_owned");
}
fn lift3<S: Src>(s: &mut S) {
    let (l, m, n, t) = (aff(s), aff(s), aff(s), s.tab3());
    let (x, y, z) = (s.u8(), s.u8(), s.u8());
    let (a, b, c) = (W::new(l, x), W::new(m, y), W::new(n, z));
    let want = (l.then(m).then(n), t.at(x, y, z));
    eq!(W::<u8>::lift3(|p: &u8, q: &u8, r: &u8| t.at(*p, *q, *r), &a, &b, &c).run(), want, "lift3");
    eq!(W::<u8>::lift3_owned(|p: u8, q: u8, r: u8| t.at(p, q, r), a, b, c).run(), want, "lift3_owned");
}
fn bind<S: Src>(s: &mut S) {
    let (l, x, t) = (aff(s), s.u8(), s.tab());
    let ks = [aff(s), aff(s), aff(s), aff(s)];
    let k = |v: u8| W::new(ks[(v & 3) as usize], t.at(v));
    let w = W::new(l, x);
    let want = (l.then(ks[(x & 3) as usize]), t.at(x));
    let n = Cell::new(0u8);
    eq!(w.bind(|v| { n.set(n.get() + 1); k(*v) }).run(), want, "bind");
    eq!(w.bind_owned(|v| { n.set(n.get() + 1); k(v) }).run(), want, "bind_owned");
    eq!(n.get(), 2, "bind calls the function once");
    eq!(<W<u8> as Pure>::pure(&x).bind(|v| k(*v)).run(), k(x).run(), "left identity");
    eq!(W::new(l, x).bind(|v| <W<u8> as Pure>::pure(v)).run(), (l, x), "right identity");
}
fn assoc<S: Src>(s: &mut S) {
    let (l, x, t, u) = (aff(s), s.u8(), s.tab(), s.tab());
    let (ks, hs) = ([aff(s), aff(s), aff(s), aff(s)], [aff(s), aff(s), aff(s), aff(s)]);
    let k = |v: u8| W::new(ks[(v & 3) as usize], t.at(v));
    let h = |v: u8| W::new(hs[(v & 3) as usize], u.at(v));
    let w = W::new(l, x);
    eq!(
        w.bind(|v| k(*v)).bind(|v| h(*v)).run(),
        w.bind(|v| k(*v).bind(|v| h(*v))).run(),
        "associativity"
    );
}
fn join<S: Src>(s: &mut S) {
    let (l, m, x) = (aff(s), aff(s), s.u8());
    let w = W::new(l, W::new(m, x));
    eq!(w.join::<u8>().run(), (l.then(m), x), "join");
    eq!(w.join_owned::<u8>().run(), (l.then(m), x), "join_owned");
}
/// Arbitrary programs over a list log, against the list of entries in program order.
fn program<S: Src>(s: &mut S) {
    type P = Writer<Vec<u8>, u8>;
    fn gen_<S: Src>(s: &mut S, d: u32, log: &mut Vec<u8>) -> (P, u8) {
        let op = if d == 0 { s.below(3) } else { s.below(12) };
        match op {
            0 => {
                let x = s.u8();
                (P::pure_value(x), x)
            },
            1 | 2 => {
                let (l, x) = (s.vec(3), s.u8());
                log.extend(l.iter().copied());
                (P::new(l, x), x)
            },
            3 => {
                let t = s.tab();
                let (p, v) = gen_(s, d - 1, log);
                (p.fmap(|x| t.at(*x)), t.at(v))
            },
            4 => {
                let t = s.tab();
                let (p, v) = gen_(s, d - 1, log);
                (p.fmap_owned(|x| t.at(x)), t.at(v))
            },
            5 | 6 => {
                let t = s.tab2();
                let (p, v) = gen_(s, d - 1, log);
                let mut l2 = Vec::new();
                let (q, w) = gen_(s, d - 1, &mut l2);
                log.extend(l2);
                let f = |x: u8| q.fmap(|y| t.at(x, *y));
                (if op == 5 { p.bind(|x| f(*x)) } else { p.bind_owned(f) }, t.at(v, w))
            },
            7 | 8 => {
                let t = s.tab2();
                let (p, v) = gen_(s, d - 1, log);
                let (q, w) = gen_(s, d - 1, log);
                let r = if op == 7 {
                    P::lift2(|a: &u8, b: &u8| t.at(*a, *b), &p, &q)
                } else {
                    P::lift2_owned(|a: u8, b: u8| t.at(a, b), p, q)
                };
                (r, t.at(v, w))
            },
            9 => {
                let t = s.tab3();
                let (p, v) = gen_(s, d - 1, log);
                let (q, w) = gen_(s, d - 1, log);
                let (r, z) = gen_(s, d - 1, log);
                let o = if s.bool() {
                    P::lift3(|a: &u8, b: &u8, c: &u8| t.at(*a, *b, *c), &p, &q, &r)
                } else {
                    P::lift3_owned(|a: u8, b: u8, c: u8| t.at(a, b, c), p, q, r)
                };
                (o, t.at(v, w, z))
            },
            10 => {
                let t = s.tab2();
                let (p, v) = gen_(s, d - 1, log);
                let (q, w) = gen_(s, d - 1, log);
                let f = p.fmap(|x| { let x = *x; move |y: &u8| t.at(x, *y) });
                (Applicative::apply(&f, &q), t.at(v, w))
            },
            _ => {
                let l = s.vec(3);
                log.extend(l.iter().copied());
                let (p, v) = gen_(s, d - 1, log);
                (Writer::new(l, p).join_owned::<u8>(), v)
            },
        }
    }
    let mut log = Vec::new();
    let (p, v) = gen_(s, 3, &mut log);
    eq!(p.clone().run(), (log.clone(), v), "program");
    eq!(p.log(), log, "log");
}
crate::harnesses! { "C09";
    prove { basics 2, functor 2, apply 2, lift2 2, lift3 2, bind 2, assoc 2, join 2 }
    test { program 4.0 } }
