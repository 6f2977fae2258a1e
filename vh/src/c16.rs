//! C16: predicates form a boolean algebra.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;

fn pr(t: PTab) -> Predicate<u8> {
    Predicate::new(move |x: &u8| t.at(*x))
}
fn named<S: Src>(s: &mut S) {
    let (p, q, x) = (s.ptab(), s.ptab(), s.u8());
    let (a, b) = (p.at(x), q.at(x));
    let (fp, fq) = (pr(p), pr(q));
    eq!(fp.contains(&x), a, "contains");
    eq!(fp.union(&fq).contains(&x), a || b, "union is or");
    eq!(fp.intersection(&fq).contains(&x), a && b, "intersection is and");
    eq!(fp.diff(&fq).contains(&x), a && !b, "difference is and-not");
    eq!(fp.negate().contains(&x), !a, "negate is not");
    eq!(fp.contains(&x), a, "combining leaves the predicate unchanged");
    eq!(fq.contains(&x), b, "combining leaves the predicate unchanged");
}
/// Predicates built from one another share their functions: an operand may be a part of the other one.
fn shared<S: Src>(s: &mut S) {
    let (p, q, x) = (s.ptab(), s.ptab(), s.u8());
    let (a, b) = (p.at(x), q.at(x));
    let mut pool: Vec<(Predicate<u8>, bool)> = vec![(pr(p), a), (pr(q), b)];
    let n = 1 + s.len(6);
    for _ in 0..n.min(24) {
        let (i, j) = (s.below(pool.len() as u32) as usize, s.below(pool.len() as u32) as usize);
        let ((f, a), (g, b)) = (pool[i].clone(), pool[j].clone());
        pool.push(match s.below(10) {
            0 => (f.union(&g), a || b),
            1 => (f.intersection(&g), a && b),
            2 => (f.diff(&g), a && !b),
            3 => (f.negate(), !a),
            4 => (f.combine(&g), a || b),
            5 => (f.combine_owned(g), a || b),
            6 => (f | g, a || b),
            7 => (f & g, a && b),
            8 => (f - g, a && !b),
            _ => (!f, !a),
        });
    }
    for (f, want) in &pool {
        eq!(f.contains(&x), *want, "predicates sharing parts");
    }
}
fn operators<S: Src>(s: &mut S) {
    let (p, q, x) = (s.ptab(), s.ptab(), s.u8());
    let (a, b) = (p.at(x), q.at(x));
    eq!((pr(p) | pr(q)).contains(&x), a || b, "| is or");
    eq!((pr(p) & pr(q)).contains(&x), a && b, "& is and");
    eq!((pr(p) - pr(q)).contains(&x), a && !b, "- is and-not");
    eq!((!pr(p)).contains(&x), !a, "! is not");
}
fn monoid<S: Src>(s: &mut S) {
    let (p, q, x) = (s.ptab(), s.ptab(), s.u8());
    let (a, b) = (p.at(x), q.at(x));
    eq!(pr(p).combine(&pr(q)).contains(&x), a || b, "combine is or");
    eq!(pr(p).combine_owned(pr(q)).contains(&x), a || b, "combine_owned is or");
    eq!(<Predicate<u8> as Monoid>::empty().contains(&x), false, "empty is false");
    eq!(<Predicate<u8> as Monoid>::empty().combine(&pr(p)).contains(&x), a, "empty is neutral");
}
/// Nested combinations (three predicates, two operations, negations): concrete only.
fn nested<S: Src>(s: &mut S) {
    fn build<S: Src>(s: &mut S, d: u32, x: u8) -> (Predicate<u8>, bool) {
        let op = if d == 0 { 0 } else { s.below(9) };
        match op {
            0 => {
                let t = s.ptab();
                (pr(t), t.at(x))
            },
            1 | 2 | 3 | 4 => {
                let (p, a) = build(s, d - 1, x);
                let (q, b) = build(s, d - 1, x);
                match op {
                    1 => (p.union(&q), a || b),
                    2 => (p.intersection(&q), a && b),
                    3 => (p.diff(&q), a && !b),
                    _ => (p.combine(&q), a || b),
                }
            },
            5 => {
                let (p, a) = build(s, d - 1, x);
                (p.negate(), !a)
            },
            _ => {
                let (p, a) = build(s, d - 1, x);
                let (q, b) = build(s, d - 1, x);
                match op {
                    6 => (p | q, a || b),
                    7 => (p & q, a && b),
                    _ => (p - !q, a && b),
                }
            },
        }
    }
    let x = s.u8();
    let (p, want) = build(s, 4, x);
    eq!(p.contains(&x), want, "nested predicate");
    eq!(p.clone().contains(&x), want, "clone");
}
crate::harnesses! { "C16"; prove { named 2, operators 2, monoid 2 } test { nested 1.0, shared 1.0 } }
