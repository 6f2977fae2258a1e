//! C05: semigroup and monoid laws and repeated combination.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::monoid::{self, Monoid, MonoidExt};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt, SemigroupExtAdapter};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::ops::{Add, Mul};

/// The affine maps `x -> (a & x) ^ b` under composition, with a step counter: a monoid that is
/// neither commutative nor idempotent, so argument order, multiplicity and identities all show.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Aff(pub u8, pub u8, pub u8);
impl Aff {
    pub fn then(self, o: Aff) -> Aff {
        Aff(self.0 & o.0, (self.0 & o.1) ^ self.1, self.2.wrapping_add(o.2))
    }
}
impl Default for Aff {
    fn default() -> Self {
        Aff(255, 0, 0)
    }
}
/// `Product` takes its identity from `T::from(1)`.
impl From<u8> for Aff {
    fn from(x: u8) -> Self {
        Aff(if x == 1 { 255 } else { x }, 0, 0)
    }
}
impl Add for Aff {
    type Output = Aff;
    fn add(self, o: Aff) -> Aff {
        self.then(o)
    }
}
impl Mul for Aff {
    type Output = Aff;
    fn mul(self, o: Aff) -> Aff {
        self.then(o)
    }
}
impl Semigroup for Aff {
    fn combine(&self, o: &Aff) -> Aff {
        self.then(*o)
    }
    fn combine_owned(self, o: Aff) -> Aff {
        self.then(o)
    }
}
impl Monoid for Aff {
    fn empty() -> Aff {
        Aff(255, 0, 0)
    }
}
pub fn aff<S: Src>(s: &mut S) -> Aff {
    Aff(s.u8(), s.u8(), s.u8())
}
/// A value with a key that is compared and a tag that is not: Max/Min of "equal" values.
#[derive(Clone, Copy, Debug)]
pub struct Keyed(u8, u8);
impl PartialEq for Keyed {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Keyed {}
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Keyed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

/// `combine` and `combine_owned` both compute `want`, and the operands survive.
fn both<T: Semigroup + Clone + PartialEq + Debug>(a: &T, b: &T, want: &T) {
    eq!(a.combine(b), *want, "combine");
    eq!(a.clone().combine_owned(b.clone()), *want, "combine_owned");
}
fn assoc<T: Semigroup + Clone + PartialEq + Debug>(a: &T, b: &T, c: &T) {
    eq!(a.combine(b).combine(c), a.combine(&b.combine(c)), "associativity");
    eq!(
        a.clone().combine_owned(b.clone()).combine_owned(c.clone()),
        a.clone().combine_owned(b.clone().combine_owned(c.clone())),
        "associativity, owned"
    );
    eq!(a.combine(a), a.clone().combine_owned(a.clone()), "combined with itself");
}
fn unit<T: Monoid + Clone + PartialEq + Debug>(a: &T) {
    both(&T::empty(), a, a);
    both(a, &T::empty(), a);
    ck!(T::empty().is_empty_monoid(), "empty is empty");
    eq!(a.is_empty_monoid(), *a == T::empty(), "is_empty_monoid");
}
fn sum<S: Src>(s: &mut S) {
    let (a, b, c) = (aff(s), aff(s), aff(s));
    both(&Sum(a), &Sum(b), &Sum(a.then(b)));
    assoc(&Sum(a), &Sum(b), &Sum(c));
    unit(&Sum(a));
    eq!(Sum(a).unwrap(), a, "unwrap");
    eq!(*Sum(a).as_ref(), a, "as_ref");
    eq!(Sum::from(a), Sum(a), "from");
    eq!(Sum(a).unwrap_or(b), a, "unwrap_or");
}
fn product<S: Src>(s: &mut S) {
    let (a, b, c) = (aff(s), aff(s), aff(s));
    both(&Product(a), &Product(b), &Product(a.then(b)));
    assoc(&Product(a), &Product(b), &Product(c));
    unit(&Product(a));
    eq!(Product(a).unwrap(), a, "unwrap");
    eq!(*Product(a).as_ref(), a, "as_ref");
    eq!(Product::from(a), Product(a), "from");
}
fn numeric<S: Src>(s: &mut S) {
    let (a, b) = (s.u8() as u32, s.u8() as u32);
    both(&Sum(a), &Sum(b), &Sum(a + b));
    both(&Product(a), &Product(b), &Product(a * b));
    unit(&Sum(a));
    unit(&Product(a));
}
fn extremes<S: Src>(s: &mut S) {
    let (a, b, c) = (s.u8(), s.u8(), s.u8());
    both(&Max(a), &Max(b), &Max(if a >= b { a } else { b }));
    both(&Min(a), &Min(b), &Min(if a <= b { a } else { b }));
    assoc(&Max(a), &Max(b), &Max(c));
    assoc(&Min(a), &Min(b), &Min(c));
    unit(&Max(a)); // the default, 0, is the least u8
    let r = std::cmp::Reverse(a);
    let z = Min(std::cmp::Reverse(0u8));
    eq!(<Min<std::cmp::Reverse<u8>> as Monoid>::empty(), z, "Min::empty is the default");
    unit(&Min(r)); // the default, Reverse(0), is the greatest
    let (i, j) = (a as i8, b as i8);
    both(&Max(i), &Max(j), &Max(if i >= j { i } else { j }));
    both(&Min(i), &Min(j), &Min(if i <= j { i } else { j }));
}
/// Equal keys: owned and borrowed forms agree on which operand they keep.
fn extremes_tag<S: Src>(s: &mut S) {
    let (a, b, c) = (Keyed(s.u8(), s.u8()), Keyed(s.u8(), s.u8()), Keyed(s.u8(), s.u8()));
    let (x, y) = (Max(a).combine(&Max(b)).0, Max(a).combine_owned(Max(b)).0);
    eq!((x.0, x.1), (y.0, y.1), "Max forms agree");
    ck!(x.0 == a.0 && x.1 == a.1 || x.0 == b.0 && x.1 == b.1, "Max yields an operand");
    ck!(x.0 >= a.0 && x.0 >= b.0, "Max yields the greatest");
    let (x, y) = (Min(a).combine(&Min(b)).0, Min(a).combine_owned(Min(b)).0);
    eq!((x.0, x.1), (y.0, y.1), "Min forms agree");
    ck!(x.0 == a.0 && x.1 == a.1 || x.0 == b.0 && x.1 == b.1, "Min yields an operand");
    ck!(x.0 <= a.0 && x.0 <= b.0, "Min yields the least");
    let (x, y) = (Max(a).combine(&Max(b)).combine(&Max(c)).0, Max(a).combine(&Max(b).combine(&Max(c))).0);
    eq!((x.0, x.1), (y.0, y.1), "Max associative on tagged values");
    let (x, y) = (Min(a).combine(&Min(b)).combine(&Min(c)).0, Min(a).combine(&Min(b).combine(&Min(c))).0);
    eq!((x.0, x.1), (y.0, y.1), "Min associative on tagged values");
}
fn first_last<S: Src>(s: &mut S) {
    let (a, b, c) = (s.opt(), s.opt(), s.opt());
    both(&First(a), &First(b), &First(if a.is_some() { a } else { b }));
    both(&Last(a), &Last(b), &Last(if b.is_some() { b } else { a }));
    assoc(&First(a), &First(b), &First(c));
    assoc(&Last(a), &Last(b), &Last(c));
    unit(&First(a));
    unit(&Last(a));
    let (k, x) = (s.u8(), s.u8());
    eq!(First(a).unwrap_or(k), a.unwrap_or(k), "First unwrap_or");
    eq!(Last(a).unwrap_or(k), a.unwrap_or(k), "Last unwrap_or");
    eq!(First::from(x), First(Some(x)), "First from");
    eq!(Last::from(x), Last(Some(x)), "Last from");
    if let Some(v) = a {
        eq!(First(a).unwrap(), v, "First unwrap");
        eq!(Last(a).unwrap(), v, "Last unwrap");
        eq!(*First(a).as_ref(), v, "First as_ref");
        eq!(*Last(a).as_ref(), v, "Last as_ref");
    }
}
fn tuples<S: Src>(s: &mut S) {
    let (a, b, c, d) = (aff(s), aff(s), aff(s), aff(s));
    let (p, q, r, t) = (aff(s), aff(s), aff(s), aff(s));
    both(&(a, b), &(p, q), &(a.then(p), b.then(q)));
    both(&(a, b, c), &(p, q, r), &(a.then(p), b.then(q), c.then(r)));
    both(&(a, b, c, d), &(p, q, r, t), &(a.then(p), b.then(q), c.then(r), d.then(t)));
}
fn option<S: Src>(s: &mut S) {
    let (x, y) = (s.bool(), s.bool());
    let (a, b, c) = (aff(s), aff(s), aff(s));
    let (oa, ob) = (if x { Some(a) } else { None }, if y { Some(b) } else { None });
    let want = match (oa, ob) {
        (Some(a), Some(b)) => Some(a.then(b)),
        (Some(a), None) => Some(a),
        (None, b) => b,
    };
    both(&oa, &ob, &want);
    assoc(&oa, &ob, &Some(c));
    both(&Id::new(a), &Id::new(b), &Id::new(a.then(b)));
    unit(&Id::new(a));
    assoc(&Id::new(a), &Id::new(b), &Id::new(c));
}
fn fold(xs: &[Aff], init: Aff) -> Aff {
    let (mut r, mut i) = (init, 0);
    while i < xs.len() {
        r = r.then(xs[i]);
        i += 1;
    }
    r
}
/// Up to three elements / copies: proved by unrolling; more in `repeated_many`.
fn repeated<S: Src>(s: &mut S, max: u32) {
    let a = aff(s);
    let n = s.len(max + 1) as usize;
    let (mut want, mut i) = (Aff::empty(), 0);
    while i < n {
        want = want.then(a);
        i += 1;
    }
    eq!(monoid::repeat(a, n), want, "repeat");
    eq!(monoid::power(a, n), want, "power");
    if n > 0 {
        eq!(a.combine_n(&n), want, "combine_n");
        eq!(a.combine_n_owned(n), want, "combine_n_owned");
    }
}
fn repeated_small<S: Src>(s: &mut S) {
    repeated(s, 3)
}
fn repeated_many<S: Src>(s: &mut S) {
    repeated(s, 40)
}
fn lists<S: Src>(s: &mut S) {
    let a = aff(s);
    let n = s.len(9) as usize;
    let xs: Vec<Aff> = (0..n).map(|_| aff(s)).collect();
    let all = fold(&xs, Aff::empty());
    let from = fold(&xs, a);
    eq!(monoid::mconcat(&xs), all, "mconcat");
    eq!(monoid::combine_all::<Aff, _>(many(s, xs.clone())), all, "combine_all");
    eq!(a.combine_all(many(s, xs.clone())), from, "SemigroupExt::combine_all");
    eq!(semigroup::combine_values(a, many(s, xs.clone())), from, "combine_values");
    eq!(semigroup::combine_all_values(many(s, xs.clone())), if n == 0 { None } else { Some(all) }, "combine_all_values");
    if n > 0 {
        eq!(Aff::combine_all_owned(many(s, xs.clone())), all, "combine_all_owned");
    }
    // over lists, where the combination shows every element
    let ws: Vec<Vec<u8>> = xs.iter().map(|x| vec![x.0, x.1, x.2]).collect();
    eq!(monoid::mconcat(&ws), ws.concat(), "mconcat of lists");
    eq!(monoid::combine_all::<Vec<u8>, _>(many(s, ws.clone())), ws.concat(), "combine_all of lists");
}
fn text<S: Src>(s: &mut S) -> String {
    const T: [&str; 5] = ["", "a", "b", "xy", "é"];
    let n = s.len(4);
    (0..n).map(|_| T[s.below(5) as usize]).collect()
}
fn sequences<S: Src>(s: &mut S) {
    let (a, b, c) = (s.vec(5), s.vec(5), s.vec(3));
    let cat = [&a[..], &b[..]].concat();
    both(&a, &b, &cat);
    assoc(&a, &b, &c);
    unit(&a);
    let (p, q, r) = (text(s), text(s), text(s));
    both(&p, &q, &format!("{}{}", p, q));
    assoc(&p, &q, &r);
    unit(&p);
    let pv = |v: &[u8]| v.iter().copied().collect::<PersistentVector<u8>>();
    both(&pv(&a), &pv(&b), &pv(&cat));
    assoc(&pv(&a), &pv(&b), &pv(&c));
    unit(&pv(&a));
    let ch = |v: &[u8]| if v.is_empty() { Choice::new_empty() } else { Choice::new(v[0], v[1..].to_vec()) };
    both(&ch(&a), &ch(&b), &ch(&cat));
    assoc(&ch(&a), &ch(&b), &ch(&c));
    unit(&ch(&a));
}
fn collections<S: Src>(s: &mut S) {
    let (a, b, c) = (s.vec(5), s.vec(5), s.vec(4));
    let hs = |v: &[u8]| v.iter().copied().collect::<HashSet<u8>>();
    let bs = |v: &[u8]| v.iter().copied().collect::<BTreeSet<u8>>();
    let cat = [&a[..], &b[..]].concat();
    both(&hs(&a), &hs(&b), &hs(&cat));
    both(&bs(&a), &bs(&b), &bs(&cat));
    assoc(&hs(&a), &hs(&b), &hs(&c));
    let cs = |v: &[u8]| v.iter().map(|x| Clash(*x)).collect::<HashSet<Clash>>();
    both(&cs(&a), &cs(&b), &cs(&cat));
    assoc(&bs(&a), &bs(&b), &bs(&c));
    // maps: values of a shared key are combined in operand order, other keys are kept
    let m = |v: &[u8], t: u8| {
        let mut o: Vec<(u8, Vec<u8>)> = Vec::new();
        for (i, k) in v.iter().enumerate() {
            if !o.iter().any(|e| e.0 == *k) {
                o.push((*k, vec![t, i as u8]));
            }
        }
        o
    };
    let (ma, mb, mc) = (m(&a, 1), m(&b, 2), m(&c, 3));
    let mut want = ma.clone();
    for (k, v) in &mb {
        match want.iter_mut().find(|e| e.0 == *k) {
            Some(e) => e.1.extend(v.iter().copied()),
            None => want.push((*k, v.clone())),
        }
    }
    let hm = |v: &[(u8, Vec<u8>)]| v.iter().cloned().collect::<HashMap<u8, Vec<u8>>>();
    let bm = |v: &[(u8, Vec<u8>)]| v.iter().cloned().collect::<BTreeMap<u8, Vec<u8>>>();
    both(&hm(&ma), &hm(&mb), &hm(&want));
    both(&bm(&ma), &bm(&mb), &bm(&want));
    assoc(&hm(&ma), &hm(&mb), &hm(&mc));
    let cm = |v: &[(u8, Vec<u8>)]| v.iter().map(|(k, x)| (Clash(*k), x.clone())).collect::<HashMap<Clash, Vec<u8>>>();
    both(&cm(&ma), &cm(&mb), &cm(&want));
    assoc(&bm(&ma), &bm(&mb), &bm(&mc));
}
fn other<S: Src>(s: &mut S) {
    // Validated
    let mut v = |s: &mut S| -> Validated<u8, u8> {
        if s.bool() { Validated::Valid(s.u8()) } else { Validated::Invalid(s.vec(6).into_iter().collect()) }
    };
    let (a, b, c) = (v(s), v(s), v(s));
    assoc(&a, &b, &c);
    unit(&a);
    eq!(a.combine(&b), a.clone().combine_owned(b.clone()), "Validated forms agree");
    // Writer: values and logs combine in order
    let (x, y, l, m) = (text(s), text(s), s.vec(3), s.vec(3));
    let w = |l: &[u8], x: &str| Writer::new(l.to_vec(), x.to_string());
    let want = ([&l[..], &m[..]].concat(), format!("{}{}", x, y));
    let run = |w: Writer<Vec<u8>, String>| -> (Vec<u8>, String) {
        let (l, v) = w.run();
        (l, v)
    };
    eq!(run(w(&l, &x).combine(&w(&m, &y))), want, "Writer combine");
    eq!(run(w(&l, &x).combine_owned(w(&m, &y))), want, "Writer combine_owned");
    let e: Writer<Vec<u8>, String> = Monoid::empty();
    eq!(run(e.combine(&w(&l, &x))), (l.clone(), x.clone()), "Writer empty");
    eq!(run(w(&l, &x).combine(&e)), (l.clone(), x.clone()), "Writer empty");
}
crate::harnesses! { "C05";
    prove { sum 2, product 2, extremes 2, extremes_tag 2, first_last 2, tuples 2, option 2, repeated_small 5 }
    test { numeric 0.5, repeated_many 1.0, lists 2.0, sequences 2.0, collections 2.0, other 1.0 } }
