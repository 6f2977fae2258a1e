//! C17: folds visit every element once in order.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::pvec::PersistentVector;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::hkt::HKT;
use std::cell::RefCell;

/// A step function that is neither commutative nor associative.
#[derive(Clone, Copy)]
struct Step(Tab, Tab);
impl Step {
    fn at(&self, acc: u8, x: u8) -> u8 {
        self.0.at(acc).rotate_left(1).wrapping_add(self.1.at(x)) ^ acc.wrapping_mul(3)
    }
}
fn step<S: Src>(s: &mut S) -> Step {
    Step(s.tab(), s.tab())
}
/// The contract of the two primitive folds, against the list `want` of elements.
fn folds<S: Src, F: Foldable + HKT<Source = u8>>(s: &mut S, x: &F, want: &[u8]) {
    let (f, init) = (step(s), s.u8());
    let (mut l, mut i) = (init, 0);
    while i < want.len() {
        l = f.at(l, want[i]);
        i += 1;
    }
    eq!(x.fold_left(&init, |a, v| f.at(*a, *v)), l, "fold_left");
    let (mut r, mut i) = (init, want.len());
    while i > 0 {
        i -= 1;
        r = f.at(r, want[i]);
    }
    eq!(x.fold_right(&init, |v, a| f.at(*a, *v)), r, "fold_right");
    eq!(Foldable::length(x), want.len(), "length");
    eq!(Foldable::is_empty(x), want.is_empty(), "is_empty");
    let n = std::cell::Cell::new(0usize);
    x.fold_left(&0u8, |_, _| { n.set(n.get() + 1); 0u8 });
    eq!(n.get(), want.len(), "fold_left calls the function once per element");
    n.set(0);
    x.fold_right(&0u8, |_, _| { n.set(n.get() + 1); 0u8 });
    eq!(n.get(), want.len(), "fold_right calls the function once per element");
}
/// The derived operations, against the list of elements.
fn derived<S: Src, F: Foldable + HKT<Source = u8>>(s: &mut S, x: &F, want: &[u8]) {
    let (p, v, f, k) = (s.ptab(), s.u8(), step(s), s.ktab());
    eq!(FoldableExt::find(x, |y| p.at(*y)), want.iter().copied().find(|y| p.at(*y)), "find");
    eq!(FoldableExt::all(x, |y| p.at(*y)), want.iter().all(|y| p.at(*y)), "all");
    eq!(FoldableExt::any(x, |y| p.at(*y)), want.iter().any(|y| p.at(*y)), "any");
    eq!(FoldableExt::contains(x, &v), want.contains(&v), "contains");
    eq!(FoldableExt::is_sorted(x), want.windows(2).all(|w| w[0] <= w[1]), "is_sorted");
    eq!(FoldableExt::to_vec(x), want.to_vec(), "to_vec");
    eq!(FoldableExt::maximum(x), want.iter().copied().max(), "maximum");
    eq!(FoldableExt::minimum(x), want.iter().copied().min(), "minimum");
    eq!(FoldableExt::reduce(x, |a, b| f.at(*a, *b)), want.iter().copied().reduce(|a, b| f.at(a, b)), "reduce");
    let strs: String = want.iter().map(|y| format!("{},", y)).collect();
    eq!(Foldable::fold_map(x, |y| format!("{},", y)), strs, "fold_map");
    let opts: Option<String> = want.iter().map(|y| k.opt(*y).map(|z| format!("{},", z))).collect();
    eq!(FoldableExt::fold_option(x, |y| k.opt(*y).map(|z| format!("{},", z))), opts, "fold_option");
    let lists: Vec<u8> = want.iter().flat_map(|y| vec![*y, y.wrapping_add(1)]).collect();
    eq!(Foldable::fold_map(x, |y| vec![*y, y.wrapping_add(1)]), lists, "fold_map to lists");
}
fn numeric<F: Foldable + HKT<Source = u64>>(x: &F, want: &[u64]) {
    eq!(FoldableExt::sum_values(x), want.iter().sum::<u64>(), "sum_values");
    eq!(FoldableExt::product_values(x), want.iter().product::<u64>(), "product_values");
}
/// fold_monoid over lists of lists sees the order.
fn monoid<F: Foldable + HKT<Source = Vec<u8>>>(x: &F, want: &[Vec<u8>]) {
    eq!(Foldable::fold_monoid::<Vec<u8>>(x), want.concat(), "fold_monoid");
}
fn opt_res<S: Src>(s: &mut S) {
    let (o, r) = (s.opt(), s.res());
    let w: Vec<u8> = o.into_iter().collect();
    folds(s, &o, &w);
    let w: Vec<u8> = r.ok().into_iter().collect();
    folds(s, &r, &w);
}
fn prove_option<S: Src>(s: &mut S) {
    let o = s.opt();
    match o {
        Some(v) => folds(s, &o, &[v]),
        None => folds(s, &o, &[]),
    }
}
fn prove_result<S: Src>(s: &mut S) {
    let o = s.res();
    match o {
        Ok(v) => folds(s, &o, &[v]),
        Err(_) => folds(s, &o, &[]),
    }
}
fn prove_id<S: Src>(s: &mut S) {
    let o = s.u8();
    folds(s, &Id::new(o), &[o])
}
fn prove_validated<S: Src>(s: &mut S) {
    let o = s.opt();
    match o {
        Some(v) => folds(s, &Validated::<u8, u8>::Valid(v), &[v]),
        None => folds(s, &Validated::<u8, u8>::Invalid(Default::default()), &[]),
    }
}
fn derived_small<S: Src>(s: &mut S) {
    let (o, r, i) = (s.opt(), s.res(), s.u8());
    derived(s, &o, &o.into_iter().collect::<Vec<_>>());
    derived(s, &r, &r.ok().into_iter().collect::<Vec<_>>());
    derived(s, &Id::new(i), &[i]);
    let es = s.vec(3);
    let v: Validated<u8, u8> = match r {
        Ok(v) => Validated::Valid(v),
        Err(_) => Validated::Invalid(es.into_iter().collect()),
    };
    derived(s, &v, &r.ok().into_iter().collect::<Vec<_>>());
    folds(s, &v, &r.ok().into_iter().collect::<Vec<_>>());
    let (o6, w6) = (o.map(|x| x as u64), o.into_iter().map(|x| x as u64).collect::<Vec<_>>());
    numeric(&o6, &w6);
    numeric(&Id::new(i as u64), &[i as u64]);
    numeric(&r.map(|x| x as u64), &r.ok().into_iter().map(|x| x as u64).collect::<Vec<_>>());
    monoid(&o.map(|x| vec![x, 1]), &o.into_iter().map(|x| vec![x, 1]).collect::<Vec<_>>());
}
fn choice<T: Clone>(v: &[T]) -> Choice<T> {
    if v.is_empty() { Choice::new_empty() } else { Choice::new(v[0].clone(), v[1..].to_vec()) }
}
fn lists<S: Src>(s: &mut S) {
    let w = s.vec(11);
    // at most 17 factors other than 1, so that the product fits
    let step = w.len() / 16 + 1;
    let small: Vec<u64> = w.iter().enumerate().map(|(i, x)| if i % step == 0 { (*x & 7) as u64 + 1 } else { 1 }).collect();
    let ll: Vec<Vec<u8>> = w.iter().map(|x| vec![*x; (*x & 3) as usize]).collect();
    folds(s, &w, &w);
    derived(s, &w, &w);
    numeric(&small, &small);
    monoid(&ll, &ll);
    let c = choice(&w);
    folds(s, &c, &w);
    derived(s, &c, &w);
    numeric(&choice(&small), &small);
    monoid(&choice(&ll), &ll);
}
/// Elements that need not be equal to themselves, and elements equal to others.
fn equality<S: Src>(s: &mut S) {
    let n = s.len(6);
    let w: Vec<f64> = (0..n).map(|_| [f64::NAN, 0.0, -0.0, 1.5][s.below(4) as usize]).collect();
    let c = choice(&w);
    let v: PersistentVector<f64> = w.iter().copied().collect();
    for i in 0..w.len().min(4) {
        let want = w.contains(&w[i]);
        eq!(FoldableExt::contains(&w, &w[i]), want, "contains an element of its own, Vec");
        eq!(FoldableExt::contains(&c, c.iter().nth(i).unwrap()), want, "contains an element of its own, Choice");
        eq!(FoldableExt::contains(&v, v.get(i).unwrap()), want, "contains an element of its own, PersistentVector");
    }
    if let Some(x) = w.first().copied() {
        let (i, o) = (Id::new(x), Some(x));
        eq!(FoldableExt::contains(&i, i.as_ref()), x == x, "contains an element of its own, Id");
        eq!(FoldableExt::contains(&o, o.as_ref().unwrap()), x == x, "contains an element of its own, Option");
    }
    let a = tied(s, 6);
    let y = Tied { key: s.below(5) as u8, tag: 200 };
    eq!(FoldableExt::contains(&a, &y), a.contains(&y), "contains compares with ==");
    eq!(FoldableExt::contains(&choice(&a), &y), a.contains(&y), "contains compares with ==, Choice");
}
fn persistent<S: Src>(s: &mut S) {
    // sizes around the chunk and branch boundaries, several construction histories
    const SIZES: [usize; 12] = [0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 1024, 1057];
    let (k, how, off) = (s.below(12), s.below(5), s.u8());
    let n = SIZES[k as usize];
    let w: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(off)).collect();
    let v: PersistentVector<u8> = match how {
        0 => w.iter().copied().collect(),
        1 => {
            let mut v = PersistentVector::new();
            for x in &w {
                v = v.push_back(*x);
            }
            v
        },
        2 => {
            let mut v = PersistentVector::new();
            for x in w.iter().rev() {
                v = v.push_front(*x);
            }
            v
        },
        3 => {
            let m = s.below(n as u32 + 1) as usize;
            let a: PersistentVector<u8> = w[..m].iter().copied().collect();
            let b: PersistentVector<u8> = w[m..].iter().copied().collect();
            a.concat(&b)
        },
        _ => {
            let m = s.below(n as u32 + 1) as usize;
            let mut v: PersistentVector<u8> = w[..m].iter().copied().collect();
            for x in &w[m..] {
                v = v.push_back(*x);
            }
            v
        },
    };
    folds(s, &v, &w);
    if n <= 100 {
        derived(s, &v, &w);
        let x: PersistentVector<u64> = w.iter().map(|x| *x as u64).collect();
        eq!(FoldableExt::sum_values(&x), w.iter().map(|x| *x as u64).sum::<u64>(), "sum_values");
    }
}
crate::harnesses! { "C17";
    prove { prove_option 3, prove_result 3, prove_id 3, prove_validated 3 }
    test { opt_res 0.5, derived_small 1.0, lists 3.0, equality 0.5, persistent 3.0 } }
