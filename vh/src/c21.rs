//! C21: collection utilities sequence and traverse whole lists in order.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::Functor;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use rustica::utils::categorical_utils as cu;
use rustica::utils::error_utils as eu;
use rustica::utils::error_utils::{ResultExt, WithError};
use rustica::utils::functions as fu;
use rustica::utils::hkt_utils as hu;
use rustica::utils::transform_utils::{self as tu, Pipeline};
use std::cell::{Cell, RefCell};

/// Mostly successful results, so that late failures in long lists do occur.
fn reslist<S: Src>(s: &mut S, max: u32) -> Vec<Result<u8, u8>> {
    let n = s.len(max + 1);
    let rate = s.below(4);
    (0..n)
        .map(|_| {
            let v = s.u8();
            let bad = match rate {
                0 => false,
                1 => s.below(16) == 0,
                2 => s.below(4) == 0,
                _ => s.bool(),
            };
            if bad { Err(v) } else { Ok(v) }
        })
        .collect()
}
fn seq_spec(xs: &[Result<u8, u8>]) -> Result<Vec<u8>, u8> {
    let mut out = Vec::new();
    for x in xs {
        match x {
            Ok(v) => out.push(*v),
            Err(e) => return Err(*e),
        }
    }
    Ok(out)
}
fn eit(r: Result<u8, u8>) -> Either<u8, u8> {
    match r {
        Ok(v) => Either::Right(v),
        Err(e) => Either::Left(e),
    }
}
fn val(r: Result<u8, u8>) -> Validated<u8, u8> {
    match r {
        Ok(v) => Validated::valid(v),
        Err(e) => Validated::invalid(e),
    }
}
fn errs<A>(v: &Validated<u8, A>) -> Option<Vec<u8>> {
    match v {
        Validated::Valid(_) => None,
        Validated::Invalid(e) => Some(e.iter().copied().collect()),
    }
}

fn sequence<S: Src>(s: &mut S) {
    let xs = reslist(s, 40);
    let want = seq_spec(&xs);
    eq!(eu::sequence(xs.clone()), want, "sequence");
    eq!(cu::sequence_results(xs.clone()), want, "sequence_results");
    eq!(cu::sequence_options(xs.iter().map(|x| x.ok()).collect()), want.clone().ok(), "sequence_options");
    eq!(eu::sequence_with_error::<_, u8, u8>(xs.clone()), want, "sequence_with_error over Result");
    eq!(eu::sequence_with_error::<_, u8, u8>(xs.iter().map(|x| eit(*x)).collect()), want, "sequence_with_error over Either");
    eq!(eu::sequence_with_error::<_, u8, u8>(xs.iter().map(|x| val(*x)).collect()), want, "sequence_with_error over Validated");
    let wide: Result<Vec<u32>, u8> = eu::sequence_with_error(xs.clone());
    eq!(wide, want.map(|v| v.into_iter().map(u32::from).collect()), "sequence_with_error converts each value");
}
fn traverse<S: Src>(s: &mut S) {
    let (mut xs, k) = (s.vec(40), s.ktab());
    if s.bool() {
        // a function that fails on one value only: failures come late
        let bad = s.u8();
        let f = |x: u8| if x == bad { Err(x) } else { Ok(x) };
        traverse_with(s, &xs, f);
        xs.reverse();
    }
    traverse_with(s, &xs, |x| k.at(x));
}
fn traverse_with<S: Src>(s: &mut S, xs: &[u8], k: impl Fn(u8) -> Result<u8, u8>) {
    let images: Vec<Result<u8, u8>> = xs.iter().map(|x| k(*x)).collect();
    let want = seq_spec(&images);
    let seen = RefCell::new(Vec::new());
    let got = eu::traverse(many(s, xs.to_vec()), |x| {
        seen.borrow_mut().push(x);
        k(x)
    });
    eq!(got, want, "traverse");
    let stop = images.iter().position(|r| r.is_err()).map_or(xs.len(), |i| i + 1);
    eq!(*seen.borrow(), xs[..stop].to_vec(), "traverse calls the function in list order and stops at the first failure");
    // a stateful function: element i is seen by call i
    let mut n = 0u8;
    let got = eu::traverse(xs.iter().copied(), |x| {
        n = n.wrapping_add(1);
        k(x).map(|v| (n, v))
    });
    let numbered: Result<Vec<(u8, u8)>, u8> =
        want.clone().map(|v| v.into_iter().enumerate().map(|(i, v)| ((i + 1) as u8, v)).collect());
    eq!(got, numbered, "traverse with a stateful function");
    eq!(eu::traverse(xs.to_vec(), Ok::<u8, u8>), Ok(xs.to_vec()), "traversing with the injection changes nothing");
    eq!(eu::traverse(images.clone(), |x| x), eu::sequence(images.clone()), "sequence is traverse with the identity");
    // accumulation
    seen.borrow_mut().clear();
    let got: Validated<u8, Vec<u8>> = eu::traverse_validated(many(s, xs.to_vec()), |x| {
        seen.borrow_mut().push(x);
        k(x)
    });
    eq!(*seen.borrow(), xs.to_vec(), "traverse_validated calls the function once per element, in order");
    let all: Vec<u8> = images.iter().filter_map(|r| r.err()).collect();
    if all.is_empty() {
        ck!(matches!(&got, Validated::Valid(v) if Ok(v.clone()) == want), "traverse_validated without failures keeps every value in order");
    } else {
        eq!(errs(&got), Some(all), "traverse_validated collects every error in order");
    }
}
fn with_error<S: Src>(s: &mut S) {
    let (r, f) = (s.res(), s.tab());
    eq!(WithError::fmap_error(r, |e| f.at(e)), r.map_err(|e| f.at(e)), "Result fmap_error");
    eq!(WithError::fmap_error(eit(r), |e| f.at(e)), eit(r.map_err(|e| f.at(e))), "Either fmap_error");
    eq!(WithError::to_result(r), r, "Result to_result");
    eq!(WithError::to_result(eit(r)), r, "Either to_result");
}
fn with_error_validated<S: Src>(s: &mut S) {
    let (mut es, f, v) = (s.vec(12), s.tab(), s.u8());
    let ok: Validated<u8, u8> = Validated::valid(v);
    eq!(WithError::fmap_error(ok.clone(), |e| f.at(e)), Validated::valid(v), "fmap_error on Valid");
    eq!(WithError::to_result(ok), Ok(v), "to_result on Valid");
    es.push(v);
    let bad: Validated<u8, u8> = Validated::invalid_many(es.clone());
    eq!(errs(&WithError::fmap_error(bad.clone(), |e| f.at(e))), Some(es.iter().map(|e| f.at(*e)).collect()), "fmap_error maps every error in order");
    eq!(WithError::to_result(bad), Err(es[0]), "to_result gives the first error");
}
fn result_ext<S: Src>(s: &mut S) {
    let (r, f, g) = (s.res(), s.tab(), s.tab());
    let both = match r {
        Ok(v) => Ok(f.at(v)),
        Err(e) => Err(g.at(e)),
    };
    let n = Cell::new(0u8);
    let tick = |v: u8| {
        n.set(n.get() + 1);
        v
    };
    eq!(ResultExt::bimap(r, |v| tick(f.at(v)), |e| tick(g.at(e))), both, "bimap");
    eq!(cu::bimap_result(r, |v| tick(f.at(v)), |e| tick(g.at(e))), both, "bimap_result");
    eq!(n.get(), 2, "exactly one of the two functions runs, once");
    eq!(ResultExt::unwrap_or_default(r), r.unwrap_or(0), "unwrap_or_default");
    eq!(ResultExt::to_either(r), eit(r), "to_either");
}
fn result_ext_validated<S: Src>(s: &mut S) {
    let r = s.res();
    let v = ResultExt::to_validated(r);
    match r {
        Ok(x) => eq!(v, Validated::Valid(x), "to_validated of Ok"),
        Err(e) => eq!(errs(&v), Some(vec![e]), "to_validated of Err"),
    }
}
fn maps<S: Src>(s: &mut S) {
    let (r, f, k) = (s.res(), s.tab(), s.ktab());
    let n = Cell::new(0u8);
    let tick = |v: u8| {
        n.set(n.get() + 1);
        v
    };
    eq!(cu::map_option(r.ok(), |v| tick(f.at(v))), r.ok().map(|v| f.at(v)), "map_option");
    eq!(cu::map_result(r, |v| tick(f.at(v))), r.map(|v| f.at(v)), "map_result");
    eq!(hu::map_result(r, |v| tick(f.at(v))), r.map(|v| f.at(v)), "hkt map_result");
    let l = hu::lift_option(|v| tick(f.at(v)));
    eq!(l(r.ok()), r.ok().map(|v| f.at(v)), "lift_option");
    eq!(l(None), None, "lift_option on None");
    let kk = |v: u8| {
        n.set(n.get() + 1);
        k.at(v)
    };
    let bound = match r {
        Ok(v) => k.at(v),
        e => e,
    };
    eq!(cu::flat_map_option(r.ok(), |v| kk(v).ok()), bound.ok(), "flat_map_option");
    eq!(cu::flat_map_result(r, kk), bound, "flat_map_result");
    eq!(n.get(), if r.is_ok() { 6 } else { 0 }, "each function ran exactly once, and only on a success");
}
fn functions<S: Src>(s: &mut S) {
    let (f, g, h, m, x, y) = (s.tab(), s.tab(), s.tab(), s.tab2(), s.u8(), s.u8());
    eq!(cu::compose(|v| g.at(v), |v| f.at(v))(x), g.at(f.at(x)), "compose applies its second argument first");
    eq!(cu::pipe(|v| f.at(v), |v| g.at(v))(x), g.at(f.at(x)), "pipe applies its first argument first");
    let lhs = cu::pipe(|v| f.at(v), cu::pipe(|v| g.at(v), |v| h.at(v)));
    let rhs = cu::pipe(cu::pipe(|v| f.at(v), |v| g.at(v)), |v| h.at(v));
    eq!(lhs(x), rhs(x), "pipe is associative");
    eq!(cu::compose(fu::id, |v| f.at(v))(x), f.at(x), "left identity of compose");
    eq!(cu::compose(|v| f.at(v), fu::id)(x), f.at(x), "right identity of compose");
    let fl = cu::flip(|a: u8, b: u8| m.at(a, b));
    eq!(fl(x, y), m.at(y, x), "flip swaps the arguments");
    eq!(cu::flip(fl)(x, y), m.at(x, y), "flip twice changes nothing");
    let c = fu::const_fn::<u8, u8>(x);
    ck!(c(y) == x && c(y.wrapping_add(1)) == x, "const_fn ignores its argument");
    eq!(fu::id(x), x, "id");
}
fn pipeline_one<S: Src>(s: &mut S) {
    let (k, x) = (s.ktab(), s.u8());
    eq!(hu::pipeline_option::<u8, u8, _, _>(x, Some(|v| k.opt(v))), k.opt(x), "pipeline_option with one operation");
    eq!(hu::pipeline_option::<u8, u8, _, fn(u8) -> Option<u8>>(x, None), Some(x), "pipeline_option without operations");
}
fn pipelines<S: Src>(s: &mut S) {
    let n = s.len(9);
    let rate = s.below(2);
    let ks: Vec<KTab> = (0..n)
        .map(|_| {
            let mut k = s.ktab();
            if rate == 0 {
                k = KTab(k.0.map(|r| if s.below(8) == 0 { r } else { Ok(r.unwrap_or_else(|e| e)) }));
            }
            k
        })
        .collect();
    let x = s.u8();
    let mut want: Result<u8, u8> = Ok(x);
    let mut ran = Vec::new();
    for (i, k) in ks.iter().enumerate() {
        if let Ok(v) = want {
            ran.push((i, v));
            want = k.at(v);
        }
    }
    let log = RefCell::new(Vec::new());
    let ops = || {
        let log = &log;
        log.borrow_mut().clear();
        ks.iter()
            .enumerate()
            .map(|(i, k)| {
                move |v: u8| {
                    log.borrow_mut().push((i, v));
                    k.at(v)
                }
            })
            .collect::<Vec<_>>()
    };
    eq!(hu::pipeline_result(x, ops()), want, "pipeline_result");
    eq!(*log.borrow(), ran, "pipeline_result runs the operations in order up to the first failure");
    eq!(hu::try_pipeline(x, ops()), want, "try_pipeline");
    eq!(*log.borrow(), ran, "try_pipeline runs the operations in order up to the first failure");
    let oo: Vec<_> = ops().into_iter().map(|f| move |v: u8| f(v).ok()).collect();
    eq!(hu::pipeline_option(x, oo), want.ok(), "pipeline_option");
    eq!(*log.borrow(), ran, "pipeline_option runs the operations in order up to the first failure");
    let wide: Result<u32, u8> = hu::pipeline_result(x, ks.iter().map(|k| move |v: u32| k.at(v as u8).map(u32::from)).collect());
    eq!(wide, want.map(u32::from), "pipeline_result converts the initial value");
    // total functions
    let fs: Vec<Tab> = (0..s.len(8)).map(|_| s.tab()).collect();
    let boxed: Vec<Box<dyn Fn(u8) -> u8>> = fs.iter().map(|t| { let t = *t; Box::new(move |v| t.at(v)) as Box<dyn Fn(u8) -> u8> }).collect();
    let all: Box<dyn Fn(u8) -> u32> = hu::compose_all(boxed);
    eq!(all(x), u32::from(fs.iter().fold(x, |a, t| t.at(a))), "compose_all applies the functions in list order");
    eq!(all(x), u32::from(fs.iter().fold(x, |a, t| t.at(a))), "compose_all can be called again");
    eq!(hu::fan_out(x, fs.iter().map(|t| move |v: u8| t.at(v)).collect()), fs.iter().map(|t| t.at(x)).collect::<Vec<u8>>(), "fan_out applies every function to the same input, in order");
}
fn filters<S: Src>(s: &mut S) {
    let (xs, ys, k, p, f, m) = (s.vec(40), s.vec(40), s.ktab(), s.ptab(), s.tab(), s.tab2());
    let log = RefCell::new(Vec::new());
    let got = cu::filter_map_collect(many(s, xs.clone()), |x| {
        log.borrow_mut().push(x);
        k.opt(x)
    });
    let want: Vec<u8> = xs.iter().filter_map(|x| k.opt(*x)).collect();
    eq!(got, want, "filter_map_collect keeps every image in order");
    eq!(*log.borrow(), xs, "filter_map_collect calls the function once per element, in order");
    eq!(cu::filter_map_collect(xs.iter().filter(|x| p.at(**x)), |x| k.opt(*x)), xs.iter().filter(|x| p.at(**x)).filter_map(|x| k.opt(*x)).collect::<Vec<u8>>(), "filter_map_collect over an iterator of unknown length");
    log.borrow_mut().clear();
    let got = hu::filter_map(many(s, xs.clone()), |x| p.at(*x), |x| {
        log.borrow_mut().push(x);
        f.at(x)
    });
    let kept: Vec<u8> = xs.iter().copied().filter(|x| p.at(*x)).collect();
    eq!(got, kept.iter().map(|x| f.at(*x)).collect::<Vec<u8>>(), "filter_map keeps the image of every accepted element in order");
    eq!(*log.borrow(), kept, "filter_map calls the function on the accepted elements only");
    let long: Vec<u8> = xs.iter().chain(&ys).chain(&xs).copied().collect();
    let got = hu::filter_map(long.iter().copied().filter(|_| true), |x| p.at(*x), |x| f.at(x));
    eq!(got, long.iter().filter(|x| p.at(**x)).map(|x| f.at(*x)).collect::<Vec<u8>>(), "filter_map over an iterator of unknown length");
    let n = xs.len().min(ys.len());
    let want: Vec<u8> = (0..n).map(|i| m.at(xs[i], ys[i])).collect();
    eq!(hu::zip_with(xs.clone(), ys.clone(), |a, b| m.at(a, b)), want, "zip_with pairs up by position and stops at the shorter list");
    eq!(
        hu::zip_with(xs.clone(), ys.clone(), |a, b| m.at(a, b)),
        hu::zip_with(ys.clone(), xs.clone(), cu::flip(|a, b| m.at(a, b))),
        "zip_with flipped"
    );
}
fn folds<S: Src>(s: &mut S) {
    let xs: Vec<u8> = s.vec(20).into_iter().take(24).collect();
    let w: Vec<i64> = xs.iter().map(|x| i64::from(*x % 5) + 1).collect();
    eq!(cu::fold_with::<_, _, Sum<i64>>(many(s, w.clone())), Sum(w.iter().sum()), "fold_with Sum");
    eq!(cu::fold_with::<_, _, Product<i64>>(many(s, w.clone())), Product(w.iter().product()), "fold_with Product");
    eq!(cu::fold_with::<_, _, First<u8>>(many(s, xs.clone())), First(xs.first().copied()), "fold_with First");
    eq!(cu::fold_with::<_, _, Last<u8>>(many(s, xs.clone())), Last(xs.last().copied()), "fold_with Last");
    if !xs.is_empty() {
        eq!(cu::fold_with::<_, _, Max<u8>>(many(s, xs.clone())), Max(*xs.iter().max().unwrap()), "fold_with Max");
        eq!(cu::fold_with::<_, _, Min<u8>>(many(s, xs.clone())), Min(*xs.iter().min().unwrap()), "fold_with Min");
    }
    let words: Vec<String> = xs.iter().map(|x| format!("{x},")).collect();
    eq!(cu::fold_with::<_, _, String>(many(s, words.clone())), words.concat(), "fold_with a non-commutative monoid");
}
fn transform<S: Src>(s: &mut S) {
    let (xs, f, g) = (s.vec(20), s.tab(), s.tab());
    let some: Vec<Option<u8>> = xs.iter().map(|x| if x & 1 == 0 { Some(*x) } else { None }).collect();
    let mapped: Vec<Option<u8>> = some.iter().map(|o| o.map(|v| f.at(v))).collect();
    eq!(tu::transform_all(&some, |v: &u8| f.at(*v)), mapped, "transform_all over options");
    let nested: Vec<Vec<u8>> = xs.chunks(3).map(|c| c.to_vec()).collect();
    eq!(tu::transform_all(&nested, |v: &u8| f.at(*v)), nested.iter().map(|c| c.iter().map(|v| f.at(*v)).collect()).collect::<Vec<Vec<u8>>>(), "transform_all over vectors");
    let mapped: Vec<u8> = xs.iter().map(|v| g.at(f.at(*v))).collect();
    eq!(Pipeline::new(xs.clone()).map(|v: &u8| f.at(*v)).map_owned(|v: u8| g.at(v)).extract(), mapped, "Pipeline over a vector");
    eq!(Pipeline::new(xs.clone()).map_owned(|v: u8| f.at(v)).map(|v: &u8| g.at(*v)).into_iter().collect::<Vec<u8>>(), mapped, "Pipeline into_iter");
}
fn transform_one<S: Src>(s: &mut S) {
    let (o, f, g) = (s.opt(), s.tab(), s.tab());
    let want = o.map(|v| g.at(f.at(v)));
    eq!(Pipeline::new(o).map(|v: &u8| f.at(*v)).map_owned(|v: u8| g.at(v)).extract(), want, "Pipeline over an option");
    eq!(Pipeline::new(o).map_owned(|v: u8| f.at(v)).map(|v: &u8| g.at(*v)).extract(), want, "Pipeline over an option, owned first");
    eq!(Pipeline::new(o).extract(), o, "Pipeline without steps");
    eq!(tu::transform_chain(Some(o), |v: &u8| f.at(*v)), Some(o.map(|v| f.at(v))), "transform_chain on a value");
    eq!(tu::transform_chain(None::<Option<u8>>, |v: &u8| f.at(*v)), None, "transform_chain on None");
}
fn foldable<S: Src>(s: &mut S) {
    let (r, m, z) = (s.res(), s.tab2(), s.u8());
    let want = match r {
        Ok(v) => m.at(z, v),
        Err(_) => z,
    };
    eq!(r.ok().fold_left(&z, |a, x| m.at(*a, *x)), want, "Option fold_left");
    eq!(r.fold_left(&z, |a, x| m.at(*a, *x)), want, "Result fold_left");
}

harnesses! {
    "C21";
    prove {
        with_error 2, result_ext 2, maps 2, functions 2, pipeline_one 3, transform_one 2, foldable 2,
    }
    test {
        sequence 2.0, traverse 2.0, with_error_validated 1.0, result_ext_validated 0.5, pipelines 2.0, filters 2.0, folds 1.0, transform 1.0,
    }
}
