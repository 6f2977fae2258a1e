//! C06: functor, applicative and monad laws of Option, Result, Maybe, Either, Id and Vec.
//! Every harness asserts `real operation == spec function on Result/Vec`, and how often the given
//! function is called (exactly once per value it must see).
use crate::src::*;
use crate::{ck, eq};
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::pure::{Pure, PureExt, PureType};
use std::cell::Cell;

type R = Result<u8, u8>;

/// Spec: the first failure in argument order, otherwise the function of all values.
fn spec2(a: R, b: R, f: impl Fn(u8, u8) -> u8) -> R {
    match (a, b) {
        (Err(e), _) => Err(e),
        (_, Err(e)) => Err(e),
        (Ok(x), Ok(y)) => Ok(f(x, y)),
    }
}
fn spec3(a: R, b: R, c: R, f: impl Fn(u8, u8, u8) -> u8) -> R {
    match (a, b, c) {
        (Err(e), _, _) => Err(e),
        (_, Err(e), _) => Err(e),
        (_, _, Err(e)) => Err(e),
        (Ok(x), Ok(y), Ok(z)) => Ok(f(x, y, z)),
    }
}

macro_rules! container {
    ($mod_:ident, $M:ident, $mk:expr, $un:expr, $gen:ident, $pre:ident) => {
        mod $mod_ {
            use super::*;
            pub fn functor<S: Src>(s: &mut S) {
                let (r, t) = ($gen(s), s.tab());
                let k = s.u8();
                let x: $M<u8> = $mk(r);
                let n = Cell::new(0u8);
                let calls = if r.is_ok() { 1 } else { 0 };
                eq!($un(Functor::fmap(&x, |v| { n.set(n.get() + 1); t.at(*v) })), r.map(|v| t.at(v)), "fmap");
                ck!(n.get() == calls, "fmap calls the function once per value");
                eq!($un(x.clone()), r, "fmap leaves its argument unchanged");
                n.set(0);
                eq!($un(Functor::fmap_owned(x.clone(), |v| { n.set(n.get() + 1); t.at(v) })), r.map(|v| t.at(v)), "fmap_owned");
                ck!(n.get() == calls, "fmap_owned calls the function once per value");
                eq!($un(x.replace(&k)), r.map(|_| k), "replace");
                eq!($un(x.replace_owned(k)), r.map(|_| k), "replace_owned");
                eq!($un(Functor::fmap(&x.void(), |_: &()| 1u8)), r.map(|_| 1), "void");
                eq!($un(Functor::fmap(&x.void_owned(), |_: &()| 1u8)), r.map(|_| 1), "void_owned");
            }
            pub fn lift2<S: Src>(s: &mut S) {
                let (a, b, t) = ($gen(s), $gen(s), s.tab2());
                let (x, y): ($M<u8>, $M<u8>) = ($mk(a), $mk(b));
                let n = Cell::new(0u8);
                let want = spec2(a, b, |x, y| t.at(x, y));
                let calls = if want.is_ok() { 1 } else { 0 };
                eq!($un(<$M<u8> as Applicative>::lift2(|x: &u8, y: &u8| { n.set(n.get() + 1); t.at(*x, *y) }, &x, &y)), want, "lift2");
                ck!(n.get() == calls, "lift2 calls the function once");
                n.set(0);
                eq!($un(<$M<u8> as Applicative>::lift2_owned(|x: u8, y: u8| { n.set(n.get() + 1); t.at(x, y) }, x.clone(), y.clone())), want, "lift2_owned");
                ck!(n.get() == calls, "lift2_owned calls the function once");
                eq!($un(<$M<u8> as Applicative>::ap2(|x: &u8, y: &u8| t.at(*x, *y), &x, &y)), want, "ap2");
                if !s.symbolic() {
                    // one value as both arguments
                    let want = spec2(a, a, |x, y| t.at(x, y));
                    eq!($un(<$M<u8> as Applicative>::lift2(|x: &u8, y: &u8| t.at(*x, *y), &x, &x)), want, "lift2 of one value twice");
                    eq!($un(<$M<u8> as Applicative>::ap2(|x: &u8, y: &u8| t.at(*x, *y), &x, &x)), want, "ap2 of one value twice");
                    eq!($un(<$M<u8> as Applicative>::sequence_right::<u8, u8>(&x, &x)), a, "sequence_right of one value twice");
                    eq!($un(<$M<u8> as Applicative>::sequence_left::<u8, u8>(&x, &x)), a, "sequence_left of one value twice");
                    let t = s.tab3();
                    let l3 = |p: &$M<u8>, q: &$M<u8>, r: &$M<u8>| $un(<$M<u8> as Applicative>::lift3(|x: &u8, y: &u8, z: &u8| t.at(*x, *y, *z), p, q, r));
                    eq!(l3(&x, &x, &x), spec3(a, a, a, |x, y, z| t.at(x, y, z)), "lift3 of one value");
                    eq!(l3(&x, &x, &y), spec3(a, a, b, |x, y, z| t.at(x, y, z)), "lift3 of one value twice");
                    eq!(l3(&x, &y, &x), spec3(a, b, a, |x, y, z| t.at(x, y, z)), "lift3 of one value twice");
                    eq!(l3(&y, &x, &x), spec3(b, a, a, |x, y, z| t.at(x, y, z)), "lift3 of one value twice");
                }
            }
            pub fn sequence<S: Src>(s: &mut S) {
                let (a, b) = ($gen(s), $gen(s));
                let (x, y): ($M<u8>, $M<u8>) = ($mk(a), $mk(b));
                eq!($un(<$M<u8> as Applicative>::sequence_right::<u8, u8>(&x, &y)), spec2(a, b, |_, y| y), "sequence_right");
                eq!($un(<$M<u8> as Applicative>::sequence_left::<u8, u8>(&x, &y)), spec2(a, b, |x, _| x), "sequence_left");
                eq!($un(<$M<u8> as Applicative>::sequence_right_owned::<u8, u8>(x.clone(), y.clone())), spec2(a, b, |_, y| y), "sequence_right_owned");
                eq!($un(<$M<u8> as Applicative>::sequence_left_owned::<u8, u8>(x.clone(), y.clone())), spec2(a, b, |x, _| x), "sequence_left_owned");
            }
            pub fn lift3<S: Src>(s: &mut S) {
                let (a, b, c, t) = ($gen(s), $gen(s), $gen(s), s.tab3());
                let (x, y, z): ($M<u8>, $M<u8>, $M<u8>) = ($mk(a), $mk(b), $mk(c));
                let want = spec3(a, b, c, |x, y, z| t.at(x, y, z));
                eq!($un(<$M<u8> as Applicative>::lift3(|x: &u8, y: &u8, z: &u8| t.at(*x, *y, *z), &x, &y, &z)), want, "lift3");
                eq!($un(<$M<u8> as Applicative>::lift3_owned(|x: u8, y: u8, z: u8| t.at(x, y, z), x, y, z)), want, "lift3_owned");
            }
            pub fn apply<S: Src>(s: &mut S) {
                let (a, b, t) = ($gen(s), $gen(s), s.tab2());
                let y: $M<u8> = $mk(b);
                let want = spec2(a, b, |x, y| t.at(x, y));
                let f: $M<_> = $mk(a.map(|i| move |v: &u8| t.at(i, *v)));
                eq!($un(Applicative::apply(&f, &y)), want, "apply");
                let f: $M<_> = $mk(a.map(|i| move |v: u8| t.at(i, v)));
                eq!($un(Applicative::apply_owned(f, y)), want, "apply_owned");
            }
            pub fn bind<S: Src>(s: &mut S) {
                let (a, k) = ($gen(s), s.ktab());
                let x: $M<u8> = $mk(a);
                let n = Cell::new(0u8);
                let at = |v: u8| $pre(k.at(v));
                let want = a.and_then(|v| at(v));
                eq!($un(Monad::bind(&x, |v: &u8| -> $M<u8> { n.set(n.get() + 1); $mk(at(*v)) })), want, "bind");
                ck!(n.get() == a.is_ok() as u8, "bind calls the continuation once");
                eq!($un(Monad::bind_owned(x.clone(), |v: u8| -> $M<u8> { $mk(at(v)) })), want, "bind_owned");
                eq!($un(Monad::flat_map(&x, |v: &u8| -> $M<u8> { $mk(at(*v)) })), want, "flat_map");
                eq!($un(Monad::flat_map_owned(x, |v: u8| -> $M<u8> { $mk(at(v)) })), want, "flat_map_owned");
            }
            pub fn join<S: Src>(s: &mut S) {
                let (o, i) = ($gen(s), $gen(s));
                let m: $M<$M<u8>> = $mk(o.map(|_| -> $M<u8> { $mk(i) }));
                let want = o.and_then(|_| i);
                eq!($un(Monad::join::<u8>(&m)), want, "join");
                eq!($un(Monad::join_owned::<u8>(m)), want, "join_owned");
            }
            pub fn monad_ext<S: Src>(s: &mut S) {
                let (a, t, k, q, d) = ($gen(s), s.tab(), s.ktab(), s.ptab(), s.u8());
                let x: $M<u8> = $mk(a);
                eq!($un(Monad::map_and_pure(&x, |v: &u8| t.at(*v))), a.map(|v| t.at(v)), "map_and_pure");
                let at = |v: u8| $pre(k.at(v));
                let f = |v: &u8| -> Result<$M<u8>, ()> { if q.at(*v) { Ok($mk(at(*v))) } else { Err(()) } };
                let want = a.and_then(|v| if q.at(v) { at(v) } else { Ok(d) });
                eq!($un(Monad::try_bind(&x, &d, f)), want, "try_bind");
            }
            pub fn pure<S: Src>(s: &mut S) {
                let (v, w, t) = (s.u8(), s.u8(), s.tab2());
                eq!($un(<$M<u8> as Pure>::pure(&v)), Ok(v), "pure");
                eq!($un(<$M<u8> as Pure>::pure_owned(v)), Ok(v), "pure_owned");
                eq!($un(v.to_pure::<$M<u8>>()), Ok(v), "to_pure");
                eq!($un(v.to_pure_owned::<$M<u8>>()), Ok(v), "to_pure_owned");
                eq!($un(Functor::fmap(&v.pair_with::<$M<u8>, u8>(&w), |p: &(u8, u8)| t.at(p.0, p.1))), Ok(t.at(v, w)), "pair_with");
                eq!($un(v.lift_other::<$M<u8>, u8>(&w)), Ok(w), "lift_other");
                eq!($un(v.combine_with::<$M<u8>, u8, u8>(&w, |a, b| t.at(*a, *b))), Ok(t.at(v, w)), "combine_with");
                eq!($un(PureType::<$M<u8>, u8>::lift(&v)), Ok(v), "PureType::lift");
                eq!($un(PureType::<$M<u8>, u8>::lift_owned(v)), Ok(v), "PureType::lift_owned");
            }
            pub fn identity<S: Src>(s: &mut S) {
                let a = $gen(s);
                let x: $M<u8> = $mk(a);
                if let Ok(v) = a {
                    eq!(*Identity::value(&x), v, "value");
                    eq!(Identity::try_value(&x), Some(&v), "try_value");
                    eq!(Identity::try_into_value(x.clone()), Some(v), "try_into_value");
                    eq!(Identity::into_value(x), v, "into_value");
                }
            }
        }
    };
}

// generators and normalisers --------------------------------------------------------------------
fn any<S: Src>(s: &mut S) -> R {
    s.res()
}
/// no error payload
fn unit<S: Src>(s: &mut S) -> R {
    if s.bool() { Ok(s.u8()) } else { Err(0) }
}
/// always a success
fn ok<S: Src>(s: &mut S) -> R {
    Ok(s.u8())
}
fn keep(r: R) -> R {
    r
}
fn drop_e(r: R) -> R {
    r.map_err(|_| 0)
}
fn force(r: R) -> R {
    match r {
        Ok(v) | Err(v) => Ok(v),
    }
}
type Opt<T> = Option<T>;
type Res<T> = Result<T, u8>;
type May<T> = rustica::datatypes::maybe::Maybe<T>;
type Eit<T> = rustica::datatypes::either::Either<u8, T>;
type Idn<T> = rustica::datatypes::id::Id<T>;
fn mk_may<T>(r: Result<T, u8>) -> May<T> {
    match r {
        Ok(v) => May::Just(v),
        Err(_) => May::Nothing,
    }
}
fn un_may<T>(r: May<T>) -> Result<T, u8> {
    match r {
        May::Just(v) => Ok(v),
        May::Nothing => Err(0),
    }
}
fn mk_eit<T>(r: Result<T, u8>) -> Eit<T> {
    match r {
        Ok(v) => Eit::Right(v),
        Err(e) => Eit::Left(e),
    }
}
fn un_eit<T>(r: Eit<T>) -> Result<T, u8> {
    match r {
        Eit::Right(v) => Ok(v),
        Eit::Left(e) => Err(e),
    }
}
fn mk_idn<T>(r: Result<T, u8>) -> Idn<T> {
    match r {
        Ok(v) => Idn::new(v),
        Err(_) => unreachable!(),
    }
}
fn un_idn<T>(r: Idn<T>) -> Result<T, u8> {
    Ok(r.into_inner())
}
container!(option, Opt, |r: Result<_, u8>| r.ok(), |o: Option<_>| o.ok_or(0u8), unit, drop_e);
container!(result, Res, |r: Result<_, u8>| r, |r: Result<_, u8>| r, any, keep);
container!(maybe, May, mk_may, un_may, unit, drop_e);
container!(either, Eit, mk_eit, un_eit, any, keep);
container!(id, Idn, mk_idn, un_idn, ok, force);

macro_rules! re {
    ($($name:ident = $m:ident :: $f:ident),* $(,)?) => { $(fn $name<S: Src>(s: &mut S) { $m::$f(s) })* };
}
re!(
    option_functor = option::functor, option_lift2 = option::lift2, option_sequence = option::sequence,
    option_lift3 = option::lift3, option_apply = option::apply, option_bind = option::bind,
    option_join = option::join, option_monad_ext = option::monad_ext, option_pure = option::pure, option_identity = option::identity,
    result_functor = result::functor, result_lift2 = result::lift2, result_sequence = result::sequence,
    result_lift3 = result::lift3, result_apply = result::apply, result_bind = result::bind,
    result_join = result::join, result_monad_ext = result::monad_ext, result_pure = result::pure, result_identity = result::identity,
    maybe_functor = maybe::functor, maybe_lift2 = maybe::lift2, maybe_sequence = maybe::sequence,
    maybe_lift3 = maybe::lift3, maybe_apply = maybe::apply, maybe_bind = maybe::bind,
    maybe_join = maybe::join, maybe_monad_ext = maybe::monad_ext, maybe_pure = maybe::pure, maybe_identity = maybe::identity,
    either_functor = either::functor, either_lift2 = either::lift2, either_sequence = either::sequence,
    either_lift3 = either::lift3, either_apply = either::apply, either_bind = either::bind,
    either_join = either::join, either_monad_ext = either::monad_ext, either_pure = either::pure, either_identity = either::identity,
    id_functor = id::functor, id_lift2 = id::lift2, id_sequence = id::sequence,
    id_lift3 = id::lift3, id_apply = id::apply, id_bind = id::bind,
    id_join = id::join, id_monad_ext = id::monad_ext, id_pure = id::pure, id_identity = id::identity,
);

fn functor_ext_option<S: Src>(s: &mut S) {
    let (a, k, d, t) = (s.opt(), s.ktab(), s.u8(), s.tab());
    eq!(FunctorExt::filter_map(&a, |v: &u8| k.opt(*v)), a.and_then(|v| k.opt(v)), "Option filter_map");
    eq!(FunctorExt::try_map_or(&a, d, |v: &u8| k.at(*v)), a.map(|v| k.at(v).unwrap_or(d)), "Option try_map_or");
    eq!(FunctorExt::try_map_or_else(&a, |e: &u8| t.at(*e), |v: &u8| k.at(*v)), a.map(|v| k.at(v).unwrap_or_else(|e| t.at(e))), "Option try_map_or_else");
}
fn functor_ext_result<S: Src>(s: &mut S) {
    let (a, k, d, t) = (s.res(), s.ktab(), s.u8(), s.tab());
    eq!(FunctorExt::filter_map(&a, |v: &u8| k.opt(*v)), a.and_then(|v| k.opt(v).ok_or(0)), "Result filter_map");
    eq!(FunctorExt::try_map_or(&a, d, |v: &u8| k.at(*v)), a.map(|v| k.at(v).unwrap_or(d)), "Result try_map_or");
    eq!(FunctorExt::try_map_or_else(&a, |e: &u8| t.at(*e), |v: &u8| k.at(*v)), a.map(|v| k.at(v).unwrap_or_else(|e| t.at(e))), "Result try_map_or_else");
}

// Vec ---------------------------------------------------------------------------------------------
fn vec_functor<S: Src>(s: &mut S) {
    let (t, k, kt, d) = (s.tab(), s.u8(), s.ktab(), s.u8());
    let v = s.vec(6);
    let n = Cell::new(0usize);
    let want: Vec<u8> = v.iter().map(|x| t.at(*x)).collect();
    eq!(Functor::fmap(&v, |x: &u8| { n.set(n.get() + 1); t.at(*x) }), want, "Vec fmap");
    ck!(n.get() == v.len(), "Vec fmap calls the function once per element");
    eq!(Functor::fmap_owned(v.clone(), |x: u8| t.at(x)), want, "Vec fmap_owned");
    eq!(Functor::replace(&v, &k), vec![k; v.len()], "Vec replace");
    eq!(Functor::replace_owned(&v, k), vec![k; v.len()], "Vec replace_owned");
    eq!(Functor::void(&v).len(), v.len(), "Vec void");
    eq!(FunctorExt::filter_map(&v, |x: &u8| kt.opt(*x)), v.iter().filter_map(|x| kt.opt(*x)).collect::<Vec<u8>>(), "Vec filter_map");
    eq!(FunctorExt::try_map_or(&v, d, |x: &u8| kt.at(*x)), v.iter().map(|x| kt.at(*x).unwrap_or(d)).collect::<Vec<u8>>(), "Vec try_map_or");
    eq!(FunctorExt::try_map_or_else(&v, |e: &u8| t.at(*e), |x: &u8| kt.at(*x)), v.iter().map(|x| kt.at(*x).unwrap_or_else(|e| t.at(e))).collect::<Vec<u8>>(), "Vec try_map_or_else");
    eq!(<Vec<u8> as Pure>::pure(&k), vec![k], "Vec pure");
    eq!(<Vec<u8> as Pure>::pure_owned(k), vec![k], "Vec pure_owned");
    eq!(*<Box<u8> as Pure>::pure(&k), k, "Box pure");
    eq!(*<Box<u8> as Pure>::pure_owned(k), k, "Box pure_owned");
}
fn vec_applicative<S: Src>(s: &mut S) {
    let (t2, t3) = (s.tab2(), s.tab3());
    let (a, b, c) = (s.vec(4), s.vec(4), s.vec(4));
    type V = Vec<u8>;
    let mut w2 = vec![];
    let mut w3 = vec![];
    let mut l = vec![];
    let mut r = vec![];
    for x in &a {
        for y in &b {
            w2.push(t2.at(*x, *y));
            l.push(*x);
            r.push(*y);
            for z in &c {
                w3.push(t3.at(*x, *y, *z));
            }
        }
    }
    eq!(<V as Applicative>::lift2(|x: &u8, y: &u8| t2.at(*x, *y), &a, &b), w2, "Vec lift2");
    // one list as several arguments
    let of = |p: &V, q: &V| p.iter().flat_map(|x| q.iter().map(|y| t2.at(*x, *y))).collect::<V>();
    eq!(<V as Applicative>::lift2(|x: &u8, y: &u8| t2.at(*x, *y), &a, &a), of(&a, &a), "Vec lift2 of one list");
    eq!(<V as Applicative>::ap2(|x: &u8, y: &u8| t2.at(*x, *y), &a, &a), of(&a, &a), "Vec ap2 of one list");
    eq!(<V as Applicative>::sequence_left::<u8, u8>(&a, &a), a.iter().flat_map(|x| a.iter().map(|_| *x)).collect::<V>(), "Vec sequence_left of one list");
    eq!(<V as Applicative>::sequence_right::<u8, u8>(&a, &a), a.iter().flat_map(|_| a.iter().copied()).collect::<V>(), "Vec sequence_right of one list");
    for (p, q, r) in [(&a, &a, &a), (&a, &a, &b), (&a, &b, &a), (&b, &a, &a)] {
        let want: V = p.iter().flat_map(|x| q.iter().map(|y| (*x, *y)).collect::<Vec<_>>()).flat_map(|(x, y)| r.iter().map(|z| t3.at(x, y, *z)).collect::<V>()).collect();
        eq!(<V as Applicative>::lift3(|x: &u8, y: &u8, z: &u8| t3.at(*x, *y, *z), p, q, r), want, "Vec lift3 of one list twice");
    }
    eq!(<V as Applicative>::lift2_owned(|x: u8, y: u8| t2.at(x, y), a.clone(), b.clone()), w2, "Vec lift2_owned");
    eq!(<V as Applicative>::ap2(|x: &u8, y: &u8| t2.at(*x, *y), &a, &b), w2, "Vec ap2");
    eq!(<V as Applicative>::lift3(|x: &u8, y: &u8, z: &u8| t3.at(*x, *y, *z), &a, &b, &c), w3, "Vec lift3");
    eq!(<V as Applicative>::lift3_owned(|x: u8, y: u8, z: u8| t3.at(x, y, z), a.clone(), b.clone(), c.clone()), w3, "Vec lift3_owned");
    eq!(<V as Applicative>::sequence_left::<u8, u8>(&a, &b), l, "Vec sequence_left");
    eq!(<V as Applicative>::sequence_right::<u8, u8>(&a, &b), r, "Vec sequence_right");
    eq!(<V as Applicative>::sequence_left_owned::<u8, u8>(a.clone(), b.clone()), l, "Vec sequence_left_owned");
    eq!(<V as Applicative>::sequence_right_owned::<u8, u8>(a.clone(), b.clone()), r, "Vec sequence_right_owned");
    let fs: Vec<_> = a.iter().map(|&i| move |v: &u8| t2.at(i, *v)).collect();
    eq!(Applicative::apply(&fs, &b), w2, "Vec apply");
    let fs: Vec<_> = a.iter().map(|&i| move |v: u8| t2.at(i, v)).collect();
    eq!(Applicative::apply_owned(fs, b), w2, "Vec apply_owned");
}

// the containers' own methods ---------------------------------------------------------------------
fn maybe_methods<S: Src>(s: &mut S) {
    let (o, d, t, q) = (s.opt(), s.u8(), s.tab(), s.ptab());
    let c = s.bool();
    let m = May::from_option(o);
    eq!(m.is_just(), o.is_some(), "is_just");
    eq!(m.is_nothing(), o.is_none(), "is_nothing");
    eq!(m.clone().unwrap_or(d), o.unwrap_or(d), "unwrap_or");
    eq!(m.clone().unwrap_or_else(|| d), o.unwrap_or(d), "unwrap_or_else");
    eq!(m.clone().fmap_or(d, |v| t.at(v)), o.map_or(d, |v| t.at(v)), "fmap_or");
    eq!(m.as_ref(), o.as_ref(), "as_ref");
    eq!(m.as_option(), o.as_ref(), "as_option");
    eq!(m.clone().filter(|v| q.at(*v)).to_option(), o.filter(|v| q.at(*v)), "filter");
    let seen = Cell::new(None);
    eq!(m.clone().tap(|v| seen.set(Some(*v))).to_option(), o, "tap");
    eq!(seen.get(), o, "tap sees the value");
    eq!(May::when(c, d).to_option(), if c { Some(d) } else { None }, "when");
    eq!(May::some(d).to_option(), Some(d), "some");
    eq!(May::<u8>::none().to_option(), None, "none");
    eq!(May::<u8>::default().to_option(), None, "default");
    if let Some(v) = o {
        eq!(m.clone().unwrap(), v, "unwrap");
    }
    eq!(m.iter().copied().next(), o, "iter");
    eq!(m.iter().count(), o.is_some() as usize, "iter count");
    let mut m2 = m.clone();
    for v in m2.iter_mut() {
        *v = t.at(*v);
    }
    eq!(m2.to_option(), o.map(|v| t.at(v)), "iter_mut");
    let mut it = m.into_iter();
    eq!(it.next(), o, "into_iter");
    eq!(it.next(), None, "into_iter ends");
    eq!((&m).into_iter().copied().next(), o, "into_iter ref");
}
fn maybe_collect<S: Src>(s: &mut S) {
    let v = s.vec(3);
    let m: May<u8> = many(s, v.clone()).collect();
    eq!(m.to_option(), v.first().copied(), "from_iter keeps the first item");
    let o = s.opt();
    eq!(May::from_option(o).to_vec(), o.into_iter().collect::<Vec<u8>>(), "to_vec");
}
fn either_methods<S: Src>(s: &mut S) {
    let (r, d, t) = (s.res(), s.u8(), s.tab());
    let e = mk_eit(r);
    eq!(e.is_left(), r.is_err(), "is_left");
    eq!(e.is_right(), r.is_ok(), "is_right");
    eq!(un_eit(e.clone().fmap_left(|v| t.at(v))), r.map_err(|v| t.at(v)), "fmap_left");
    eq!(un_eit(e.clone().fmap_right(|v| t.at(v))), r.map(|v| t.at(v)), "fmap_right");
    eq!(e.clone().unwrap_or(d), r.unwrap_or(d), "unwrap_or");
    eq!(e.clone().right_or(d), r.unwrap_or(d), "right_or");
    eq!(e.clone().left_or(d), r.err().unwrap_or(d), "left_or");
    eq!(e.clone().right_option(), r.ok(), "right_option");
    eq!(e.clone().left_option(), r.err(), "left_option");
    eq!(e.clone().to_result(), r, "to_result");
    eq!(un_eit(rustica::datatypes::either::Either::from_result(r)), r, "from_result");
    eq!(un_eit(Eit::<u8>::left(d)), Err(d), "left");
    eq!(un_eit(Eit::<u8>::right(d)), Ok(d), "right");
    match r {
        Ok(v) => {
            eq!(e.clone().unwrap(), v, "unwrap");
            eq!(e.clone().unwrap_right(), v, "unwrap_right");
            eq!(e.clone().right_value(), v, "right_value");
            eq!(*e.right_ref(), v, "right_ref");
        },
        Err(v) => {
            eq!(e.clone().unwrap_left(), v, "unwrap_left");
            eq!(e.clone().left_value(), v, "left_value");
            eq!(*e.left_ref(), v, "left_ref");
            let mut e2 = e.clone();
            *e2.left_mut() = d;
            eq!(un_eit(e2), Err(d), "left_mut");
        },
    }
    let mut it = e.clone().into_iter();
    eq!(it.next(), r.ok(), "into_iter");
    eq!(it.next(), None, "into_iter ends");
    let mut it = (&e).into_iter();
    eq!(it.next().copied(), r.ok(), "iter");
    eq!(it.next(), None, "iter ends");
    let mut e2 = e.clone();
    for v in &mut e2 {
        *v = t.at(*v);
    }
    eq!(un_eit(e2), r.map(|v| t.at(v)), "iter_mut");
    let mut it = e.clone().left_iter();
    eq!(it.next(), r.err(), "left_iter");
    eq!(it.next(), None, "left_iter ends");
    let mut it = e.left_iter_ref();
    eq!(it.next().copied(), r.err(), "left_iter_ref");
    eq!(it.next(), None, "left_iter_ref ends");
    let mut e2 = e.clone();
    for v in e2.left_iter_mut() {
        *v = t.at(*v);
    }
    eq!(un_eit(e2), r.map_err(|v| t.at(v)), "left_iter_mut");
}
/// The iterators driven by arbitrary sequences of calls.
fn walks<S: Src>(s: &mut S) {
    let r = s.res();
    let (ok, er): (Vec<u8>, Vec<u8>) = (r.ok().into_iter().collect(), r.err().into_iter().collect());
    let (rok, rer): (Vec<&u8>, Vec<&u8>) = (ok.iter().collect(), er.iter().collect());
    let mut m = mk_may(r);
    walk(s, m.iter(), &rok, false, "Maybe iter");
    walk(s, (&m).into_iter(), &rok, false, "Maybe into_iter of a reference");
    walk(s, m.iter_mut().map(|x| *x), &ok, false, "Maybe iter_mut");
    walk(s, m.into_iter(), &ok, false, "Maybe into_iter");
    let mut e = mk_eit(r);
    walk(s, (&e).into_iter(), &rok, false, "Either into_iter of a reference");
    walk(s, (&mut e).into_iter().map(|x| *x), &ok, false, "Either into_iter of a mutable reference");
    walk(s, e.left_iter_ref(), &rer, false, "Either left_iter_ref");
    walk(s, e.left_iter_mut().map(|x| *x), &er, false, "Either left_iter_mut");
    walk(s, e.clone().left_iter(), &er, false, "Either left_iter");
    walk(s, e.into_iter(), &ok, false, "Either into_iter");
    let x = s.u8();
    let mut i = Idn::new(x);
    walk(s, (&i).into_iter(), &[&x], false, "Id into_iter of a reference");
    walk(s, (&mut i).into_iter().map(|x| *x), &[x], false, "Id into_iter of a mutable reference");
    walk(s, i.into_iter(), &[x], false, "Id into_iter");
}
fn id_methods<S: Src>(s: &mut S) {
    let (v, w) = (s.u8(), s.u8());
    let i = Idn::new(v);
    eq!(i.clone().into_inner(), v, "into_inner");
    eq!(i.clone().unwrap(), v, "unwrap");
    eq!(i.clone().unwrap_or(w), v, "unwrap_or");
    eq!(*i.as_ref(), v, "as_ref");
    eq!(Idn::from_ref(&v).into_inner(), v, "from_ref");
    eq!(i.clone().then(Idn::new(w)).into_inner(), w, "then");
    let mut j = i.clone();
    *j.value_mut() = w;
    eq!(j.into_inner(), w, "value_mut");
    eq!(Idn::from(v).into_inner(), v, "from");
    let mut it = i.into_iter();
    eq!(it.next(), Some(v), "into_iter");
    eq!(it.next(), None, "into_iter ends");
    eq!((&i).into_iter().copied().next(), Some(v), "iter");
    for x in &mut j {
        *x = v;
    }
    eq!(j.into_inner(), v, "iter_mut");
}
/// The laws themselves, as lemmas over the operations (they also follow from the equalities above).
fn laws<S: Src>(s: &mut S) {
    let (r, f, g, t, u) = (s.res(), s.ktab(), s.ktab(), s.tab(), s.tab());
    let m = mk_eit(r);
    let kf = |x: &u8| mk_eit(f.at(*x));
    let kg = |x: &u8| mk_eit(g.at(*x));
    eq!(Functor::fmap(&m, |x: &u8| *x), m, "functor identity");
    eq!(Functor::fmap(&Functor::fmap(&m, |x: &u8| t.at(*x)), |x: &u8| u.at(*x)), Functor::fmap(&m, |x: &u8| u.at(t.at(*x))), "functor composition");
    eq!(Monad::bind(&Monad::bind(&m, kf), kg), Monad::bind(&m, |x: &u8| Monad::bind(&kf(x), kg)), "monad associativity");
    eq!(Monad::bind(&m, |x: &u8| <Eit<u8> as Pure>::pure(x)), m, "right identity");
    let a = s.u8();
    eq!(Monad::bind(&<Eit<u8> as Pure>::pure(&a), kf), kf(&a), "left identity");
}

crate::harnesses! { "C06";
    prove {
        option_functor 2, option_lift2 2, option_sequence 2, option_lift3 2, option_apply 2, option_bind 2, option_join 2, option_monad_ext 2, option_pure 2, option_identity 2,
        result_functor 2, result_lift2 2, result_sequence 2, result_lift3 2, result_apply 2, result_bind 2, result_join 2, result_monad_ext 2, result_pure 2, result_identity 2,
        maybe_functor 2, maybe_lift2 2, maybe_sequence 2, maybe_lift3 2, maybe_apply 2, maybe_bind 2, maybe_join 2, maybe_monad_ext 2, maybe_pure 2, maybe_identity 2,
        either_functor 2, either_lift2 2, either_sequence 2, either_lift3 2, either_apply 2, either_bind 2, either_join 2, either_monad_ext 2, either_pure 2, either_identity 2,
        id_functor 2, id_lift2 2, id_sequence 2, id_lift3 2, id_apply 2, id_bind 2, id_join 2, id_monad_ext 2, id_pure 2, id_identity 2,
        functor_ext_option 2, functor_ext_result 2, maybe_methods 3, either_methods 3, id_methods 3, laws 2,
    }
    test { walks 0.7, vec_functor 2.0, vec_applicative 2.0, maybe_collect 1.0 }
}
