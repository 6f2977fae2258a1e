//! C08: Validated accumulates every error, in order.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::validated::Validated;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use smallvec::SmallVec;
use std::cell::Cell;

type V<T> = Validated<u8, T>;
/// The spec view: the value or the list of errors.
type Sp = Result<u8, Vec<u8>>;

fn mk<T>(r: Result<T, Vec<u8>>) -> V<T> {
    match r {
        Ok(v) => Validated::Valid(v),
        Err(es) => {
            let mut sv = SmallVec::new();
            for e in es {
                sv.push(e);
            }
            Validated::Invalid(sv)
        },
    }
}
fn un<T>(v: V<T>) -> Result<T, Vec<u8>> {
    match v {
        Validated::Valid(v) => Ok(v),
        Validated::Invalid(es) => {
            let mut o = Vec::new();
            for e in es {
                o.push(e);
            }
            Err(o)
        },
    }
}
/// Up to `max` errors; `Invalid` with no error occurs too (it is the identity of `combine`).
fn gen_<S: Src>(s: &mut S, max: u32) -> Sp {
    if s.bool() { Ok(s.u8()) } else { Err(s.vec(max)) }
}
fn cat(xs: &[&Sp]) -> Vec<u8> {
    let mut o = Vec::new();
    for x in xs {
        if let Err(e) = x {
            o.extend(e.iter().copied());
        }
    }
    o
}
fn spec2(a: &Sp, b: &Sp, f: impl Fn(u8, u8) -> u8) -> Sp {
    match (a, b) {
        (Ok(x), Ok(y)) => Ok(f(*x, *y)),
        _ => Err(cat(&[a, b])),
    }
}
fn spec3(a: &Sp, b: &Sp, c: &Sp, f: impl Fn(u8, u8, u8) -> u8) -> Sp {
    match (a, b, c) {
        (Ok(x), Ok(y), Ok(z)) => Ok(f(*x, *y, *z)),
        _ => Err(cat(&[a, b, c])),
    }
}
const BIG: u32 = 11;

fn max<S: Src>(s: &S, m: u32) -> u32 {
    if s.symbolic() { 2 } else { m }
}

fn lift2<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (t, a, b) = (s.tab2(), gen_(s, m), gen_(s, m));
    let (x, y) = (mk(a.clone()), mk(b.clone()));
    let want = spec2(&a, &b, |x, y| t.at(x, y));
    eq!(un(<V<u8> as Applicative>::lift2(|x: &u8, y: &u8| t.at(*x, *y), &x, &y)), want, "lift2");
    if !s.symbolic() {
        // one value as several arguments
        let want = spec2(&a, &a, |x, y| t.at(x, y));
        eq!(un(<V<u8> as Applicative>::lift2(|x: &u8, y: &u8| t.at(*x, *y), &x, &x)), want, "lift2 of one value twice");
        eq!(un(<V<u8> as Applicative>::ap2(|x: &u8, y: &u8| t.at(*x, *y), &x, &x)), want, "ap2 of one value twice");
        eq!(un(<V<u8> as Applicative>::sequence_right::<u8, u8>(&x, &x)), spec2(&a, &a, |_, y| y), "sequence_right of one value twice");
        eq!(un(<V<u8> as Applicative>::sequence_left::<u8, u8>(&x, &x)), spec2(&a, &a, |x, _| x), "sequence_left of one value twice");
        let u = s.tab3();
        for (p, q, r, l, m, n) in [(&x, &x, &x, &a, &a, &a), (&x, &x, &y, &a, &a, &b), (&x, &y, &x, &a, &b, &a), (&y, &x, &x, &b, &a, &a)] {
            let want = spec3(l, m, n, |x, y, z| u.at(x, y, z));
            eq!(un(<V<u8> as Applicative>::lift3(|x: &u8, y: &u8, z: &u8| u.at(*x, *y, *z), p, q, r)), want, "lift3 of one value twice");
        }
    }
    eq!(un(<V<u8> as Applicative>::lift2_owned(|x: u8, y: u8| t.at(x, y), x, y)), want, "lift2_owned");
}
fn sequence_lr<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (t, a, b) = (s.tab2(), gen_(s, m), gen_(s, m));
    let (x, y) = (mk(a.clone()), mk(b.clone()));
    eq!(un(<V<u8> as Applicative>::ap2(|x: &u8, y: &u8| t.at(*x, *y), &x, &y)), spec2(&a, &b, |x, y| t.at(x, y)), "ap2");
    eq!(un(<V<u8> as Applicative>::sequence_right::<u8, u8>(&x, &y)), spec2(&a, &b, |_, y| y), "sequence_right");
    eq!(un(<V<u8> as Applicative>::sequence_left::<u8, u8>(&x, &y)), spec2(&a, &b, |x, _| x), "sequence_left");
    eq!(un(<V<u8> as Applicative>::sequence_right_owned::<u8, u8>(x.clone(), y.clone())), spec2(&a, &b, |_, y| y), "sequence_right_owned");
    eq!(un(<V<u8> as Applicative>::sequence_left_owned::<u8, u8>(x, y)), spec2(&a, &b, |x, _| x), "sequence_left_owned");
}
fn lift3<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (t, a, b, c) = (s.tab3(), gen_(s, m), gen_(s, m), gen_(s, m));
    let (x, y, z) = (mk(a.clone()), mk(b.clone()), mk(c.clone()));
    let want = spec3(&a, &b, &c, |x, y, z| t.at(x, y, z));
    eq!(un(<V<u8> as Applicative>::lift3(|x: &u8, y: &u8, z: &u8| t.at(*x, *y, *z), &x, &y, &z)), want, "lift3");
    eq!(un(<V<u8> as Applicative>::lift3_owned(|x: u8, y: u8, z: u8| t.at(x, y, z), x, y, z)), want, "lift3_owned");
}
fn apply<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (t, a, b) = (s.tab2(), gen_(s, m), gen_(s, m));
    let y = mk(b.clone());
    let want = spec2(&a, &b, |x, y| t.at(x, y));
    let f: V<_> = mk(a.clone().map(|i| move |v: &u8| t.at(i, *v)));
    eq!(un(Applicative::apply(&f, &y)), want, "apply");
    let f: V<_> = mk(a.map(|i| move |v: u8| t.at(i, v)));
    eq!(un(Applicative::apply_owned(f, y)), want, "apply_owned");
}
fn functor<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (t, k, a) = (s.tab(), s.u8(), gen_(s, m));
    let x = mk(a.clone());
    let n = Cell::new(0u8);
    eq!(un(Functor::fmap(&x, |v| { n.set(n.get() + 1); t.at(*v) })), a.clone().map(|v| t.at(v)), "fmap");
    ck!(n.get() == a.is_ok() as u8, "fmap calls the function once");
    eq!(un(Functor::fmap_owned(x.clone(), |v| t.at(v))), a.clone().map(|v| t.at(v)), "fmap_owned");
    eq!(un(x.replace(&k)), a.clone().map(|_| k), "replace");
    eq!(un(<V<u8> as Pure>::pure(&k)), Ok(k), "pure");
    eq!(un(<V<u8> as Pure>::pure_owned(k)), Ok(k), "pure_owned");
}
fn map_errors<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (t, a) = (s.tab(), gen_(s, m));
    let x = mk(a.clone());
    let want: Sp = a.clone().map_err(|es| es.iter().map(|e| t.at(*e)).collect());
    eq!(un(x.fmap_invalid(|e| t.at(*e))), want, "fmap_invalid");
    eq!(un(x.clone().fmap_invalid_owned(|e| t.at(e))), want, "fmap_invalid_owned");
    eq!(un(BinaryHKT::map_second(&x, |e: &u8| t.at(*e))), want, "map_second");
    eq!(un(BinaryHKT::map_second_owned(x, |e: u8| t.at(e))), want, "map_second_owned");
}
fn monad<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (q, t, a, e) = (s.ptab(), s.tab(), gen_(s, m), s.vec(m));
    let x = mk(a.clone());
    let k = |v: u8| -> Sp { if q.at(v) { Ok(t.at(v)) } else { Err(e.clone()) } };
    let want = a.clone().and_then(|v| k(v));
    eq!(un(Monad::bind(&x, |v: &u8| mk(k(*v)))), want, "bind");
    eq!(un(Monad::bind_owned(x, |v: u8| mk(k(v)))), want, "bind_owned");
}
fn join<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (a, i) = (gen_(s, m), gen_(s, m));
    let n: V<V<u8>> = mk(a.clone().map(|_| mk(i.clone())));
    eq!(un(Monad::join::<u8>(&n)), a.clone().and_then(|_| i.clone()), "join");
    eq!(un(Monad::join_owned::<u8>(n)), a.and_then(|_| i), "join_owned");
}
/// The first valid value, otherwise all errors of both.
fn orelse(a: &Sp, b: &Sp) -> Sp {
    match (a, b) {
        (Ok(x), _) => Ok(*x),
        (_, Ok(y)) => Ok(*y),
        _ => Err(cat(&[a, b])),
    }
}
fn combine<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (a, b) = (gen_(s, m), gen_(s, m));
    let (x, y) = (mk(a.clone()), mk(b.clone()));
    let want = orelse(&a, &b);
    eq!(un(Semigroup::combine(&x, &y)), want, "combine");
    eq!(un(Semigroup::combine_owned(x.clone(), y.clone())), want, "combine_owned");
    if !s.symbolic() {
        eq!(un(Semigroup::combine(&x, &x)), orelse(&a, &a), "combine with itself");
        if a.is_err() {
            eq!(un(x.combine_errors(&x)), Err(cat(&[&a, &a])), "combine_errors with itself");
        }
    }
    if a.is_err() || b.is_err() {
        let w: Sp = Err(cat(&[&a, &b]));
        eq!(un(x.combine_errors(&y)), w, "combine_errors");
        eq!(un(x.combine_errors_owned(y)), w, "combine_errors_owned");
    }
    eq!(un(<V<u8> as Monoid>::empty()), Err(vec![]), "empty");
}
fn accessors<S: Src>(s: &mut S) {
    let m = max(s, BIG);
    let (a, d) = (gen_(s, m), s.u8());
    let x = mk(a.clone());
    eq!(x.is_valid(), a.is_ok(), "is_valid");
    eq!(x.is_invalid(), a.is_err(), "is_invalid");
    let errs = a.clone().err().unwrap_or_default();
    eq!(x.errors(), errs, "errors");
    eq!(x.error_slice().to_vec(), errs, "error_slice");
    eq!(x.iter_errors().copied().collect::<Vec<u8>>(), errs, "iter_errors");
    eq!(x.error_payload().map(|p| p.to_vec()), a.clone().err(), "error_payload");
    eq!(x.clone().into_value().map_err(|e| e.to_vec()), a, "into_value");
    eq!(x.clone().into_error_payload().map(|e| e.to_vec()).map_err(|v| v), a.clone().err().ok_or_else(|| a.clone().unwrap()), "into_error_payload");
    eq!(x.to_option(), a.clone().ok(), "to_option");
    eq!(Validated::as_ref(&x).copied(), a.clone().ok(), "as_ref");
    eq!(x.unwrap_or(&d), a.clone().unwrap_or(d), "unwrap_or");
    eq!(x.iter().copied().collect::<Vec<u8>>(), a.clone().ok().into_iter().collect::<Vec<u8>>(), "iter");
    eq!(x.clone().into_iter().collect::<Vec<u8>>(), a.clone().ok().into_iter().collect::<Vec<u8>>(), "into_iter");
    match &a {
        Ok(v) => {
            eq!(x.unwrap(), *v, "unwrap");
            eq!(x.clone().unwrap_owned(), *v, "unwrap_owned");
            eq!(x.to_result(), Ok(*v), "to_result");
        },
        Err(e) => {
            eq!(x.unwrap_invalid(), *e, "unwrap_invalid");
            eq!(x.clone().unwrap_invalid_owned().to_vec(), *e, "unwrap_invalid_owned");
            if let Some(f) = e.first() {
                eq!(x.to_result(), Err(*f), "to_result");
                eq!(x.clone().to_result_owned(), Err(*f), "to_result_owned");
            }
        },
    }
    let mut y = x.clone();
    for v in y.iter_mut() {
        *v = d;
    }
    eq!(un(y), a.clone().map(|_| d), "iter_mut");
    let mut y = x.clone();
    for v in y.iter_errors_mut() {
        *v = d;
    }
    eq!(un(y), a.clone().map_err(|e| vec![d; e.len()]), "iter_errors_mut");
    let mut y = x.clone();
    if let Some(b) = y.error_buffer_mut() {
        b.push(d);
    }
    eq!(un(y), a.clone().map_err(|mut e| { e.push(d); e }), "error_buffer_mut");
}
fn from_parts<S: Src>(s: &mut S) {
    let (r, o, e) = (s.res(), s.opt(), s.u8());
    eq!(un(V::<u8>::from_result(&r)), r.map_err(|e| vec![e]), "from_result");
    eq!(un(V::<u8>::from_result_owned(r)), r.map_err(|e| vec![e]), "from_result_owned");
    let w: Sp = o.ok_or_else(|| vec![e]);
    eq!(un(V::<u8>::from_option(&o, &e)), w, "from_option");
    eq!(un(V::<u8>::from_option_owned(o, e)), w, "from_option_owned");
    eq!(un(V::<u8>::from_option_with(&o, &|| e)), w, "from_option_with");
    eq!(un(V::<u8>::from_option_with_owned(o, || e)), w, "from_option_with_owned");
    eq!(un(V::<u8>::valid(e)), Ok(e), "valid");
    eq!(un(V::<u8>::invalid(e)), Err(vec![e]), "invalid");
}
fn from_many<S: Src>(s: &mut S) {
    let m = max(s, 20);
    let es = s.vec(m);
    let w: Sp = Err(es.clone());
    eq!(un(V::<u8>::invalid_many(es.clone())), w, "invalid_many (exact size)");
    eq!(un(V::<u8>::invalid_many(many(s, es.clone()))), w, "invalid_many (inexact bounds)");
    let mut it = es.clone().into_iter();
    eq!(un(V::<u8>::invalid_many(std::iter::from_fn(move || it.next()))), w, "invalid_many (no bound)");
    if !es.is_empty() {
        eq!(un(V::<u8>::invalid_vec(many(s, es.clone()))), w, "invalid_vec");
        let mut it = es.into_iter();
        eq!(un(V::<u8>::invalid_vec(std::iter::from_fn(move || it.next()))), w, "invalid_vec (no bound)");
    }
}
fn recover<S: Src>(s: &mut S) {
    let m = max(s, 12);
    let (a, d, q, t, n) = (gen_(s, m), s.u8(), s.ptab(), s.tab(), s.below(3));
    // recovery of an error: a value, or a list of `n` further errors
    let rec = |e: u8| -> Sp { if q.at(e) { Ok(t.at(e)) } else { Err(vec![e.wrapping_add(1); n as usize]) } };
    let want: Sp = match &a {
        Ok(v) => Ok(*v),
        Err(es) => {
            let mut acc = vec![];
            let mut found = None;
            for e in es {
                match rec(*e) {
                    Ok(v) => {
                        found = Some(v);
                        break;
                    },
                    Err(more) => acc.extend(more),
                }
            }
            found.ok_or(acc)
        },
    };
    eq!(un(mk(a.clone()).recover_all(|e| mk(rec(e)))), want, "recover_all");
    let want: Sp = match &a {
        Ok(v) => Ok(*v),
        Err(es) => if q.at(d) { Ok(es.len() as u8) } else { Err(es.iter().rev().copied().collect()) },
    };
    eq!(un(mk(a.clone()).recover_all_at_once(|es| if q.at(d) { Validated::Valid(es.len() as u8) } else { mk(Err(es.into_iter().rev().collect())) })), want, "recover_all_at_once");
    eq!(un(mk(a.clone()).recover_with(d)), Ok::<u8, Vec<u8>>(a.unwrap_or(d)), "recover_with");
}
/// The iterators driven by arbitrary sequences of calls.
fn walks<S: Src>(s: &mut S) {
    let a: Sp = gen_(s, 11);
    let (vals, errs): (Vec<u8>, Vec<u8>) = match &a { Ok(v) => (vec![*v], vec![]), Err(e) => (vec![], e.clone()) };
    let (rv, re): (Vec<&u8>, Vec<&u8>) = (vals.iter().collect(), errs.iter().collect());
    let mut v = mk(a.clone());
    walk(s, v.iter(), &rv, false, "iter");
    walk(s, (&v).into_iter(), &rv, false, "into_iter of a reference");
    walk(s, v.clone().into_iter(), &vals, false, "into_iter");
    walk(s, v.iter_errors(), &re, false, "iter_errors");
    walk(s, v.iter_mut().map(|x| *x), &vals, false, "iter_mut");
    walk(s, v.iter_errors_mut().map(|x| *x), &errs, false, "iter_errors_mut");
}
fn bulk<S: Src>(s: &mut S) {
    let n = s.len(7);
    let p = s.below(4);
    let mut items: Vec<Sp> = vec![];
    for _ in 0..n {
        // mostly valid, mostly invalid, or mixed
        let ok = match p { 0 => s.below(6) > 0, 1 => s.below(6) == 0, 2 => true, _ => s.bool() };
        items.push(if ok { Ok(s.u8()) } else { Err(s.vec(9)) });
    }
    let want: Result<Vec<u8>, Vec<u8>> = if items.iter().all(|i| i.is_ok()) {
        Ok(items.iter().map(|i| *i.as_ref().unwrap()).collect())
    } else {
        Err(cat(&items.iter().collect::<Vec<_>>()))
    };
    let vs: Vec<V<u8>> = items.iter().cloned().map(mk).collect();
    let refs: Vec<&V<u8>> = vs.iter().collect();
    eq!(un(Validated::sequence(&refs, &|xs: &[u8]| xs.to_vec())), want, "sequence");
    eq!(un(Validated::sequence_owned(vs.clone(), |xs: Vec<u8>| xs)), want, "sequence_owned");
    eq!(un(Validated::collect::<_, Vec<u8>>(many(s, vs.clone()))), want, "collect");
    eq!(un(Validated::collect_owned::<_, Vec<u8>>(many(s, vs))), want, "collect_owned");
}
crate::harnesses! { "C08";
    prove { }
    test { walks 0.5, lift2 1.0, sequence_lr 0.7, lift3 1.0, apply 0.7, functor 0.3, map_errors 0.5, monad 0.5, join 0.3, combine 0.7, accessors 0.7, from_parts 0.3, from_many 0.5, recover 1.0, bulk 2.0 }
}
