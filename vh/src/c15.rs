//! C15: isomorphisms and conversions round-trip.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::{Maybe, MaybeError, MaybeExt};
use rustica::datatypes::validated::Validated;
use rustica::error::{
    collect_errors, composable_to_core, core_to_composable, either_to_result, either_to_validated,
    flatten_composable_result, result_to_either, result_to_validated, split_validated_errors,
    validated_to_either, validated_to_result, wrap_in_composable_result,
    wrap_in_composable_result_boxed, ComposableError,
};
use rustica::traits::identity::Identity;
use rustica::traits::iso::*;
use rustica::utils::error_utils::{ResultExt, WithError};
use smallvec::SmallVec;

/// An arbitrary bijection of `u8` (add, xor and rotate by arbitrary amounts).
#[derive(Clone, Copy)]
struct Bij(u8, u8, u32);
fn bij<S: Src>(s: &mut S) -> Bij {
    Bij(s.u8(), s.u8(), s.below(8))
}
impl Iso<u8, u8> for Bij {
    type From = u8;
    type To = u8;
    fn forward(&self, x: &u8) -> u8 {
        (x.wrapping_add(self.0) ^ self.1).rotate_left(self.2)
    }
    fn backward(&self, y: &u8) -> u8 {
        (y.rotate_right(self.2) ^ self.1).wrapping_sub(self.0)
    }
}
/// Not a bijection: forward and backward are independent functions, so that every use of the wrong
/// one of the two is visible.
#[derive(Clone, Copy)]
struct Pair(Tab, Tab);
impl Iso<u8, u8> for Pair {
    type From = u8;
    type To = u8;
    fn forward(&self, x: &u8) -> u8 {
        self.0.at(*x)
    }
    fn backward(&self, y: &u8) -> u8 {
        self.1.at(*y)
    }
}
/// Tags its result type, so composition order is also fixed by types.
#[derive(Clone, Copy)]
struct Wrap;
impl Iso<u8, Id<u8>> for Wrap {
    type From = u8;
    type To = Id<u8>;
    fn forward(&self, x: &u8) -> Id<u8> {
        Id::new(*x)
    }
    fn backward(&self, y: &Id<u8>) -> u8 {
        y.clone().into_inner()
    }
}

fn compose<S: Src>(s: &mut S) {
    let (p, q, x) = (Pair(s.tab(), s.tab()), Pair(s.tab(), s.tab()), s.u8());
    let c = p.iso_compose::<u8, Pair>(q);
    eq!(c.forward(&x), q.0.at(p.0.at(x)), "composed forward");
    eq!(c.backward(&x), p.1.at(q.1.at(x)), "composed backward");
    let w = p.iso_compose::<Id<u8>, Wrap>(Wrap);
    eq!(w.forward(&x), Id::new(p.0.at(x)), "composed forward, other type");
    eq!(w.backward(&Id::new(x)), p.1.at(x), "composed backward, other type");
}
fn inverse<S: Src>(s: &mut S) {
    let (p, x) = (Pair(s.tab(), s.tab()), s.u8());
    let i = p.inverse();
    eq!(i.forward(&x), p.1.at(x), "inverse forward");
    eq!(i.backward(&x), p.0.at(x), "inverse backward");
    let i = Wrap.inverse();
    eq!(i.forward(&Id::new(x)), x, "inverse forward, other type");
    eq!(i.backward(&x), Id::new(x), "inverse backward, other type");
}
fn lifted<S: Src>(s: &mut S) {
    let (p, t, x) = (Pair(s.tab(), s.tab()), s.tab(), s.u8());
    eq!(p.map_from_target(|y: &u8| t.at(*y))(&x), t.at(p.0.at(x)), "map_from_target");
    eq!(p.map_from_source(|y: &u8| t.at(*y))(&x), t.at(p.1.at(x)), "map_from_source");
    eq!(p.convert_forward(&x), p.0.at(x), "convert_forward");
    eq!(p.convert_backward(&x), p.1.at(x), "convert_backward");
    eq!(p.modify(&x, |v| t.at(v)), p.1.at(t.at(p.0.at(x))), "modify");
    let y = s.u8();
    eq!(p.verify_laws(&x, &y), p.1.at(p.0.at(x)) == x && p.0.at(p.1.at(y)) == y, "verify_laws");
}
fn lawful<S: Src>(s: &mut S) {
    let (a, b, x) = (bij(s), bij(s), s.u8());
    let c = a.iso_compose::<u8, Bij>(b);
    eq!(c.backward(&c.forward(&x)), x, "composed round trip");
    eq!(c.forward(&c.backward(&x)), x, "composed round trip, other way");
    let i = a.inverse();
    eq!(i.backward(&i.forward(&x)), x, "inverse round trip");
    eq!(a.forward(&i.forward(&x)), x, "iso after inverse");
}
fn result_either_iso<S: Src>(s: &mut S) {
    type I = Result<u8, u8>;
    let r = s.res();
    let e = match r {
        Ok(v) => Either::Right(v),
        Err(e) => Either::Left(e),
    };
    let i = ResultEitherIso;
    let f = <ResultEitherIso as Iso<I, Either<u8, u8>>>::forward(&i, &r);
    eq!(f, e, "ResultEitherIso forward");
    let b = <ResultEitherIso as Iso<I, Either<u8, u8>>>::backward(&i, &e);
    eq!(b, r, "ResultEitherIso backward");
    ck!(<ResultEitherIso as IsoExt<I, Either<u8, u8>>>::verify_laws(&i, &r, &e), "ResultEitherIso laws");
}
fn result_validated_iso<S: Src>(s: &mut S) {
    type I = Result<u8, u8>;
    let r = s.res();
    let i = ResultValidatedIso;
    let f = <ResultValidatedIso as Iso<I, Validated<u8, u8>>>::forward(&i, &r);
    eq!(view(&f), r.map_err(|e| vec![e]), "ResultValidatedIso forward");
    let b = <ResultValidatedIso as Iso<I, Validated<u8, u8>>>::backward(&i, &f);
    eq!(b, r, "ResultValidatedIso backward");
}
fn view(v: &Validated<u8, u8>) -> Result<u8, Vec<u8>> {
    match v {
        Validated::Valid(v) => Ok(*v),
        Validated::Invalid(es) => {
            let mut o = Vec::new();
            for e in es {
                o.push(*e);
            }
            Err(o)
        },
    }
}
fn eit(r: Result<u8, u8>) -> Either<u8, u8> {
    match r {
        Ok(v) => Either::Right(v),
        Err(e) => Either::Left(e),
    }
}
fn val1(r: Result<u8, u8>) -> Validated<u8, u8> {
    match r {
        Ok(v) => Validated::Valid(v),
        Err(e) => {
            let mut sv = SmallVec::new();
            sv.push(e);
            Validated::Invalid(sv)
        },
    }
}
#[allow(deprecated)]
fn either_conv<S: Src>(s: &mut S) {
    let (r, k) = (s.res(), s.u8());
    let e = eit(r);
    eq!(either_to_result(e.clone()), r, "either_to_result");
    eq!(result_to_either(r), e, "result_to_either");
    eq!(e.clone().to_result(), r, "Either::to_result");
    eq!(WithError::to_result(e.clone()), r, "WithError::to_result for Either");
    eq!(Either::from_result(r), e, "Either::from_result");
    eq!(ResultExt::to_either(r), e, "ResultExt::to_either");
    eq!(rustica::utils::error_utils::either_to_result(e.clone()), r, "utils either_to_result");
    eq!(rustica::utils::error_utils::result_to_either(r), e, "utils result_to_either");
    eq!(e.clone().right_option(), r.ok(), "right_option");
    eq!(e.clone().left_option(), r.err(), "left_option");
    eq!(e.clone().right_or(k), r.unwrap_or(k), "right_or");
    eq!(e.clone().unwrap_or(k), r.unwrap_or(k), "unwrap_or");
    eq!(e.clone().left_or(k), r.err().unwrap_or(k), "left_or");
    eq!(e.is_left(), r.is_err(), "is_left");
    eq!(e.is_right(), r.is_ok(), "is_right");
    match r {
        Ok(v) => {
            eq!(e.clone().unwrap(), v, "unwrap");
            eq!(e.clone().unwrap_right(), v, "unwrap_right");
            eq!(e.clone().right_value(), v, "right_value");
            eq!(*e.right_ref(), v, "right_ref");
        },
        Err(x) => {
            eq!(e.clone().unwrap_left(), x, "unwrap_left");
            eq!(e.clone().left_value(), x, "left_value");
            eq!(*e.left_ref(), x, "left_ref");
            let mut m = e.clone();
            *m.left_mut() = k;
            eq!(m, Either::Left(k), "left_mut");
        },
    }
}
#[allow(deprecated)]
fn with_error<S: Src>(s: &mut S) {
    let (r, t) = (s.res(), s.tab());
    eq!(WithError::to_result(r), r, "WithError::to_result for Result");
    eq!(r.fmap_error(|e| t.at(e)), r.map_err(|e| t.at(e)), "WithError::fmap_error for Result");
    eq!(eit(r).fmap_error(|e| t.at(e)), eit(r.map_err(|e| t.at(e))), "WithError::fmap_error for Either");
    let g = s.tab();
    eq!(ResultExt::bimap(r, |v| g.at(v), |e| t.at(e)), r.map(|v| g.at(v)).map_err(|e| t.at(e)), "ResultExt::bimap");
    eq!(ResultExt::unwrap_or_default(r), r.unwrap_or(0), "ResultExt::unwrap_or_default");
}
fn maybe_conv<S: Src>(s: &mut S) {
    let (o, k) = (s.opt(), s.u8());
    let m = match o {
        Some(v) => Maybe::Just(v),
        None => Maybe::Nothing,
    };
    eq!(Maybe::from_option(o), m, "from_option");
    eq!(m.clone().to_option(), o, "to_option");
    eq!(Maybe::from(o), m, "From<Option>");
    eq!(Option::<u8>::from(m.clone()), o, "From<Maybe>");
    eq!(Maybe::to_result(m.clone(), k), o.ok_or(k), "Maybe::to_result");
    eq!(MaybeExt::to_result(m.clone(), k), o.ok_or(k), "MaybeExt::to_result");
    eq!(m.as_ref().copied(), o, "as_ref");
    eq!(m.as_option().copied(), o, "as_option");
    eq!(m.is_just(), o.is_some(), "is_just");
    eq!(m.is_nothing(), o.is_none(), "is_nothing");
    eq!(m.clone().unwrap_or(k), o.unwrap_or(k), "unwrap_or");
    eq!(m.clone().unwrap_or_else(|| k), o.unwrap_or(k), "unwrap_or_else");
    ck!(m.clone().to_standard_result().ok() == o, "to_standard_result");
    ck!(WithError::<MaybeError>::to_result(m.clone()).ok() == o, "WithError::to_result for Maybe");
    let r = s.res();
    eq!(Maybe::from(r), Maybe::from_option(r.ok()), "From<Result>");
    if let Some(v) = o {
        eq!(m.clone().unwrap(), v, "unwrap");
    }
    let mut it = m.clone().into_iter();
    eq!(it.next(), o, "into_iter yields the value");
    eq!(it.next(), None, "into_iter yields nothing more");
    let mut it = m.iter();
    eq!(it.next().copied(), o, "iter yields the value");
    ck!(it.next().is_none(), "iter yields nothing more");
}
#[allow(deprecated)]
fn identity_conv<S: Src>(s: &mut S) {
    let (x, k) = (s.u8(), s.u8());
    let i = Id::new(x);
    eq!(i.clone().into_inner(), x, "into_inner");
    eq!(i.clone().unwrap(), x, "unwrap");
    eq!(i.clone().unwrap_or(k), x, "unwrap_or");
    eq!(*i.value(), x, "value");
    eq!(i.clone().into_value(), x, "into_value");
    eq!(i.try_value().copied(), Some(x), "try_value");
    eq!(i.clone().try_into_value(), Some(x), "try_into_value");
    eq!(*i.as_ref(), x, "as_ref");
    eq!(Id::from_ref(&x), i, "from_ref");
    eq!(Id::from(x), i, "from");
    let mut it = i.clone().into_iter();
    eq!(it.next(), Some(x), "into_iter");
    eq!(it.next(), None, "into_iter ends");
    let mut m = i.clone();
    *m.value_mut() = k;
    eq!(m, Id::new(k), "value_mut");
    let (o, r) = (s.opt(), s.res());
    eq!(Identity::try_value(&o).copied(), o, "Option try_value");
    eq!(Identity::try_into_value(o), o, "Option try_into_value");
    eq!(Identity::try_value(&r).copied(), r.ok(), "Result try_value");
    eq!(Identity::try_into_value(r), r.ok(), "Result try_into_value");
    if let Some(v) = o {
        eq!(*Identity::value(&o), v, "Option value");
        eq!(Identity::into_value(o), v, "Option into_value");
    }
    if let Ok(v) = r {
        eq!(*Identity::value(&r), v, "Result value");
        eq!(Identity::into_value(r), v, "Result into_value");
    }
}
#[allow(deprecated)]
fn validated_conv<S: Src>(s: &mut S) {
    let (r, k) = (s.res(), s.u8());
    let v = val1(r);
    let w = r.map_err(|e| vec![e]);
    eq!(view(&result_to_validated(r)), w, "result_to_validated");
    eq!(view(&either_to_validated(eit(r))), w, "either_to_validated");
    eq!(view(&ResultExt::to_validated(r)), w, "ResultExt::to_validated");
    eq!(view(&Validated::from_result(&r)), w, "Validated::from_result");
    eq!(view(&Validated::from_result_owned(r)), w, "Validated::from_result_owned");
    eq!(validated_to_result(v.clone()), r, "validated_to_result");
    eq!(validated_to_either(v.clone()), eit(r), "validated_to_either");
    eq!(Validated::to_result(&v), r, "Validated::to_result");
    eq!(v.clone().to_result_owned(), r, "Validated::to_result_owned");
    eq!(WithError::to_result(v.clone()), r, "WithError::to_result for Validated");
    let o = s.opt();
    let ow = o.ok_or(vec![k]);
    eq!(view(&Validated::from_option(&o, &k)), ow, "Validated::from_option");
    eq!(view(&Validated::from_option_owned(o, k)), ow, "Validated::from_option_owned");
    eq!(view(&Validated::from_option_with(&o, &|| k)), ow, "Validated::from_option_with");
    eq!(view(&Validated::from_option_with_owned(o, || k)), ow, "Validated::from_option_with_owned");
    eq!(v.to_option(), r.ok(), "Validated::to_option");
}
/// Many errors: conversions to a single error keep the first; conversions to lists keep all.
fn validated_many<S: Src>(s: &mut S) {
    let mut es = s.vec(11);
    let (x, t) = (s.u8(), s.tab());
    let c = collect_errors(many(s, es.clone()));
    eq!(c.errors(), es, "collect_errors keeps every error");
    eq!(c.is_valid(), es.is_empty(), "collect_errors valid iff none");
    if es.is_empty() {
        es.push(x);
    }
    let v: Validated<u8, u8> = Validated::Invalid(es.iter().copied().collect());
    eq!(split_validated_errors(v.clone()), es.iter().map(|e| Err(*e)).collect::<Vec<Result<u8, u8>>>(), "split_validated_errors");
    eq!(split_validated_errors(Validated::<u8, u8>::Valid(x)), vec![Ok(x)], "split_validated_errors of a valid");
    eq!(validated_to_result(v.clone()), Err(es[0]), "first error");
    eq!(validated_to_either(v.clone()), Either::Left(es[0]), "first error");
    eq!(WithError::to_result(v.clone()), Err(es[0]), "first error");
    eq!(Validated::to_result(&v), Err(es[0]), "first error");
    eq!(v.clone().to_result_owned(), Err(es[0]), "first error");
    eq!(view(&v.clone().fmap_error(|e| t.at(e))), Err(es.iter().map(|e| t.at(*e)).collect()), "WithError::fmap_error for Validated");
    eq!(view(&Validated::<u8, u8>::Valid(x).fmap_error(|e| t.at(e))), Ok(x), "WithError::fmap_error for Validated");
}
fn composable_conv<S: Src>(s: &mut S) {
    let (r, x) = (s.res(), s.u8());
    let c = core_to_composable(x);
    eq!(*c.core_error(), x, "core_to_composable");
    ck!(c.context().is_empty(), "core_to_composable adds no context");
    eq!(composable_to_core(c), x, "composable_to_core");
    eq!(flatten_composable_result(wrap_in_composable_result(r)), r, "flatten . wrap");
    eq!(wrap_in_composable_result_boxed(r).map_err(|b| *b.core_error()), r, "boxed wrap");
    let e = ComposableError::new(x).with_context("a".to_string()).with_context("b".to_string());
    eq!(composable_to_core(e), x, "composable_to_core drops only the contexts");
}
fn optional_lists<S: Src>(s: &mut S) {
    let (o, r, k) = (s.opt(), s.res(), s.u8());
    let m = Maybe::from_option(o);
    eq!(m.clone().to_vec(), o.into_iter().collect::<Vec<_>>(), "to_vec");
    eq!((&m).into_iter().copied().collect::<Vec<_>>(), o.into_iter().collect::<Vec<_>>(), "ref iter");
    let mut n = m.clone();
    for v in &mut n {
        *v = k;
    }
    eq!(n, Maybe::from_option(o.map(|_| k)), "mut iter");
    let mut n = m.clone();
    for v in n.iter_mut() {
        *v = k;
    }
    eq!(n, Maybe::from_option(o.map(|_| k)), "iter_mut");
    ck!(Maybe::try_unwrap(m.clone()).ok() == o, "try_unwrap");
    ck!(MaybeExt::try_unwrap(m).ok() == o, "MaybeExt::try_unwrap");
    let e = eit(r);
    let (l, rr): (Vec<u8>, Vec<u8>) = (r.err().into_iter().collect(), r.ok().into_iter().collect());
    eq!(e.clone().into_iter().collect::<Vec<_>>(), rr, "Either into_iter");
    eq!((&e).into_iter().copied().collect::<Vec<_>>(), rr, "Either ref iter");
    eq!(e.clone().left_iter().collect::<Vec<_>>(), l, "left_iter");
    eq!(e.left_iter_ref().copied().collect::<Vec<_>>(), l, "left_iter_ref");
    let mut n = e.clone();
    for v in &mut n {
        *v = k;
    }
    eq!(n, eit(r.map(|_| k)), "Either mut iter");
    let mut n = e.clone();
    for v in n.left_iter_mut() {
        *v = k;
    }
    eq!(n, eit(r.map_err(|_| k)), "left_iter_mut");
    let i = Id::new(k);
    eq!((&i).into_iter().copied().collect::<Vec<_>>(), vec![k], "Id ref iter");
}
crate::harnesses! { "C15";
    prove { compose 2, inverse 2, lifted 2, lawful 2, result_either_iso 2, either_conv 2, with_error 2, maybe_conv 3, identity_conv 3 }

    test { validated_conv 1.0, result_validated_iso 0.5, validated_many 1.0, composable_conv 1.0, optional_lists 1.0 } }
