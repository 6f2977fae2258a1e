//! C22: alternatives and error handling choose the documented side.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::error::{ErrorCategory, ErrorOps};
use rustica::traits::alternative::Alternative;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use smallvec::SmallVec;
use std::cell::Cell;

type R = Result<u8, u8>;
type May = Maybe<u8>;
type Eit = Either<u8, u8>;
type Val = Validated<u8, u8>;

fn may(o: Option<u8>) -> May {
    match o {
        Some(v) => Maybe::Just(v),
        None => Maybe::Nothing,
    }
}
fn eit(r: R) -> Eit {
    match r {
        Ok(v) => Either::Right(v),
        Err(e) => Either::Left(e),
    }
}
fn option<S: Src>(s: &mut S) {
    let (a, b, c) = (s.opt(), s.opt(), s.bool());
    let want = if a.is_some() { a } else { b };
    eq!(Alternative::alt(&a, &b), want, "alt");
    eq!(MonadPlus::mplus(&a, &b), want, "mplus");
    eq!(MonadPlus::mplus_owned(a, b), want, "mplus_owned");
    eq!(<Option<u8> as Alternative>::empty_alt::<u8>(), None, "empty_alt");
    eq!(<Option<u8> as MonadPlus>::mzero::<u8>(), None, "mzero");
    eq!(<Option<u8> as Alternative>::guard(c), if c { Some(()) } else { None }, "guard");
}
fn maybe<S: Src>(s: &mut S) {
    let (a, b, c) = (s.opt(), s.opt(), s.bool());
    let want = may(if a.is_some() { a } else { b });
    eq!(may(a).alt(&may(b)), want, "alt");
    eq!(may(a).mplus(&may(b)), want, "mplus");
    eq!(may(a).mplus_owned(may(b)), want, "mplus_owned");
    eq!(<May as Alternative>::empty_alt::<u8>(), Maybe::Nothing, "empty_alt");
    eq!(<May as MonadPlus>::mzero::<u8>(), Maybe::Nothing, "mzero");
    eq!(<May as Alternative>::guard(c), if c { Maybe::Just(()) } else { Maybe::Nothing }, "guard");
}
fn result<S: Src>(s: &mut S) {
    let (a, b) = (s.res(), s.res());
    let want = if a.is_ok() { a } else { b };
    eq!(MonadPlus::mplus(&a, &b), want, "mplus");
    eq!(MonadPlus::mplus_owned(a, b), want, "mplus_owned");
    eq!(<R as MonadPlus>::mzero::<u8>(), Err(0), "mzero");
}
fn either<S: Src>(s: &mut S) {
    let (a, b, c) = (s.res(), s.res(), s.bool());
    let alt = eit(if a.is_ok() { a } else { b });
    eq!(eit(a).alt(&eit(b)), alt, "alt");
    // documented: mplus of two lefts is the first
    let plus = eit(if a.is_ok() || b.is_err() { a } else { b });
    eq!(eit(a).mplus(&eit(b)), plus, "mplus");
    eq!(eit(a).mplus_owned(eit(b)), plus, "mplus_owned");
    eq!(<Eit as Alternative>::empty_alt::<u8>(), Either::Left(0), "empty_alt");
    eq!(<Eit as MonadPlus>::mzero::<u8>(), Either::Left(0), "mzero");
    eq!(<Eit as Alternative>::guard(c), if c { Either::Right(()) } else { Either::Left(0) }, "guard");
}
fn laws<S: Src>(s: &mut S) {
    let (a, b, c, k) = (s.opt(), s.opt(), s.opt(), s.ktab());
    let z = <Option<u8> as MonadPlus>::mzero::<u8>();
    eq!(a.mplus(&b).mplus(&c), a.mplus(&b.mplus(&c)), "option mplus associative");
    eq!(z.mplus(&a), a, "option mzero left");
    eq!(a.mplus(&z), a, "option mzero right");
    eq!(z.bind(|v: &u8| k.opt(*v)), None, "option mzero annihilates");
    let (a, b, c) = (may(a), may(b), may(c));
    let z = <May as MonadPlus>::mzero::<u8>();
    eq!(a.mplus(&b).mplus(&c), a.mplus(&b.mplus(&c)), "maybe mplus associative");
    eq!(z.mplus(&a), a, "maybe mzero left");
    eq!(a.mplus(&z), a, "maybe mzero right");
    eq!(z.bind(|v: &u8| may(k.opt(*v))), Maybe::Nothing, "maybe mzero annihilates");
}
fn laws_result<S: Src>(s: &mut S) {
    let (a, b, c, v) = (s.res(), s.res(), s.res(), s.u8());
    eq!(a.mplus(&b).mplus(&c), a.mplus(&b.mplus(&c)), "result mplus associative");
    let (x, y, z) = (eit(a), eit(b), eit(c));
    eq!(x.mplus(&y).mplus(&z), x.mplus(&y.mplus(&z)), "either mplus associative");
    eq!(x.alt(&y).alt(&z), x.alt(&y.alt(&z)), "either alt associative");
    let z = <R as MonadPlus>::mzero::<u8>();
    eq!(z.mplus(&Ok(v)), Ok(v), "result mzero left");
    eq!(MonadPlus::mplus(&Ok(v), &z), Ok(v), "result mzero right");
    let z = <Eit as MonadPlus>::mzero::<u8>();
    eq!(z.mplus(&Either::Right(v)), Either::Right(v), "either mzero left");
    eq!(Either::Right(v).mplus(&z), Either::Right(v), "either mzero right");
}
fn throw_catch<S: Src>(s: &mut S) {
    let (r, h, e) = (s.res(), s.ktab(), s.u8());
    let n = Cell::new(0u8);
    let want = match r {
        Ok(v) => Ok(v),
        Err(e) => h.at(e),
    };
    eq!(<R as MonadError<u8>>::throw::<u8>(e), Err(e), "throw");
    let got = MonadError::<u8>::catch(&r, |e: &u8| {
        n.set(n.get() + 1);
        h.at(*e)
    });
    eq!(got, want, "catch");
    eq!(n.get(), r.is_err() as u8, "catch calls the handler once, and only for an error");
    n.set(0);
    let got = MonadError::<u8>::catch_owned(r, |e: u8| {
        n.set(n.get() + 1);
        h.at(e)
    });
    eq!(got, want, "catch_owned");
    eq!(n.get(), r.is_err() as u8, "catch_owned calls the handler once, and only for an error");
    let o = s.opt();
    let d = s.opt();
    eq!(<Option<u8> as MonadError<()>>::throw::<u8>(()), None, "Option throw");
    eq!(MonadError::<()>::catch(&o, |_: &()| d), o.or(d), "Option catch");
    eq!(MonadError::<()>::catch_owned(o, |_: ()| d), o.or(d), "Option catch_owned");
}
fn error_mapper<S: Src>(s: &mut S) {
    let (r, o, t, k) = (s.res(), s.opt(), s.tab(), s.u8());
    let want = r.map_err(|e| t.at(e));
    eq!(r.map_error_to(|e: &u8| t.at(*e)), want, "map_error_to");
    eq!(r.map_error_to_owned(|e: u8| t.at(e)), want, "map_error_to_owned");
    eq!(ErrorMapper::<()>::map_error_to(&o, |_: &()| k), o.ok_or(k), "Option map_error_to");
    eq!(ErrorMapper::<()>::map_error_to_owned(o, |_: ()| k), o.ok_or(k), "Option map_error_to_owned");
}
fn recover<S: Src>(s: &mut S) {
    let (r, h, f, g) = (s.res(), s.ktab(), s.tab(), s.tab());
    let want = match r {
        Ok(v) => Ok(v),
        Err(e) => h.at(e),
    };
    let n = Cell::new(0u8);
    eq!(ErrorOps::recover(r, |e| { n.set(n.get() + 1); h.at(e) }), want, "Result recover");
    eq!(n.get(), r.is_err() as u8, "recover calls the handler only for an error");
    eq!(ErrorOps::recover(eit(r), |e| eit(h.at(e))), eit(want), "Either recover");
    let both = r.map(|v| f.at(v)).map_err(|e| g.at(e));
    eq!(ErrorOps::bimap_result(r, |v| f.at(v), |e| g.at(e)), both, "Result bimap_result");
    eq!(ErrorOps::bimap_result(eit(r), |v| f.at(v), |e| g.at(e)), both, "Either bimap_result");
    let x = s.u8();
    eq!(<Result<(), u8> as ErrorCategory<u8>>::lift(x), Ok(x), "lift Result");
    eq!(<Result<(), u8> as ErrorCategory<u8>>::handle_error::<u8>(x), Err(x), "handle_error Result");
    eq!(<Either<u8, ()> as ErrorCategory<u8>>::lift(x), Either::Right(x), "lift Either");
    eq!(<Either<u8, ()> as ErrorCategory<u8>>::handle_error::<u8>(x), Either::Left(x), "handle_error Either");
}

fn mkv(r: Result<u8, Vec<u8>>) -> Val {
    match r {
        Ok(v) => Validated::Valid(v),
        Err(es) => {
            let mut sv = SmallVec::new();
            for e in es {
                sv.push(e);
            }
            Validated::Invalid(sv)
        },
    }
}
fn unv<T>(v: Validated<u8, T>) -> Result<T, Vec<u8>> {
    match v {
        Validated::Valid(v) => Ok(v),
        Validated::Invalid(es) => {
            let mut o = Vec::new();
            for e in es {
                o.push(e);
            }
            Err(o)
        },
    }
}
fn genv<S: Src>(s: &mut S) -> Result<u8, Vec<u8>> {
    let m = if s.symbolic() { 1 } else { 10 };
    if s.bool() { Ok(s.u8()) } else { Err(s.vec(m)) }
}
fn validated<S: Src>(s: &mut S) {
    let (a, b, c) = (genv(s), genv(s), s.bool());
    let plus = match (&a, &b) {
        (Ok(_), _) => a.clone(),
        (_, Ok(_)) => b.clone(),
        (Err(x), Err(y)) => {
            let mut o = x.clone();
            o.extend(y.iter().copied());
            Err(o)
        },
    };
    let alt = if a.is_ok() { a.clone() } else { b.clone() };
    eq!(unv(mkv(a.clone()).alt(&mkv(b.clone()))), alt, "alt");
    eq!(unv(mkv(a.clone()).mplus(&mkv(b.clone()))), plus, "mplus");
    eq!(unv(mkv(a.clone()).mplus_owned(mkv(b.clone()))), plus, "mplus_owned");
    eq!(unv(<Val as Alternative>::guard(c)), if c { Ok(()) } else { Err(vec![0]) }, "guard");
    eq!(unv(<Val as Alternative>::empty_alt::<u8>()), Err(vec![0]), "empty_alt");
    let z: Val = <Val as MonadPlus>::mzero::<u8>();
    eq!(unv(z.mplus(&mkv(a.clone()))), a, "mzero is a left identity");
    eq!(unv(mkv(a.clone()).mplus(&z)), a, "mzero is a right identity");
    let d = genv(s);
    eq!(
        unv(mkv(a.clone()).mplus(&mkv(b.clone())).mplus(&mkv(d.clone()))),
        unv(mkv(a.clone()).mplus(&mkv(b.clone()).mplus(&mkv(d)))),
        "mplus associative"
    );
    eq!(unv(mkv(a.clone()).many()).ok(), a.clone().ok().map(|v| vec![v]), "many");
    let x = s.u8();
    eq!(unv(<Validated<u8, ()> as ErrorCategory<u8>>::lift(x)), Ok(x), "lift Validated");
    eq!(unv(<Validated<u8, ()> as ErrorCategory<u8>>::handle_error::<u8>(x)), Err(vec![x]), "handle_error Validated");
}
fn chv(c: &Choice<u8>) -> Vec<u8> {
    c.iter().copied().collect()
}
fn ch(v: &[u8]) -> Choice<u8> {
    if v.is_empty() { Choice::new_empty() } else { Choice::new(v[0], v[1..].to_vec()) }
}
fn choice<S: Src>(s: &mut S) {
    let (a, b, d, c) = (s.vec(6), s.vec(6), s.vec(4), s.bool());
    let (x, y, w) = (ch(&a), ch(&b), ch(&d));
    let want = [&a[..], &b[..]].concat();
    eq!(chv(&x.alt(&y)), want, "alt");
    eq!(chv(&x.mplus(&y)), want, "mplus");
    eq!(chv(&x.clone().mplus_owned(y.clone())), want, "mplus_owned");
    eq!(chv(&x.mplus(&y).mplus(&w)), chv(&x.mplus(&y.mplus(&w))), "associative");
    let z = <Choice<u8> as MonadPlus>::mzero::<u8>();
    eq!(chv(&z), Vec::<u8>::new(), "mzero");
    eq!(chv(&<Choice<u8> as Alternative>::empty_alt::<u8>()), Vec::<u8>::new(), "empty_alt");
    eq!(chv(&z.mplus(&x)), a, "left zero");
    eq!(chv(&x.mplus(&z)), a, "right zero");
    eq!(<Choice<u8> as Alternative>::guard(c).iter().count(), c as usize, "guard");
    let m: Vec<Vec<u8>> = x.many().iter().cloned().collect();
    eq!(m, a.first().map(|v| vec![*v]).into_iter().collect::<Vec<_>>(), "many keeps the primary");
}
fn vec<S: Src>(s: &mut S) {
    let (a, b, c) = (s.vec(6), s.vec(6), s.bool());
    eq!(Alternative::alt(&a, &b), if a.is_empty() { b.clone() } else { a.clone() }, "alt");
    eq!(<Vec<u8> as Alternative>::empty_alt::<u8>(), Vec::<u8>::new(), "empty_alt");
    eq!(<Vec<u8> as Alternative>::guard(c), if c { vec![()] } else { vec![] }, "guard");
    eq!(Alternative::many(&a), if a.is_empty() { vec![] } else { vec![a.clone()] }, "many");
}
fn many<S: Src>(s: &mut S) {
    let (o, r) = (s.opt(), s.res());
    eq!(Alternative::many(&o), o.map(|v| vec![v]), "Option many");
    eq!(may(o).many().to_option(), o.map(|v| vec![v]), "Maybe many");
    eq!(eit(r).many().right_option(), r.ok().map(|v| vec![v]), "Either many");
}
crate::harnesses! { "C22";
    prove { option 2, maybe 2, result 2, either 2, laws 2, laws_result 2, throw_catch 2, error_mapper 2, recover 2, many 2 }
    test { validated 2.0, choice 2.0, vec 1.0 } }
