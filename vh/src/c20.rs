//! C20: categories, arrows, bifunctors, comonads, natural transformations.
use crate::src::*;
use crate::{ck, eq};
use rustica::category::function_category::{FunctionCategory as FC, FunctionMorphism};
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::traits::arrow::Arrow;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::category::Category;
use rustica::traits::comonad::Comonad;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};

fn arr(t: Tab) -> FunctionMorphism<u8, u8> {
    FC::arrow(move |x: u8| t.at(x))
}
fn compose<S: Src>(s: &mut S) {
    let (f, g, x) = (s.tab(), s.tab(), s.u8());
    eq!(arr(f)(x), f.at(x), "arrow applies its function");
    eq!(FC::compose_morphisms(&arr(g), &arr(f))(x), g.at(f.at(x)), "compose_morphisms applies the second argument first");
}
fn compose_laws<S: Src>(s: &mut S) {
    let (f, g, h, x) = (s.tab(), s.tab(), s.tab(), s.u8());
    let (af, ag, ah) = (arr(f), arr(g), arr(h));
    let l = FC::compose_morphisms(&FC::compose_morphisms(&ah, &ag), &af);
    let r = FC::compose_morphisms(&ah, &FC::compose_morphisms(&ag, &af));
    eq!(l(x), h.at(g.at(f.at(x))), "composition is associative (left nested)");
    eq!(r(x), h.at(g.at(f.at(x))), "composition is associative (right nested)");
}
fn identity<S: Src>(s: &mut S) {
    let (f, x) = (s.tab(), s.u8());
    let id = FC::identity_morphism::<u8>();
    eq!(id(x), x, "identity");
    eq!(FC::compose_morphisms(&id, &arr(f))(x), f.at(x), "left identity");
    eq!(FC::compose_morphisms(&arr(f), &id)(x), f.at(x), "right identity");
}
fn halves<S: Src>(s: &mut S) {
    let (f, g, x, y) = (s.tab(), s.tab(), s.u8(), s.u8());
    eq!(FC::first::<u8, u8, u8>(&arr(f))((x, y)), (f.at(x), y), "first");
    eq!(FC::second::<u8, u8, u8>(&arr(f))((x, y)), (x, f.at(y)), "second");
    eq!(FC::split(&arr(f), &arr(g))(x), (f.at(x), g.at(x)), "split");
    eq!(FC::combine_morphisms(&arr(f), &arr(g))((x, y)), (f.at(x), g.at(y)), "combine_morphisms");
}
fn both_when<S: Src>(s: &mut S) {
    let (f, g, p, x, y) = (s.tab(), s.tab(), s.ptab(), s.u8(), s.u8());
    eq!(FC::both(move |v: u8| f.at(v))((x, y)), (f.at(x), f.at(y)), "both");
    eq!(FC::when(move |v: &u8| p.at(*v), move |v: u8| f.at(v))(x), if p.at(x) { f.at(x) } else { x }, "when");
    eq!(FC::lift(move |v: u8| f.at(v))(x), f.at(x), "lift");
    let want = if p.at(f.at(x)) { g.at(f.at(x)) } else { f.at(x) };
    eq!(FC::then_if(&arr(f), &arr(g), move |v: &u8| p.at(*v))(x), want, "then_if");
    eq!(FC::compose_when(&arr(f), &arr(g), move |v: &u8| p.at(*v))(x), want, "compose_when");
}
fn macros<S: Src>(s: &mut S) {
    use rustica::{compose, pipe};
    let (f, g, h, x) = (s.tab(), s.tab(), s.tab(), s.u8());
    let p = pipe!(move |v: u8| f.at(v), move |v: u8| g.at(v), move |v: u8| h.at(v));
    eq!(p(x), h.at(g.at(f.at(x))), "pipe! applies left to right");
    let c = compose!(move |v: u8| f.at(v), move |v: u8| g.at(v), move |v: u8| h.at(v));
    eq!(c(x), f.at(g.at(h.at(x))), "compose! applies right to left");
}
fn sequence<S: Src>(s: &mut S) {
    let n = s.len(7);
    let x = s.u8();
    let ts: Vec<Tab> = (0..n).map(|_| s.tab()).collect();
    let want = ts.iter().fold(x, |a, t| t.at(a));
    let fs: Vec<_> = ts.iter().map(|&t| move |v: u8| t.at(v)).collect();
    eq!(FC::sequence(fs)(x), want, "sequence applies the functions in order");
}
/// Arbitrary compositions of morphisms, with shared parts, against a direct interpreter.
fn program<S: Src>(s: &mut S) {
    use std::rc::Rc;
    type A = FunctionMorphism<u8, u8>;
    enum P {
        Arr(Tab),
        Id,
        Compose(Rc<P>, Rc<P>),
        ThenIf(Rc<P>, Rc<P>, PTab),
        Split(Rc<P>, Rc<P>, Tab2),
        Pair(Rc<P>, Rc<P>, Tab2),
        First(Rc<P>, Tab2),
        Second(Rc<P>, Tab2),
    }
    fn gen_<S: Src>(s: &mut S, d: u32, pool: &Pool<P>) -> P {
        let mut go = |s: &mut S| sub(s, pool, |s| gen_(s, d - 1, pool));
        match if d == 0 { s.below(3) } else { s.below(10) } {
            0 | 1 => P::Arr(s.tab()),
            2 => P::Id,
            3 | 4 => P::Compose(go(s), go(s)),
            5 => P::ThenIf(go(s), go(s), s.ptab()),
            6 => P::Split(go(s), go(s), s.tab2()),
            7 => P::Pair(go(s), go(s), s.tab2()),
            8 => P::First(go(s), s.tab2()),
            _ => P::Second(go(s), s.tab2()),
        }
    }
    fn build(p: &P, built: &Built<P, A>) -> A {
        let go = |q: &Rc<P>| part(q, built, |q| build(q, built));
        let merge = |t: Tab2| FC::arrow(move |(x, y): (u8, u8)| t.at(x, y));
        let dup = || FC::arrow(|x: u8| (x, x));
        match p {
            P::Arr(t) => arr(*t),
            P::Id => FC::identity_morphism(),
            P::Compose(g, f) => FC::compose_morphisms(&go(g), &go(f)),
            P::ThenIf(f, g, c) => {
                let c = *c;
                FC::then_if(&go(f), &go(g), move |x: &u8| c.at(*x))
            },
            P::Split(f, g, t) => FC::compose_morphisms(&merge(*t), &FC::split(&go(f), &go(g))),
            P::Pair(f, g, t) => {
                FC::compose_morphisms(&merge(*t), &FC::compose_morphisms(&FC::combine_morphisms(&go(f), &go(g)), &dup()))
            },
            P::First(f, t) => FC::compose_morphisms(&merge(*t), &FC::compose_morphisms(&FC::first(&go(f)), &dup())),
            P::Second(f, t) => FC::compose_morphisms(&merge(*t), &FC::compose_morphisms(&FC::second(&go(f)), &dup())),
        }
    }
    fn eval(p: &P, x: u8) -> u8 {
        match p {
            P::Arr(t) => t.at(x),
            P::Id => x,
            P::Compose(g, f) => eval(g, eval(f, x)),
            P::ThenIf(f, g, c) => {
                let y = eval(f, x);
                if c.at(y) { eval(g, y) } else { y }
            },
            P::Split(f, g, t) | P::Pair(f, g, t) => t.at(eval(f, x), eval(g, x)),
            P::First(f, t) => t.at(eval(f, x), x),
            P::Second(f, t) => t.at(x, eval(f, x)),
        }
    }
    let p = gen_(s, 4, &Default::default());
    let m = build(&p, &Default::default());
    for x in 0..4 {
        eq!(m(x), eval(&p, x), "the composition's value");
    }
}
fn bifunctor_either<S: Src>(s: &mut S) {
    let (r, f, g) = (s.res(), s.tab(), s.tab());
    let un = |e: Either<u8, u8>| match e { Either::Right(v) => Ok(v), Either::Left(e) => Err(e) };
    let e: Either<u8, u8> = match r { Ok(v) => Either::Right(v), Err(e) => Either::Left(e) };
    eq!(un(Bifunctor::first(&e, |v: &u8| f.at(*v))), r.map(|v| f.at(v)), "Either first");
    eq!(un(Bifunctor::second(&e, |v: &u8| g.at(*v))), r.map_err(|v| g.at(v)), "Either second");
    eq!(un(Bifunctor::bimap(&e, |v: &u8| f.at(*v), |v: &u8| g.at(*v))), r.map(|v| f.at(v)).map_err(|v| g.at(v)), "Either bimap");
    eq!(un(BinaryHKT::map_second(&e, |v: &u8| g.at(*v))), r.map_err(|v| g.at(v)), "Either map_second");
    eq!(un(BinaryHKT::map_second_owned(e, |v: u8| g.at(v))), r.map_err(|v| g.at(v)), "Either map_second_owned");
}
fn bifunctor_validated<S: Src>(s: &mut S) {
    let (f, g) = (s.tab(), s.tab());
    let r: Result<u8, Vec<u8>> = if s.bool() { Ok(s.u8()) } else { Err(s.vec(12)) };
    let mk = |r: &Result<u8, Vec<u8>>| -> Validated<u8, u8> { match r { Ok(v) => Validated::Valid(*v), Err(e) => Validated::Invalid(e.iter().copied().collect()) } };
    let v = mk(&r);
    let me: Result<u8, Vec<u8>> = r.clone().map_err(|e| e.iter().map(|x| g.at(*x)).collect());
    eq!(Bifunctor::first(&v, |x: &u8| f.at(*x)), mk(&r.clone().map(|x| f.at(x))), "Validated first");
    eq!(Bifunctor::second(&v, |x: &u8| g.at(*x)), mk(&me), "Validated second");
    eq!(Bifunctor::bimap(&v, |x: &u8| f.at(*x), |x: &u8| g.at(*x)), mk(&me.clone().map(|x| f.at(x))), "Validated bimap");
}
fn comonad_id<S: Src>(s: &mut S) {
    let (f, g, x) = (s.tab(), s.tab(), s.u8());
    let i = Id::new(x);
    eq!(Comonad::extract(&i), x, "extract");
    eq!(Comonad::duplicate(&i).into_inner(), x, "duplicate");
    let e = Comonad::extend(&i, |w: &Id<u8>| f.at(Comonad::extract(w)));
    eq!(e.clone().into_inner(), f.at(x), "extend");
    eq!(Comonad::extend(&e, |w: &Id<u8>| g.at(Comonad::extract(w))).into_inner(), g.at(f.at(x)), "extend twice");
}
fn functions<S: Src>(s: &mut S) {
    let (x, y, o) = (s.u8(), s.u8(), s.opt());
    eq!(rustica::utils::functions::id(x), x, "id");
    eq!(rustica::utils::functions::const_fn::<u8, u8>(x)(y), x, "const_fn");
    let n = identity_nat::<Option<u8>>();
    eq!(NaturalTransformation::<Option<u8>, Option<u8>>::transform(&n, &o), o, "identity_nat");
    eq!(NaturalTransformation::<Option<u8>, Option<u8>>::transform_owned(&n, o), o, "identity_nat owned");
}
crate::harnesses! { "C20";
    prove { compose 2, compose_laws 2, identity 2, halves 2, both_when 2, macros 2, bifunctor_either 2, comonad_id 2, functions 2 }
    test { sequence 1.0, bifunctor_validated 0.7, program 1.0 } }
