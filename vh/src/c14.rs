//! C14: lenses and prisms obey the optics laws.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::prism::Prism;
use rustica::traits::iso::Iso;
use std::cell::Cell;
use std::marker::PhantomData;

/// The whole: a focus and an unrelated rest (two bytes, so that lenses can be nested).
#[derive(Clone, Copy, Debug, PartialEq)]
struct Whole {
    a: u8,
    b: u8,
    rest: u8,
}
fn whole<S: Src>(s: &mut S) -> Whole {
    Whole { a: s.u8(), b: s.u8(), rest: s.u8() }
}
/// An arbitrary (affine) bijection of the bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Bij(u8, u8, u8);
impl Bij {
    fn to(&self, x: u8) -> u8 {
        (x ^ self.0).rotate_left((self.2 & 7) as u32).wrapping_add(self.1)
    }
    fn from(&self, y: u8) -> u8 {
        y.wrapping_sub(self.1).rotate_right((self.2 & 7) as u32) ^ self.0
    }
}
fn bij<S: Src>(s: &mut S) -> Bij {
    Bij(s.u8(), s.u8(), s.u8())
}
macro_rules! laws {
    ($lens:expr, $s:expr, $x:expr, $y:expr, $f:expr) => {{
        let (l, w, x, y, f) = (&$lens, $s, $x, $y, $f);
        eq!(l.get(&l.set(w, x)), x, "set then get gives the written value");
        eq!(l.get(&l.set_always(w, x)), x, "set_always then get gives the written value");
        eq!(l.set(w, l.get(&w)), w, "setting what was read changes nothing");
        eq!(l.set_always(w, l.get(&w)), w, "set_always of what was read changes nothing");
        eq!(l.set(l.set(w, x), y), l.set(w, y), "the last of two writes wins");
        eq!(l.set(w, x), l.set_always(w, x), "set and set_always agree");
        eq!(l.modify(w, |v| f.at(v)), l.set(w, f.at(l.get(&w))), "modify is read, apply, write");
        eq!(l.modify_always(w, |v| f.at(v)), l.set(w, f.at(l.get(&w))), "modify_always is read, apply, write");
    }};
}
/// A lens on a field, seen through an arbitrary bijection: all laws, and the rest is untouched.
fn lens<S: Src>(s: &mut S) {
    let (b, w, x, y, f) = (bij(s), whole(s), s.u8(), s.u8(), s.tab());
    let l = Lens::new(move |w: &Whole| b.to(w.a), move |w: Whole, v: u8| Whole { a: b.from(v), ..w });
    eq!(l.get(&w), b.to(w.a), "get reads the focus");
    eq!(l.set(w, x), Whole { a: b.from(x), ..w }, "set writes the focus and nothing else");
    laws!(l, w, x, y, f);
    let c = l.clone();
    eq!(c.get(&w), b.to(w.a), "clone");
}
/// Composition with an isomorphism.
fn lens_fmap<S: Src>(s: &mut S) {
    let (b, w, x, y, f) = (bij(s), whole(s), s.u8(), s.u8(), s.tab());
    let l = Lens::new(|w: &Whole| w.b, |w: Whole, v: u8| Whole { b: v, ..w }).fmap(move |v| b.to(v), move |v| b.from(v));
    eq!(l.get(&w), b.to(w.b), "get through the isomorphism");
    eq!(l.set_always(w, x), Whole { b: b.from(x), ..w }, "set through the isomorphism");
    laws!(l, w, x, y, f);
}
/// A lens into a lens.
fn lens_nested<S: Src>(s: &mut S) {
    let (w, k, x, y, f) = (whole(s), s.u8(), s.u8(), s.u8(), s.tab());
    let outer = Lens::new(|p: &(Whole, u8)| p.0, |p: (Whole, u8), v: Whole| (v, p.1));
    let inner = Lens::new(|w: &Whole| w.a, |w: Whole, v: u8| Whole { a: v, ..w });
    let (o2, i2) = (outer.clone(), inner.clone());
    let l = Lens::new(
        move |p: &(Whole, u8)| inner.get(&outer.get(p)),
        move |p: (Whole, u8), v: u8| {
            let q = o2.get(&p);
            o2.set(p, i2.set(q, v))
        },
    );
    eq!(l.set((w, k), x), (Whole { a: x, ..w }, k), "set writes the inner focus only");
    laws!(l, (w, k), x, y, f);
}
/// set and modify only call the setter when the value changes; modify calls the function once.
fn lens_sharing<S: Src>(s: &mut S) {
    let (w, x, f) = (whole(s), s.u8(), s.tab());
    let n = Cell::new(0u8);
    let m = Cell::new(0u8);
    let l = Lens::new(|w: &Whole| w.a, |w: Whole, v: u8| {
        n.set(n.get() + 1);
        Whole { a: v, ..w }
    });
    l.set(w, x);
    eq!(n.get(), (x != w.a) as u8, "the setter runs only for a changed value");
    n.set(0);
    l.modify(w, |v| {
        m.set(m.get() + 1);
        f.at(v)
    });
    eq!(n.get(), (f.at(w.a) != w.a) as u8, "modify writes only a changed value");
    eq!(m.get(), 1, "modify calls the function once");
    n.set(0);
    l.set_always(w, x);
    eq!(n.get(), 1, "set_always always writes");
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sum {
    A(u8),
    B(u8, u8),
    C,
}
fn sum<S: Src>(s: &mut S) -> Sum {
    match s.below(3) {
        0 => Sum::A(s.u8()),
        1 => Sum::B(s.u8(), s.u8()),
        _ => Sum::C,
    }
}
fn prism<S: Src>(s: &mut S) {
    let (b, w, x, f) = (bij(s), sum(s), s.u8(), s.tab());
    let n = Cell::new(0u8);
    let p = Prism::new(
        move |w: &Sum| match w {
            Sum::A(v) => Some(b.to(*v)),
            _ => None,
        },
        move |v: &u8| Sum::A(b.from(*v)),
    );
    eq!(p.preview(&p.review(&x)), Some(x), "previewing a built value gives that value");
    eq!(p.review(&x), Sum::A(b.from(x)), "review builds the case");
    eq!(p.preview(&w), if let Sum::A(v) = w { Some(b.to(v)) } else { None }, "preview reads the case");
    if let Some(v) = p.preview(&w) {
        eq!(p.review(&v), w, "rebuilding what was previewed gives the original");
    }
    let want = if let Sum::A(v) = w { Sum::A(b.from(f.at(b.to(v)))) } else { w };
    eq!(p.modify(w, |v| { n.set(n.get() + 1); f.at(v) }), want, "modify changes exactly the focused case");
    eq!(n.get(), matches!(w, Sum::A(_)) as u8, "modify calls the function only for the focused case");
    eq!(p.set_if_different(w, x), Sum::A(b.from(x)), "set_if_different focuses the new value");
    eq!(p.clone().preview(&w), p.preview(&w), "clone");
}
fn prism_pair<S: Src>(s: &mut S) {
    let (w, x, y) = (sum(s), s.u8(), s.u8());
    let p = Prism::for_case::<(), ()>(
        |w: &Sum| match w {
            Sum::B(x, y) => Some((*x, *y)),
            _ => None,
        },
        |v: &(u8, u8)| Sum::B(v.0, v.1),
    );
    eq!(p.preview(&p.review(&(x, y))), Some((x, y)), "for_case: previewing a built value");
    let want = if let Sum::B(p, q) = w { Sum::B(q, p) } else { w };
    eq!(p.modify(w, |(p, q)| (q, p)), want, "for_case: modify changes exactly the focused case");
}

/// isomorphism between a whole and a (focus, rest) pair through arbitrary bijections
#[derive(Clone, Copy, Debug, PartialEq)]
struct Iso1(Bij, Bij);
impl Iso<(u8, u8), (u8, u8)> for Iso1 {
    type From = (u8, u8);
    type To = (u8, u8);
    fn forward(&self, f: &(u8, u8)) -> (u8, u8) {
        (self.0.to(f.1), self.1.to(f.0))
    }
    fn backward(&self, t: &(u8, u8)) -> (u8, u8) {
        (self.1.from(t.1), self.0.from(t.0))
    }
}
fn iso_lens<S: Src>(s: &mut S) {
    let (i, w, a, f, g) = (Iso1(bij(s), bij(s)), (s.u8(), s.u8()), (s.u8(), s.u8()), s.tab(), s.tab());
    let l = IsoLens::new(i);
    eq!(l.get(&w), i.forward(&w), "get");
    eq!(l.set(&a), i.backward(&a), "set");
    eq!(l.get(&l.set(&a)), a, "get after set");
    eq!(l.set(&l.get(&w)), w, "set after get");
    let h = |p: (u8, u8)| (f.at(p.0), g.at(p.1));
    eq!(l.modify(&w, h), i.backward(&h(i.forward(&w))), "modify is read, apply, write");
    eq!(l.iso_ref().forward(&w), i.forward(&w), "iso_ref");
    eq!(l.clone().get(&w), i.forward(&w), "clone");
}
/// S <-> (focus, S): the context carries what the focus does not.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Focus(Bij);
impl Iso<(u8, u8), (u8, (u8, u8))> for Focus {
    type From = (u8, u8);
    type To = (u8, (u8, u8));
    fn forward(&self, f: &(u8, u8)) -> (u8, (u8, u8)) {
        (self.0.to(f.0), *f)
    }
    fn backward(&self, t: &(u8, (u8, u8))) -> (u8, u8) {
        (self.0.from(t.0), t.1.1)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Apart(Bij, Bij);
impl Iso<(u8, u8), (u8, (u8, u8))> for Apart {
    type From = (u8, u8);
    type To = (u8, (u8, u8));
    fn forward(&self, f: &(u8, u8)) -> (u8, (u8, u8)) {
        (self.0.to(f.0), (self.1.to(f.1), 7))
    }
    fn backward(&self, t: &(u8, (u8, u8))) -> (u8, u8) {
        (self.0.from(t.0), self.1.from(t.1.0))
    }
}
fn iso_focus<S: Src>(s: &mut S) {
    let (b, w, x, y, f) = (bij(s), (s.u8(), s.u8()), s.u8(), s.u8(), s.tab());
    let l = IsoLens::new(Focus(b));
    let read = |w: &(u8, u8)| l.get(w).0;
    eq!(l.set_focus(&w, &x), (b.from(x), w.1), "set_focus writes the focus only");
    eq!(read(&l.set_focus(&w, &x)), x, "reading back the written focus");
    eq!(l.set_focus(&w, &read(&w)), w, "writing back what was read changes nothing");
    eq!(l.set_focus(&l.set_focus(&w, &x), &y), l.set_focus(&w, &y), "the last of two writes wins");
    eq!(l.modify_focus(&w, |v| f.at(v)), l.set_focus(&w, &f.at(read(&w))), "modify_focus is read, apply, write");
    // an isomorphism whose context is not the whole itself
    let i = Apart(b, bij(s));
    let l = IsoLens::new(i);
    let (seen, rest) = i.forward(&w);
    eq!(l.modify_focus(&w, |v| f.at(v)), i.backward(&(f.at(seen), rest)), "modify_focus writes back with the context that was read");
    eq!(l.modify_focus(&w, |v| v), w, "modify_focus by the identity changes nothing");
    eq!(l.set_focus(&w, &x), i.backward(&(x, w)), "set_focus writes with the whole as context");
}
/// outer iso followed by a focusing iso whose context is the whole
#[derive(Clone, Copy, Debug, PartialEq)]
struct Inner(Bij);
impl Iso<(u8, u8), (u8, (u8, u8))> for Inner {
    type From = (u8, u8);
    type To = (u8, (u8, u8));
    fn forward(&self, f: &(u8, u8)) -> (u8, (u8, u8)) {
        (self.0.to(f.1), *f)
    }
    fn backward(&self, t: &(u8, (u8, u8))) -> (u8, u8) {
        (t.1.0, self.0.from(t.0))
    }
}
fn iso_compose<S: Src>(s: &mut S) {
    let (i, b, w, x) = (Iso1(bij(s), bij(s)), bij(s), (s.u8(), s.u8()), s.u8());
    let l = IsoLens::new(i).compose(IsoLens::new(Inner(b)));
    let mid = i.forward(&w);
    eq!(l.get(&w), (b.to(mid.1), mid), "compose: get goes outer, then inner");
    eq!(l.set(&(x, mid)), i.backward(&(mid.0, b.from(x))), "compose: set goes inner, then outer");
    eq!(l.set(&l.get(&w)), w, "compose: writing back what was read changes nothing");
}
/// a lawful isomorphism between an optional focus and the whole
#[derive(Clone, Copy, Debug, PartialEq)]
struct Part(Bij);
impl Iso<Sum2, Option<u8>> for Part {
    type From = Sum2;
    type To = Option<u8>;
    fn forward(&self, f: &Sum2) -> Option<u8> {
        match f {
            Sum2::Has(v) => Some(self.0.to(*v)),
            Sum2::Not => None,
        }
    }
    fn backward(&self, t: &Option<u8>) -> Sum2 {
        match t {
            Some(v) => Sum2::Has(self.0.from(*v)),
            None => Sum2::Not,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sum2 {
    Has(u8),
    Not,
}
fn iso_prism<S: Src>(s: &mut S) {
    let (b, x) = (bij(s), s.u8());
    let w = if s.bool() { Sum2::Has(s.u8()) } else { Sum2::Not };
    let p = IsoPrism::new(Part(b));
    eq!(p.preview(&w), Part(b).forward(&w), "preview");
    eq!(p.review(&x), Sum2::Has(b.from(x)), "review");
    eq!(p.preview(&p.review(&x)), Some(x), "previewing a built value gives that value");
    if let Some(v) = p.preview(&w) {
        eq!(p.review(&v), w, "rebuilding what was previewed gives the original");
    }
}
/// A whole whose focus is itself a sum.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Outer(Bij);
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sum3 {
    In(Sum2),
    Out,
}
impl Iso<Sum3, Option<Sum2>> for Outer {
    type From = Sum3;
    type To = Option<Sum2>;
    fn forward(&self, f: &Sum3) -> Option<Sum2> {
        match f {
            Sum3::In(Sum2::Has(v)) => Some(Sum2::Has(self.0.to(*v))),
            Sum3::In(x) => Some(*x),
            Sum3::Out => None,
        }
    }
    fn backward(&self, t: &Option<Sum2>) -> Sum3 {
        match t {
            Some(Sum2::Has(v)) => Sum3::In(Sum2::Has(self.0.from(*v))),
            Some(x) => Sum3::In(*x),
            None => Sum3::Out,
        }
    }
}
fn iso_prism_compose<S: Src>(s: &mut S) {
    let (b, c, x) = (bij(s), bij(s), s.u8());
    let w = match s.below(3) {
        0 => Sum3::In(Sum2::Has(s.u8())),
        1 => Sum3::In(Sum2::Not),
        _ => Sum3::Out,
    };
    let p = IsoPrism::new(Outer(b)).compose(IsoPrism::new(Part(c)));
    let want = match w {
        Sum3::In(Sum2::Has(v)) => Some(c.to(b.to(v))),
        _ => None,
    };
    eq!(p.preview(&w), want, "compose: preview goes outer, then inner");
    eq!(p.review(&x), Sum3::In(Sum2::Has(b.from(c.from(x)))), "compose: review goes inner, then outer");
    eq!(p.preview(&p.review(&x)), Some(x), "compose: previewing a built value gives that value");
}
/// Heap-valued foci (strings and vectors): the laws on values that are not plain bytes.
fn lens_heap<S: Src>(s: &mut S) {
    type W = (Vec<u8>, String);
    let w: W = (s.vec(3), format!("{}", s.u8()));
    let (x, y, k) = (s.vec(3), s.vec(3), s.u8());
    let l = Lens::new(|w: &W| w.0.clone(), |w: W, v: Vec<u8>| (v, w.1));
    let f = |mut v: Vec<u8>| {
        v.push(k);
        v
    };
    eq!(l.get(&l.set(w.clone(), x.clone())), x, "set then get");
    eq!(l.set(w.clone(), l.get(&w)), w, "set what was read");
    eq!(l.set(l.set(w.clone(), x.clone()), y.clone()), l.set(w.clone(), y.clone()), "last write wins");
    eq!(l.modify(w.clone(), f), (f(w.0.clone()), w.1.clone()), "modify");
    eq!(l.modify_always(w.clone(), f), (f(w.0.clone()), w.1.clone()), "modify_always");
}

harnesses! {
    "C14";
    prove {
        lens 2, lens_fmap 2, lens_nested 2, lens_sharing 2, prism 2, prism_pair 2,
        iso_lens 2, iso_focus 2, iso_compose 2, iso_prism 2, iso_prism_compose 2,
    }
    test { lens_heap 1.0 }
}
