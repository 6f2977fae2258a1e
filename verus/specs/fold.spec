//@ method iter iter_
//@ method rev rev_
//@ method into_iter into_iter_
//@ method into into_to_
//@ method fold fold_reach_
//@ bound IntoIterator IntoIt
//@ bound Into IntoTo
//@ type datatypes/id.rs Id
//@ type datatypes/choice.rs Choice
//@ type datatypes/validated/core.rs Validated
//@ type datatypes/validated/core.rs ErrorVec
//@ raw
broadcast use {prelude_lemmas, prelude_len};
use core::cmp::Ordering;
use core::ops::{Add, Mul};
use vstd::std_specs::ops::{AddSpec, MulSpec};
use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec, PartialOrdSpec};
//@ include inc/monoid
/// What holds of the start and is kept by each step holds at the end.
pub proof fn lemma_left_inv<T, U, F: Fn(&U, &T) -> U>(f: F, init: U, s: Seq<T>, inv: spec_fn(int, U) -> bool)
    requires
        inv(0, init),
        forall|k: int, u: U| 0 <= k < s.len() && #[trigger] inv(k, u) ==> f.requires((&u, &s[k])),
        forall|k: int, u: U, o: U| 0 <= k < s.len() && inv(k, u) && #[trigger] f.ensures((&u, &s[k]), o) ==> inv(k + 1, o),
    ensures
        left_ok(f, init, s),
        forall|r: U| #[trigger] folded_left(f, init, s, r) ==> inv(s.len() as int, r),
{
    assert forall|i: int, a: Seq<U>| 0 <= i < s.len() && #[trigger] fold_left_steps(f, init, s.take(i), a) implies f.requires((&a.last(), &s[i])) by {
        lemma_left_at(f, init, s, i, a, inv);
    }
    assert forall|r: U| #[trigger] folded_left(f, init, s, r) implies inv(s.len() as int, r) by {
        let a = choose|a: Seq<U>| #[trigger] fold_left_steps(f, init, s, a) && a.last() == r;
        assert(s.take(s.len() as int) =~= s);
        lemma_left_at(f, init, s, s.len() as int, a, inv);
    }
}
pub proof fn lemma_left_at<T, U, F: Fn(&U, &T) -> U>(f: F, init: U, s: Seq<T>, n: int, a: Seq<U>, inv: spec_fn(int, U) -> bool)
    requires
        inv(0, init), 0 <= n <= s.len(), fold_left_steps(f, init, s.take(n), a),
        forall|k: int, u: U, o: U| 0 <= k < s.len() && inv(k, u) && #[trigger] f.ensures((&u, &s[k]), o) ==> inv(k + 1, o),
    ensures inv(n, a.last()),
    decreases n,
{
    if n > 0 {
        let b = a.drop_last();
        assert forall|i: int| 0 <= i < n - 1 implies f.ensures((&b[i], #[trigger] refs(s.take(n - 1))[i]), b[i + 1]) by {
            assert(refs(s.take(n))[i] == refs(s.take(n - 1))[i]);
        }
        lemma_left_at(f, init, s, n - 1, b, inv);
        assert(f.ensures((&a[n - 1], refs(s.take(n))[n - 1]), a[n]));
    }
}
/// Combining what `f` makes of `x` onto `a`.
pub open spec fn step_ok<T, M: Semigroup, F: Fn(&T) -> M>(f: &F, a: M::M, x: &T) -> bool {
    f.requires((x,)) && forall|m: M| #[trigger] f.ensures((x,), m) ==> M::can(a, m.m())
}
pub open spec fn step_is<T, M: Semigroup, F: Fn(&T) -> M>(f: &F, a: M::M, x: &T, o: M::M) -> bool {
    exists|m: M| #[trigger] f.ensures((x,), m) && o == M::op(a, m.m())
}
/// `T` is ordered totally.
pub open spec fn ordered<T: PartialOrd>() -> bool {
    &&& T::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b)) is Some
    &&& forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b)) == Some(Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(Ordering::Greater)
    &&& forall|a: T, b: T, c: T| (#[trigger] a.partial_cmp_spec(&b)) != Some(Ordering::Greater) && (#[trigger] b.partial_cmp_spec(&c)) != Some(Ordering::Greater)
        ==> a.partial_cmp_spec(&c) != Some(Ordering::Greater)
}
/// The sum of `s` onto `init`, from the left.
pub open spec fn sum_of<T: Add<Output = T>>(init: T, s: Seq<T>) -> T
    decreases s.len()
{ if s.len() == 0 { init } else { <T as AddSpec>::add_spec(sum_of(init, s.drop_last()), s.last()) } }
pub open spec fn product_of<T: Mul<Output = T>>(init: T, s: Seq<T>) -> T
    decreases s.len()
{ if s.len() == 0 { init } else { <T as MulSpec>::mul_spec(product_of(init, s.drop_last()), s.last()) } }
pub proof fn lemma_mapped_push<X, Y, F: Fn(X) -> Y>(f: F, s: Seq<X>, k: int, o: Seq<Y>, y: Y)
    requires 0 <= k < s.len(), mapped(f, s.take(k), o), f.ensures((s[k],), y),
    ensures mapped(f, s.take(k + 1), o.push(y)),
{}
/// `elems` lists the elements; folding visits each of them once, in that order from the left and in
/// the opposite one from the right.
pub trait Foldable: Sized {
    type Source;
    spec fn elems(&self) -> Seq<Self::Source>;
    fn fold_left<U: Clone, F>(&self, init: &U, f: F) -> (r: U) where F: Fn(&U, &Self::Source) -> U
        requires left_ok(f, *init, self.elems()),
        ensures folded_left(f, *init, self.elems(), r);
    fn fold_right<U: Clone, F>(&self, init: &U, f: F) -> (r: U) where F: Fn(&Self::Source, &U) -> U
        requires right_ok(f, *init, self.elems().reverse()),
        ensures folded_right(f, *init, self.elems().reverse(), r);
//@ fn traits/foldable.rs Foldable::length inside props C17
    requires self.elems().len() <= usize::MAX,
    ensures r == self.elems().len(),
//@ hoist 0
//@ closure 0 |acc: &usize, __p1: &Self::Source| -> (o: usize)
    requires *acc < usize::MAX,
    ensures o == *acc + 1,
//@ at tail
proof { lemma_left_inv(__c0, 0usize, self.elems(), |k: int, u: usize| u == k); }
//@ fn traits/foldable.rs Foldable::is_empty inside props C17
    requires self.elems().len() <= usize::MAX,
    ensures r == (self.elems().len() == 0),
//@ fn traits/foldable.rs Foldable::fold_map inside props C17
    requires
        M::lawful(), M::neutral(), forall|i: int| 0 <= i < self.elems().len() ==> f.requires((&#[trigger] self.elems()[i],)),
        forall|k: int, o: Seq<M>, m: M| 0 <= k < self.elems().len() && #[trigger] mapped(f, refs(self.elems()).take(k), o) && #[trigger] f.ensures((&self.elems()[k],), m)
            ==> M::can(combined(M::e(), o), m.m()),
    ensures exists|o: Seq<M>| #[trigger] mapped(f, refs(self.elems()), o) && r.m() == combined(M::e(), o),
//@ hoist 0
//@ closure 0 |acc: &M, x: &Self::Source| -> (o: M)
    requires step_ok(&f, acc.m(), x),
    ensures step_is::<_, M, _>(&f, acc.m(), x, o.m()),
//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: M| exists|o: Seq<M>| #[trigger] mapped(f, refs(s).take(k), o) && u.m() == combined(M::e(), o);
    assert(mapped(f, refs(s).take(0), Seq::<M>::empty()));
    assert forall|e: M| e.m() == M::e() implies #[trigger] inv(0, e) by {}
    assert forall|k: int, u: M, o: M| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        let os = choose|os: Seq<M>| #[trigger] mapped(f, refs(s).take(k), os) && u.m() == combined(M::e(), os);
        let m = choose|m: M| #[trigger] f.ensures((&s[k],), m) && o.m() == M::op(u.m(), m.m());
        lemma_mapped_push(f, refs(s), k, os, m);
        assert(os.push(m).drop_last() =~= os);
    }
    assert(refs(s).take(s.len() as int) =~= refs(s));
    assert forall|e: M| e.m() == M::e() implies #[trigger] left_ok(__c0, e, s) && forall|r: M| #[trigger] folded_left(__c0, e, s, r) ==> inv(s.len() as int, r) by {
        assert(inv(0, e));
        lemma_left_inv(__c0, e, s, inv);
    }
}
//@ fn traits/foldable.rs Foldable::fold_monoid inside props C17
    requires
        M::lawful(), M::neutral(),
        forall|k: int| 0 <= k < self.elems().len() ==> M::can(combined(M::e(), convs::<Self::Source, M>(self.elems()).take(k)), (#[trigger] self.elems()[k]).conv().m()),
    ensures r.m() == combined(M::e(), convs::<Self::Source, M>(self.elems())),
//@ hoist 0
//@ closure 0 |acc: &M, x: &Self::Source| -> (o: M)
    requires M::can(acc.m(), x.conv().m()),
    ensures o.m() == M::op(acc.m(), x.conv().m()),
//@ at tail
proof {
    let s = self.elems();
    let c = convs::<Self::Source, M>(s);
    let inv = |k: int, u: M| u.m() == combined(M::e(), c.take(k));
    assert forall|k: int, u: M, o: M| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        assert(c.take(k + 1).drop_last() =~= c.take(k));
        assert(c[k] == s[k].conv());
    }
    assert(c.take(s.len() as int) =~= c);
    assert forall|k: int, u: M| 0 <= k < s.len() && #[trigger] inv(k, u) implies __c0.requires((&u, &s[k])) by { assert(M::can(combined(M::e(), c.take(k)), s[k].conv().m())); }
    assert forall|e: M| e.m() == M::e() implies #[trigger] left_ok(__c0, e, s) && forall|r: M| #[trigger] folded_left(__c0, e, s, r) ==> inv(s.len() as int, r) by {
        assert(inv(0, e));
        lemma_left_inv(__c0, e, s, inv);
    }
}
//@ raw
}
pub open spec fn convs<T: IntoTo<M>, M>(s: Seq<T>) -> Seq<M> { s.map_values(|x: T| x.conv()) }
/// What `find` has seen after the elements of `s`.
pub open spec fn every<T, P: Fn(&T) -> bool>(p: P, s: Seq<T>, r: bool) -> bool {
    if r { forall|i: int| 0 <= i < s.len() ==> p.ensures((&#[trigger] s[i],), true) }
    else { exists|i: int| 0 <= i < s.len() && p.ensures((&#[trigger] s[i],), false) }
}
pub open spec fn some_<T, P: Fn(&T) -> bool>(p: P, s: Seq<T>, r: bool) -> bool {
    if r { exists|i: int| 0 <= i < s.len() && p.ensures((&#[trigger] s[i],), true) }
    else { forall|i: int| 0 <= i < s.len() ==> p.ensures((&#[trigger] s[i],), false) }
}
/// All of `o` present: their values combined; otherwise nothing.
pub open spec fn option_fold<M: Monoid>(o: Seq<Option<M>>, u: Option<M>) -> bool {
    match u {
        Some(m) => (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] is Some) && m.m() == combined(M::e(), somes(o)),
        None => exists|i: int| 0 <= i < o.len() && #[trigger] o[i] is None,
    }
}
pub open spec fn ostep_ok<T, M: Semigroup, F: Fn(&T) -> Option<M>>(f: &F, a: Option<M>, x: &T) -> bool {
    f.requires((x,)) && forall|m: Option<M>| #[trigger] f.ensures((x,), m) && m is Some && a is Some ==> M::can(a->0.m(), m->0.m())
}
pub open spec fn ostep_is<T, M: Semigroup, F: Fn(&T) -> Option<M>>(f: &F, a: Option<M>, x: &T, o: Option<M>) -> bool {
    exists|m: Option<M>| #[trigger] f.ensures((x,), m) && match (a, m) {
        (Some(p), Some(q)) => o is Some && o->0.m() == M::op(p.m(), q.m()),
        _ => o is None,
    }
}
/// No element of `s` comes after (`sign` `Greater`) respectively before (`Less`) `u`, which is one of them.
pub open spec fn extreme<T: PartialOrd>(s: Seq<T>, u: Option<T>, sign: Ordering) -> bool {
    match u {
        Some(m) => (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).partial_cmp_spec(&m) != Some(sign),
        None => s.len() == 0,
    }
}
pub open spec fn le<T: PartialOrd>(a: T, b: T) -> bool {
    a.partial_cmp_spec(&b) == Some(Ordering::Less) || a.partial_cmp_spec(&b) == Some(Ordering::Equal)
}
/// `s` in order, up to its last element.
pub open spec fn ascending<T: PartialOrd>(s: Seq<T>) -> bool {
    forall|i: int| 0 <= i < s.len() - 1 ==> le(#[trigger] s[i], s[i + 1])
}
pub open spec fn reduced<T, F: Fn(&T, &T) -> T>(f: F, s: Seq<T>, u: Option<T>) -> bool {
    match u {
        Some(r) => s.len() > 0 && folded_left(f, s[0], s.skip(1), r),
        None => s.len() == 0,
    }
}
pub trait FoldableExt: Foldable {
//@ fn traits/foldable.rs FoldableExt::find inside props C17
    requires forall|i: int| 0 <= i < self.elems().len() ==> pred.requires((&#[trigger] self.elems()[i],)),
    ensures found(pred, self.elems(), r),
//@ hoist 0
//@ closure 0 |acc: &Option<Self::Source>, x: &Self::Source| -> (o: Option<Self::Source>)
    requires pre1(&pred, x),
    ensures
        acc is Some ==> o == *acc,
        acc is None ==> (o == Some(*x) && post1(&pred, x, true)) || (o is None && post1(&pred, x, false)),

//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: Option<Self::Source>| found(pred, s.take(k), u);
    assert forall|k: int, u: Option<Self::Source>, o: Option<Self::Source>| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        assert forall|j: int| 0 <= j < k implies s.take(k)[j] == #[trigger] s.take(k + 1)[j] by {}
        if u is Some {
            let i = choose|i: int| 0 <= i < k && #[trigger] s.take(k)[i] == u->0 && pred.ensures((&u->0,), true) && forall|j: int| 0 <= j < i ==> pred.ensures((&#[trigger] s.take(k)[j],), false);
            assert(s.take(k + 1)[i] == u->0);
        } else if o is Some { assert(s.take(k + 1)[k] == o->0); }
    }
    assert(s.take(s.len() as int) =~= s);
    lemma_left_inv(__c0, None::<Self::Source>, s, inv);
}
//@ fn traits/foldable.rs FoldableExt::all inside props C17
    requires forall|i: int| 0 <= i < self.elems().len() ==> pred.requires((&#[trigger] self.elems()[i],)),
    ensures every(pred, self.elems(), r),
//@ hoist 0
//@ closure 0 |acc: &bool, x: &Self::Source| -> (o: bool)
    requires pre1(&pred, x),
    ensures o ==> *acc && post1(&pred, x, true), !o ==> !*acc || post1(&pred, x, false),

//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: bool| every(pred, s.take(k), u);
    assert forall|k: int, u: bool, o: bool| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        assert forall|j: int| 0 <= j < k implies s.take(k)[j] == #[trigger] s.take(k + 1)[j] by {}
        assert(s.take(k + 1)[k] == s[k]);
        if !u { let i = choose|i: int| 0 <= i < k && pred.ensures((&#[trigger] s.take(k)[i],), false); assert(s.take(k + 1)[i] == s.take(k)[i]); }
    }
    assert(s.take(s.len() as int) =~= s);
    lemma_left_inv(__c0, true, s, inv);
}
//@ fn traits/foldable.rs FoldableExt::any inside props C17
    requires forall|i: int| 0 <= i < self.elems().len() ==> pred.requires((&#[trigger] self.elems()[i],)),
    ensures some_(pred, self.elems(), r),
//@ hoist 0
//@ closure 0 |acc: &bool, x: &Self::Source| -> (o: bool)
    requires pre1(&pred, x),
    ensures o ==> *acc || post1(&pred, x, true), !o ==> !*acc && post1(&pred, x, false),

//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: bool| some_(pred, s.take(k), u);
    assert forall|k: int, u: bool, o: bool| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        assert forall|j: int| 0 <= j < k implies s.take(k)[j] == #[trigger] s.take(k + 1)[j] by {}
        assert(s.take(k + 1)[k] == s[k]);
        if u { let i = choose|i: int| 0 <= i < k && pred.ensures((&#[trigger] s.take(k)[i],), true); assert(s.take(k + 1)[i] == s.take(k)[i]); }
    }
    assert(s.take(s.len() as int) =~= s);
    lemma_left_inv(__c0, false, s, inv);
}
//@ fn traits/foldable.rs FoldableExt::contains inside props C17
    ensures Self::Source::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < self.elems().len() && (#[trigger] self.elems()[i]).eq_spec(value),
//@ closure 0 |x: &Self::Source| -> (o: bool)
    ensures Self::Source::obeys_eq_spec() ==> o == x.eq_spec(value),
//@ fn traits/foldable.rs FoldableExt::fold_option inside props C17
    requires
        B::lawful(), B::neutral(), forall|i: int| 0 <= i < self.elems().len() ==> f.requires((&#[trigger] self.elems()[i],)),
        forall|a: B::M, b: B::M| #[trigger] B::can(a, b),
    ensures exists|o: Seq<Option<B>>| #[trigger] mapped(f, refs(self.elems()), o) && option_fold(o, r),
//@ hoist 0
//@ closure 0 |acc: &Option<B>, x: &Self::Source| -> (o: Option<B>)
    requires ostep_ok(&f, *acc, x),
    ensures ostep_is(&f, *acc, x, o),
//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: Option<B>| exists|o: Seq<Option<B>>| #[trigger] mapped(f, refs(s).take(k), o) && option_fold(o, u);
    assert(mapped(f, refs(s).take(0), Seq::<Option<B>>::empty()));
    assert(somes(Seq::<Option<B>>::empty()) =~= Seq::empty());
    assert forall|e: B| e.m() == B::e() implies #[trigger] inv(0, Some(e)) by { assert(option_fold(Seq::<Option<B>>::empty(), Some(e))); }
    assert forall|k: int, u: Option<B>, o: Option<B>| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        let os = choose|os: Seq<Option<B>>| #[trigger] mapped(f, refs(s).take(k), os) && option_fold(os, u);
        let m = choose|m: Option<B>| #[trigger] f.ensures((&s[k],), m) && match (u, m) {
            (Some(p), Some(q)) => o is Some && o->0.m() == B::op(p.m(), q.m()),
            _ => o is None,
        };
        lemma_mapped_push(f, refs(s), k, os, m);
        let on = os.push(m);
        assert(somes(on) =~= somes(os).push(m->0));
        assert(somes(on).drop_last() =~= somes(os));
        if u is None { let i = choose|i: int| 0 <= i < os.len() && #[trigger] os[i] is None; assert(on[i] is None); }
        else if m is None { assert(on[os.len() as int] is None); }
        else { assert forall|i: int| 0 <= i < on.len() implies #[trigger] on[i] is Some by { if i < os.len() { assert(os[i] is Some); } } }
        assert(option_fold(on, o));
    }
    assert(refs(s).take(s.len() as int) =~= refs(s));
    assert forall|e: Option<B>| e is Some && e->0.m() == B::e() implies #[trigger] left_ok(__c0, e, s) by {
        assert(inv(0, Some(e->0)));
        lemma_left_inv(__c0, e, s, inv);
    }
    assert forall|e: Option<B>, r: Option<B>| e is Some && e->0.m() == B::e() && #[trigger] folded_left(__c0, e, s, r) implies exists|o: Seq<Option<B>>| #[trigger] mapped(f, refs(s), o) && option_fold(o, r) by {
        assert(inv(0, Some(e->0)));
        lemma_left_inv(__c0, e, s, inv);
        assert(inv(s.len() as int, r));
    }
}
//@ fn traits/foldable.rs FoldableExt::is_sorted inside props C17
    ensures ordered::<Self::Source>() ==> r == ascending(self.elems()),
//@ hoist 0
//@ closure 0 |__p0: &(bool, Option<Self::Source>), curr: &Self::Source| -> (o: (bool, Option<Self::Source>))
    ensures o.1 == Some(*curr), ordered::<Self::Source>() ==> o.0 == (__p0.0 && (__p0.1 is Some ==> le(__p0.1->0, *curr))),
//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: (bool, Option<Self::Source>)| (ordered::<Self::Source>() ==> u.0 == ascending(s.take(k))) && (if k == 0 { u.1 is None } else { u.1 == Some(s[k - 1]) });
    assert forall|k: int, u: (bool, Option<Self::Source>), o: (bool, Option<Self::Source>)| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        let (p, q) = (s.take(k), s.take(k + 1));
        if ordered::<Self::Source>() {
            assert forall|i: int| 0 <= i < k - 1 implies #[trigger] p[i] == q[i] && p[i + 1] == q[i + 1] by {}
            if ascending(q) {
                assert forall|i: int| 0 <= i < k - 1 implies le(#[trigger] p[i], p[i + 1]) by { assert(q[i] == p[i]); }
                if k > 0 { assert(le(q[k - 1], q[k - 1 + 1])); }
            }
            if o.0 {
                assert forall|i: int| 0 <= i < k implies le(#[trigger] q[i], q[i + 1]) by { if i < k - 1 { assert(p[i] == q[i]); } }
            }
        }
    }
    assert(s.take(s.len() as int) =~= s);
    lemma_left_inv(__c0, (true, None), s, inv);
}
//@ fn traits/foldable.rs FoldableExt::to_vec inside props C17
    ensures r@ =~= self.elems(),
//@ hoist 0
//@ closure 0 |acc: &Vec<Self::Source>, x: &Self::Source| -> (o: Vec<Self::Source>)
    ensures o@ == acc@.push(*x),

//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: Vec<Self::Source>| u@ == s.take(k);
    assert(s.take(s.len() as int) =~= s);
    assert forall|k: int, u: Vec<Self::Source>, o: Vec<Self::Source>| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by { assert(s.take(k + 1) =~= s.take(k).push(s[k])); }
    assert forall|e: Vec<Self::Source>| e@.len() == 0 implies #[trigger] left_ok(__c0, e, s) by { assert(e@ =~= s.take(0)); lemma_left_inv(__c0, e, s, inv); }
    assert forall|e: Vec<Self::Source>, r: Vec<Self::Source>| e@.len() == 0 && #[trigger] folded_left(__c0, e, s, r) implies r@ == s by {
        assert(e@ =~= s.take(0));
        lemma_left_inv(__c0, e, s, inv);
        assert(inv(s.len() as int, r));
    }
}
//@ fn traits/foldable.rs FoldableExt::sum_values inside props C17
    requires
        <Self::Source as AddSpec>::obeys_add_spec(),
        forall|e: Self::Source, k: int| 0 <= k < self.elems().len() && call_ensures(<Self::Source as Default>::default, (), e) ==> <Self::Source as AddSpec>::add_req(#[trigger] sum_of(e, self.elems().take(k)), self.elems()[k]),
    ensures exists|e: Self::Source| call_ensures(<Self::Source as Default>::default, (), e) && r == #[trigger] sum_of(e, self.elems()),
//@ hoist 0
//@ closure 0 |acc: &Self::Source, x: &Self::Source| -> (o: Self::Source)
    requires <Self::Source as AddSpec>::add_req(*acc, *x),
    ensures o == <Self::Source as AddSpec>::add_spec(*acc, *x),
//@ at tail
proof {
    let s = self.elems();
    assert forall|e: Self::Source| call_ensures(<Self::Source as Default>::default, (), e) implies #[trigger] left_ok(__c0, e, s) && forall|r: Self::Source| #[trigger] folded_left(__c0, e, s, r) ==> r == sum_of(e, s) by {
        let inv = |k: int, u: Self::Source| u == sum_of(e, s.take(k));
        assert forall|k: int, u: Self::Source, o: Self::Source| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
        assert(s.take(s.len() as int) =~= s);
        assert(inv(0, e));
        lemma_left_inv(__c0, e, s, inv);
    }
}
//@ fn traits/foldable.rs FoldableExt::product_values inside props C17
    requires
        <Self::Source as MulSpec>::obeys_mul_spec(),
        forall|e: Self::Source, k: int| 0 <= k < self.elems().len() && call_ensures(<Self::Source as From<u8>>::from, (1u8,), e) ==> <Self::Source as MulSpec>::mul_req(#[trigger] product_of(e, self.elems().take(k)), self.elems()[k]),
    ensures exists|e: Self::Source| call_ensures(<Self::Source as From<u8>>::from, (1u8,), e) && r == #[trigger] product_of(e, self.elems()),
//@ hoist 0
//@ closure 0 |acc: &Self::Source, x: &Self::Source| -> (o: Self::Source)
    requires <Self::Source as MulSpec>::mul_req(*acc, *x),
    ensures o == <Self::Source as MulSpec>::mul_spec(*acc, *x),
//@ at tail
proof {
    let s = self.elems();
    assert forall|e: Self::Source| call_ensures(<Self::Source as From<u8>>::from, (1u8,), e) implies #[trigger] left_ok(__c0, e, s) && forall|r: Self::Source| #[trigger] folded_left(__c0, e, s, r) ==> r == product_of(e, s) by {
        let inv = |k: int, u: Self::Source| u == product_of(e, s.take(k));
        assert forall|k: int, u: Self::Source, o: Self::Source| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
        assert(s.take(s.len() as int) =~= s);
        assert(inv(0, e));
        lemma_left_inv(__c0, e, s, inv);
    }
}
//@ fn traits/foldable.rs FoldableExt::maximum inside props C17
    ensures
        (r is None) == (self.elems().len() == 0),
        r is Some ==> exists|i: int| 0 <= i < self.elems().len() && #[trigger] self.elems()[i] == r->0,
        ordered::<Self::Source>() ==> extreme(self.elems(), r, Ordering::Greater),
//@ hoist 0
//@ closure 0 |max: &Option<Self::Source>, x: &Self::Source| -> (o: Option<Self::Source>)
    ensures
        max is None ==> o == Some(*x),
        max is Some ==> o == max || o == Some(*x),
        max is Some && ordered::<Self::Source>() ==> o == (if x.partial_cmp_spec(&max->0) == Some(Ordering::Greater) { Some(*x) } else { *max }),

//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: Option<Self::Source>| (u is None) == (k == 0)
        && (u is Some ==> exists|i: int| 0 <= i < k && #[trigger] s[i] == u->0)
        && (ordered::<Self::Source>() && u is Some ==> forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).partial_cmp_spec(&u->0) != Some(Ordering::Greater));
    assert forall|k: int, u: Option<Self::Source>, o: Option<Self::Source>| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        assert(s[k] == s[k]);
        if u is Some { let i = choose|i: int| 0 <= i < k && #[trigger] s[i] == u->0; assert(s[i] == u->0); }
        if ordered::<Self::Source>() && u is Some {
            assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] s[i]).partial_cmp_spec(&o->0) != Some(Ordering::Greater) by {
                let (a, b, c) = (s[i].partial_cmp_spec(&u->0), u->0.partial_cmp_spec(&s[k]), s[k].partial_cmp_spec(&u->0));
                let (d, e) = (s[i].partial_cmp_spec(&s[k]), s[k].partial_cmp_spec(&s[i]));
                let f = u->0.partial_cmp_spec(&s[i]);
                let g = s[k].partial_cmp_spec(&s[k]);
            }
        } else if ordered::<Self::Source>() { let g = s[k].partial_cmp_spec(&s[k]); }
    }
    assert(s.take(s.len() as int) =~= s);
    lemma_left_inv(__c0, None::<Self::Source>, s, inv);
}
//@ fn traits/foldable.rs FoldableExt::minimum inside props C17
    ensures
        (r is None) == (self.elems().len() == 0),
        r is Some ==> exists|i: int| 0 <= i < self.elems().len() && #[trigger] self.elems()[i] == r->0,
        ordered::<Self::Source>() ==> extreme(self.elems(), r, Ordering::Less),
//@ hoist 0
//@ closure 0 |min: &Option<Self::Source>, x: &Self::Source| -> (o: Option<Self::Source>)
    ensures
        min is None ==> o == Some(*x),
        min is Some ==> o == min || o == Some(*x),
        min is Some && ordered::<Self::Source>() ==> o == (if x.partial_cmp_spec(&min->0) == Some(Ordering::Less) { Some(*x) } else { *min }),

//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: Option<Self::Source>| (u is None) == (k == 0)
        && (u is Some ==> exists|i: int| 0 <= i < k && #[trigger] s[i] == u->0)
        && (ordered::<Self::Source>() && u is Some ==> forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).partial_cmp_spec(&u->0) != Some(Ordering::Less));
    assert forall|k: int, u: Option<Self::Source>, o: Option<Self::Source>| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        assert(s[k] == s[k]);
        if u is Some { let i = choose|i: int| 0 <= i < k && #[trigger] s[i] == u->0; assert(s[i] == u->0); }
        if ordered::<Self::Source>() && u is Some {
            assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] s[i]).partial_cmp_spec(&o->0) != Some(Ordering::Less) by {
                let (a, b, c) = (s[i].partial_cmp_spec(&u->0), u->0.partial_cmp_spec(&s[k]), s[k].partial_cmp_spec(&u->0));
                let (d, e) = (s[i].partial_cmp_spec(&s[k]), s[k].partial_cmp_spec(&s[i]));
                let f = u->0.partial_cmp_spec(&s[i]);
                let g = s[k].partial_cmp_spec(&s[k]);
            }
        } else if ordered::<Self::Source>() { let g = s[k].partial_cmp_spec(&s[k]); }
    }
    assert(s.take(s.len() as int) =~= s);
    lemma_left_inv(__c0, None::<Self::Source>, s, inv);
}
//@ fn traits/foldable.rs FoldableExt::reduce inside props C17
    requires self.elems().len() > 0 ==> left_ok(f, self.elems()[0], self.elems().skip(1)),
    ensures reduced(f, self.elems(), r),
//@ hoist 0
//@ closure 0 |acc: &Option<Self::Source>, x: &Self::Source| -> (o: Option<Self::Source>)
    requires acc is Some ==> pre2(&f, &acc->0, x),
    ensures o is Some, acc is None ==> o == Some(*x), acc is Some ==> post2(&f, &acc->0, x, o->0),
//@ at tail
proof {
    let s = self.elems();
    let inv = |k: int, u: Option<Self::Source>| reduced(f, s.take(k), u);
    assert forall|k: int, u: Option<Self::Source>| 0 <= k < s.len() && #[trigger] inv(k, u) implies __c0.requires((&u, &s[k])) by {
        if u is Some {
            let a = choose|a: Seq<Self::Source>| #[trigger] fold_left_steps(f, s[0], s.take(k).skip(1), a) && a.last() == u->0;
            assert(s.take(k).skip(1) =~= s.skip(1).take(k - 1));
            assert(f.requires((&a.last(), &s.skip(1)[k - 1])));
        }
    }
    assert forall|k: int, u: Option<Self::Source>, o: Option<Self::Source>| 0 <= k < s.len() && inv(k, u) && #[trigger] __c0.ensures((&u, &s[k]), o) implies inv(k + 1, o) by {
        let t = s.take(k + 1).skip(1);
        if u is Some {
            let a = choose|a: Seq<Self::Source>| #[trigger] fold_left_steps(f, s[0], s.take(k).skip(1), a) && a.last() == u->0;
            assert(s.take(k).skip(1) =~= t.take(k - 1));
            lemma_fold_left_step(f, s[0], t, k - 1, a, o->0);
            assert(t.take(k) =~= t);
            assert(fold_left_steps(f, s[0], t, a.push(o->0)));
        } else {
            assert(fold_left_steps(f, s[0], t, seq![s[0]]));
        }
    }
    assert(s.take(s.len() as int) =~= s);
    lemma_left_inv(__c0, None::<Self::Source>, s, inv);
}
//@ raw
}
impl<T: Foldable> FoldableExt for T {}
//@ open traits/foldable.rs Vec[Foldable]
    type Source = A;
    open spec fn elems(&self) -> Seq<A> { self@ }
//@ fn traits/foldable.rs Vec[Foldable]::fold_left inside tparams U,F props C17
//@ at before loop 0
    let ghost mut a_: Seq<U> = seq![acc];
//@ loop 0
    invariant
        __it0.orig() == refs(self.elems()), 0 <= __it0.pos() <= self.elems().len(), left_ok(f, *init, self.elems()),
        fold_left_steps(f, *init, self.elems().take(__it0.pos()), a_), acc == a_.last(),
    ensures __it0.pos() == self.elems().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 end
    proof { lemma_fold_left_step(f, *init, self.elems(), __it0.pos() - 1, a_, acc); a_ = a_.push(acc); }
//@ at after loop 0
    proof { assert(self.elems().take(self.elems().len() as int) =~= self.elems()); }
//@ fn traits/foldable.rs Vec[Foldable]::fold_right inside tparams U,F props C17
//@ at before loop 0
    let ghost mut a_: Seq<U> = seq![acc];
//@ loop 0
    invariant
        __it0.orig() == refs(self.elems().reverse()), 0 <= __it0.pos() <= self.elems().reverse().len(), right_ok(f, *init, self.elems().reverse()),
        fold_right_steps(f, *init, self.elems().reverse().take(__it0.pos()), a_), acc == a_.last(),
    ensures __it0.pos() == self.elems().reverse().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 end
    proof { lemma_fold_right_step(f, *init, self.elems().reverse(), __it0.pos() - 1, a_, acc); a_ = a_.push(acc); }
//@ at after loop 0
    proof { assert(self.elems().reverse().take(self.elems().reverse().len() as int) =~= self.elems().reverse()); }
//@ raw
}
//@ open traits/foldable.rs Option[Foldable]
    type Source = A;
    open spec fn elems(&self) -> Seq<A> { match self { Some(a) => seq![*a], None => Seq::empty() } }
//@ fn traits/foldable.rs Option[Foldable]::fold_left inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems();
    assert(fold_left_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((init, &s_[0]), o) implies folded_left(f, *init, s_, o) by { assert(fold_left_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_left_steps(f, *init, s_, seq![*init]));
}
//@ fn traits/foldable.rs Option[Foldable]::fold_right inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems().reverse();
    assert(fold_right_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((&s_[0], init), o) implies folded_right(f, *init, s_, o) by { assert(fold_right_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_right_steps(f, *init, s_, seq![*init]));
}
//@ raw
}
//@ open traits/foldable.rs Result[Foldable]
    type Source = A;
    open spec fn elems(&self) -> Seq<A> { match self { Ok(a) => seq![*a], Err(_) => Seq::empty() } }
//@ fn traits/foldable.rs Result[Foldable]::fold_left inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems();
    assert(fold_left_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((init, &s_[0]), o) implies folded_left(f, *init, s_, o) by { assert(fold_left_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_left_steps(f, *init, s_, seq![*init]));
}
//@ fn traits/foldable.rs Result[Foldable]::fold_right inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems().reverse();
    assert(fold_right_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((&s_[0], init), o) implies folded_right(f, *init, s_, o) by { assert(fold_right_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_right_steps(f, *init, s_, seq![*init]));
}
//@ raw
}
//@ open datatypes/id.rs Id[Foldable]
    type Source = T;
    open spec fn elems(&self) -> Seq<T> { seq![self.value] }
//@ fn datatypes/id.rs Id[Foldable]::fold_left inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems();
    assert(fold_left_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((init, &s_[0]), o) implies folded_left(f, *init, s_, o) by { assert(fold_left_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_left_steps(f, *init, s_, seq![*init]));
}
//@ fn datatypes/id.rs Id[Foldable]::fold_right inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems().reverse();
    assert(fold_right_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((&s_[0], init), o) implies folded_right(f, *init, s_, o) by { assert(fold_right_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_right_steps(f, *init, s_, seq![*init]));
}
//@ raw
}
//@ open datatypes/validated/traits.rs Validated[Foldable]
    type Source = A;
    open spec fn elems(&self) -> Seq<A> { match self { Validated::Valid(a) => seq![*a], Validated::Invalid(_) => Seq::empty() } }
//@ fn datatypes/validated/traits.rs Validated[Foldable]::fold_left inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems();
    assert(fold_left_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((init, &s_[0]), o) implies folded_left(f, *init, s_, o) by { assert(fold_left_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_left_steps(f, *init, s_, seq![*init]));
}
//@ fn datatypes/validated/traits.rs Validated[Foldable]::fold_right inside tparams U,F props C17
//@ at start
proof {
    let s_ = self.elems().reverse();
    assert(fold_right_steps(f, *init, s_.take(0), seq![*init]));
    assert(s_ =~= self.elems());
    assert(s_.len() > 0 ==> s_[0] == self.elems()[0]);
    assert forall|o: U| s_.len() == 1 && #[trigger] f.ensures((&s_[0], init), o) implies folded_right(f, *init, s_, o) by { assert(fold_right_steps(f, *init, s_, seq![*init, o])); }
    assert(s_.len() == 0 ==> fold_right_steps(f, *init, s_, seq![*init]));
}
//@ raw
}
//@ fn datatypes/choice.rs Choice::iter as iter_ props C17
    ensures r.fresh(refs(self.values@)),
//@ open datatypes/choice.rs Choice[Foldable]
    type Source = T;
    open spec fn elems(&self) -> Seq<T> { self.values@ }
//@ fn datatypes/choice.rs Choice[Foldable]::fold_left inside tparams U,F props C17
//@ hoist 0
//@ closure 0 |acc: U, value: &T| -> (q: U)
    requires pre2(&f, &acc, value),
    ensures post2(&f, &acc, value, q),
//@ at tail
proof {
    let s = self.values@;
    assert forall|i: int, a: Seq<U>| 0 <= i < s.len() && #[trigger] fold_steps(__c0, *initial, refs(s).take(i), a) implies __c0.requires((a.last(), refs(s)[i])) by {
        assert forall|j: int| 0 <= j < i implies f.ensures((&a[j], #[trigger] refs(s.take(i))[j]), a[j + 1]) by { assert(__c0.ensures((a[j], refs(s).take(i)[j]), a[j + 1])); }
        assert(fold_left_steps(f, *initial, s.take(i), a));
    }
    assert forall|a: Seq<U>| #[trigger] fold_steps(__c0, *initial, refs(s), a) implies fold_left_steps(f, *initial, s, a) by {}
}
//@ fn datatypes/choice.rs Choice[Foldable]::fold_right inside tparams U,F props C17
//@ hoist 0
//@ closure 0 |acc: U, value: &T| -> (q: U)
    requires pre2(&f, value, &acc),
    ensures post2(&f, value, &acc, q),
//@ at tail
proof {
    let s = self.values@.reverse();
    assert forall|i: int, a: Seq<U>| 0 <= i < s.len() && #[trigger] fold_steps(__c0, *initial, refs(s).take(i), a) implies __c0.requires((a.last(), refs(s)[i])) by {
        assert forall|j: int| 0 <= j < i implies f.ensures((#[trigger] refs(s.take(i))[j], &a[j]), a[j + 1]) by { assert(__c0.ensures((a[j], refs(s).take(i)[j]), a[j + 1])); }
        assert(fold_right_steps(f, *initial, s.take(i), a));
    }
    assert forall|a: Seq<U>| #[trigger] fold_steps(__c0, *initial, refs(s), a) implies fold_right_steps(f, *initial, s, a) by {}
}
//@ raw
}
