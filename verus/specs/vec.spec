// The vector as a functor and an applicative.
//@ include inc/option
//@ method iter iter_
//@ method into_iter into_iter_
//@ bound FnMut Fn
//@ assoc Vec<T> Source T
//@ assoc Vec<T> Output Vec<$0>
//@ assoc Vec<A> Source A
//@ assoc Vec<A> Output Vec<$0>
//@ raw
broadcast use {prelude_lemmas, prelude_len, prelude_present};
pub proof fn lemma_divmod(i: int, j: int, n: int)
    requires 0 <= i, 0 <= j < n,
    ensures (i * n + j) / n == i, (i * n + j) % n == j, i * n >= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n, i, j);
    vstd::arithmetic::mul::lemma_mul_nonnegative(i, n);
}
/// Blocks of equal length, joined.
pub proof fn lemma_joined_blocks<X>(s: Seq<Seq<X>>, n: int)
    requires n >= 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == n,
    ensures joined(s).len() == s.len() * n, forall|k: int| 0 <= k < joined(s).len() ==> #[trigger] joined(s)[k] == s[k / n][k % n],
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_joined_blocks(p, n);
        assert(joined(s) == joined(p) + s.last());
        assert(s.len() * n == p.len() * n + n) by (nonlinear_arith) requires s.len() == p.len() + 1;
        assert forall|k: int| 0 <= k < joined(s).len() implies #[trigger] joined(s)[k] == s[k / n][k % n] by {
            if k < joined(p).len() {
                let i = k / n;
                assert(0 <= i < p.len()) by (nonlinear_arith) requires i == k / n, 0 <= k < p.len() * n, n > 0;
                assert(joined(s)[k] == joined(p)[k]);
                assert(p[i] == s[i]);
            } else {
                let j = k - p.len() * n;
                lemma_divmod(p.len() as int, j, n);
            }
        }
    } else {
        assert(0 * n == 0) by (nonlinear_arith);
    }
}
/// What `flat_map` gives when every piece has `n` elements.
pub broadcast proof fn lemma_pieces<Y, J: IntoIt<Y>>(o: Seq<J>)
    ensures
        #![trigger joined(parts::<Y, J>(o))]
        o.len() == 0 ==> joined(parts::<Y, J>(o)).len() == 0,
        o.len() > 0 && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).items().len() == o[0].items().len()) ==> blocks(joined(parts::<Y, J>(o)), o, o[0].items().len() as int),
{
    if o.len() > 0 && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).items().len() == o[0].items().len()) {
        let n = o[0].items().len() as int;
        let ps = parts::<Y, J>(o);
        assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).len() == n by { assert(o[i].items().len() == n); }
        lemma_joined_blocks(ps, n);
        let r = joined(ps);
        assert forall|k: int| 0 <= k < r.len() implies placed(o, n, k, #[trigger] r[k]) by {
            let i = k / n;
            assert(0 <= i < o.len()) by (nonlinear_arith) requires i == k / n, 0 <= k < o.len() * n, n > 0;
            assert(ps[i] == o[i].items());
        }
        assert(blocks(r, o, n));
    }
}
pub open spec fn placed<Y, J: IntoIt<Y>>(o: Seq<J>, n: int, k: int, v: Y) -> bool {
    0 <= k / n < o.len() && 0 <= k % n < n && v == o[k / n].items()[k % n]
}
pub open spec fn blocks<Y, J: IntoIt<Y>>(r: Seq<Y>, o: Seq<J>, n: int) -> bool {
    r.len() == o.len() * n && forall|k: int| 0 <= k < r.len() ==> placed(o, n, k, #[trigger] r[k])
}
pub open spec fn lefts<A, B>(s: Seq<(A, B)>, a: A, bs: Seq<B>) -> bool {
    s.len() == bs.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (a, bs[i])
}
/// every triple, the last position fastest
pub open spec fn triples<'a, A, B, C>(s: Seq<((&'a A, &'a B), &'a C)>, a: Seq<A>, b: Seq<B>, c: Seq<C>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> triple(a, b, c, k, #[trigger] s[k])
}
pub open spec fn triple<'a, A, B, C>(a: Seq<A>, b: Seq<B>, c: Seq<C>, k: int, v: ((&'a A, &'a B), &'a C)) -> bool {
    0 <= (k / c.len() as int) / b.len() as int && ((k / c.len() as int) / b.len() as int) < a.len()
        && 0 <= (k / c.len() as int) % b.len() as int && ((k / c.len() as int) % b.len() as int) < b.len() && 0 <= k % c.len() as int && (k % c.len() as int) < c.len()
        && v == ((&a[(k / c.len() as int) / b.len() as int], &b[(k / c.len() as int) % b.len() as int]), &c[k % c.len() as int])
}
pub open spec fn or_default<T, B, E, F: Fn(&T) -> Result<B, E>>(f: F, x: T, d: B, r: B) -> bool {
    exists|o: Result<B, E>| #[trigger] f.ensures((&x,), o) && r == (match o { Ok(b) => b, Err(_) => d })
}
pub open spec fn or_made<T, B, E, F: Fn(&T) -> Result<B, E>, D: Fn(&E) -> B>(f: F, x: T, d: D, r: B) -> bool {
    exists|o: Result<B, E>| #[trigger] f.ensures((&x,), o) && (match o { Ok(b) => r == b, Err(e) => d.ensures((&e,), r) })
}
pub proof fn lemma_place(i: int, j: int, l: int, nb: int, nc: int)
    requires 0 <= i, 0 <= j < nb, 0 <= l < nc,
    ensures ({ let k = (i * nb + j) * nc + l; k / nc == i * nb + j && k % nc == l && (k / nc) / nb == i && (k / nc) % nb == j && k >= 0 }),
{
    lemma_divmod(i, j, nb);
    lemma_divmod(i * nb + j, l, nc);
}

/// every function of `fs` on every value of `vs`, the functions first
pub open spec fn applied<A, B, F: Fn(&A) -> B>(fs: Seq<F>, vs: Seq<A>, r: Seq<B>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> fs[k / vs.len() as int].ensures((&vs[k % vs.len() as int],), #[trigger] r[k])
}
pub open spec fn pairs2<A, B, C, F: Fn(&A, &B) -> C>(f: F, a: Seq<A>, b: Seq<B>, r: Seq<C>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((&a[k / b.len() as int], &b[k % b.len() as int]), #[trigger] r[k])
}
pub open spec fn pairs3<A, B, C, D, F: Fn(&A, &B, &C) -> D>(f: F, a: Seq<A>, b: Seq<B>, c: Seq<C>, r: Seq<D>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((&a[(k / c.len() as int) / b.len() as int], &b[(k / c.len() as int) % b.len() as int], &c[k % c.len() as int]), #[trigger] r[k])
}
/// every function of `fs` on every value of `vs`, the functions first
pub open spec fn applied_owned<A, B, F: Fn(A) -> B>(fs: Seq<F>, vs: Seq<A>, r: Seq<B>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> fs[k / vs.len() as int].ensures((vs[k % vs.len() as int],), #[trigger] r[k])
}
pub open spec fn pairs2_owned<A, B, C, F: Fn(A, B) -> C>(f: F, a: Seq<A>, b: Seq<B>, r: Seq<C>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((a[k / b.len() as int], b[k % b.len() as int]), #[trigger] r[k])
}
pub open spec fn pairs3_owned<A, B, C, D, F: Fn(A, B, C) -> D>(f: F, a: Seq<A>, b: Seq<B>, c: Seq<C>, r: Seq<D>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((a[(k / c.len() as int) / b.len() as int], b[(k / c.len() as int) % b.len() as int], c[k % c.len() as int]), #[trigger] r[k])
}
//@ fn traits/functor.rs Vec<T>[Functor]::fmap as vec_fmap free props C06
    requires forall|i: int| 0 <= i < self_@.len() ==> f.requires((&#[trigger] self_@[i],)),
    ensures r@.len() == self_@.len(), forall|i: int| 0 <= i < self_@.len() ==> f.ensures((&#[trigger] self_@[i],), r@[i]),
//@ fn traits/functor.rs Vec<T>[Functor]::fmap_owned as vec_fmap_owned free props C06
    requires forall|i: int| 0 <= i < self_@.len() ==> f.requires((#[trigger] self_@[i],)),
    ensures r@.len() == self_@.len(), forall|i: int| 0 <= i < self_@.len() ==> f.ensures((#[trigger] self_@[i],), r@[i]),
//@ fn traits/functor.rs Vec<T>[Functor]::replace as vec_replace free provided traits/functor.rs props C06
    ensures r@.len() == self_@.len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == *value,
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == *value,
//@ fn traits/functor.rs Vec<T>[Functor]::replace_owned as vec_replace_owned free provided traits/functor.rs props C06
    ensures r@.len() == self_@.len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == value,
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == value,
//@ fn traits/functor.rs Vec<T>[Functor]::void as vec_void free provided traits/functor.rs props C06
    ensures r@.len() == self_@.len(),
//@ closure 0 |_x: &T| -> (o: ())
    ensures true,
//@ fn traits/functor.rs Vec<T>[Functor]::void_owned as vec_void_owned free provided traits/functor.rs props C06
    ensures r@.len() == self_@.len(),
//@ closure 0 |_x: T| -> (o: ())
    ensures true,
//@ fn traits/functor.rs Vec<T>[FunctorExt]::filter_map as vec_filter_map free props C06,C21
    requires forall|i: int| 0 <= i < self_@.len() ==> f.requires((&#[trigger] self_@[i],)),
    ensures exists|o: Seq<Option<B>>| #[trigger] mapped(f, refs(self_@), o) && r@ == present(o),
//@ fn traits/functor.rs Vec<T>[FunctorExt]::try_map_or as vec_try_map_or free props C06,C21
    requires forall|i: int| 0 <= i < self_@.len() ==> f.requires((&#[trigger] self_@[i],)),
    ensures r@.len() == self_@.len(), forall|i: int| 0 <= i < self_@.len() ==> or_default(f, self_@[i], default, #[trigger] r@[i]),
//@ closure 0 |x: &T| -> (o: B)
    requires f.requires((x,)), ensures or_default(f, *x, default, o),
//@ fn traits/functor.rs Vec<T>[FunctorExt]::try_map_or_else as vec_try_map_or_else free props C06,C21
    requires forall|i: int| 0 <= i < self_@.len() ==> f.requires((&#[trigger] self_@[i],)), forall|e: &E| #[trigger] default_fn.requires((e,)),
    ensures r@.len() == self_@.len(), forall|i: int| 0 <= i < self_@.len() ==> or_made(f, self_@[i], default_fn, #[trigger] r@[i]),
//@ closure 0 |x: &T| -> (o: B)
    requires f.requires((x,)), ensures or_made(f, *x, default_fn, o),
//@ fn traits/pure.rs Vec<T>[Pure]::pure as vec_pure free props C06
    ensures r@ =~= seq![*value],
//@ fn traits/pure.rs Vec<T>[Pure]::pure_owned as vec_pure_owned free props C06
    ensures r@ =~= seq![value],
//@ fn traits/applicative.rs Vec<A>[Applicative]::apply as vec_apply free props C06
    requires forall|i: int, j: int| 0 <= i < self_@.len() && 0 <= j < value@.len() ==> #[trigger] self_@[i].requires((&#[trigger] value@[j],)),
    ensures r@.len() == self_@.len() * value@.len(), applied(self_@, value@, r@),
//@ loop 0
    invariant
        forall|i: int, j: int| 0 <= i < self_@.len() && 0 <= j < value@.len() ==> #[trigger] self_@[i].requires((&#[trigger] value@[j],)),
        __it0.orig() == refs(self_@), 0 <= __it0.pos() <= self_@.len(),
        result@.len() == __it0.pos() * value@.len(), applied(self_@, value@, result@),
    ensures __it0.pos() == self_@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        forall|i: int, j: int| 0 <= i < self_@.len() && 0 <= j < value@.len() ==> #[trigger] self_@[i].requires((&#[trigger] value@[j],)),
        __it0.orig() == refs(self_@), 0 < __it0.pos() <= self_@.len(), *func == self_@[__it0.pos() - 1],
        __it1.orig() == refs(value@), 0 <= __it1.pos() <= value@.len(),
        result@.len() == (__it0.pos() - 1) * value@.len() + __it1.pos(), applied(self_@, value@, result@),
    ensures __it1.pos() == value@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ at loop 1 start
    proof { lemma_divmod(__it0.pos() - 1, __it1.pos() - 1, value@.len() as int); }
//@ at after loop 1
    proof { let k = __it0.pos(); assert((k - 1) * value@.len() + value@.len() == k * value@.len()) by (nonlinear_arith); }
//@ fn traits/applicative.rs Vec<A>[Applicative]::lift2 as vec_lift2 free props C06
    requires forall|i: int, j: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() ==> #[trigger] f.requires((&fa@[i], &fb@[j])), fa@.len() * fb@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len(), pairs2(f, fa@, fb@, r@),
//@ loop 0
    invariant
        forall|i: int, j: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() ==> #[trigger] f.requires((&fa@[i], &fb@[j])),
        __it0.orig() == refs(fa@), 0 <= __it0.pos() <= fa@.len(),
        result@.len() == __it0.pos() * fb@.len(), pairs2(f, fa@, fb@, result@),
    ensures __it0.pos() == fa@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        forall|i: int, j: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() ==> #[trigger] f.requires((&fa@[i], &fb@[j])),
        __it0.orig() == refs(fa@), 0 < __it0.pos() <= fa@.len(), *a == fa@[__it0.pos() - 1],
        __it1.orig() == refs(fb@), 0 <= __it1.pos() <= fb@.len(),
        result@.len() == (__it0.pos() - 1) * fb@.len() + __it1.pos(), pairs2(f, fa@, fb@, result@),
    ensures __it1.pos() == fb@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ at loop 1 start
    proof { lemma_divmod(__it0.pos() - 1, __it1.pos() - 1, fb@.len() as int); }
//@ at after loop 1
    proof { let k = __it0.pos(); assert((k - 1) * fb@.len() + fb@.len() == k * fb@.len()) by (nonlinear_arith); }
//@ fn traits/applicative.rs Vec<A>[Applicative]::sequence_right as vec_sequence_right free provided traits/applicative.rs tparams X,Y props C06
    requires fa@.len() * fb@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == fb@[k % fb@.len() as int],
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn traits/applicative.rs Vec<A>[Applicative]::sequence_left as vec_sequence_left free provided traits/applicative.rs tparams X,Y props C06
    requires fa@.len() * fb@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == fa@[k / fb@.len() as int],
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn traits/applicative.rs Vec<A>[Applicative]::apply_owned as vec_apply_owned free props C06
    requires forall|i: int, j: int| 0 <= i < self_@.len() && 0 <= j < value@.len() ==> #[trigger] self_@[i].requires((#[trigger] value@[j],)),
    ensures r@.len() == self_@.len() * value@.len(), applied_owned(self_@, value@, r@),
//@ loop 0
    invariant
        forall|i: int, j: int| 0 <= i < self_@.len() && 0 <= j < value@.len() ==> #[trigger] self_@[i].requires((#[trigger] value@[j],)),
        __it0.orig() == self_@, 0 <= __it0.pos() <= self_@.len(),
        result@.len() == __it0.pos() * value@.len(), applied_owned(self_@, value@, result@),
    ensures __it0.pos() == self_@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        forall|i: int, j: int| 0 <= i < self_@.len() && 0 <= j < value@.len() ==> #[trigger] self_@[i].requires((#[trigger] value@[j],)),
        __it0.orig() == self_@, 0 < __it0.pos() <= self_@.len(), func == self_@[__it0.pos() - 1],
        __it1.orig() == value@, 0 <= __it1.pos() <= value@.len(),
        result@.len() == (__it0.pos() - 1) * value@.len() + __it1.pos(), applied_owned(self_@, value@, result@),
    ensures __it1.pos() == value@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ at loop 1 start
    proof { lemma_divmod(__it0.pos() - 1, __it1.pos() - 1, value@.len() as int); }
//@ at after loop 1
    proof { let k = __it0.pos(); assert((k - 1) * value@.len() + value@.len() == k * value@.len()) by (nonlinear_arith); }
//@ fn traits/applicative.rs Vec<A>[Applicative]::lift2_owned as vec_lift2_owned free props C06
    requires forall|i: int, j: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() ==> #[trigger] f.requires((fa@[i], fb@[j])), fa@.len() * fb@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len(), pairs2_owned(f, fa@, fb@, r@),
//@ loop 0
    invariant
        forall|i: int, j: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() ==> #[trigger] f.requires((fa@[i], fb@[j])),
        __it0.orig() == fa@, 0 <= __it0.pos() <= fa@.len(),
        result@.len() == __it0.pos() * fb@.len(), pairs2_owned(f, fa@, fb@, result@),
    ensures __it0.pos() == fa@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        forall|i: int, j: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() ==> #[trigger] f.requires((fa@[i], fb@[j])),
        __it0.orig() == fa@, 0 < __it0.pos() <= fa@.len(), a == fa@[__it0.pos() - 1],
        __it1.orig() == fb@, 0 <= __it1.pos() <= fb@.len(),
        result@.len() == (__it0.pos() - 1) * fb@.len() + __it1.pos(), pairs2_owned(f, fa@, fb@, result@),
    ensures __it1.pos() == fb@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ at loop 1 start
    proof { lemma_divmod(__it0.pos() - 1, __it1.pos() - 1, fb@.len() as int); }
//@ at after loop 1
    proof { let k = __it0.pos(); assert((k - 1) * fb@.len() + fb@.len() == k * fb@.len()) by (nonlinear_arith); }
//@ fn traits/applicative.rs Vec<A>[Applicative]::sequence_right_owned as vec_sequence_right_owned free provided traits/applicative.rs tparams X,Y props C06
    requires fa@.len() * fb@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == fb@[k % fb@.len() as int],
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn traits/applicative.rs Vec<A>[Applicative]::sequence_left_owned as vec_sequence_left_owned free provided traits/applicative.rs tparams X,Y props C06
    requires fa@.len() * fb@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == fa@[k / fb@.len() as int],
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn traits/applicative.rs Vec<A>[Applicative]::ap2 as vec_ap2 free provided traits/applicative.rs tparams X,Y,Z,F props C06
    requires forall|i: int, j: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() ==> #[trigger] f.requires((&fa@[i], &fb@[j])), fa@.len() * fb@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len(), pairs2(f, fa@, fb@, r@),
//@ fn traits/applicative.rs Vec<A>[Applicative]::lift3_owned as vec_lift3_owned free props C06
    requires forall|i: int, j: int, l: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() && 0 <= l < fc@.len() ==> #[trigger] f.requires((fa@[i], fb@[j], fc@[l])), fa@.len() * fb@.len() <= usize::MAX, fa@.len() * fb@.len() * fc@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len() * fc@.len(), pairs3_owned(f, fa@, fb@, fc@, r@),
//@ at before loop 0
    proof { assert((0 * fb@.len()) * fc@.len() == 0) by (nonlinear_arith); }
//@ loop 0
    invariant
        forall|i: int, j: int, l: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() && 0 <= l < fc@.len() ==> #[trigger] f.requires((fa@[i], fb@[j], fc@[l])),
        __it0.orig() == fa@, 0 <= __it0.pos() <= fa@.len(),
        result@.len() == (__it0.pos() * fb@.len()) * fc@.len(), pairs3_owned(f, fa@, fb@, fc@, result@),
    ensures __it0.pos() == fa@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        forall|i: int, j: int, l: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() && 0 <= l < fc@.len() ==> #[trigger] f.requires((fa@[i], fb@[j], fc@[l])),
        __it0.orig() == fa@, 0 < __it0.pos() <= fa@.len(), a == fa@[__it0.pos() - 1],
        __it1.orig() == fb@, 0 <= __it1.pos() <= fb@.len(),
        result@.len() == ((__it0.pos() - 1) * fb@.len() + __it1.pos()) * fc@.len(), pairs3_owned(f, fa@, fb@, fc@, result@),
    ensures __it1.pos() == fb@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ loop 2
    invariant
        forall|i: int, j: int, l: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() && 0 <= l < fc@.len() ==> #[trigger] f.requires((fa@[i], fb@[j], fc@[l])),
        __it0.orig() == fa@, 0 < __it0.pos() <= fa@.len(), a == fa@[__it0.pos() - 1],
        __it1.orig() == fb@, 0 < __it1.pos() <= fb@.len(), b == fb@[__it1.pos() - 1],
        __it2.orig() == fc@, 0 <= __it2.pos() <= fc@.len(),
        result@.len() == ((__it0.pos() - 1) * fb@.len() + __it1.pos() - 1) * fc@.len() + __it2.pos(), pairs3_owned(f, fa@, fb@, fc@, result@),
    ensures __it2.pos() == fc@.len(),
    decreases __it2.orig().len() - __it2.pos(),
//@ at loop 2 start
    proof { lemma_place(__it0.pos() - 1, __it1.pos() - 1, __it2.pos() - 1, fb@.len() as int, fc@.len() as int); }
//@ at after loop 2
    proof { let k = (__it0.pos() - 1) * fb@.len() + __it1.pos(); assert((k - 1) * fc@.len() + fc@.len() == k * fc@.len()) by (nonlinear_arith); }
//@ at after loop 1
    proof { let k = __it0.pos(); assert((k - 1) * fb@.len() + fb@.len() == k * fb@.len()) by (nonlinear_arith); }
//@ fn traits/applicative.rs Vec<A>[Applicative]::lift3 as vec_lift3 free props C06
    requires forall|i: int, j: int, l: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() && 0 <= l < fc@.len() ==> #[trigger] f.requires((&fa@[i], &fb@[j], &fc@[l])), fa@.len() * fb@.len() <= usize::MAX, fa@.len() * fb@.len() * fc@.len() <= usize::MAX,
    ensures r@.len() == fa@.len() * fb@.len() * fc@.len(), pairs3(f, fa@, fb@, fc@, r@),
//@ at start
    broadcast use lemma_pieces;
    proof { assert(0 * fb@.len() == 0) by (nonlinear_arith); assert(0 * fc@.len() == 0) by (nonlinear_arith); }
//@ closure 0 |a| -> (o: It<_>)
    ensures o.fresh(o.orig()), lefts(o.orig(), a, refs(fb@)),
//@ closure 1 |b| -> (p: (_, _))
    ensures p == (a, b),
//@ closure 2 |__p0| -> (o: It<_>)
    ensures o.fresh(o.orig()), lefts(o.orig(), __p0, refs(fc@)),
//@ closure 3 |c| -> (p: (_, _))
    ensures p == ((a, b), c),
//@ loop 0
    invariant
        forall|i: int, j: int, l: int| 0 <= i < fa@.len() && 0 <= j < fb@.len() && 0 <= l < fc@.len() ==> #[trigger] f.requires((&fa@[i], &fb@[j], &fc@[l])),
        __it0.orig().len() == fa@.len() * fb@.len() * fc@.len(), triples(__it0.orig(), fa@, fb@, fc@), 0 <= __it0.pos() <= __it0.orig().len(),
        result@.len() == __it0.pos(), pairs3(f, fa@, fb@, fc@, result@),
    ensures __it0.pos() == __it0.orig().len(),
    decreases __it0.orig().len() - __it0.pos(),
