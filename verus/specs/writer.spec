// Writer: the log of a computation is the combination of the parts' logs, in program order.
//@ raw
//@ include inc/monoid
//@ method into into_to_
//@ bound Into IntoTo
//@ assoc Writer Source A
//@ assoc Writer Output Writer<W,$0>
//@ raw
broadcast use {faithful_clone, faithful_clone_call};
//@ type datatypes/writer.rs Writer #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ raw
/// `l` is the log `a` followed by the log `b`
pub open spec fn then_<W: Monoid>(a: W, b: W, l: W) -> bool { W::lawful() ==> l.m() == W::op(a.m(), b.m()) }
pub open spec fn meets<W: Monoid>(a: W, b: W) -> bool { W::can(a.m(), b.m()) }
/// `l` is `a`, then `b`, then `c`
pub open spec fn then3<W: Monoid>(a: W, b: W, c: W, l: W) -> bool { W::lawful() ==> l.m() == W::op(W::op(a.m(), b.m()), c.m()) }
pub open spec fn meet3<W: Monoid>(a: W, b: W, c: W) -> bool {
    meets(a, b) && (forall|x: W| then_(a, b, x) ==> #[trigger] W::can(x.m(), c.m()))
}
pub open spec fn no_log<W: Monoid>(l: W) -> bool { W::neutral() ==> l.m() == W::e() }
//@ fn datatypes/writer.rs Writer::new props C09
    ensures r.log == log, r.value == value,
//@ fn datatypes/writer.rs Writer::tell props C09
    ensures r.log == log,
//@ fn datatypes/writer.rs Writer::run props C09
    ensures r == (self.log, self.value),
//@ fn datatypes/writer.rs Writer::unwrap props C09
    ensures r == self.value,
//@ fn datatypes/writer.rs Writer::log as log_of props C09
    ensures r == self.log,
//@ fn datatypes/writer.rs Writer::pure_value props C09
    ensures no_log(r.log), r.value == value,
//@ fn datatypes/writer.rs Writer[Identity]::value as value_ref props C09
    ensures *r == self.value,
//@ fn datatypes/writer.rs Writer[Identity]::into_value props C09
    ensures r == self.value,
//@ fn datatypes/writer.rs Writer[Pure]::pure props C09
    ensures no_log(r.log), r.value == *value,
//@ fn datatypes/writer.rs Writer[Pure]::pure_owned props C09
    ensures no_log(r.log), r.value == value,
//@ fn datatypes/writer.rs Writer[Semigroup]::combine props C09
    requires meets(self.log, other.log), A::can(self.value.m(), other.value.m()),
    ensures then_(self.log, other.log, r.log), A::lawful() ==> r.value.m() == A::op(self.value.m(), other.value.m()),
//@ fn datatypes/writer.rs Writer[Functor]::fmap props C09
    requires f.requires((&self.value,)),
    ensures r.log == self.log, f.ensures((&self.value,), r.value),
//@ fn datatypes/writer.rs Writer[Applicative]::apply props C09
    requires (self.value).requires((&value.value,)), meets(self.log, value.log),
    ensures then_(self.log, value.log, r.log), (self.value).ensures((&value.value,), r.value),
//@ fn datatypes/writer.rs Writer[Applicative]::lift2 props C09
    requires f.requires((&fa.value, &fb.value)), meets(fa.log, fb.log),
    ensures then_(fa.log, fb.log, r.log), f.ensures((&fa.value, &fb.value), r.value),
//@ fn datatypes/writer.rs Writer[Applicative]::lift3 props C09
    requires f.requires((&fa.value, &fb.value, &fc.value)), meet3(fa.log, fb.log, fc.log),
    ensures then3(fa.log, fb.log, fc.log, r.log), f.ensures((&fa.value, &fb.value, &fc.value), r.value),
//@ fn datatypes/writer.rs Writer[Monad]::bind props C09
    requires
        f.requires((&self.value,)),
        forall|t: Writer<W, U>| #[trigger] f.ensures((&self.value,), t) ==> meets(self.log, t.log),
    ensures exists|t: Writer<W, U>| #[trigger] f.ensures((&self.value,), t) && then_(self.log, t.log, r.log) && r.value == t.value,
//@ fn datatypes/writer.rs Writer[Monad]::join props C09
    requires meets(self.log, self.value.conv().log),
    ensures then_(self.log, self.value.conv().log, r.log), r.value == self.value.conv().value,
//@ fn datatypes/writer.rs Writer[Functor]::replace provided traits/functor.rs props C09
    ensures r.log == self.log, r.value == *value,
//@ closure 0 |_x: &A| -> (o: B)
    ensures o == *value,
//@ fn datatypes/writer.rs Writer[Functor]::void provided traits/functor.rs props C09
    ensures r.log == self.log,
//@ closure 0 |_x: &A| -> (o: ())
    ensures true,
//@ fn datatypes/writer.rs Writer[Applicative]::sequence_right provided traits/applicative.rs tparams X,Y props C09
    requires meets(fa.log, fb.log),
    ensures then_(fa.log, fb.log, r.log), r.value == fb.value,
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn datatypes/writer.rs Writer[Applicative]::sequence_left provided traits/applicative.rs tparams X,Y props C09
    requires meets(fa.log, fb.log),
    ensures then_(fa.log, fb.log, r.log), r.value == fa.value,
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn datatypes/writer.rs Writer[Monad]::flat_map provided traits/monad.rs props C09
    requires
        f.requires((&self.value,)),
        forall|t: Writer<W, U>| #[trigger] f.ensures((&self.value,), t) ==> meets(self.log, t.log),
    ensures exists|t: Writer<W, U>| #[trigger] f.ensures((&self.value,), t) && then_(self.log, t.log, r.log) && r.value == t.value,
//@ fn datatypes/writer.rs Writer[Semigroup]::combine_owned props C09
    requires meets(self.log, other.log), A::can(self.value.m(), other.value.m()),
    ensures then_(self.log, other.log, r.log), A::lawful() ==> r.value.m() == A::op(self.value.m(), other.value.m()),
//@ fn datatypes/writer.rs Writer[Functor]::fmap_owned props C09
    requires f.requires((self.value,)),
    ensures r.log == self.log, f.ensures((self.value,), r.value),
//@ fn datatypes/writer.rs Writer[Applicative]::apply_owned props C09
    requires (self.value).requires((value.value,)), meets(self.log, value.log),
    ensures then_(self.log, value.log, r.log), (self.value).ensures((value.value,), r.value),
//@ fn datatypes/writer.rs Writer[Applicative]::lift2_owned props C09
    requires f.requires((fa.value, fb.value)), meets(fa.log, fb.log),
    ensures then_(fa.log, fb.log, r.log), f.ensures((fa.value, fb.value), r.value),
//@ fn datatypes/writer.rs Writer[Applicative]::lift3_owned props C09
    requires f.requires((fa.value, fb.value, fc.value)), meet3(fa.log, fb.log, fc.log),
    ensures then3(fa.log, fb.log, fc.log, r.log), f.ensures((fa.value, fb.value, fc.value), r.value),
//@ fn datatypes/writer.rs Writer[Monad]::bind_owned props C09
    requires
        f.requires((self.value,)),
        forall|t: Writer<W, U>| #[trigger] f.ensures((self.value,), t) ==> meets(self.log, t.log),
    ensures exists|t: Writer<W, U>| #[trigger] f.ensures((self.value,), t) && then_(self.log, t.log, r.log) && r.value == t.value,
//@ fn datatypes/writer.rs Writer[Monad]::join_owned props C09
    requires meets(self.log, self.value.conv().log),
    ensures then_(self.log, self.value.conv().log, r.log), r.value == self.value.conv().value,
//@ fn datatypes/writer.rs Writer[Functor]::replace_owned provided traits/functor.rs props C09
    ensures r.log == self.log, r.value == value,
//@ closure 0 |_x: &A| -> (o: B)
    ensures o == value,
//@ fn datatypes/writer.rs Writer[Functor]::void_owned provided traits/functor.rs props C09
    ensures r.log == self.log,
//@ closure 0 |_x: A| -> (o: ())
    ensures true,
//@ fn datatypes/writer.rs Writer[Applicative]::sequence_right_owned provided traits/applicative.rs tparams X,Y props C09
    requires meets(fa.log, fb.log),
    ensures then_(fa.log, fb.log, r.log), r.value == fb.value,
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn datatypes/writer.rs Writer[Applicative]::sequence_left_owned provided traits/applicative.rs tparams X,Y props C09
    requires meets(fa.log, fb.log),
    ensures then_(fa.log, fb.log, r.log), r.value == fa.value,
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn datatypes/writer.rs Writer[Monad]::flat_map_owned provided traits/monad.rs props C09
    requires
        f.requires((self.value,)),
        forall|t: Writer<W, U>| #[trigger] f.ensures((self.value,), t) ==> meets(self.log, t.log),
    ensures exists|t: Writer<W, U>| #[trigger] f.ensures((self.value,), t) && then_(self.log, t.log, r.log) && r.value == t.value,
//@ fn datatypes/writer.rs Writer[Applicative]::ap2 provided traits/applicative.rs tparams X,Y,Z,F props C09
    requires f.requires((&fa.value, &fb.value)), meets(fa.log, fb.log),
    ensures then_(fa.log, fb.log, r.log), f.ensures((&fa.value, &fb.value), r.value),
//@ fn datatypes/writer.rs Writer[Monad]::map_and_pure provided traits/monad.rs props C09
    requires f.requires((&self.value,)), forall|n: W| no_log(n) ==> #[trigger] meets(self.log, n),
    ensures exists|n: W| no_log(n) && #[trigger] then_(self.log, n, r.log), f.ensures((&self.value,), r.value),
//@ closure 0 |x: &A| -> (o: Writer<W, U>)
    requires f.requires((x,)), ensures no_log(o.log) && f.ensures((x,), o.value),
//@ fn datatypes/writer.rs Writer[Monoid]::empty props C09
    ensures no_log(r.log), A::neutral() ==> r.value.m() == A::e(),
//@ raw
/// A computation that logs nothing is neutral for binding, and binding is associative in the log.
pub proof fn writer_left_identity<W: Monoid>(none: W, l: W, r: W)
    requires no_log(none), W::lawful(), W::neutral(), then_(none, l, r), W::can(W::e(), l.m()), W::can(l.m(), W::e()),
    ensures r.m() == l.m(),
{ W::identity(l.m()); }
pub proof fn writer_right_identity<W: Monoid>(l: W, none: W, r: W)
    requires no_log(none), W::lawful(), W::neutral(), then_(l, none, r), W::can(W::e(), l.m()), W::can(l.m(), W::e()),
    ensures r.m() == l.m(),
{ W::identity(l.m()); }
pub proof fn writer_associativity<W: Monoid>(a: W, b: W, c: W, ab: W, l: W, bc: W, r: W)
    requires
        W::lawful(), then_(a, b, ab), then_(ab, c, l), then_(b, c, bc), then_(a, bc, r),
        meets(a, b), meets(ab, c), meets(b, c), meets(a, bc),
    ensures l.m() == r.m(),
{ W::associative(a.m(), b.m(), c.m()); }
