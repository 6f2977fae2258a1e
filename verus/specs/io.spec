// IO actions: what running an action may give, in terms of what running its parts may give.
//@ include inc/fun
//@ include inc/error
//@ include inc/result
//@ path std::panic::catch_unwind catch_
//@ path std::thread::sleep sleep_
//@ path std::panic::AssertUnwindSafe AssertUnwindSafe
//@ path Result::is_ok is_ok_
//@ path Result::unwrap unwrap_
//@ path Result::unwrap_err unwrap_err_
//@ raw
use std::time::Duration;
broadcast use {faithful_clone, faithful_clone_call};
#[verifier::external_body]
pub fn sleep_(d: Duration) { unimplemented!() }
/// what a caught panic carries
#[verifier::external_body]
pub struct Caught { c: Box<dyn core::any::Any + Send> }
impl Caught {
    #[verifier::external_body]
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>) { unimplemented!() }
}
pub struct AssertUnwindSafe<F>(pub F);
/// `catch_unwind`: when the function returns, its value; otherwise what it panicked with
#[verifier::external_body]
pub fn catch_<R, F: FnOnce() -> R>(f: AssertUnwindSafe<F>) -> (r: Result<R, Caught>)
    requires f.0.requires(()),
    ensures r matches Ok(v) ==> f.0.ensures((), v),
{ unimplemented!() }
//@ type datatypes/io.rs IOMorphism
//@ type datatypes/io.rs IOError
//@ type datatypes/io.rs IO #[verifier::reject_recursive_types(A)]
//@ raw
impl<A> IO<A> {
    pub open spec fn able(&self) -> bool { match self { IO::Pure(a) => true, IO::Effect(f) => f.rq0() } }
    /// running it may give `a`
    pub open spec fn gives(&self, a: A) -> bool { match self { IO::Pure(x) => a == x, IO::Effect(f) => f.en0(a) } }
}
/// `f` may give `b` for `a`
pub open spec fn at_<A, B, F: Fn(A) -> B>(f: &F, a: &A, b: B) -> bool { f.en(*a, b) }
/// value by value
pub open spec fn each<A>(s: Seq<IO<A>>, v: Seq<A>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).gives(v[i]) }
//@ fn datatypes/io.rs IO::new props C13
    requires f.rq0(),
    ensures r.able(), r is Effect, forall|a: A| #[trigger] r.gives(a) == f.en0(a),
//@ fn datatypes/io.rs IO::run props C13
    requires self.able(),
    ensures self.gives(r),
//@ fn datatypes/io.rs IO::is_pure props C13
    ensures r == self is Pure,
//@ fn datatypes/io.rs IO::is_effect props C13
    ensures r == self is Effect,
//@ fn datatypes/io.rs IO::pure props C13
    ensures r == IO::Pure(value),
//@ fn datatypes/io.rs IO[Clone]::clone props C13
    ensures r == *self,
//@ fn datatypes/io.rs IO::fmap props C13
    requires self.able(), forall|a: A| #[trigger] f.rq(a),
    ensures
        r.able(), self is Effect ==> r is Effect,
        forall|b: B| #[trigger] r.gives(b) ==> exists|a: A| #![trigger self.gives(a)] #![trigger f.en(a, b)] self.gives(a) && f.en(a, b),
//@ closure 0 || -> (b: B)
    requires effect.rq0(), forall|a: A| #[trigger] f.rq(a),
    ensures exists|a: A| #[trigger] effect.en0(a) && f.en(a, b),

//@ fn datatypes/io.rs IO::bind props C13
    requires
        self.able(), forall|a: A| #[trigger] f.rq(a),
        forall|a: A, t: IO<B>| #[trigger] f.en(a, t) ==> t.able(),
    ensures
        r.able(),
        forall|b: B| #[trigger] r.gives(b) ==> exists|a: A, t: IO<B>| #[trigger] f.en(a, t) && self.gives(a) && t.gives(b),
//@ closure 0 || -> (b: B)
    requires effect.rq0(), forall|a: A| #[trigger] f.rq(a), forall|a: A, t: IO<B>| #[trigger] f.en(a, t) ==> t.able(),
    ensures exists|a: A, t: IO<B>| #[trigger] f.en(a, t) && effect.en0(a) && t.gives(b),
//@ fn datatypes/io.rs IO::apply props C13
    requires
        self.able(), mf.able(),
        forall|f: F, a: A| mf.gives(f) ==> #[trigger] f.rq(a),
    ensures
        r.able(),
        forall|b: B| #[trigger] r.gives(b) ==> exists|a: A, f: F| #[trigger] f.en(a, b) && self.gives(a) && mf.gives(f),
//@ closure 0 || -> (b: B)
    requires mf.rq0(), forall|f: F, a: A| mf.en0(f) ==> #[trigger] f.rq(a),
    ensures exists|f: F| #[trigger] mf.en0(f) && at_(&f, &a, b),
//@ closure 1 || -> (b: B)
    requires ma.rq0(), forall|a: A| #[trigger] f.rq(a),
    ensures exists|a: A| #[trigger] f.en(a, b) && ma.en0(a),
//@ closure 2 || -> (b: B)
    requires ma.rq0(), mf.rq0(), forall|f: F, a: A| mf.en0(f) ==> #[trigger] f.rq(a),
    ensures exists|a: A, f: F| #[trigger] f.en(a, b) && ma.en0(a) && mf.en0(f),
//@ fn datatypes/io.rs IO::try_get props C13,C18
    requires self.able(),
    ensures
        r matches Ok(v) ==> self.gives(v),
        r matches Err(e) ==> e.core_error is Other && e.ctxs().len() == 0,
//@ closure 0 || -> (a: A)
    requires self.able(),
    ensures self.gives(a),
//@ fn datatypes/io.rs IO::try_get_with_context props C13,C18
    requires self.able(),
    ensures
        r matches Ok(v) ==> self.gives(v),
        r matches Err(e) ==> e.core_error is Other && e.ctxs() =~= seq![context.conv()@],
//@ closure 0 || -> (a: A)
    requires self.able(),
    ensures self.gives(a),
//@ fn datatypes/io.rs IO::try_get_composable props C13,C18
    requires self.able(),
    ensures
        r matches Ok(v) ==> self.gives(v),
        r matches Err(e) ==> e.core_error is Other && e.ctxs().len() == 0,
//@ closure 0 || -> (a: A)
    requires self.able(),
    ensures self.gives(a),
//@ fn datatypes/io.rs IO::try_get_composable_with_context props C13,C18
    requires self.able(),
    ensures
        r matches Ok(v) ==> self.gives(v),
        r matches Err(e) ==> e.core_error is Other && e.ctxs() =~= seq![context.conv()@],
//@ closure 0 |e: Box<ComposableError<IOError>>| -> (o: Box<ComposableError<IOError>>)
    ensures o.core_error == e.core_error, o.ctxs() =~= e.ctxs().push(context.conv()@),
//@ fn datatypes/io.rs IO::recover props C13,C18,C22
    requires
        self.able(), forall|e: Box<ComposableError<IOError>>| #[trigger] recovery.rq(e),
        forall|e: Box<ComposableError<IOError>>, t: IO<A>| #[trigger] recovery.en(e, t) ==> t.able(),
    ensures
        r.able(),
        forall|a: A| #[trigger] r.gives(a) ==> self.gives(a)
            || exists|e: Box<ComposableError<IOError>>, t: IO<A>| #[trigger] recovery.en(e, t) && e.core_error is Other && t.gives(a),
//@ closure 0 || -> (a: A)
    requires
        self.able(), forall|e: Box<ComposableError<IOError>>| #[trigger] recovery.rq(e),
        forall|e: Box<ComposableError<IOError>>, t: IO<A>| #[trigger] recovery.en(e, t) ==> t.able(),
    ensures
        self.gives(a)
            || exists|e: Box<ComposableError<IOError>>, t: IO<A>| #[trigger] recovery.en(e, t) && e.core_error is Other && t.gives(a),
//@ fn datatypes/io.rs IO::recover_with props C13,C18,C22
    requires self.able(),
    ensures r.able(), forall|a: A| #[trigger] r.gives(a) ==> self.gives(a) || a == default_value,
//@ closure 0 || -> (a: A)
    requires self.able(),
    ensures self.gives(a) || a == default_value,
//@ fn datatypes/io.rs IO::when props C13
    requires predicate.rq0(), computation.rq0(), default.rq0(),
    ensures
        r.able(),
        forall|a: A| #[trigger] r.gives(a) ==> (predicate.en0(true) && computation.en0(a)) || (predicate.en0(false) && default.en0(a)),
//@ closure 0 || -> (a: A)
    requires predicate.rq0(), computation.rq0(), default.rq0(),
    ensures (predicate.en0(true) && computation.en0(a)) || (predicate.en0(false) && default.en0(a)),
//@ fn datatypes/io.rs IO::delay_sync props C13
    ensures r.able(), r is Effect, forall|x: A| #[trigger] r.gives(x) ==> x == a,
//@ closure 0 || -> (x: A)
    ensures x == a,
//@ fn datatypes/io.rs IO::combine props C13
    requires io1.able(), io2.able(),
    ensures r.able(), r is Effect, forall|p: (A, B)| #[trigger] r.gives(p) ==> io1.gives(p.0) && io2.gives(p.1),
//@ closure 0 || -> (p: (A, B))
    requires io1_clone.able(), io2_clone.able(),
    ensures io1_clone.gives(p.0), io2_clone.gives(p.1),
//@ fn datatypes/io.rs IO::sequence props C13
    requires forall|i: int| 0 <= i < ios.items().len() ==> (#[trigger] ios.items()[i]).able(),
    ensures r.able(), r is Effect, forall|v: Vec<A>| #[trigger] r.gives(v) ==> each(ios.items(), v@),
//@ closure 0 || -> (v: Vec<A>)
    requires forall|i: int| 0 <= i < ios_vec@.len() ==> (#[trigger] ios_vec@[i]).able(),
    ensures each(ios_vec@, v@),
//@ closure 1 |io: &IO<A>| -> (a: A)
    requires io.able(),
    ensures io.gives(a),

//@ type datatypes/io.rs ComposableErrorCollection
//@ raw
pub fn is_ok_<T, E>(x: &Result<T, E>) -> (r: bool) ensures r == (x is Ok) { match x { Ok(_) => true, Err(_) => false } }
pub fn unwrap_<T, E>(x: Result<T, E>) -> (r: T) requires x is Ok ensures r == x->Ok_0 { match x { Ok(v) => v, Err(_) => vstd::pervasive::unreached() } }
pub fn unwrap_err_<T, E>(x: Result<T, E>) -> (r: E) requires x is Err ensures r == x->Err_0 { match x { Err(e) => e, Ok(_) => vstd::pervasive::unreached() } }
/// the errors, in order
pub open spec fn errs<T, E>(s: Seq<Result<T, E>>) -> Seq<E>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if s.last() is Err { errs(s.drop_last()).push(s.last()->Err_0) } else { errs(s.drop_last()) }
}
pub proof fn split_by<T, E>(s: Seq<Result<T, E>>, keep: Seq<bool>)
    requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == (s[i] is Ok),
    ensures
        ({ let bad = select(s, keep.map_values(|b: bool| !b));
            (forall|i: int| 0 <= i < bad.len() ==> #[trigger] bad[i] is Err) && bad.map_values(|x: Result<T, E>| x->Err_0) =~= errs(s) }),
        errs(s).len() == 0 ==> select(s, keep) =~= s && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Ok,
    decreases s.len(),
{
    if s.len() > 0 {
        split_by(s.drop_last(), keep.drop_last());
        assert(keep.map_values(|b: bool| !b).drop_last() =~= keep.drop_last().map_values(|b: bool| !b));
        if errs(s).len() == 0 {
            assert(s.last() is Ok);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] is Ok by { if i < s.len() - 1 { assert(s.drop_last()[i] is Ok); } }
        }
    }
}
/// what each action returned as a value, or failed with
pub open spec fn tried<A>(s: Seq<IO<A>>, o: Seq<BoxedComposableResult<A, IOError>>) -> bool {
    o.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] o[i] matches Ok(v) ==> s[i].gives(v))
}
//@ fn datatypes/io.rs IO::sequence_composable props C13,C18,C21
    requires forall|i: int| 0 <= i < ios.items().len() ==> (#[trigger] ios.items()[i]).able(),
    ensures
        exists|o: Seq<BoxedComposableResult<A, IOError>>| #[trigger] tried(ios.items(), o) && match r {
            Ok(v) => errs(o).len() == 0 && v@ =~= oks(o),
            Err(c) => errs(o).len() > 0 && c@ =~= errs(o),
        },
//@ closure 0 |io: IO<A>| -> (o: BoxedComposableResult<A, IOError>)
    requires io.able(),
    ensures o matches Ok(v) ==> io.gives(v),
//@ at tail
proof {
    assert(exists|o: Seq<BoxedComposableResult<A, IOError>>, keep: Seq<bool>| tried(ios.items(), o) && keep.len() == o.len()
        && (forall|i: int| 0 <= i < o.len() ==> #[trigger] keep[i] == (o[i] is Ok))
        && successes@ == #[trigger] select(o, keep) && failures@ == select(o, keep.map_values(|b: bool| !b)));
    let (o, keep) = choose|o: Seq<BoxedComposableResult<A, IOError>>, keep: Seq<bool>| tried(ios.items(), o) && keep.len() == o.len()
        && (forall|i: int| 0 <= i < o.len() ==> #[trigger] keep[i] == (o[i] is Ok))
        && successes@ == #[trigger] select(o, keep) && failures@ == select(o, keep.map_values(|b: bool| !b));
    split_by(o, keep);
    assert(failures@.len() == errs(o).len());
}
