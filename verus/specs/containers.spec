// The containers that hold at most one value of the mapped kind: Option, Result, Maybe, Either, Id.
//@ include inc/error
//@ include inc/result
//@ include inc/option
//@ assoc Option<T> Source T
//@ assoc Option<T> Output Option<$0>
//@ assoc Option<A> Source A
//@ assoc Option<A> Output Option<$0>
//@ assoc Vec<T> Source T
//@ assoc Vec<T> Output Vec<$0>
//@ path error_utils::either_to_result either_to_result
//@ path Maybe::Just just_
//@ path error_utils::result_to_either result_to_either
//@ assoc Result<T,E> Source T
//@ assoc Result<T,E> Output Result<$0,E>
//@ assoc Result<A,E> Source A
//@ assoc Result<A,E> Output Result<$0,E>
//@ assoc Maybe Source T
//@ assoc Maybe Output Maybe<$0>
//@ assoc Either Source R
//@ assoc Either Output Either<L,$0>
//@ assoc Either Source2 L
//@ assoc Either BinaryOutput Either<$1,$0>
//@ assoc Id Source T
//@ assoc ResultEitherIso From Result<R,L>
//@ assoc ResultEitherIso To Either<L,R>
//@ assoc Id Output Id<$0>
//@ raw
broadcast use {faithful_clone, faithful_clone_call};
pub fn just_<T>(x: T) -> (r: Maybe<T>) ensures r == Maybe::Just(x) { Maybe::Just(x) }
pub open spec fn maybe_of<T>(o: Option<T>) -> Maybe<T> { match o { Some(x) => Maybe::Just(x), None => Maybe::Nothing } }
pub open spec fn option_of<T>(m: Maybe<T>) -> Option<T> { match m { Maybe::Just(x) => Some(x), Maybe::Nothing => None } }
impl<X> IntoIt<X> for Option<X> {
    open spec fn items(&self) -> Seq<X> { match *self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<X>) { unimplemented!() }
}
pub open spec fn held<T>(m: Maybe<T>) -> Seq<T> { match m { Maybe::Just(x) => seq![x], Maybe::Nothing => Seq::empty() } }
//@ type datatypes/maybe.rs Maybe #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ type datatypes/maybe.rs MaybeError
//@ type datatypes/either.rs Either #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ type datatypes/id.rs Id #[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]

//@ fn traits/functor.rs Option<T>[Functor]::fmap as option_fmap free props C06
    requires match *self_ { Some(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Some(a) => r is Some && f.ensures((&a,), r->0), _ => r == None },
//@ fn traits/applicative.rs Option<A>[Applicative]::apply as option_apply free props C06
    requires match (*self_, *value) { (Some(g), Some(a)) => g.requires((&a,)), _ => true },
    ensures match (*self_, *value) { (Some(g), Some(a)) => r is Some && g.ensures((&a,), r->0), _ => r == None },
//@ fn traits/applicative.rs Option<A>[Applicative]::lift2 as option_lift2 free props C06
    requires match (*fa, *fb) { (Some(a), Some(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Some(a), Some(b)) => r is Some && f.ensures((&a, &b), r->0), _ => r == None },
//@ fn traits/applicative.rs Option<A>[Applicative]::lift3 as option_lift3 free props C06
    requires match (*fa, *fb, *fc) { (Some(a), Some(b), Some(c)) => f.requires((&a, &b, &c)), _ => true },
    ensures match (*fa, *fb, *fc) { (Some(a), Some(b), Some(c)) => r is Some && f.ensures((&a, &b, &c), r->0), _ => r == None },
//@ fn traits/monad.rs Option<T>[Monad]::bind as option_bind free props C06
    requires match *self_ { Some(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Some(a) => f.ensures((&a,), r), _ => r == None },
//@ fn traits/monad.rs Option<T>[Monad]::join as option_join free props C06
    ensures match *self_ { Some(a) => r == a.conv(), _ => r == None },
//@ closure 0 |x: &T| -> (o: Option<U>)
    ensures o == x.conv(),
//@ fn traits/functor.rs Option<T>[Functor]::fmap_owned as option_fmap_owned free props C06
    requires match self_ { Some(a) => f.requires((a,)), _ => true },
    ensures match self_ { Some(a) => r is Some && f.ensures((a,), r->0), _ => r == None },
//@ fn traits/applicative.rs Option<A>[Applicative]::apply_owned as option_apply_owned free props C06
    requires match (self_, value) { (Some(g), Some(a)) => g.requires((a,)), _ => true },
    ensures match (self_, value) { (Some(g), Some(a)) => r is Some && g.ensures((a,), r->0), _ => r == None },
//@ fn traits/applicative.rs Option<A>[Applicative]::lift2_owned as option_lift2_owned free props C06
    requires match (fa, fb) { (Some(a), Some(b)) => f.requires((a, b)), _ => true },
    ensures match (fa, fb) { (Some(a), Some(b)) => r is Some && f.ensures((a, b), r->0), _ => r == None },
//@ fn traits/applicative.rs Option<A>[Applicative]::lift3_owned as option_lift3_owned free props C06
    requires match (fa, fb, fc) { (Some(a), Some(b), Some(c)) => f.requires((a, b, c)), _ => true },
    ensures match (fa, fb, fc) { (Some(a), Some(b), Some(c)) => r is Some && f.ensures((a, b, c), r->0), _ => r == None },
//@ fn traits/monad.rs Option<T>[Monad]::bind_owned as option_bind_owned free props C06
    requires match self_ { Some(a) => f.requires((a,)), _ => true },
    ensures match self_ { Some(a) => f.ensures((a,), r), _ => r == None },
//@ fn traits/monad.rs Option<T>[Monad]::join_owned as option_join_owned free props C06
    ensures match self_ { Some(a) => r == a.conv(), _ => r == None },
//@ fn traits/pure.rs Option<T>[Pure]::pure as option_pure free props C06
    ensures r == Some(*value),
//@ fn traits/pure.rs Option<T>[Pure]::pure_owned as option_pure_owned free props C06
    ensures r == Some(value),
//@ fn traits/functor.rs Result<A,E>[Functor]::fmap as result_fmap free props C06
    requires match *self_ { Ok(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Ok(a) => r is Ok && f.ensures((&a,), r->Ok_0), Err(e) => r == Err(e) },
//@ fn traits/applicative.rs Result<A,E>[Applicative]::apply as result_apply free props C06
    requires match (*self_, *value) { (Ok(g), Ok(a)) => g.requires((&a,)), _ => true },
    ensures match (*self_, *value) { (Ok(g), Ok(a)) => r is Ok && g.ensures((&a,), r->Ok_0), (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ fn traits/applicative.rs Result<A,E>[Applicative]::lift2 as result_lift2 free props C06
    requires match (*fa, *fb) { (Ok(a), Ok(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Ok(a), Ok(b)) => r is Ok && f.ensures((&a, &b), r->Ok_0), (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ fn traits/applicative.rs Result<A,E>[Applicative]::lift3 as result_lift3 free props C06
    requires match (*fa, *fb, *fc) { (Ok(a), Ok(b), Ok(c)) => f.requires((&a, &b, &c)), _ => true },
    ensures match (*fa, *fb, *fc) { (Ok(a), Ok(b), Ok(c)) => r is Ok && f.ensures((&a, &b, &c), r->Ok_0), (Err(e), _, _) => r == Err(e), (_, Err(e), _) => r == Err(e), (_, _, Err(e)) => r == Err(e) },
//@ fn traits/monad.rs Result<T,E>[Monad]::bind as result_bind free props C06
    requires match *self_ { Ok(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Ok(a) => f.ensures((&a,), r), Err(e) => r == Err(e) },
//@ fn traits/monad.rs Result<T,E>[Monad]::join as result_join free props C06
    ensures match *self_ { Ok(a) => r == a.conv(), Err(e) => r == Err(e) },
//@ fn traits/functor.rs Result<A,E>[Functor]::fmap_owned as result_fmap_owned free props C06
    requires match self_ { Ok(a) => f.requires((a,)), _ => true },
    ensures match self_ { Ok(a) => r is Ok && f.ensures((a,), r->Ok_0), Err(e) => r == Err(e) },
//@ fn traits/applicative.rs Result<A,E>[Applicative]::apply_owned as result_apply_owned free props C06
    requires match (self_, value) { (Ok(g), Ok(a)) => g.requires((a,)), _ => true },
    ensures match (self_, value) { (Ok(g), Ok(a)) => r is Ok && g.ensures((a,), r->Ok_0), (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ fn traits/applicative.rs Result<A,E>[Applicative]::lift2_owned as result_lift2_owned free props C06
    requires match (fa, fb) { (Ok(a), Ok(b)) => f.requires((a, b)), _ => true },
    ensures match (fa, fb) { (Ok(a), Ok(b)) => r is Ok && f.ensures((a, b), r->Ok_0), (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ fn traits/applicative.rs Result<A,E>[Applicative]::lift3_owned as result_lift3_owned free props C06
    requires match (fa, fb, fc) { (Ok(a), Ok(b), Ok(c)) => f.requires((a, b, c)), _ => true },
    ensures match (fa, fb, fc) { (Ok(a), Ok(b), Ok(c)) => r is Ok && f.ensures((a, b, c), r->Ok_0), (Err(e), _, _) => r == Err(e), (_, Err(e), _) => r == Err(e), (_, _, Err(e)) => r == Err(e) },
//@ fn traits/monad.rs Result<T,E>[Monad]::bind_owned as result_bind_owned free props C06
    requires match self_ { Ok(a) => f.requires((a,)), _ => true },
    ensures match self_ { Ok(a) => f.ensures((a,), r), Err(e) => r == Err(e) },
//@ fn traits/monad.rs Result<T,E>[Monad]::join_owned as result_join_owned free props C06
    ensures match self_ { Ok(a) => r == a.conv(), Err(e) => r == Err(e) },
//@ fn traits/pure.rs Result<T,E>[Pure]::pure as result_pure free props C06
    ensures r == Ok(*value),
//@ fn traits/pure.rs Result<T,E>[Pure]::pure_owned as result_pure_owned free props C06
    ensures r == Ok(value),
//@ fn datatypes/maybe.rs Maybe[Functor]::fmap props C06
    requires match *self { Maybe::Just(a) => f.requires((&a,)), _ => true },
    ensures match *self { Maybe::Just(a) => r is Just && f.ensures((&a,), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Applicative]::apply props C06
    requires match (*self, *value) { (Maybe::Just(g), Maybe::Just(a)) => g.requires((&a,)), _ => true },
    ensures match (*self, *value) { (Maybe::Just(g), Maybe::Just(a)) => r is Just && g.ensures((&a,), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Applicative]::lift2 props C06
    requires match (*fa, *fb) { (Maybe::Just(a), Maybe::Just(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Maybe::Just(a), Maybe::Just(b)) => r is Just && f.ensures((&a, &b), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Applicative]::lift3 props C06
    requires match (*fa, *fb, *fc) { (Maybe::Just(a), Maybe::Just(b), Maybe::Just(c)) => f.requires((&a, &b, &c)), _ => true },
    ensures match (*fa, *fb, *fc) { (Maybe::Just(a), Maybe::Just(b), Maybe::Just(c)) => r is Just && f.ensures((&a, &b, &c), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Monad]::bind props C06
    requires match *self { Maybe::Just(a) => f.requires((&a,)), _ => true },
    ensures match *self { Maybe::Just(a) => f.ensures((&a,), r), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Monad]::join props C06
    ensures match *self { Maybe::Just(a) => r == a.conv(), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Functor]::fmap_owned props C06
    requires match self { Maybe::Just(a) => f.requires((a,)), _ => true },
    ensures match self { Maybe::Just(a) => r is Just && f.ensures((a,), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Applicative]::apply_owned props C06
    requires match (self, value) { (Maybe::Just(g), Maybe::Just(a)) => g.requires((a,)), _ => true },
    ensures match (self, value) { (Maybe::Just(g), Maybe::Just(a)) => r is Just && g.ensures((a,), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Applicative]::lift2_owned props C06
    requires match (fa, fb) { (Maybe::Just(a), Maybe::Just(b)) => f.requires((a, b)), _ => true },
    ensures match (fa, fb) { (Maybe::Just(a), Maybe::Just(b)) => r is Just && f.ensures((a, b), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Applicative]::lift3_owned props C06
    requires match (fa, fb, fc) { (Maybe::Just(a), Maybe::Just(b), Maybe::Just(c)) => f.requires((a, b, c)), _ => true },
    ensures match (fa, fb, fc) { (Maybe::Just(a), Maybe::Just(b), Maybe::Just(c)) => r is Just && f.ensures((a, b, c), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Monad]::bind_owned props C06
    requires match self { Maybe::Just(a) => f.requires((a,)), _ => true },
    ensures match self { Maybe::Just(a) => f.ensures((a,), r), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Monad]::join_owned props C06
    ensures match self { Maybe::Just(a) => r == a.conv(), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Pure]::pure props C06
    ensures r == Maybe::Just(*value),
//@ fn datatypes/either.rs Either[Functor]::fmap props C06
    requires match *self { Either::Right(a) => f.requires((&a,)), _ => true },
    ensures match *self { Either::Right(a) => r is Right && f.ensures((&a,), r->Right_0), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Applicative]::apply props C06
    requires match (*self, *value) { (Either::Right(g), Either::Right(a)) => g.requires((&a,)), _ => true },
    ensures match (*self, *value) { (Either::Right(g), Either::Right(a)) => r is Right && g.ensures((&a,), r->Right_0), (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Applicative]::lift2 props C06
    requires match (*fa, *fb) { (Either::Right(a), Either::Right(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Either::Right(a), Either::Right(b)) => r is Right && f.ensures((&a, &b), r->Right_0), (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Applicative]::lift3 props C06
    requires match (*fa, *fb, *fc) { (Either::Right(a), Either::Right(b), Either::Right(c)) => f.requires((&a, &b, &c)), _ => true },
    ensures match (*fa, *fb, *fc) { (Either::Right(a), Either::Right(b), Either::Right(c)) => r is Right && f.ensures((&a, &b, &c), r->Right_0), (Either::Left(e), _, _) => r == Either::Left(e), (_, Either::Left(e), _) => r == Either::Left(e), (_, _, Either::Left(e)) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Monad]::bind props C06
    requires match *self { Either::Right(a) => f.requires((&a,)), _ => true },
    ensures match *self { Either::Right(a) => f.ensures((&a,), r), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Monad]::join props C06
    ensures match *self { Either::Right(a) => r == a.conv(), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Functor]::fmap_owned props C06
    requires match self { Either::Right(a) => f.requires((a,)), _ => true },
    ensures match self { Either::Right(a) => r is Right && f.ensures((a,), r->Right_0), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Applicative]::apply_owned props C06
    requires match (self, value) { (Either::Right(g), Either::Right(a)) => g.requires((a,)), _ => true },
    ensures match (self, value) { (Either::Right(g), Either::Right(a)) => r is Right && g.ensures((a,), r->Right_0), (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Applicative]::lift2_owned props C06
    requires match (fa, fb) { (Either::Right(a), Either::Right(b)) => f.requires((a, b)), _ => true },
    ensures match (fa, fb) { (Either::Right(a), Either::Right(b)) => r is Right && f.ensures((a, b), r->Right_0), (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Applicative]::lift3_owned props C06
    requires match (fa, fb, fc) { (Either::Right(a), Either::Right(b), Either::Right(c)) => f.requires((a, b, c)), _ => true },
    ensures match (fa, fb, fc) { (Either::Right(a), Either::Right(b), Either::Right(c)) => r is Right && f.ensures((a, b, c), r->Right_0), (Either::Left(e), _, _) => r == Either::Left(e), (_, Either::Left(e), _) => r == Either::Left(e), (_, _, Either::Left(e)) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Monad]::bind_owned props C06
    requires match self { Either::Right(a) => f.requires((a,)), _ => true },
    ensures match self { Either::Right(a) => f.ensures((a,), r), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Monad]::join_owned props C06
    ensures match self { Either::Right(a) => r == a.conv(), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Pure]::pure props C06
    ensures r == Either::Right(*value),
//@ fn datatypes/id.rs Id[Functor]::fmap props C06
    requires f.requires((&self.value,)),
    ensures f.ensures((&self.value,), r.value),
//@ fn datatypes/id.rs Id[Applicative]::apply props C06
    requires self.value.requires((&value.value,)),
    ensures self.value.ensures((&value.value,), r.value),
//@ fn datatypes/id.rs Id[Applicative]::lift2 props C06
    requires f.requires((&fa.value, &fb.value)),
    ensures f.ensures((&fa.value, &fb.value), r.value),
//@ fn datatypes/id.rs Id[Applicative]::lift3 props C06
    requires f.requires((&fa.value, &fb.value, &fc.value)),
    ensures f.ensures((&fa.value, &fb.value, &fc.value), r.value),
//@ fn datatypes/id.rs Id[Monad]::bind props C06
    requires f.requires((&self.value,)),
    ensures f.ensures((&self.value,), r),
//@ fn datatypes/id.rs Id[Monad]::join props C06
    ensures r == self.value.conv(),
//@ fn datatypes/id.rs Id[Functor]::fmap_owned props C06
    requires f.requires((self.value,)),
    ensures f.ensures((self.value,), r.value),
//@ fn datatypes/id.rs Id[Applicative]::apply_owned props C06
    requires self.value.requires((value.value,)),
    ensures self.value.ensures((value.value,), r.value),
//@ fn datatypes/id.rs Id[Applicative]::lift2_owned props C06
    requires f.requires((fa.value, fb.value)),
    ensures f.ensures((fa.value, fb.value), r.value),
//@ fn datatypes/id.rs Id[Applicative]::lift3_owned props C06
    requires f.requires((fa.value, fb.value, fc.value)),
    ensures f.ensures((fa.value, fb.value, fc.value), r.value),
//@ fn datatypes/id.rs Id[Monad]::bind_owned props C06
    requires f.requires((self.value,)),
    ensures f.ensures((self.value,), r),
//@ fn datatypes/id.rs Id[Monad]::join_owned props C06
    ensures r == self.value.conv(),
//@ fn datatypes/id.rs Id[Pure]::pure props C06
    ensures r.value == *x,
//@ fn traits/functor.rs Option<T>[Functor]::replace as option_replace free provided traits/functor.rs  props C06
    ensures match *self_ { Some(_) => r is Some && r->0 == *value, _ => r == None },
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == *value,
//@ fn traits/functor.rs Option<T>[Functor]::void as option_void free provided traits/functor.rs  props C06
    ensures match *self_ { Some(_) => r is Some, _ => r == None },
//@ closure 0 |_x: &T| -> (o: ())
    ensures true,
//@ fn traits/applicative.rs Option<A>[Applicative]::sequence_right as option_sequence_right free provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Some(_a), Some(b)) => r is Some && r->0 == b, _ => r == None },
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn traits/applicative.rs Option<A>[Applicative]::sequence_left as option_sequence_left free provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Some(a), Some(_b)) => r is Some && r->0 == a, _ => r == None },
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn traits/applicative.rs Option<A>[Applicative]::ap2 as option_ap2 free provided traits/applicative.rs tparams X,Y,Z,F props C06
    requires match (*fa, *fb) { (Some(a), Some(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Some(a), Some(b)) => r is Some && f.ensures((&a, &b), r->0), _ => r == None },
//@ fn traits/monad.rs Option<T>[Monad]::flat_map as option_flat_map free provided traits/monad.rs  props C06
    requires match *self_ { Some(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Some(a) => f.ensures((&a,), r), _ => r == None },
//@ fn traits/functor.rs Option<T>[Functor]::replace_owned as option_replace_owned free provided traits/functor.rs  props C06
    ensures match *self_ { Some(_) => r is Some && r->0 == value, _ => r == None },
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == value,
//@ fn traits/functor.rs Option<T>[Functor]::void_owned as option_void_owned free provided traits/functor.rs  props C06
    ensures match self_ { Some(_) => r is Some, _ => r == None },
//@ closure 0 |_x: T| -> (o: ())
    ensures true,
//@ fn traits/applicative.rs Option<A>[Applicative]::sequence_right_owned as option_sequence_right_owned free provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Some(_a), Some(b)) => r is Some && r->0 == b, _ => r == None },
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn traits/applicative.rs Option<A>[Applicative]::sequence_left_owned as option_sequence_left_owned free provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Some(a), Some(_b)) => r is Some && r->0 == a, _ => r == None },
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn traits/monad.rs Option<T>[Monad]::flat_map_owned as option_flat_map_owned free provided traits/monad.rs  props C06
    requires match self_ { Some(a) => f.requires((a,)), _ => true },
    ensures match self_ { Some(a) => f.ensures((a,), r), _ => r == None },
//@ fn traits/monad.rs Option<T>[Monad]::map_and_pure as option_map_and_pure free provided traits/monad.rs  props C06
    requires match *self_ { Some(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Some(a) => r is Some && f.ensures((&a,), r->0), _ => r == None },
//@ closure 0 |x: &T| -> (o: Option<U>)
    requires f.requires((x,)), ensures o is Some && f.ensures((x,), o->0),
//@ fn traits/monad.rs Option<T>[Monad]::try_bind as option_try_bind free provided traits/monad.rs tparams U,ER,F props C06
    requires match *self_ { Some(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Some(a) => exists|q: Result<Option<U>, ER>| #[trigger] f.ensures((&a,), q) && (match q { Ok(m) => r == m, Err(_) => r is Some && r->0 == *default }), _ => r == None },
//@ closure 0 |x: &T| -> (o: Option<U>)
    requires f.requires((x,)), ensures exists|q: Result<Option<U>, ER>| #[trigger] f.ensures((x,), q) && (match q { Ok(m) => o == m, Err(_) => o is Some && o->0 == *default }),
//@ fn traits/functor.rs Result<A,E>[Functor]::replace as result_replace free provided traits/functor.rs  props C06
    ensures match *self_ { Ok(_) => r is Ok && r->Ok_0 == *value, Err(e) => r == Err(e) },
//@ closure 0 |_x: &A| -> (o: B)
    ensures o == *value,
//@ fn traits/functor.rs Result<A,E>[Functor]::void as result_void free provided traits/functor.rs  props C06
    ensures match *self_ { Ok(_) => r is Ok, Err(e) => r == Err(e) },
//@ closure 0 |_x: &A| -> (o: ())
    ensures true,
//@ fn traits/applicative.rs Result<A,E>[Applicative]::sequence_right as result_sequence_right free provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Ok(_a), Ok(b)) => r is Ok && r->Ok_0 == b, (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn traits/applicative.rs Result<A,E>[Applicative]::sequence_left as result_sequence_left free provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Ok(a), Ok(_b)) => r is Ok && r->Ok_0 == a, (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn traits/applicative.rs Result<A,E>[Applicative]::ap2 as result_ap2 free provided traits/applicative.rs tparams X,Y,Z,F props C06
    requires match (*fa, *fb) { (Ok(a), Ok(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Ok(a), Ok(b)) => r is Ok && f.ensures((&a, &b), r->Ok_0), (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ fn traits/monad.rs Result<T,E>[Monad]::flat_map as result_flat_map free provided traits/monad.rs  props C06
    requires match *self_ { Ok(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Ok(a) => f.ensures((&a,), r), Err(e) => r == Err(e) },
//@ fn traits/functor.rs Result<A,E>[Functor]::replace_owned as result_replace_owned free provided traits/functor.rs  props C06
    ensures match *self_ { Ok(_) => r is Ok && r->Ok_0 == value, Err(e) => r == Err(e) },
//@ closure 0 |_x: &A| -> (o: B)
    ensures o == value,
//@ fn traits/functor.rs Result<A,E>[Functor]::void_owned as result_void_owned free provided traits/functor.rs  props C06
    ensures match self_ { Ok(_) => r is Ok, Err(e) => r == Err(e) },
//@ closure 0 |_x: A| -> (o: ())
    ensures true,
//@ fn traits/applicative.rs Result<A,E>[Applicative]::sequence_right_owned as result_sequence_right_owned free provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Ok(_a), Ok(b)) => r is Ok && r->Ok_0 == b, (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn traits/applicative.rs Result<A,E>[Applicative]::sequence_left_owned as result_sequence_left_owned free provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Ok(a), Ok(_b)) => r is Ok && r->Ok_0 == a, (Err(e), _) => r == Err(e), (_, Err(e)) => r == Err(e) },
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn traits/monad.rs Result<T,E>[Monad]::flat_map_owned as result_flat_map_owned free provided traits/monad.rs  props C06
    requires match self_ { Ok(a) => f.requires((a,)), _ => true },
    ensures match self_ { Ok(a) => f.ensures((a,), r), Err(e) => r == Err(e) },
//@ fn traits/monad.rs Result<T,E>[Monad]::map_and_pure as result_map_and_pure free provided traits/monad.rs  props C06
    requires match *self_ { Ok(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Ok(a) => r is Ok && f.ensures((&a,), r->Ok_0), Err(e) => r == Err(e) },
//@ closure 0 |x: &T| -> (o: Result<U, E>)
    requires f.requires((x,)), ensures o is Ok && f.ensures((x,), o->Ok_0),
//@ fn traits/monad.rs Result<T,E>[Monad]::try_bind as result_try_bind free provided traits/monad.rs tparams U,ER,F props C06
    requires match *self_ { Ok(a) => f.requires((&a,)), _ => true },
    ensures match *self_ { Ok(a) => exists|q: Result<Result<U, E>, ER>| #[trigger] f.ensures((&a,), q) && (match q { Ok(m) => r == m, Err(_) => r is Ok && r->Ok_0 == *default }), Err(e) => r == Err(e) },
//@ closure 0 |x: &T| -> (o: Result<U, E>)
    requires f.requires((x,)), ensures exists|q: Result<Result<U, E>, ER>| #[trigger] f.ensures((x,), q) && (match q { Ok(m) => o == m, Err(_) => o is Ok && o->Ok_0 == *default }),
//@ fn datatypes/maybe.rs Maybe[Functor]::replace provided traits/functor.rs  props C06
    ensures match *self { Maybe::Just(_) => r is Just && r->0 == *value, _ => r == Maybe::Nothing },
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == *value,
//@ fn datatypes/maybe.rs Maybe[Functor]::void provided traits/functor.rs  props C06
    ensures match *self { Maybe::Just(_) => r is Just, _ => r == Maybe::Nothing },
//@ closure 0 |_x: &T| -> (o: ())
    ensures true,
//@ fn datatypes/maybe.rs Maybe[Applicative]::sequence_right provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Maybe::Just(_a), Maybe::Just(b)) => r is Just && r->0 == b, _ => r == Maybe::Nothing },
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn datatypes/maybe.rs Maybe[Applicative]::sequence_left provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Maybe::Just(a), Maybe::Just(_b)) => r is Just && r->0 == a, _ => r == Maybe::Nothing },
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn datatypes/maybe.rs Maybe[Applicative]::ap2 provided traits/applicative.rs tparams X,Y,Z,F props C06
    requires match (*fa, *fb) { (Maybe::Just(a), Maybe::Just(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Maybe::Just(a), Maybe::Just(b)) => r is Just && f.ensures((&a, &b), r->0), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Monad]::flat_map provided traits/monad.rs  props C06
    requires match *self { Maybe::Just(a) => f.requires((&a,)), _ => true },
    ensures match *self { Maybe::Just(a) => f.ensures((&a,), r), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Functor]::replace_owned provided traits/functor.rs  props C06
    ensures match *self { Maybe::Just(_) => r is Just && r->0 == value, _ => r == Maybe::Nothing },
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == value,
//@ fn datatypes/maybe.rs Maybe[Functor]::void_owned provided traits/functor.rs  props C06
    ensures match self { Maybe::Just(_) => r is Just, _ => r == Maybe::Nothing },
//@ closure 0 |_x: T| -> (o: ())
    ensures true,
//@ fn datatypes/maybe.rs Maybe[Applicative]::sequence_right_owned provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Maybe::Just(_a), Maybe::Just(b)) => r is Just && r->0 == b, _ => r == Maybe::Nothing },
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn datatypes/maybe.rs Maybe[Applicative]::sequence_left_owned provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Maybe::Just(a), Maybe::Just(_b)) => r is Just && r->0 == a, _ => r == Maybe::Nothing },
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn datatypes/maybe.rs Maybe[Monad]::flat_map_owned provided traits/monad.rs  props C06
    requires match self { Maybe::Just(a) => f.requires((a,)), _ => true },
    ensures match self { Maybe::Just(a) => f.ensures((a,), r), _ => r == Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Monad]::map_and_pure provided traits/monad.rs  props C06
    requires match *self { Maybe::Just(a) => f.requires((&a,)), _ => true },
    ensures match *self { Maybe::Just(a) => r is Just && f.ensures((&a,), r->0), _ => r == Maybe::Nothing },
//@ closure 0 |x: &T| -> (o: Maybe<U>)
    requires f.requires((x,)), ensures o is Just && f.ensures((x,), o->0),
//@ fn datatypes/maybe.rs Maybe[Monad]::try_bind provided traits/monad.rs tparams U,ER,F props C06
    requires match *self { Maybe::Just(a) => f.requires((&a,)), _ => true },
    ensures match *self { Maybe::Just(a) => exists|q: Result<Maybe<U>, ER>| #[trigger] f.ensures((&a,), q) && (match q { Ok(m) => r == m, Err(_) => r is Just && r->0 == *default }), _ => r == Maybe::Nothing },
//@ closure 0 |x: &T| -> (o: Maybe<U>)
    requires f.requires((x,)), ensures exists|q: Result<Maybe<U>, ER>| #[trigger] f.ensures((x,), q) && (match q { Ok(m) => o == m, Err(_) => o is Just && o->0 == *default }),
//@ fn datatypes/either.rs Either[Functor]::replace provided traits/functor.rs  props C06
    ensures match *self { Either::Right(_) => r is Right && r->Right_0 == *value, Either::Left(e) => r == Either::Left(e) },
//@ closure 0 |_x: &R| -> (o: B)
    ensures o == *value,
//@ fn datatypes/either.rs Either[Functor]::void provided traits/functor.rs  props C06
    ensures match *self { Either::Right(_) => r is Right, Either::Left(e) => r == Either::Left(e) },
//@ closure 0 |_x: &R| -> (o: ())
    ensures true,
//@ fn datatypes/either.rs Either[Applicative]::sequence_right provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Either::Right(_a), Either::Right(b)) => r is Right && r->Right_0 == b, (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn datatypes/either.rs Either[Applicative]::sequence_left provided traits/applicative.rs tparams X,Y props C06
    ensures match (*fa, *fb) { (Either::Right(a), Either::Right(_b)) => r is Right && r->Right_0 == a, (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn datatypes/either.rs Either[Applicative]::ap2 provided traits/applicative.rs tparams X,Y,Z,F props C06
    requires match (*fa, *fb) { (Either::Right(a), Either::Right(b)) => f.requires((&a, &b)), _ => true },
    ensures match (*fa, *fb) { (Either::Right(a), Either::Right(b)) => r is Right && f.ensures((&a, &b), r->Right_0), (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Monad]::flat_map provided traits/monad.rs  props C06
    requires match *self { Either::Right(a) => f.requires((&a,)), _ => true },
    ensures match *self { Either::Right(a) => f.ensures((&a,), r), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Functor]::replace_owned provided traits/functor.rs  props C06
    ensures match *self { Either::Right(_) => r is Right && r->Right_0 == value, Either::Left(e) => r == Either::Left(e) },
//@ closure 0 |_x: &R| -> (o: B)
    ensures o == value,
//@ fn datatypes/either.rs Either[Functor]::void_owned provided traits/functor.rs  props C06
    ensures match self { Either::Right(_) => r is Right, Either::Left(e) => r == Either::Left(e) },
//@ closure 0 |_x: R| -> (o: ())
    ensures true,
//@ fn datatypes/either.rs Either[Applicative]::sequence_right_owned provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Either::Right(_a), Either::Right(b)) => r is Right && r->Right_0 == b, (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn datatypes/either.rs Either[Applicative]::sequence_left_owned provided traits/applicative.rs tparams X,Y props C06
    ensures match (fa, fb) { (Either::Right(a), Either::Right(_b)) => r is Right && r->Right_0 == a, (Either::Left(e), _) => r == Either::Left(e), (_, Either::Left(e)) => r == Either::Left(e) },
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn datatypes/either.rs Either[Monad]::flat_map_owned provided traits/monad.rs  props C06
    requires match self { Either::Right(a) => f.requires((a,)), _ => true },
    ensures match self { Either::Right(a) => f.ensures((a,), r), Either::Left(e) => r == Either::Left(e) },
//@ fn datatypes/either.rs Either[Monad]::map_and_pure provided traits/monad.rs  props C06
    requires match *self { Either::Right(a) => f.requires((&a,)), _ => true },
    ensures match *self { Either::Right(a) => r is Right && f.ensures((&a,), r->Right_0), Either::Left(e) => r == Either::Left(e) },
//@ closure 0 |x: &R| -> (o: Either<L, U>)
    requires f.requires((x,)), ensures o is Right && f.ensures((x,), o->Right_0),
//@ fn datatypes/either.rs Either[Monad]::try_bind provided traits/monad.rs tparams U,ER,F props C06
    requires match *self { Either::Right(a) => f.requires((&a,)), _ => true },
    ensures match *self { Either::Right(a) => exists|q: Result<Either<L, U>, ER>| #[trigger] f.ensures((&a,), q) && (match q { Ok(m) => r == m, Err(_) => r is Right && r->Right_0 == *default }), Either::Left(e) => r == Either::Left(e) },
//@ closure 0 |x: &R| -> (o: Either<L, U>)
    requires f.requires((x,)), ensures exists|q: Result<Either<L, U>, ER>| #[trigger] f.ensures((x,), q) && (match q { Ok(m) => o == m, Err(_) => o is Right && o->Right_0 == *default }),
//@ fn datatypes/id.rs Id[Functor]::replace provided traits/functor.rs  props C06
    ensures r.value == *value,
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == *value,
//@ fn datatypes/id.rs Id[Functor]::void provided traits/functor.rs  props C06
    ensures true,
//@ closure 0 |_x: &T| -> (o: ())
    ensures true,
//@ fn datatypes/id.rs Id[Applicative]::sequence_right provided traits/applicative.rs tparams X,Y props C06
    ensures r.value == fb.value,
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn datatypes/id.rs Id[Applicative]::sequence_left provided traits/applicative.rs tparams X,Y props C06
    ensures r.value == fa.value,
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn datatypes/id.rs Id[Applicative]::ap2 provided traits/applicative.rs tparams X,Y,Z,F props C06
    requires f.requires((&fa.value, &fb.value)),
    ensures f.ensures((&fa.value, &fb.value), r.value),
//@ fn datatypes/id.rs Id[Monad]::flat_map provided traits/monad.rs  props C06
    requires f.requires((&self.value,)),
    ensures f.ensures((&self.value,), r),
//@ fn datatypes/id.rs Id[Functor]::replace_owned provided traits/functor.rs  props C06
    ensures r.value == value,
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == value,
//@ fn datatypes/id.rs Id[Functor]::void_owned provided traits/functor.rs  props C06
    ensures true,
//@ closure 0 |_x: T| -> (o: ())
    ensures true,
//@ fn datatypes/id.rs Id[Applicative]::sequence_right_owned provided traits/applicative.rs tparams X,Y props C06
    ensures r.value == fb.value,
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn datatypes/id.rs Id[Applicative]::sequence_left_owned provided traits/applicative.rs tparams X,Y props C06
    ensures r.value == fa.value,
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn datatypes/id.rs Id[Monad]::flat_map_owned provided traits/monad.rs  props C06
    requires f.requires((self.value,)),
    ensures f.ensures((self.value,), r),
//@ fn datatypes/id.rs Id[Monad]::map_and_pure provided traits/monad.rs  props C06
    requires f.requires((&self.value,)),
    ensures f.ensures((&self.value,), r.value),
//@ closure 0 |x: &T| -> (o: Id<U>)
    requires f.requires((x,)), ensures f.ensures((x,), o.value),
//@ fn datatypes/id.rs Id[Monad]::try_bind provided traits/monad.rs tparams U,ER,F props C06
    requires f.requires((&self.value,)),
    ensures exists|q: Result<Id<U>, ER>| #[trigger] f.ensures((&self.value,), q) && (match q { Ok(m) => r == m, Err(_) => r.value == *default }),
//@ closure 0 |x: &T| -> (o: Id<U>)
    requires f.requires((x,)), ensures exists|q: Result<Id<U>, ER>| #[trigger] f.ensures((x,), q) && (match q { Ok(m) => o == m, Err(_) => o.value == *default }),
//@ fn datatypes/maybe.rs Maybe::some props C06,C15
    ensures r == Maybe::Just(value),
//@ fn datatypes/maybe.rs Maybe::none props C06,C15
    ensures r == Maybe::<T>::Nothing,
//@ fn datatypes/maybe.rs Maybe::when props C06,C22
    ensures r == if condition { Maybe::Just(value) } else { Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe::is_just props C06
    ensures r == (self is Just),
//@ fn datatypes/maybe.rs Maybe::is_nothing props C06
    ensures r == (self is Nothing),
//@ fn datatypes/maybe.rs Maybe::from_option props C06,C15
    ensures r == maybe_of(opt),
//@ fn datatypes/maybe.rs Maybe::to_option props C06,C15
    ensures r == option_of(self),
//@ fn datatypes/maybe.rs Maybe::to_result props C06,C15
    ensures r == match self { Maybe::Just(x) => Ok::<T, E>(x), Maybe::Nothing => Err(error) },
//@ fn datatypes/maybe.rs Maybe::to_standard_result props C06,C15
    ensures r == match self { Maybe::Just(x) => Ok::<T, MaybeError>(x), Maybe::Nothing => Err(MaybeError::ValueNotPresent) },
//@ fn datatypes/maybe.rs Maybe::try_unwrap props C06,C15,C18
    ensures match self { Maybe::Just(x) => r == Ok::<T, ComposableError<&'static str>>(x), Maybe::Nothing => r is Err && r->Err_0.ctxs().len() == 1 },
//@ fn datatypes/maybe.rs Maybe::unwrap props C06,C15
    requires self is Just,
    ensures r == self->0,
//@ fn datatypes/maybe.rs Maybe::unwrap_or props C06,C15
    ensures r == match self { Maybe::Just(x) => x, Maybe::Nothing => default },
//@ fn datatypes/maybe.rs Maybe::fmap_or props C06
    requires self matches Maybe::Just(x) ==> f.requires((x,)),
    ensures match self { Maybe::Just(x) => f.ensures((x,), r), Maybe::Nothing => r == default },
//@ fn datatypes/maybe.rs Maybe::as_ref props C06,C17
    ensures match *self { Maybe::Just(x) => r == Some(&x), Maybe::Nothing => r is None },
//@ fn datatypes/maybe.rs Maybe::as_option props C06,C15
    ensures match *self { Maybe::Just(x) => r == Some(&x), Maybe::Nothing => r is None },
//@ fn datatypes/maybe.rs Maybe::unwrap_or_else props C06
    requires self is Nothing ==> f.requires(()),
    ensures match self { Maybe::Just(x) => r == x, Maybe::Nothing => f.ensures((), r) },
//@ fn datatypes/maybe.rs Maybe::filter props C06
    requires self matches Maybe::Just(x) ==> predicate.requires((&x,)),
    ensures match self { Maybe::Just(x) => (r == self && predicate.ensures((&x,), true)) || (r is Nothing && predicate.ensures((&x,), false)), Maybe::Nothing => r is Nothing },
//@ fn datatypes/maybe.rs Maybe::tap props C06
    requires self matches Maybe::Just(x) ==> f.requires((&x,)),
    ensures r == self,
//@ fn datatypes/maybe.rs Maybe::iter props C06,C17
    ensures r.fresh(refs(held(*self))),
//@ retty It<&T>
//@ at start
proof {
    if *self is Just { assert(seq![&self->0] =~= refs(held(*self))); } else { assert(Seq::<&T>::empty() =~= refs(held(*self))); }
}
//@ fn datatypes/maybe.rs Maybe::to_vec props C06,C15
    ensures r@ =~= held(self),
//@ fn datatypes/maybe.rs Maybe[From<Option<T>>]::from as maybe_from_option props C15
    ensures r == maybe_of(opt),
//@ fn datatypes/maybe.rs Option<T>[From<Maybe<T>>]::from as option_from_maybe free props C15
    ensures r == option_of(maybe),
//@ fn datatypes/maybe.rs Maybe[From<Result<T,E>>]::from as maybe_from_result free props C15
    ensures r == match result { Ok(v) => Maybe::Just(v), Err(_) => Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[WithError]::to_result as with_error_to_result props C15,C18
    ensures r == match self { Maybe::Just(x) => Ok::<T, MaybeError>(x), Maybe::Nothing => Err(MaybeError::ValueNotPresent) },
//@ fn datatypes/maybe.rs Maybe[MaybeExt]::to_result as ext_to_result props C15
    ensures r == match self { Maybe::Just(x) => Ok::<T, E>(x), Maybe::Nothing => Err(err) },
//@ fn datatypes/maybe.rs Maybe[MaybeExt]::try_unwrap as ext_try_unwrap props C15,C18
    ensures match self { Maybe::Just(x) => r == Ok::<T, ComposableError<&'static str>>(x), Maybe::Nothing => r is Err && r->Err_0.ctxs().len() == 1 },
//@ fn datatypes/maybe.rs Maybe[FromIterator]::from_iter as maybe_from_iter props C15,C06
    ensures r == if iter.items().len() == 0 { Maybe::Nothing } else { Maybe::Just(iter.items()[0]) },
//@ fn datatypes/maybe.rs Maybe[Identity]::value props C06
    requires self is Just,
    ensures *r == self->0,
//@ fn datatypes/maybe.rs Maybe[Identity]::into_value props C06
    requires self is Just,
    ensures r == self->0,
//@ fn datatypes/maybe.rs Maybe[Default]::default as default_ props C06
    ensures r is Nothing,
//@ fn datatypes/maybe.rs Maybe[MonadPlus]::mzero props C22
    ensures r is Nothing,
//@ fn datatypes/maybe.rs Maybe[MonadPlus]::mplus props C22
    ensures r == if self is Just { *self } else { *other },
//@ fn datatypes/maybe.rs Maybe[MonadPlus]::mplus_owned props C22
    ensures r == if self is Just { self } else { other },
//@ fn datatypes/maybe.rs Maybe[Alternative]::empty_alt props C22
    ensures r is Nothing,
//@ fn datatypes/maybe.rs Maybe[Alternative]::alt props C22
    ensures r == if self is Just { *self } else { *other },
//@ fn datatypes/maybe.rs Maybe[Alternative]::guard props C22
    ensures r == if condition { Maybe::Just(()) } else { Maybe::Nothing },
//@ fn datatypes/maybe.rs Maybe[Alternative]::many props C22
    ensures match *self { Maybe::Just(x) => r is Just && r->0@ =~= seq![x], Maybe::Nothing => r is Nothing },
//@ fn datatypes/either.rs Either::left props C06,C15
    ensures r == Either::<L, R>::Left(l),
//@ fn datatypes/either.rs Either::right ret o props C06,C15
    ensures o == Either::<L, R>::Right(r),
//@ fn datatypes/either.rs Either::is_left props C06
    ensures r == (self is Left),
//@ fn datatypes/either.rs Either::is_right props C06
    ensures r == (self is Right),
//@ fn datatypes/either.rs Either::fmap_left props C06,C20
    requires self matches Either::Left(l) ==> f.requires((l,)),
    ensures match self { Either::Left(l) => r is Left && f.ensures((l,), r->Left_0), Either::Right(v) => r == Either::<T, R>::Right(v) },
//@ fn datatypes/either.rs Either::fmap_right props C06,C20
    requires self matches Either::Right(v) ==> f.requires((v,)),
    ensures match self { Either::Right(v) => r is Right && f.ensures((v,), r->Right_0), Either::Left(l) => r == Either::<L, T>::Left(l) },
//@ fn datatypes/either.rs Either::unwrap_left props C06,C15
    requires self is Left,
    ensures r == self->Left_0,
//@ fn datatypes/either.rs Either::unwrap_right props C06,C15
    requires self is Right,
    ensures r == self->Right_0,
//@ fn datatypes/either.rs Either::unwrap props C06,C15
    requires self is Right,
    ensures r == self->Right_0,
//@ fn datatypes/either.rs Either::unwrap_or props C06,C15
    ensures r == match self { Either::Right(v) => v, Either::Left(_) => default },
//@ fn datatypes/either.rs Either::left_value props C06,C15
    requires self is Left,
    ensures r == self->Left_0,
//@ fn datatypes/either.rs Either::right_value props C06,C15
    requires self is Right,
    ensures r == self->Right_0,
//@ fn datatypes/either.rs Either::left_ref props C06,C15
    requires self is Left,
    ensures *r == self->Left_0,
//@ type datatypes/either.rs EitherIter
//@ type datatypes/either.rs EitherIterRef
//@ type datatypes/either.rs EitherLeftIter
//@ type datatypes/either.rs EitherLeftIterRef
//@ fn datatypes/either.rs Either<L,R>[IntoIterator]::into_iter as into_iter_ props C06,C17
    ensures r.inner == match self { Either::Right(v) => Some(v), Either::Left(_) => None },
//@ retty EitherIter<R>
//@ fn datatypes/either.rs EitherIter[Iterator]::next props C06,C17
    ensures r == old(self).inner, final(self).inner is None,
//@ retty Option<R>
//@ fn datatypes/either.rs Either::left_or props C06,C15
    ensures r == match self { Either::Left(l) => l, Either::Right(_) => default },
//@ fn datatypes/either.rs Either::right_or props C06,C15
    ensures r == match self { Either::Right(v) => v, Either::Left(_) => default },
//@ fn datatypes/either.rs Either::right_option props C06,C15
    ensures r == match self { Either::Right(v) => Some(v), Either::Left(_) => None },
//@ fn datatypes/either.rs Either::left_iter props C06,C17
    ensures r.left == match self { Either::Left(l) => Some(l), Either::Right(_) => None },
//@ fn datatypes/either.rs EitherLeftIter[Iterator]::next props C06,C17
    ensures r == old(self).left, final(self).left is None,
//@ retty Option<L>
//@ fn datatypes/either.rs Either::left_iter_ref props C06,C17
    ensures match *self { Either::Left(l) => r.left == Some(&l), Either::Right(_) => r.left is None },
//@ fn datatypes/either.rs Either::left_option props C06,C15
    ensures r == match self { Either::Left(l) => Some(l), Either::Right(_) => None },
//@ fn error/convert.rs either_to_result props C15
    ensures r == match either { Either::Right(v) => Ok::<T, E>(v), Either::Left(e) => Err(e) },
//@ fn error/convert.rs result_to_either props C15
    ensures r == match result { Ok(v) => Either::<E, T>::Right(v), Err(e) => Either::Left(e) },
//@ fn datatypes/either.rs Either::to_result props C15
    ensures r == match self { Either::Right(v) => Ok::<R, L>(v), Either::Left(e) => Err(e) },
//@ fn datatypes/either.rs Either::from_result props C15
    ensures r == match result { Ok(v) => Either::<L, R>::Right(v), Err(e) => Either::Left(e) },
//@ fn datatypes/either.rs Either[BinaryHKT]::map_second props C06,C20
    requires *self matches Either::Left(l) ==> f.requires((&l,)),
    ensures match *self { Either::Left(l) => r is Left && f.ensures((&l,), r->Left_0), Either::Right(v) => r == Either::<NewL, R>::Right(v) },
//@ fn datatypes/either.rs Either[BinaryHKT]::map_second_owned props C06,C20
    requires self matches Either::Left(l) ==> f.requires((l,)),
    ensures match self { Either::Left(l) => r is Left && f.ensures((l,), r->Left_0), Either::Right(v) => r == Either::<NewL, R>::Right(v) },
//@ fn datatypes/either.rs Either[Bifunctor]::first props C06,C20
    requires *self matches Either::Right(v) ==> f.requires((&v,)),
    ensures match *self { Either::Right(v) => r is Right && f.ensures((&v,), r->Right_0), Either::Left(l) => r == Either::<L, C>::Left(l) },
//@ fn datatypes/either.rs Either[Bifunctor]::second props C06,C20
    requires *self matches Either::Left(l) ==> g.requires((&l,)),
    ensures match *self { Either::Left(l) => r is Left && g.ensures((&l,), r->Left_0), Either::Right(v) => r == Either::<D, R>::Right(v) },
//@ fn datatypes/either.rs Either[Bifunctor]::bimap props C06,C20
    requires
        *self matches Either::Left(l) ==> g.requires((&l,)),
        *self matches Either::Right(v) ==> f.requires((&v,)),
    ensures match *self { Either::Left(l) => r is Left && g.ensures((&l,), r->Left_0), Either::Right(v) => r is Right && f.ensures((&v,), r->Right_0) },
//@ fn datatypes/either.rs Either[Identity]::value props C06
    requires self is Right,
    ensures *r == self->Right_0,
//@ fn datatypes/either.rs Either[Identity]::into_value props C06
    requires self is Right,
    ensures r == self->Right_0,
//@ fn datatypes/either.rs Either[MonadPlus]::mzero props C22
    ensures r is Left, call_ensures(L::default, (), r->Left_0),
//@ fn datatypes/either.rs Either[MonadPlus]::mplus props C22
    ensures r == match (*self, *other) { (Either::Left(_), Either::Right(_)) => *other, _ => *self },
//@ fn datatypes/either.rs Either[MonadPlus]::mplus_owned props C22
    ensures r == match (self, other) { (Either::Left(_), Either::Right(_)) => other, _ => self },
//@ fn datatypes/either.rs Either[Alternative]::empty_alt props C22
    ensures r is Left, call_ensures(L::default, (), r->Left_0),
//@ fn datatypes/either.rs Either[Alternative]::alt props C22
    ensures r == if self is Right { *self } else { *other },
//@ fn datatypes/either.rs Either[Alternative]::guard props C22
    ensures if condition { r == Either::<L, ()>::Right(()) } else { r is Left && call_ensures(L::default, (), r->Left_0) },
//@ fn datatypes/either.rs Either[Alternative]::many props C22
    ensures match *self { Either::Right(x) => r is Right && r->Right_0@ =~= seq![x], Either::Left(_) => r is Left && call_ensures(L::default, (), r->Left_0) },
//@ fn datatypes/id.rs Id::new props C06,C15
    ensures r.value == x,
//@ fn datatypes/id.rs Id::into_inner props C06,C15
    ensures r == self.value,
//@ fn datatypes/id.rs Id::unwrap props C06,C15
    ensures r == self.value,
//@ fn datatypes/id.rs Id::unwrap_or props C06,C15
    ensures r == self.value,
//@ fn datatypes/id.rs Id::then props C06
    ensures r.value == next.value,
//@ fn datatypes/id.rs Id[AsRef]::as_ref props C06
    ensures *r == self.value,
//@ fn datatypes/id.rs Id::from_ref props C06,C15
    ensures r.value == *x,
//@ fn datatypes/id.rs Id[Identity]::value as value_ props C06
    ensures *r == self.value,
//@ fn datatypes/id.rs Id[Identity]::into_value props C06
    ensures r == self.value,
//@ fn datatypes/id.rs Id[Comonad]::extract props C20
    ensures r == self.value,
//@ fn datatypes/id.rs Id[Comonad]::duplicate props C20
    ensures r == *self,
//@ fn datatypes/id.rs Id[Comonad]::extend props C20
    requires f.requires((self,)),
    ensures f.ensures((self,), r.value),
//@ fn datatypes/id.rs Id[From]::from as from_ props C15
    ensures r.value == value,
//@ fn datatypes/id.rs Id[Foldable]::fold_left props C17
    requires f.requires((init, &self.value)),
    ensures f.ensures((init, &self.value), r),
//@ fn datatypes/id.rs Id[Foldable]::fold_right props C17
    requires f.requires((&self.value, init)),
    ensures f.ensures((&self.value, init), r),
//@ fn traits/functor.rs Option<T>[FunctorExt]::filter_map as option_filter_map free props C06,C21
    requires *self_ matches Some(x) ==> f.requires((&x,)),
    ensures match *self_ { Some(x) => f.ensures((&x,), r), None => r is None },
//@ fn traits/functor.rs Option<T>[FunctorExt]::try_map_or as option_try_map_or free props C06,C21
    requires *self_ matches Some(x) ==> f.requires((&x,)),
    ensures match *self_ { Some(x) => r is Some && exists|o: Result<B, E>| #[trigger] f.ensures((&x,), o) && r->0 == (match o { Ok(b) => b, Err(_) => default }), None => r is None },
//@ fn traits/functor.rs Option<T>[FunctorExt]::try_map_or_else as option_try_map_or_else free props C06,C21
    requires *self_ matches Some(x) ==> f.requires((&x,)), forall|e: &E| #[trigger] default_fn.requires((e,)),
    ensures match *self_ { Some(x) => r is Some && exists|o: Result<B, E>| #[trigger] f.ensures((&x,), o) && (match o { Ok(b) => r->0 == b, Err(e) => default_fn.ensures((&e,), r->0) }), None => r is None },
//@ fn traits/functor.rs Result<T,E>[FunctorExt]::filter_map as result_filter_map free props C06,C21
    requires *self_ matches Ok(x) ==> f.requires((&x,)),
    ensures match *self_ {
        Ok(x) => exists|o: Option<B>| #[trigger] f.ensures((&x,), o) && (match o { Some(b) => r == Ok::<B, E>(b), None => r is Err && call_ensures(E::default, (), r->Err_0) }),
        Err(e) => r == Err::<B, E>(e) },
//@ fn traits/functor.rs Result<T,E>[FunctorExt]::try_map_or as result_try_map_or free props C06,C21
    requires *self_ matches Ok(x) ==> f.requires((&x,)),
    ensures match *self_ {
        Ok(x) => r is Ok && exists|o: Result<B, E2>| #[trigger] f.ensures((&x,), o) && r->Ok_0 == (match o { Ok(b) => b, Err(_) => default }),
        Err(e) => r == Err::<B, E>(e) },
//@ fn traits/functor.rs Result<T,E>[FunctorExt]::try_map_or_else as result_try_map_or_else free props C06,C21
    requires *self_ matches Ok(x) ==> f.requires((&x,)), forall|e: &E2| #[trigger] default_fn.requires((e,)),
    ensures match *self_ {
        Ok(x) => r is Ok && exists|o: Result<B, E2>| #[trigger] f.ensures((&x,), o) && (match o { Ok(b) => r->Ok_0 == b, Err(e) => default_fn.ensures((&e,), r->Ok_0) }),
        Err(e) => r == Err::<B, E>(e) },
//@ fn traits/alternative.rs Option<T>[Alternative]::empty_alt as option_empty_alt free props C22
    ensures r is None,
//@ fn traits/alternative.rs Option<T>[Alternative]::alt as option_alt free props C22
    ensures r == if self_ is Some { *self_ } else { *other },
//@ closure 0 || -> (o: Option<T>)
    ensures o == *other,
//@ fn traits/alternative.rs Option<T>[Alternative]::many as option_many free props C22
    ensures match *self_ { Some(x) => r is Some && r->0@ =~= seq![x], None => r is None },
//@ closure 0 |value: &T| -> (o: Vec<T>)
    ensures o@ =~= seq![*value],
//@ fn traits/alternative.rs Vec<T>[Alternative]::empty_alt as vec_empty_alt free props C22
    ensures r@.len() == 0,
//@ fn traits/alternative.rs Vec<T>[Alternative]::alt as vec_alt free props C22
    ensures r@ =~= if self_@.len() == 0 { other@ } else { self_@ },
//@ fn traits/alternative.rs Vec<T>[Alternative]::guard as vec_guard free props C22
    ensures r@.len() == if condition { 1int } else { 0 },
//@ fn traits/alternative.rs Vec<T>[Alternative]::many as vec_many free props C22
    ensures if self_@.len() == 0 { r@.len() == 0 } else { r@ =~= seq![*self_] },
//@ fn traits/monad_plus.rs Option<T>[MonadPlus]::mzero as option_mzero free props C22
    ensures r is None,
//@ fn traits/monad_plus.rs Option<T>[MonadPlus]::mplus as option_mplus free props C22
    ensures r == if self_ is Some { *self_ } else { *other },
//@ fn traits/monad_plus.rs Option<T>[MonadPlus]::mplus_owned as option_mplus_owned free props C22
    ensures r == if self_ is Some { self_ } else { other },
//@ fn traits/monad_plus.rs Result<T,E>[MonadPlus]::mzero as result_mzero free props C22
    ensures r is Err, call_ensures(E::default, (), r->Err_0),
//@ fn traits/monad_plus.rs Result<T,E>[MonadPlus]::mplus as result_mplus free props C22
    ensures r == if self_ is Ok { *self_ } else { *other },
//@ fn traits/monad_plus.rs Result<T,E>[MonadPlus]::mplus_owned as result_mplus_owned free props C22
    ensures r == if self_ is Ok { self_ } else { other },
//@ fn traits/monad_error.rs Result<T,E>[MonadError]::throw as result_throw free props C22
    ensures r == Err::<U, E>(error),
//@ fn traits/monad_error.rs Result<T,E>[MonadError]::catch as result_catch free props C22,C18
    requires *self_ matches Err(e) ==> f.requires((&e,)),
    ensures match *self_ { Ok(v) => r == Ok::<T, E>(v), Err(e) => f.ensures((&e,), r) },
//@ fn traits/monad_error.rs Result<T,E>[MonadError]::catch_owned as result_catch_owned free props C22,C18
    requires self_ matches Err(e) ==> f.requires((e,)),
    ensures match self_ { Ok(v) => r == Ok::<T, E>(v), Err(e) => f.ensures((e,), r) },
//@ fn traits/monad_error.rs Result<T,E>[ErrorMapper]::map_error_to as result_map_error_to free props C22,C18
    requires *self_ matches Err(e) ==> f.requires((&e,)),
    ensures match *self_ { Ok(v) => r == Ok::<T, NewE>(v), Err(e) => r is Err && f.ensures((&e,), r->Err_0) },
//@ fn traits/monad_error.rs Result<T,E>[ErrorMapper]::map_error_to_owned as result_map_error_to_owned free props C22,C18
    requires self_ matches Err(e) ==> f.requires((e,)),
    ensures match self_ { Ok(v) => r == Ok::<T, NewE>(v), Err(e) => r is Err && f.ensures((e,), r->Err_0) },
//@ fn traits/monad_error.rs Option<T>[MonadError]::throw as option_throw free props C22
    ensures r is None,
//@ fn traits/monad_error.rs Option<T>[MonadError]::catch as option_catch free props C22,C18
    requires self_ is None ==> f.requires((&(),)),
    ensures match *self_ { Some(v) => r == Some(v), None => f.ensures((&(),), r) },
//@ fn traits/monad_error.rs Option<T>[MonadError]::catch_owned as option_catch_owned free props C22,C18
    requires self_ is None ==> f.requires(((),)),
    ensures match self_ { Some(v) => r == Some(v), None => f.ensures(((),), r) },
//@ fn traits/monad_error.rs Option<T>[ErrorMapper]::map_error_to as option_map_error_to free props C22,C18
    requires self_ is None ==> f.requires((&(),)),
    ensures match *self_ { Some(v) => r == Ok::<T, NewE>(v), None => r is Err && f.ensures((&(),), r->Err_0) },
//@ fn traits/monad_error.rs Option<T>[ErrorMapper]::map_error_to_owned as option_map_error_to_owned free props C22,C18
    requires self_ is None ==> f.requires(((),)),
    ensures match self_ { Some(v) => r == Ok::<T, NewE>(v), None => r is Err && f.ensures(((),), r->Err_0) },
//@ fn traits/identity.rs Option<T>[Identity]::try_value as option_try_value free props C06
    ensures match *self_ { Some(v) => r == Some(&v), None => r is None },
//@ fn traits/identity.rs Option<T>[Identity]::try_into_value as option_try_into_value free props C06
    ensures r == self_,
//@ type traits/iso.rs ResultEitherIso
//@ fn traits/iso.rs ResultEitherIso[Iso]::forward as result_either_forward free props C15
    ensures r == match *from { Ok(v) => Either::<L, R>::Right(v), Err(e) => Either::Left(e) },
//@ fn traits/iso.rs ResultEitherIso[Iso]::backward as result_either_backward free props C15
    ensures r == match *to { Either::Right(v) => Ok::<R, L>(v), Either::Left(e) => Err(e) },
