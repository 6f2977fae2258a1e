// The wrapper types as containers of one value, and the identity interface.
//@ include inc/option
//@ include inc/result
//@ assoc First Output First<$0>
//@ assoc First Source T
//@ assoc Last Output Last<$0>
//@ assoc Last Source T
//@ assoc Max Output Max<$0>
//@ assoc Max Source T
//@ assoc Min Output Min<$0>
//@ assoc Min Source T
//@ assoc Sum Output Sum<$0>
//@ assoc Sum Source T
//@ assoc Product Output Product<$0>
//@ assoc Product Source T
//@ assoc Option<T> Source T
//@ assoc Result<T,E> Source T
//@ type datatypes/wrapper/first.rs First
//@ type datatypes/wrapper/last.rs Last
//@ type datatypes/wrapper/max.rs Max
//@ type datatypes/wrapper/min.rs Min
//@ type datatypes/wrapper/sum.rs Sum
//@ type datatypes/wrapper/product.rs Product
//@ raw
broadcast use {prelude_lemmas, faithful_clone, faithful_clone_call};
use core::ops::{Add, Mul};
//@ fn datatypes/wrapper/first.rs First[AsRef<T>]::as_ref props C05,C15
    requires self.0 is Some,
    ensures *r == self.0->0,
//@ fn datatypes/wrapper/first.rs First[Identity]::value props C15
    requires self.0 is Some,
    ensures *r == self.0->0,
//@ fn datatypes/wrapper/first.rs First[Identity]::into_value props C15
    requires self.0 is Some,
    ensures r == self.0->0,
//@ fn datatypes/wrapper/first.rs First[Identity]::try_value provided traits/identity.rs props C15
    requires self.0 is Some,
    ensures r == Some(&self.0->0),
//@ fn datatypes/wrapper/first.rs First[Identity]::try_into_value provided traits/identity.rs props C15
    requires self.0 is Some,
    ensures r == Some(self.0->0),
//@ fn datatypes/wrapper/first.rs First[Functor]::fmap props C06
    requires self.0 matches Some(x) ==> f.requires((&x,)),
    ensures self.0 matches Some(x) ==> r.0 is Some && f.ensures((&x,), r.0->0), self.0 is None ==> r.0 is None,
//@ fn datatypes/wrapper/first.rs First[Functor]::fmap_owned props C06
    requires self.0 matches Some(x) ==> f.requires((x,)),
    ensures self.0 matches Some(x) ==> r.0 is Some && f.ensures((x,), r.0->0), self.0 is None ==> r.0 is None,
//@ fn datatypes/wrapper/first.rs First[From<T>]::from props C15
    ensures r.0 == Some(value),
//@ fn datatypes/wrapper/last.rs Last[AsRef<T>]::as_ref props C05,C15
    requires self.0 is Some,
    ensures *r == self.0->0,
//@ fn datatypes/wrapper/last.rs Last[Identity]::value props C15
    requires self.0 is Some,
    ensures *r == self.0->0,
//@ fn datatypes/wrapper/last.rs Last[Identity]::into_value props C15
    requires self.0 is Some,
    ensures r == self.0->0,
//@ fn datatypes/wrapper/last.rs Last[Identity]::try_value provided traits/identity.rs props C15
    requires self.0 is Some,
    ensures r == Some(&self.0->0),
//@ fn datatypes/wrapper/last.rs Last[Identity]::try_into_value provided traits/identity.rs props C15
    requires self.0 is Some,
    ensures r == Some(self.0->0),
//@ fn datatypes/wrapper/last.rs Last[Functor]::fmap props C06
    requires self.0 matches Some(x) ==> f.requires((&x,)),
    ensures self.0 matches Some(x) ==> r.0 is Some && f.ensures((&x,), r.0->0), self.0 is None ==> r.0 is None,
//@ fn datatypes/wrapper/last.rs Last[Functor]::fmap_owned props C06
    requires self.0 matches Some(x) ==> f.requires((x,)),
    ensures self.0 matches Some(x) ==> r.0 is Some && f.ensures((x,), r.0->0), self.0 is None ==> r.0 is None,
//@ fn datatypes/wrapper/last.rs Last[From<T>]::from props C15
    ensures r.0 == Some(value),
//@ fn datatypes/wrapper/max.rs Max[AsRef<T>]::as_ref props C05,C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/max.rs Max[Identity]::value props C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/max.rs Max[Identity]::into_value props C15
    ensures r == self.0,
//@ fn datatypes/wrapper/max.rs Max[Identity]::try_value provided traits/identity.rs props C15
    ensures r == Some(&self.0),
//@ fn datatypes/wrapper/max.rs Max[Identity]::try_into_value provided traits/identity.rs props C15
    ensures r == Some(self.0),
//@ fn datatypes/wrapper/max.rs Max[Functor]::fmap props C06
    requires f.requires((&self.0,)),
    ensures f.ensures((&self.0,), r.0),
//@ fn datatypes/wrapper/max.rs Max[Functor]::fmap_owned props C06
    requires f.requires((self.0,)),
    ensures f.ensures((self.0,), r.0),
//@ fn datatypes/wrapper/max.rs Max[From<T>]::from props C15
    ensures r.0 == value,
//@ fn datatypes/wrapper/min.rs Min[AsRef<T>]::as_ref props C05,C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/min.rs Min[Identity]::value props C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/min.rs Min[Identity]::into_value props C15
    ensures r == self.0,
//@ fn datatypes/wrapper/min.rs Min[Identity]::try_value provided traits/identity.rs props C15
    ensures r == Some(&self.0),
//@ fn datatypes/wrapper/min.rs Min[Identity]::try_into_value provided traits/identity.rs props C15
    ensures r == Some(self.0),
//@ fn datatypes/wrapper/min.rs Min[Functor]::fmap props C06
    requires f.requires((&self.0,)),
    ensures f.ensures((&self.0,), r.0),
//@ fn datatypes/wrapper/min.rs Min[Functor]::fmap_owned props C06
    requires f.requires((self.0,)),
    ensures f.ensures((self.0,), r.0),
//@ fn datatypes/wrapper/min.rs Min[From<T>]::from props C15
    ensures r.0 == value,
//@ fn datatypes/wrapper/sum.rs Sum[AsRef<T>]::as_ref props C05,C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/sum.rs Sum[Identity]::value props C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/sum.rs Sum[Identity]::into_value props C15
    ensures r == self.0,
//@ fn datatypes/wrapper/sum.rs Sum[Identity]::try_value provided traits/identity.rs props C15
    ensures r == Some(&self.0),
//@ fn datatypes/wrapper/sum.rs Sum[Identity]::try_into_value provided traits/identity.rs props C15
    ensures r == Some(self.0),
//@ fn datatypes/wrapper/sum.rs Sum[Functor]::fmap props C06
    requires f.requires((&self.0,)),
    ensures f.ensures((&self.0,), r.0),
//@ fn datatypes/wrapper/sum.rs Sum[Functor]::fmap_owned props C06
    requires f.requires((self.0,)),
    ensures f.ensures((self.0,), r.0),
//@ fn datatypes/wrapper/sum.rs Sum[From<T>]::from props C15
    ensures r.0 == value,
//@ fn datatypes/wrapper/product.rs Product[AsRef<T>]::as_ref props C05,C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/product.rs Product[Identity]::value props C15
    ensures *r == self.0,
//@ fn datatypes/wrapper/product.rs Product[Identity]::into_value props C15
    ensures r == self.0,
//@ fn datatypes/wrapper/product.rs Product[Identity]::try_value provided traits/identity.rs props C15
    ensures r == Some(&self.0),
//@ fn datatypes/wrapper/product.rs Product[Identity]::try_into_value provided traits/identity.rs props C15
    ensures r == Some(self.0),
//@ fn datatypes/wrapper/product.rs Product[Functor]::fmap props C06
    requires f.requires((&self.0,)),
    ensures f.ensures((&self.0,), r.0),
//@ fn datatypes/wrapper/product.rs Product[Functor]::fmap_owned props C06
    requires f.requires((self.0,)),
    ensures f.ensures((self.0,), r.0),
//@ fn datatypes/wrapper/product.rs Product[From<T>]::from props C15
    ensures r.0 == value,

//@ fn traits/identity.rs Option<T>[Identity]::value as option_value free props C15
    requires self_ is Some,
    ensures *r == self_->0,
//@ fn traits/identity.rs Option<T>[Identity]::into_value as option_into_value free props C15
    requires self_ is Some,
    ensures r == self_->0,
//@ fn traits/identity.rs Result<T,E>[Identity]::value as result_value free props C15
    requires self_ is Ok,
    ensures *r == self_->Ok_0,
//@ fn traits/identity.rs Result<T,E>[Identity]::try_value as result_try_value free props C15
    ensures r == (match *self_ { Ok(x) => Some(&x), Err(_) => None::<&T> }),
//@ fn traits/identity.rs Result<T,E>[Identity]::into_value as result_into_value free props C15
    requires self_ is Ok,
    ensures r == self_->Ok_0,
//@ fn traits/identity.rs Result<T,E>[Identity]::try_into_value as result_try_into_value free props C15
    ensures r == (match self_ { Ok(x) => Some(x), Err(_) => None::<T> }),
