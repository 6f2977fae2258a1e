//@ method iter iter_
//@ method into into_to_
//@ method into_iter into_iter_
//@ method as_ref as_ref_
//@ method extend extend_
//@ method to_vec to_vec_
//@ method rev rev_
//@ method sort sort_
//@ method swap swap_
//@ path SmallVec::new Vec::new
//@ path SmallVec::with_capacity Vec::with_capacity
//@ path SmallVec::from_vec vec_id_
//@ path std::iter::once once_
//@ path iter::once once_
//@ path once once_
//@ path std::collections::HashSet::new HashSet::new
//@ path std::collections::HashMap::with_capacity HashMap::with_capacity
//@ path std::collections::HashMap HashMap
//@ bound IntoIterator IntoIt
//@ bound Iterator IntoIt
//@ bound FnMut Fn
//@ bound Into IntoTo
//@ assoc Choice Source T
//@ assoc Choice Output Choice<$0>
//@ type datatypes/choice.rs Choice
//@ raw
broadcast use {prelude_lemmas, prelude_len, prelude_present};
use std::hash::Hash;
//@ include inc/hash
//@ raw
/// Which positions hold a key for the first time.
pub open spec fn firsts<K>(keys: Seq<K>) -> Seq<bool> { Seq::new(keys.len(), |i: int| !keys.take(i).contains(keys[i])) }
pub proof fn lemma_firsts<X, K>(s: Seq<X>, keys: Seq<K>, n: int)
    requires 0 <= n < s.len(), s.len() == keys.len(),
    ensures
        select(s.take(n + 1), firsts(keys.take(n + 1))) == (if keys.take(n).contains(keys[n]) { select(s.take(n), firsts(keys.take(n))) } else { select(s.take(n), firsts(keys.take(n))).push(s[n]) }),
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    let f = firsts(keys.take(n + 1));
    assert forall|i: int| 0 <= i < n implies #[trigger] f.drop_last()[i] == firsts(keys.take(n))[i] by {
        assert(keys.take(n + 1).take(i) =~= keys.take(n).take(i));
    }
    assert(f.drop_last() =~= firsts(keys.take(n)));
    assert(keys.take(n + 1).take(n) =~= keys.take(n));
}
/// `m` holds, under each of the keys, the first value that has it.
pub open spec fn first_under<X, K>(m: Map<K, X>, s: Seq<X>, keys: Seq<K>) -> bool {
    &&& forall|k: K| #[trigger] m.dom().contains(k) <==> keys.contains(k)
    &&& forall|i: int| 0 <= i < keys.len() && !keys.take(i).contains(#[trigger] keys[i]) ==> m[keys[i]] == s[i]
}
pub proof fn lemma_take_push<K>(s: Seq<K>, k: K)
    ensures
        s.push(k).take(s.len() as int) == s,
        forall|x: K| #[trigger] s.push(k).contains(x) <==> s.contains(x) || x == k,
        forall|i: int| 0 <= i <= s.len() ==> s.push(k).take(i) == #[trigger] s.take(i),
{
    assert(s.push(k).take(s.len() as int) =~= s);
    assert forall|x: K| #[trigger] s.push(k).contains(x) <==> s.contains(x) || x == k by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(k)[i] == x); }
        assert(s.push(k)[s.len() as int] == k);
    }
    assert forall|i: int| 0 <= i <= s.len() implies s.push(k).take(i) == #[trigger] s.take(i) by {
        assert(s.push(k).take(i) =~= s.take(i));
    }
}
impl<T: Clone> Clone for Choice<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl<X> IntoIt<X> for Choice<X> {
    open spec fn items(&self) -> Seq<X> { self.values@ }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<X>) { unimplemented!() }
}
/// Every function of `fs` applied to every value of `vs`, value by value.
pub open spec fn applied<A, B, F: Fn(&A) -> B>(fs: Seq<F>, vs: Seq<A>, r: Seq<B>) -> bool {
    r.len() == fs.len() * vs.len()
        && forall|k: int| 0 <= k < r.len() ==> fs[k % fs.len() as int].ensures((&vs[k / fs.len() as int],), #[trigger] r[k])
}
pub open spec fn applied_owned<A, B, F: Fn(A) -> B>(fs: Seq<F>, vs: Seq<A>, r: Seq<B>) -> bool {
    r.len() == fs.len() * vs.len()
        && forall|k: int| 0 <= k < r.len() ==> fs[k % fs.len() as int].ensures((vs[k / fs.len() as int],), #[trigger] r[k])
}
pub proof fn lemma_divmod(i: int, j: int, n: int)
    requires 0 <= i, 0 <= j < n,
    ensures (i * n + j) / n == i, (i * n + j) % n == j, i * n >= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n, i, j);
    vstd::arithmetic::mul::lemma_mul_nonnegative(i, n);
}
pub proof fn lemma_split(k: int, n: int)
    requires 0 <= k, 0 < n,
    ensures k == (k / n) * n + k % n, 0 <= k % n < n, 0 <= k / n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, n);
    vstd::arithmetic::mul::lemma_mul_is_commutative(n, k / n);
}
pub proof fn lemma_bound(k: int, n: int, m: int)
    requires 0 <= k < n * m, 0 < n,
    ensures 0 <= k / n < m,
{
    lemma_split(k, n);
    assert(k / n < m) by (nonlinear_arith) requires k < n * m, 0 < n, k == (k / n) * n + k % n, 0 <= k % n;
}
/// Blocks of equal length, joined.
pub proof fn lemma_joined_blocks<X>(s: Seq<Seq<X>>, n: int)
    requires n > 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == n,
    ensures joined(s).len() == n * s.len(), forall|k: int| 0 <= k < joined(s).len() ==> #[trigger] joined(s)[k] == s[k / n][k % n],
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_joined_blocks(p, n);
        assert(joined(s) == joined(p) + s.last());
        assert(n * s.len() == n * p.len() + n) by (nonlinear_arith) requires s.len() == p.len() + 1;
        assert forall|k: int| 0 <= k < joined(s).len() implies #[trigger] joined(s)[k] == s[k / n][k % n] by {
            if k < joined(p).len() {
                lemma_bound(k, n, p.len() as int);
                assert(joined(s)[k] == joined(p)[k]);
                assert(p[k / n] == s[k / n]);
            } else {
                let j = k - n * p.len();
                vstd::arithmetic::mul::lemma_mul_is_commutative(n, p.len() as int);
                lemma_divmod(p.len() as int, j, n);
                assert(k == p.len() * n + j);
            }
        }
    } else {
        assert(n * 0 == 0) by (nonlinear_arith);
    }
}
pub proof fn lemma_joined_snoc<X>(s: Seq<Seq<X>>, a: Seq<X>)
    ensures joined(s.push(a)) == joined(s) + a,
{
    assert(s.push(a).drop_last() =~= s);
}
//@ fn datatypes/choice.rs Choice::new_empty props C07
    ensures r.values@ == Seq::<T>::empty(),
//@ fn datatypes/choice.rs Choice::new props C07
    requires alternatives.items().len() < usize::MAX,
    ensures r.values@ =~= seq![item] + alternatives.items(),
//@ fn datatypes/choice.rs Choice::first props C07
    ensures r == (if self.values@.len() > 0 { Some(&self.values@[0]) } else { None }),
//@ fn datatypes/choice.rs Choice::alternatives props C07
    ensures r@ =~= (if self.values@.len() > 0 { self.values@.skip(1) } else { Seq::empty() }),
//@ fn datatypes/choice.rs Choice::has_alternatives props C07
    ensures r == (self.values@.len() > 1),
//@ fn datatypes/choice.rs Choice::len props C07
    ensures r == self.values@.len(),
//@ fn datatypes/choice.rs Choice::is_empty props C07
    ensures r == (self.values@.len() == 0),
//@ fn datatypes/choice.rs Choice::to_vec props C07
    ensures r@ == self.values@,
//@ fn datatypes/choice.rs Choice::iter as iter_ props C07
    ensures r.fresh(refs(self.values@)),
//@ fn datatypes/choice.rs Choice::iter_alternatives props C07
    ensures r.fresh(refs(self.values@).skip(if self.values@.len() > 0 { 1 } else { 0 })),
//@ fn datatypes/choice.rs Choice::find_first props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> predicate.requires((&&#[trigger] self.values@[i],)),
    ensures found(predicate, refs(self.values@), r),
//@ fn datatypes/choice.rs Choice::dedup props C07
    ensures r.values@ == select(self.values@, firsts(self.values@)),
//@ loop 0
    invariant
        __it0.orig() == refs(self.values@), 0 <= __it0.pos() <= self.values@.len(),
        forall|x: T| #[trigger] seen@.contains(&x) <==> self.values@.take(__it0.pos()).contains(x),
        result@ == select(self.values@.take(__it0.pos()), firsts(self.values@.take(__it0.pos()))),
    ensures __it0.pos() == self.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost n = __it0.pos() - 1;
    proof {
        lemma_firsts(self.values@, self.values@, n);
        lemma_take_push(self.values@.take(n), self.values@[n]);
        assert(self.values@.take(n).push(self.values@[n]) =~= self.values@.take(n + 1));
    }
//@ at after loop 0
    proof { assert(self.values@.take(self.values@.len() as int) =~= self.values@); }
//@ fn datatypes/choice.rs Choice::dedup_by_key props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> key_fn.requires((&#[trigger] self.values@[i],)),
    ensures exists|keys: Seq<K>| keys.len() == self.values@.len()
            && (forall|i: int| 0 <= i < keys.len() ==> key_fn.ensures((&self.values@[i],), #[trigger] keys[i]))
            && r.values@ == select(self.values@, #[trigger] firsts(keys)),
//@ at start
    let ghost mut keys: Seq<K> = seq![];
    proof { assert(firsts(keys) =~= Seq::empty()); }
//@ loop 0
    invariant
        __it0.orig() == refs(self.values@), 0 <= __it0.pos() <= self.values@.len(), keys.len() == __it0.pos(),
        forall|i: int| 0 <= i < self.values@.len() ==> key_fn.requires((&#[trigger] self.values@[i],)),
        forall|i: int| 0 <= i < keys.len() ==> key_fn.ensures((&self.values@[i],), #[trigger] keys[i]),
        forall|k: K| #[trigger] seen@.contains(k) <==> keys.contains(k),
        result@ == select(self.values@.take(__it0.pos()), firsts(keys)),
    ensures __it0.pos() == self.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at let key
    proof {
        let n = __it0.pos() - 1;
        lemma_take_push(keys, key);
        lemma_firsts(self.values@.take(n + 1), keys.push(key), n);
        assert(self.values@.take(n + 1).take(n) =~= self.values@.take(n));
        assert(self.values@.take(n + 1).take(n + 1) =~= self.values@.take(n + 1));
        assert(keys.push(key).take(n + 1) =~= keys.push(key));
        keys = keys.push(key);
    }
//@ at after loop 0
    proof { assert(self.values@.take(self.values@.len() as int) =~= self.values@); }
//@ fn datatypes/choice.rs Choice::to_map_with_key props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
    ensures exists|keys: Seq<K>| keys.len() == self.values@.len()
            && (forall|i: int| 0 <= i < keys.len() ==> f.ensures((&self.values@[i],), #[trigger] keys[i]))
            && #[trigger] first_under(r@, self.values@, keys),
//@ retty HashMap<K, T>
//@ closure 0 || -> (q: T)
    ensures q == *value,
//@ at start
    let ghost mut keys: Seq<K> = seq![];
//@ loop 0
    invariant
        __it0.orig() == refs(self.values@), 0 <= __it0.pos() <= self.values@.len(), keys.len() == __it0.pos(),
        forall|i: int| 0 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
        forall|i: int| 0 <= i < keys.len() ==> f.ensures((&self.values@[i],), #[trigger] keys[i]),
        first_under(map@, self.values@, keys),
    ensures __it0.pos() == self.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost m0 = map@;
//@ at loop 0 end
    proof {
        let k = choose|k: K| #[trigger] f.ensures((value,), k) && map@ =~= (if m0.contains_key(k) { m0 } else { m0.insert(k, *value) });
        assert(f.ensures((value,), k) && map@ =~= (if m0.contains_key(k) { m0 } else { m0.insert(k, *value) }));
        lemma_take_push(keys, k);
        assert(keys.push(k)[keys.len() as int] == k);
        keys = keys.push(k);
    }
//@ fn datatypes/choice.rs Choice::fold props C07
    requires forall|b: B, i: int| 0 <= i < self.values@.len() ==> #[trigger] f.requires((b, &self.values@[i])),
    ensures folds(f, initial, refs(self.values@), r),
//@ fn datatypes/choice.rs Choice::add_alternatives props C07
    ensures r.values@ == self.values@ + items.items(),
//@ fn datatypes/choice.rs Choice::remove_alternative props C07
    requires self.values@.len() > 1, index < self.values@.len() - 1,
    ensures r.values@ =~= self.values@.remove(index + 1),
//@ fn datatypes/choice.rs Choice::try_remove_alternative props C07
    ensures
        index + 1 < self.values@.len() ==> (r matches Ok(q) && q.values@ =~= self.values@.remove(index + 1)),
        index + 1 >= self.values@.len() ==> r is Err,
//@ fn datatypes/choice.rs Choice::filter props C07
    requires forall|i: int| 1 <= i < self.values@.len() ==> predicate.requires((&#[trigger] self.values@[i],)),
    ensures
        self.values@.len() == 0 ==> r.values@.len() == 0,
        self.values@.len() > 0 ==> exists|keep: Seq<bool>| keep.len() == self.values@.len() - 1
            && (forall|i: int| 0 <= i < keep.len() ==> predicate.ensures((&self.values@[i + 1],), #[trigger] keep[i]))
            && r.values@ =~= seq![self.values@[0]] + #[trigger] select(self.values@.skip(1), keep),
//@ closure 0 |v: &&T| -> (q: bool)
    requires predicate.requires((*v,)),
    ensures predicate.ensures((*v,), q),
//@ at start
    proof { if self.values@.len() > 0 { assert(refs(self.values@).skip(1) =~= refs(self.values@.skip(1))); } }
//@ fn datatypes/choice.rs Choice::fmap_alternatives props C07
    requires forall|i: int| 1 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)), self.values@.len() < usize::MAX,
    ensures
        r.values@.len() == self.values@.len(),
        self.values@.len() > 0 ==> r.values@[0] == self.values@[0],
        forall|i: int| 1 <= i < self.values@.len() ==> f.ensures((&self.values@[i],), #[trigger] r.values@[i]),
//@ loop 0
    invariant
        __it0.orig() == refs(self.values@.skip(1)), 0 <= __it0.pos() <= self.values@.len() - 1, self.values@.len() > 1,
        new_alternatives@.len() == __it0.pos(),
        forall|i: int| 1 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
        forall|i: int| 0 <= i < new_alternatives@.len() ==> f.ensures((&self.values@[i + 1],), #[trigger] new_alternatives@[i]),
    ensures __it0.pos() == self.values@.len() - 1,
    decreases __it0.orig().len() - __it0.pos(),
//@ fn datatypes/choice.rs Choice::of_many props C07
    ensures r.values@ == many.items(),
//@ fn datatypes/choice.rs Choice::filter_values props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> predicate.requires((&#[trigger] self.values@[i],)),
    ensures exists|keep: Seq<bool>| keep.len() == self.values@.len()
            && (forall|i: int| 0 <= i < keep.len() ==> predicate.ensures((&self.values@[i],), #[trigger] keep[i]))
            && r.values@ == #[trigger] select(self.values@, keep),
//@ closure 0 |v: &&T| -> (q: bool)
    requires predicate.requires((*v,)),
    ensures predicate.ensures((*v,), q),
//@ fn datatypes/choice.rs Choice[FromIterator<T>]::from_iter props C07
    ensures r.values@ == iter.items(),
//@ fn datatypes/choice.rs Choice[Pure]::pure props C07
    ensures r.values@ == seq![*value],
//@ fn datatypes/choice.rs Choice[Pure]::pure_owned props C07
    ensures r.values@ == seq![value],
//@ fn datatypes/choice.rs Choice[Identity]::value props C07
    requires self.values@.len() > 0,
    ensures *r == self.values@[0],
//@ fn datatypes/choice.rs Choice[Identity]::into_value props C07
    requires self.values@.len() > 0,
    ensures r == self.values@[0],
//@ fn datatypes/choice.rs Choice[Functor]::fmap props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
    ensures r.values@.len() == self.values@.len(), forall|i: int| 0 <= i < self.values@.len() ==> f.ensures((&self.values@[i],), #[trigger] r.values@[i]),
//@ fn datatypes/choice.rs Choice[Functor]::fmap_owned props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((#[trigger] self.values@[i],)),
    ensures r.values@.len() == self.values@.len(), forall|i: int| 0 <= i < self.values@.len() ==> f.ensures((self.values@[i],), #[trigger] r.values@[i]),
//@ fn datatypes/choice.rs Choice[Monoid]::empty props C07,C05
    ensures r.values@ == Seq::<T>::empty(),
//@ fn datatypes/choice.rs Choice[Semigroup]::combine props C07,C05
    requires self.values@.len() + other.values@.len() <= usize::MAX,
    ensures r.values@ =~= self.values@ + other.values@,
//@ fn datatypes/choice.rs Choice[Semigroup]::combine_owned props C07,C05
    requires self.values@.len() + other.values@.len() <= usize::MAX,
    ensures r.values@ =~= self.values@ + other.values@,
//@ fn datatypes/choice.rs Choice[MonadPlus]::mzero props C07,C22
    ensures r.values@ == Seq::<U>::empty(),
//@ fn datatypes/choice.rs Choice[MonadPlus]::mplus props C07,C22
    requires self.values@.len() + other.values@.len() <= usize::MAX,
    ensures r.values@ =~= self.values@ + other.values@,
//@ fn datatypes/choice.rs Choice[MonadPlus]::mplus_owned props C07,C22
    requires self.values@.len() + other.values@.len() <= usize::MAX,
    ensures r.values@ =~= self.values@ + other.values@,
//@ fn datatypes/choice.rs Choice[Alternative]::alt props C07,C22
    requires self.values@.len() + other.values@.len() <= usize::MAX,
    ensures r.values@ =~= self.values@ + other.values@,
//@ fn datatypes/choice.rs Choice[Alternative]::empty_alt props C07,C22
    ensures r.values@ == Seq::<B>::empty(),
//@ fn datatypes/choice.rs Choice[Alternative]::guard props C07,C22
    ensures r.values@.len() == (if condition { 1int } else { 0 }),
//@ fn datatypes/choice.rs Choice[Alternative]::many props C07,C22
    ensures
        self.values@.len() == 0 ==> r.values@.len() == 0,
        self.values@.len() > 0 ==> r.values@.len() == 1 && r.values@[0]@ =~= seq![self.values@[0]],
//@ fn datatypes/choice.rs Choice[From<Vec<T>>]::from as from_vec_ props C07,C15
    ensures r.values@ =~= v@,
//@ at start
    let len_ = v.len();
//@ fn datatypes/choice.rs Choice[From<&[T]>]::from as from_slice_ props C07,C15
    ensures r.values@ =~= slice@,
//@ at start
    let len_ = slice.len();
//@ fn datatypes/choice.rs Choice[Default]::default props C07
    ensures r.values@ == Seq::<T>::empty(),
//@ raw
pub open spec fn lists<T>(s: Seq<Choice<T>>) -> Seq<Seq<T>> { s.map_values(|c: Choice<T>| c.values@) }
pub proof fn lemma_lists_push<T>(s: Seq<Choice<T>>, c: Choice<T>)
    ensures joined(lists(s.push(c))) == joined(lists(s)) + c.values@,
{
    assert(lists(s.push(c)) =~= lists(s).push(c.values@));
    lemma_joined_snoc(lists(s), c.values@);
}
//@ fn datatypes/choice.rs Choice[FromIterator<Choice<T>>]::from_iter as from_choices_ props C07
    ensures r.values@ =~= joined(lists(iter.items())),
//@ closure 0 |choice: Choice<T>| -> (q: SmallVec<[T; 8]>)
    ensures q == choice.values,
//@ at let values
    proof {
        assert forall|o: Seq<SmallVec<[T; 8]>>| o.len() == iter.items().len() && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == iter.items()[i].values)
            implies #[trigger] parts::<T, SmallVec<[T; 8]>>(o) == lists(iter.items()) by { assert(parts::<T, SmallVec<[T; 8]>>(o) =~= lists(iter.items())); }
    }
//@ fn datatypes/choice.rs Vec<T>[From<Choice<T>>]::from as vec_from_choice_ free props C07,C15
    ensures r@ == choice.values@,
//@ fn datatypes/choice.rs Choice<T>[IntoIterator]::into_iter as into_iter_owned_ props C07
//@ retty It<T>
    ensures r.fresh(self.values@),
//@ fn datatypes/choice.rs Choice<Option<T>>::sequence props C07,C21
    ensures
        (forall|i: int| 0 <= i < self.values@.len() ==> #[trigger] self.values@[i] is Some) ==> (r matches Some(q) && q.values@ =~= somes(self.values@)),
        (exists|i: int| 0 <= i < self.values@.len() && #[trigger] self.values@[i] is None) ==> r is None,
//@ closure 0 |values: SmallVec<[T; 8]>| -> (q: Choice<T>)
    ensures q.values == values,
//@ fn datatypes/choice.rs Choice::swap_with_alternative props C07
    requires alt_index + 1 < self.values@.len(),
    ensures r.values@ =~= self.values@.update(0, self.values@[alt_index + 1]).update(alt_index + 1, self.values@[0]),
//@ fn datatypes/choice.rs Choice::try_swap_with_alternative props C07
    ensures
        alt_index + 1 < self.values@.len() ==> (r matches Ok(q) && q.values@ =~= self.values@.update(0, self.values@[alt_index + 1]).update(alt_index + 1, self.values@[0])),
        alt_index + 1 >= self.values@.len() ==> r is Err,
//@ fn datatypes/choice.rs Choice[Foldable]::fold_left props C07,C17
    requires forall|b: B, i: int| 0 <= i < self.values@.len() ==> #[trigger] f.requires((&b, &self.values@[i])),
    ensures exists|a: Seq<B>| fold_left_steps(f, *initial, self.values@, a) && #[trigger] a.last() == r,
//@ closure 0 |acc: B, value: &T| -> (q: B)
    requires f.requires((&acc, value)),
    ensures f.ensures((&acc, value), q),
//@ fn datatypes/choice.rs Choice[Foldable]::fold_right props C07,C17
    requires forall|b: B, i: int| 0 <= i < self.values@.len() ==> #[trigger] f.requires((&self.values@[i], &b)),
    ensures exists|a: Seq<B>| fold_right_steps(f, *initial, self.values@.reverse(), a) && #[trigger] a.last() == r,
//@ closure 0 |acc: B, value: &T| -> (q: B)
    requires f.requires((value, &acc)),
    ensures f.ensures((value, &acc), q),
//@ fn datatypes/choice.rs Choice[Monad]::bind props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
    ensures exists|o: Seq<Choice<U>>| #[trigger] mapped(f, refs(self.values@), o) && r.values@ =~= joined(lists(o)),
//@ at before loop 0
    let ghost mut o_: Seq<Choice<U>> = Seq::empty();
//@ loop 0
    invariant
        __it0.orig() == refs(self.values@), 0 <= __it0.pos() <= self.values@.len(),
        forall|i: int| 0 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
        mapped(f, refs(self.values@).take(__it0.pos()), o_), values@ =~= joined(lists(o_)),
    ensures __it0.pos() == self.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost prev_ = values@;
//@ at loop 0 end
    proof {
        let c = choose|c: Choice<U>| f.ensures((__x0,), c) && values@ == prev_ + c.values@;
        lemma_lists_push(o_, c);
        o_ = o_.push(c);
    }
//@ at after loop 0
    proof { assert(refs(self.values@).take(self.values@.len() as int) =~= refs(self.values@)); }
//@ fn datatypes/choice.rs Choice[Monad]::bind_owned props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((#[trigger] self.values@[i],)),
    ensures exists|o: Seq<Choice<U>>| #[trigger] mapped(f, self.values@, o) && r.values@ =~= joined(lists(o)),
//@ at before loop 0
    let ghost mut o_: Seq<Choice<U>> = Seq::empty();
//@ loop 0
    invariant
        __it0.orig() == self.values@, 0 <= __it0.pos() <= self.values@.len(),
        forall|i: int| 0 <= i < self.values@.len() ==> f.requires((#[trigger] self.values@[i],)),
        mapped(f, self.values@.take(__it0.pos()), o_), values@ =~= joined(lists(o_)),
    ensures __it0.pos() == self.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost prev_ = values@;
//@ at loop 0 end
    proof {
        let c = choose|c: Choice<U>| f.ensures((__x0,), c) && values@ == prev_ + c.values@;
        lemma_lists_push(o_, c);
        o_ = o_.push(c);
    }
//@ at after loop 0
    proof { assert(self.values@.take(self.values@.len() as int) =~= self.values@); }
//@ fn datatypes/choice.rs Choice[Monad]::join props C07
    ensures r.values@ =~= joined(self.values@.map_values(|x: T| x.conv().values@)),
//@ loop 0
    invariant
        __it0.orig() == refs(self.values@), 0 <= __it0.pos() <= self.values@.len(),
        values@ =~= joined(self.values@.take(__it0.pos()).map_values(|x: T| x.conv().values@)),
    ensures __it0.pos() == self.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof {
        let k = __it0.pos();
        assert(self.values@.take(k).map_values(|x: T| x.conv().values@) =~= self.values@.take(k - 1).map_values(|x: T| x.conv().values@).push(self.values@[k - 1].conv().values@));
        lemma_joined_snoc(self.values@.take(k - 1).map_values(|x: T| x.conv().values@), self.values@[k - 1].conv().values@);
    }
//@ at after loop 0
    proof { assert(self.values@.take(self.values@.len() as int) =~= self.values@); }
//@ fn datatypes/choice.rs Choice[Monad]::join_owned props C07
    ensures r.values@ =~= joined(self.values@.map_values(|x: T| x.conv().values@)),
//@ loop 0
    invariant
        __it0.orig() == self.values@, 0 <= __it0.pos() <= self.values@.len(),
        values@ =~= joined(self.values@.take(__it0.pos()).map_values(|x: T| x.conv().values@)),
    ensures __it0.pos() == self.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof {
        let k = __it0.pos();
        assert(self.values@.take(k).map_values(|x: T| x.conv().values@) =~= self.values@.take(k - 1).map_values(|x: T| x.conv().values@).push(self.values@[k - 1].conv().values@));
        lemma_joined_snoc(self.values@.take(k - 1).map_values(|x: T| x.conv().values@), self.values@[k - 1].conv().values@);
    }
//@ at after loop 0
    proof { assert(self.values@.take(self.values@.len() as int) =~= self.values@); }
//@ raw
/// One block of `applied`.
pub open spec fn row<A, B, F: Fn(&A) -> B>(fs: Seq<F>, v: A, r: Seq<B>) -> bool {
    r.len() == fs.len() && forall|j: int| 0 <= j < fs.len() ==> fs[j].ensures((&v,), #[trigger] r[j])
}
pub proof fn lemma_rows<A, B, F: Fn(&A) -> B>(fs: Seq<F>, vs: Seq<A>, rows: Seq<Seq<B>>)
    requires fs.len() > 0, rows.len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> row(fs, vs[i], #[trigger] rows[i]),
    ensures applied(fs, vs, joined(rows)),
{
    let n = fs.len() as int;
    lemma_joined_blocks(rows, n);
    assert forall|k: int| 0 <= k < joined(rows).len() implies fs[k % n].ensures((&vs[k / n],), #[trigger] joined(rows)[k]) by {
        lemma_bound(k, n, vs.len() as int);
        lemma_split(k, n);
        assert(row(fs, vs[k / n], rows[k / n]));
        assert(rows[k / n][k % n] == joined(rows)[k]);
    }
}
//@ fn datatypes/choice.rs Choice[Applicative]::apply props C07
    requires
        forall|i: int, j: int| 0 <= i < value.values@.len() && 0 <= j < self.values@.len() ==> #[trigger] self.values@[j].requires((&#[trigger] value.values@[i],)),
        self.values@.len() * value.values@.len() <= usize::MAX,
    ensures
        self.values@.len() == 0 || value.values@.len() == 0 ==> r.values@.len() == 0,
        self.values@.len() > 0 && value.values@.len() > 0 ==> applied(self.values@, value.values@, r.values@),
//@ closure 0 |f_alt: &T| -> (q: B)
    requires f_alt.requires((&val_values@[0],)), val_values@.len() > 0,
    ensures f_alt.ensures((&val_values@[0],), q),
//@ closure 1 |val_alt: &A| -> (q: It<B>)
    requires forall|j: int| 0 <= j < func_values@.len() ==> (#[trigger] func_values@[j]).requires((val_alt,)), func_values@.len() > 0, *func_first == func_values@[0],
    ensures q.fresh(q.orig()), row(func_values@, *val_alt, q@),
//@ closure 2 |f_alt: &T| -> (q: B)
    requires f_alt.requires((val_alt,)),
    ensures f_alt.ensures((val_alt,), q),
//@ at let alternatives
    proof {
        let (fs, vs) = (self.values@, value.values@);
        let all = seq![primary] + alternatives@;
        assert forall|o: Seq<It<B>>, m: Seq<B>| m.len() == fs.len() - 1 && o.len() == vs.len() - 1
            && (forall|i: int| 0 <= i < m.len() ==> fs[i + 1].ensures((&vs[0],), #[trigger] m[i]))
            && (forall|i: int| 0 <= i < o.len() ==> row(fs, vs[i + 1], (#[trigger] o[i])@))
            && #[trigger] (m + joined(parts::<B, It<B>>(o))) == alternatives@
            implies applied(fs, vs, all) by {
            let first = seq![primary] + m;
            assert(row(fs, vs[0], first)) by {
                assert forall|j: int| 0 <= j < fs.len() implies fs[j].ensures((&vs[0],), #[trigger] first[j]) by { if j > 0 { assert(first[j] == m[j - 1]); } }
            }
            let rows = seq![first] + parts::<B, It<B>>(o);
            lemma_joined_cons(first, parts::<B, It<B>>(o));
            assert forall|i: int| 0 <= i < vs.len() implies row(fs, vs[i], #[trigger] rows[i]) by { if i > 0 { assert(rows[i] == o[i - 1]@); } }
            lemma_rows(fs, vs, rows);
            assert(joined(rows) =~= all);
        }
        assert(applied(fs, vs, all));
        assert(alternatives@.len() == all.len() - 1);
    }
//@ raw
pub open spec fn row_owned<A, B, F: Fn(A) -> B>(fs: Seq<F>, v: A, r: Seq<B>) -> bool {
    r.len() == fs.len() && forall|j: int| 0 <= j < fs.len() ==> fs[j].ensures((v,), #[trigger] r[j])
}
pub open spec fn row_tail<A, B, F: Fn(A) -> B>(fs: Seq<F>, v: A, r: Seq<B>) -> bool {
    r.len() == fs.len() - 1 && forall|j: int| 0 <= j < r.len() ==> fs[j + 1].ensures((v,), #[trigger] r[j])
}
pub proof fn lemma_rows_owned<A, B, F: Fn(A) -> B>(fs: Seq<F>, vs: Seq<A>, rows: Seq<Seq<B>>)
    requires fs.len() > 0, rows.len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> row_owned(fs, vs[i], #[trigger] rows[i]),
    ensures applied_owned(fs, vs, joined(rows)),
{
    let n = fs.len() as int;
    lemma_joined_blocks(rows, n);
    assert forall|k: int| 0 <= k < joined(rows).len() implies fs[k % n].ensures((vs[k / n],), #[trigger] joined(rows)[k]) by {
        lemma_bound(k, n, vs.len() as int);
        lemma_split(k, n);
        assert(row_owned(fs, vs[k / n], rows[k / n]));
        assert(rows[k / n][k % n] == joined(rows)[k]);
    }
}
//@ fn datatypes/choice.rs Choice::generate_apply_alternatives props C07
    requires
        forall|i: int, j: int| 0 <= i < val_values@.len() && 0 <= j < func_values@.len() ==> #[trigger] func_values@[j].requires((#[trigger] val_values@[i],)),
        func_values@.len() > 0, val_values@.len() > 0,
    ensures
        r@.len() == func_values@.len() * val_values@.len() - 1,
        forall|x: B| fs0_ensures(func_values@, val_values@, x) ==> applied_owned(func_values@, val_values@, #[trigger] (seq![x] + r@)),
//@ at start
    proof {
        let (fs, vs) = (func_values@, val_values@);
        assert forall|o: Seq<It<B>>| o.len() == vs.len()
            && (forall|i: int| 0 <= i < o.len() ==> (i > 0 ==> row_owned(fs, vs[i], (#[trigger] o[i])@)) && (i == 0 ==> row_tail(fs, vs[i], o[i]@)))
            implies #[trigger] joined(parts::<B, It<B>>(o)).len() == fs.len() * vs.len() - 1
                && forall|x: B| fs0_ensures(fs, vs, x) ==> applied_owned(fs, vs, #[trigger] (seq![x] + joined(parts::<B, It<B>>(o)))) by {
            let p = parts::<B, It<B>>(o);
            let tl = p.skip(1);
            assert(seq![p[0]] + tl =~= p);
            lemma_joined_cons(p[0], tl);
            assert forall|i: int| 0 <= i < tl.len() implies (#[trigger] tl[i]).len() == fs.len() by { assert(tl[i] == o[i + 1]@); }
            lemma_joined_blocks(tl, fs.len() as int);
            assert(row_tail(fs, vs[0], o[0]@));
            assert(fs.len() * tl.len() + fs.len() == fs.len() * vs.len()) by (nonlinear_arith) requires vs.len() == tl.len() + 1;
            assert forall|x: B| fs0_ensures(fs, vs, x) implies applied_owned(fs, vs, #[trigger] (seq![x] + joined(p))) by {
                let first = seq![x] + p[0];
                assert(row_owned(fs, vs[0], first)) by {
                    assert forall|j: int| 0 <= j < fs.len() implies fs[j].ensures((vs[0],), #[trigger] first[j]) by { if j > 0 { assert(first[j] == p[0][j - 1]); } }
                }
                let rows = seq![first] + tl;
                lemma_joined_cons(first, tl);
                assert forall|i: int| 0 <= i < vs.len() implies row_owned(fs, vs[i], #[trigger] rows[i]) by { if i > 0 { assert(rows[i] == o[i]@); } }
                lemma_rows_owned(fs, vs, rows);
                assert(joined(rows) =~= seq![x] + joined(p));
            }
        }
    }
//@ closure 0 |__p0: (usize, &A)| -> (q: It<B>)
    requires forall|j: int| 0 <= j < func_values@.len() ==> (#[trigger] func_values@[j]).requires((*__p0.1,)), func_values@.len() > 0,
    ensures q.fresh(q.orig()), __p0.0 > 0 ==> row_owned(func_values@, *__p0.1, q@), __p0.0 == 0 ==> row_tail(func_values@, *__p0.1, q@),
//@ closure 1 |__p0: (usize, &T)| -> (q: Option<B>)
    requires __p0.1.requires((*val,)),
    ensures
        q is None <==> i == 0 && __p0.0 == 0,
        q is Some ==> __p0.1.ensures((*val,), q->0),
//@ raw
pub open spec fn fs0_ensures<A, B, F: Fn(A) -> B>(fs: Seq<F>, vs: Seq<A>, x: B) -> bool { fs[0].ensures((vs[0],), x) }
//@ fn datatypes/choice.rs Choice[Applicative]::apply_owned props C07
    requires
        forall|i: int, j: int| 0 <= i < value.values@.len() && 0 <= j < self.values@.len() ==> #[trigger] self.values@[j].requires((#[trigger] value.values@[i],)),
        self.values@.len() * value.values@.len() <= usize::MAX,
    ensures
        self.values@.len() == 0 || value.values@.len() == 0 ==> r.values@.len() == 0,
        self.values@.len() > 0 && value.values@.len() > 0 ==> applied_owned(self.values@, value.values@, r.values@),
//@ raw
pub open spec fn pairs2<A, B, C, F: Fn(&A, &B) -> C>(f: F, a: Seq<A>, b: Seq<B>, r: Seq<C>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((&a[k / b.len() as int], &b[k % b.len() as int]), #[trigger] r[k])
}
pub open spec fn pairs2_owned<A, B, C, F: Fn(A, B) -> C>(f: F, a: Seq<A>, b: Seq<B>, r: Seq<C>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((a[k / b.len() as int], b[k % b.len() as int]), #[trigger] r[k])
}
pub open spec fn primary_ok2<A, B, C, F: Fn(&A, &B) -> C>(f: F, a: Seq<A>, b: Seq<B>, p: C) -> bool { f.ensures((&a[0], &b[0]), p) }
pub open spec fn primary_ok2_owned<A, B, C, F: Fn(A, B) -> C>(f: F, a: Seq<A>, b: Seq<B>, p: C) -> bool { f.ensures((a[0], b[0]), p) }
//@ fn datatypes/choice.rs Choice[Applicative]::lift2 props C07
    requires
        forall|i: int, j: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() ==> #[trigger] f.requires((&fa.values@[i], &fb.values@[j])),
        fa.values@.len() * fb.values@.len() <= usize::MAX,
    ensures
        fa.values@.len() == 0 || fb.values@.len() == 0 ==> r.values@.len() == 0,
        fa.values@.len() > 0 && fb.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len() && pairs2(f, fa.values@, fb.values@, r.values@),
//@ at start
    proof { if fa.values@.len() > 0 && fb.values@.len() > 0 { vstd::arithmetic::mul::lemma_mul_strictly_positive(fa.values@.len() as int, fb.values@.len() as int); } }
//@ at before loop 0
    let ghost mut all_: Seq<C> = Seq::empty();
//@ loop 0
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fa.values@.len() * fb.values@.len() <= usize::MAX, forall|i: int, j: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() ==> #[trigger] f.requires((&fa.values@[i], &fb.values@[j])),
        fa_values@ == fa.values@, fb_values@ == fb.values@,
        __it0.orig() == enumerated(refs(fa.values@)), 0 <= __it0.pos() <= fa.values@.len(), fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX,
        all_.len() == __it0.pos() * fb.values@.len(),
        pairs2(f, fa.values@, fb.values@, all_), primary_ok2(f, fa.values@, fb.values@, primary),
        __it0.pos() > 0 ==> all_.len() > 0 && all_ =~= seq![primary] + alternatives@,
        __it0.pos() == 0 ==> alternatives@.len() == 0,
    ensures __it0.pos() == fa.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fa.values@.len() * fb.values@.len() <= usize::MAX, forall|i: int, j: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() ==> #[trigger] f.requires((&fa.values@[i], &fb.values@[j])),
        fa_values@ == fa.values@, fb_values@ == fb.values@,
        0 <= i < fa.values@.len(), *fa_val == fa.values@[i as int], __it0.pos() == i + 1, __it0.orig() == enumerated(refs(fa.values@)),
        fb.values@.len() <= usize::MAX, fa.values@.len() <= usize::MAX,
        __it1.orig() == enumerated(refs(fb.values@)), 0 <= __it1.pos() <= fb.values@.len(),
        all_.len() == i * fb.values@.len() + __it1.pos(),
        pairs2(f, fa.values@, fb.values@, all_), primary_ok2(f, fa.values@, fb.values@, primary),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it1.pos() == fb.values@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ at loop 1 start
    proof {
        let (i_, j_) = (__it0.pos() - 1, __it1.pos() - 1);
        lemma_divmod(i_, j_, fb.values@.len() as int);
        if i_ > 0 { assert(i_ * fb.values@.len() > 0) by (nonlinear_arith) requires i_ > 0, fb.values@.len() > 0; } else { assert(0 * fb.values@.len() == 0) by (nonlinear_arith); }
    }
//@ at then 1
    proof { all_ = all_.push(primary); }
//@ at loop 1 end
    proof { all_ = all_.push(alternatives@.last()); }
//@ at after loop 1
    proof { assert((i + 1) * fb.values@.len() == i * fb.values@.len() + fb.values@.len()) by (nonlinear_arith); assert((i + 1) * fb.values@.len() > 0) by (nonlinear_arith) requires i >= 0, fb.values@.len() > 0; }
//@ fn datatypes/choice.rs Choice[Applicative]::lift2_owned props C07
    requires
        forall|i: int, j: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() ==> #[trigger] f.requires((fa.values@[i], fb.values@[j])),
        fa.values@.len() * fb.values@.len() <= usize::MAX,
    ensures
        fa.values@.len() == 0 || fb.values@.len() == 0 ==> r.values@.len() == 0,
        fa.values@.len() > 0 && fb.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len() && pairs2_owned(f, fa.values@, fb.values@, r.values@),
//@ at start
    proof { if fa.values@.len() > 0 && fb.values@.len() > 0 { vstd::arithmetic::mul::lemma_mul_strictly_positive(fa.values@.len() as int, fb.values@.len() as int); } }
//@ at before loop 0
    let ghost mut all_: Seq<C> = Seq::empty();
//@ loop 0
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fa.values@.len() * fb.values@.len() <= usize::MAX, forall|i: int, j: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() ==> #[trigger] f.requires((fa.values@[i], fb.values@[j])),
        
        __it0.orig() == enumerated(refs(fa.values@)), 0 <= __it0.pos() <= fa.values@.len(), fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX,
        all_.len() == __it0.pos() * fb.values@.len(),
        pairs2_owned(f, fa.values@, fb.values@, all_), primary_ok2_owned(f, fa.values@, fb.values@, primary),
        __it0.pos() > 0 ==> all_.len() > 0 && all_ =~= seq![primary] + alternatives@,
        __it0.pos() == 0 ==> alternatives@.len() == 0,
    ensures __it0.pos() == fa.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fa.values@.len() * fb.values@.len() <= usize::MAX, forall|i: int, j: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() ==> #[trigger] f.requires((fa.values@[i], fb.values@[j])),
        
        0 <= i < fa.values@.len(), *a == fa.values@[i as int], __it0.pos() == i + 1, __it0.orig() == enumerated(refs(fa.values@)),
        fb.values@.len() <= usize::MAX, fa.values@.len() <= usize::MAX,
        __it1.orig() == enumerated(refs(fb.values@)), 0 <= __it1.pos() <= fb.values@.len(),
        all_.len() == i * fb.values@.len() + __it1.pos(),
        pairs2_owned(f, fa.values@, fb.values@, all_), primary_ok2_owned(f, fa.values@, fb.values@, primary),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it1.pos() == fb.values@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ at loop 1 start
    proof {
        let (i_, j_) = (__it0.pos() - 1, __it1.pos() - 1);
        lemma_divmod(i_, j_, fb.values@.len() as int);
        if i_ > 0 { assert(i_ * fb.values@.len() > 0) by (nonlinear_arith) requires i_ > 0, fb.values@.len() > 0; } else { assert(0 * fb.values@.len() == 0) by (nonlinear_arith); }
    }
//@ at then 1
    proof { all_ = all_.push(primary); }
//@ at loop 1 end
    proof { all_ = all_.push(alternatives@.last()); }
//@ at after loop 1
    proof { assert((i + 1) * fb.values@.len() == i * fb.values@.len() + fb.values@.len()) by (nonlinear_arith); assert((i + 1) * fb.values@.len() > 0) by (nonlinear_arith) requires i >= 0, fb.values@.len() > 0; }
//@ raw
pub open spec fn pairs3<A, B, C, D, F: Fn(&A, &B, &C) -> D>(f: F, a: Seq<A>, b: Seq<B>, c: Seq<C>, r: Seq<D>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((&a[(k / c.len() as int) / b.len() as int], &b[(k / c.len() as int) % b.len() as int], &c[k % c.len() as int]), #[trigger] r[k])
}
pub open spec fn pairs3_owned<A, B, C, D, F: Fn(A, B, C) -> D>(f: F, a: Seq<A>, b: Seq<B>, c: Seq<C>, r: Seq<D>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> f.ensures((a[(k / c.len() as int) / b.len() as int], b[(k / c.len() as int) % b.len() as int], c[k % c.len() as int]), #[trigger] r[k])
}
pub open spec fn primary_ok3<A, B, C, D, F: Fn(&A, &B, &C) -> D>(f: F, a: Seq<A>, b: Seq<B>, c: Seq<C>, p: D) -> bool { f.ensures((&a[0], &b[0], &c[0]), p) }
pub open spec fn primary_ok3_owned<A, B, C, D, F: Fn(A, B, C) -> D>(f: F, a: Seq<A>, b: Seq<B>, c: Seq<C>, p: D) -> bool { f.ensures((a[0], b[0], c[0]), p) }
pub proof fn lemma_place(i: int, j: int, l: int, nb: int, nc: int)
    requires 0 <= i, 0 <= j < nb, 0 <= l < nc,
    ensures ({ let k = (i * nb + j) * nc + l; k / nc == i * nb + j && k % nc == l && (k / nc) / nb == i && (k / nc) % nb == j
        && k >= 0 && (k == 0 <==> i == 0 && j == 0 && l == 0) }),
{
    lemma_divmod(i, j, nb);
    lemma_divmod(i * nb + j, l, nc);
    if i > 0 { assert(i * nb > 0) by (nonlinear_arith) requires i > 0, nb > 0; } else { assert(0 * nb == 0) by (nonlinear_arith); }
    let h = i * nb + j;
    if h > 0 { assert(h * nc > 0) by (nonlinear_arith) requires h > 0, nc > 0; } else { assert(0 * nc == 0) by (nonlinear_arith); }
}
pub proof fn lemma_products(a: int, b: int, c: int)
    requires a > 0, b > 0, c > 0,
    ensures a * b > 0, a * b * c > 0, a * b <= a * b * c, (0 * b) * c == 0,
{
    assert(a * b > 0) by (nonlinear_arith) requires a > 0, b > 0;
    let p = a * b;
    assert(p * c >= p) by (nonlinear_arith) requires p > 0, c > 0;
    assert(0 * b == 0) by (nonlinear_arith);
    assert(0 * c == 0) by (nonlinear_arith);
}
//@ fn datatypes/choice.rs Choice[Applicative]::lift3 props C07
    requires
        forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((&#[trigger] fa.values@[i], &#[trigger] fb.values@[j], &#[trigger] fc.values@[l])),
        fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX,
    ensures
        fa.values@.len() == 0 || fb.values@.len() == 0 || fc.values@.len() == 0 ==> r.values@.len() == 0,
        fa.values@.len() > 0 && fb.values@.len() > 0 && fc.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len() * fc.values@.len() && pairs3(f, fa.values@, fb.values@, fc.values@, r.values@),
//@ at start
    proof { if fa.values@.len() > 0 && fb.values@.len() > 0 && fc.values@.len() > 0 { lemma_products(fa.values@.len() as int, fb.values@.len() as int, fc.values@.len() as int); } }
//@ at before loop 0
    let ghost mut all_: Seq<D> = Seq::empty();
//@ loop 0
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fc.values@.len() > 0, fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX, forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((&#[trigger] fa.values@[i], &#[trigger] fb.values@[j], &#[trigger] fc.values@[l])),
        fa_values@ == fa.values@, fb_values@ == fb.values@, fc_values@ == fc.values@,
        fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX, fc.values@.len() <= usize::MAX,
        __it0.orig() == enumerated(refs(fa.values@)),
        pairs3(f, fa.values@, fb.values@, fc.values@, all_), primary_ok3(f, fa.values@, fb.values@, fc.values@, primary),
        0 <= __it0.pos() <= fa.values@.len(),
        all_.len() == (__it0.pos() * fb.values@.len()) * fc.values@.len(),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it0.pos() == fa.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fc.values@.len() > 0, fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX, forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((&#[trigger] fa.values@[i], &#[trigger] fb.values@[j], &#[trigger] fc.values@[l])),
        fa_values@ == fa.values@, fb_values@ == fb.values@, fc_values@ == fc.values@,
        fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX, fc.values@.len() <= usize::MAX,
        __it0.orig() == enumerated(refs(fa.values@)),
        pairs3(f, fa.values@, fb.values@, fc.values@, all_), primary_ok3(f, fa.values@, fb.values@, fc.values@, primary),
        0 <= i < fa.values@.len(), *fa_val == fa.values@[i as int], __it0.pos() == i + 1,
        __it1.orig() == enumerated(refs(fb.values@)), 0 <= __it1.pos() <= fb.values@.len(),
        all_.len() == (i * fb.values@.len() + __it1.pos()) * fc.values@.len(),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it1.pos() == fb.values@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ loop 2
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fc.values@.len() > 0, fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX, forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((&#[trigger] fa.values@[i], &#[trigger] fb.values@[j], &#[trigger] fc.values@[l])),
        fa_values@ == fa.values@, fb_values@ == fb.values@, fc_values@ == fc.values@,
        fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX, fc.values@.len() <= usize::MAX,
        __it0.orig() == enumerated(refs(fa.values@)),
        pairs3(f, fa.values@, fb.values@, fc.values@, all_), primary_ok3(f, fa.values@, fb.values@, fc.values@, primary),
        0 <= i < fa.values@.len(), *fa_val == fa.values@[i as int], __it0.pos() == i + 1,
        0 <= j < fb.values@.len(), *fb_val == fb.values@[j as int], __it1.pos() == j + 1, __it1.orig() == enumerated(refs(fb.values@)),
        __it2.orig() == enumerated(refs(fc.values@)), 0 <= __it2.pos() <= fc.values@.len(),
        all_.len() == (i * fb.values@.len() + j) * fc.values@.len() + __it2.pos(),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it2.pos() == fc.values@.len(),
    decreases __it2.orig().len() - __it2.pos(),
//@ at loop 2 start
    proof { lemma_place(__it0.pos() - 1, __it1.pos() - 1, __it2.pos() - 1, fb.values@.len() as int, fc.values@.len() as int); }
//@ at then 1
    proof { all_ = all_.push(primary); }
//@ at loop 2 end
    proof { all_ = all_.push(alternatives@.last()); }
//@ at after loop 2
    proof { assert((i * fb.values@.len() + j + 1) * fc.values@.len() == (i * fb.values@.len() + j) * fc.values@.len() + fc.values@.len()) by (nonlinear_arith); }
//@ at after loop 1
    proof { assert((i + 1) * fb.values@.len() == i * fb.values@.len() + fb.values@.len()) by (nonlinear_arith); }
//@ at after loop 0
    proof { lemma_products(fa.values@.len() as int, fb.values@.len() as int, fc.values@.len() as int); }
//@ fn datatypes/choice.rs Choice[Applicative]::lift3_owned props C07
    requires
        forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((#[trigger] fa.values@[i], #[trigger] fb.values@[j], #[trigger] fc.values@[l])),
        fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX,
    ensures
        fa.values@.len() == 0 || fb.values@.len() == 0 || fc.values@.len() == 0 ==> r.values@.len() == 0,
        fa.values@.len() > 0 && fb.values@.len() > 0 && fc.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len() * fc.values@.len() && pairs3_owned(f, fa.values@, fb.values@, fc.values@, r.values@),
//@ at start
    proof { if fa.values@.len() > 0 && fb.values@.len() > 0 && fc.values@.len() > 0 { lemma_products(fa.values@.len() as int, fb.values@.len() as int, fc.values@.len() as int); } }
//@ at before loop 0
    let ghost mut all_: Seq<D> = Seq::empty();
//@ loop 0
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fc.values@.len() > 0, fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX, forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((#[trigger] fa.values@[i], #[trigger] fb.values@[j], #[trigger] fc.values@[l])),
        
        fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX, fc.values@.len() <= usize::MAX,
        __it0.orig() == enumerated(refs(fa.values@)),
        pairs3_owned(f, fa.values@, fb.values@, fc.values@, all_), primary_ok3_owned(f, fa.values@, fb.values@, fc.values@, primary),
        0 <= __it0.pos() <= fa.values@.len(),
        all_.len() == (__it0.pos() * fb.values@.len()) * fc.values@.len(),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it0.pos() == fa.values@.len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ loop 1
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fc.values@.len() > 0, fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX, forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((#[trigger] fa.values@[i], #[trigger] fb.values@[j], #[trigger] fc.values@[l])),
        
        fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX, fc.values@.len() <= usize::MAX,
        __it0.orig() == enumerated(refs(fa.values@)),
        pairs3_owned(f, fa.values@, fb.values@, fc.values@, all_), primary_ok3_owned(f, fa.values@, fb.values@, fc.values@, primary),
        0 <= i < fa.values@.len(), *a == fa.values@[i as int], __it0.pos() == i + 1,
        __it1.orig() == enumerated(refs(fb.values@)), 0 <= __it1.pos() <= fb.values@.len(),
        all_.len() == (i * fb.values@.len() + __it1.pos()) * fc.values@.len(),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it1.pos() == fb.values@.len(),
    decreases __it1.orig().len() - __it1.pos(),
//@ loop 2
    invariant
        fa.values@.len() > 0, fb.values@.len() > 0, fc.values@.len() > 0, fa.values@.len() * fb.values@.len() * fc.values@.len() <= usize::MAX, forall|i: int, j: int, l: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() && 0 <= l < fc.values@.len() ==> f.requires((#[trigger] fa.values@[i], #[trigger] fb.values@[j], #[trigger] fc.values@[l])),
        
        fa.values@.len() <= usize::MAX, fb.values@.len() <= usize::MAX, fc.values@.len() <= usize::MAX,
        __it0.orig() == enumerated(refs(fa.values@)),
        pairs3_owned(f, fa.values@, fb.values@, fc.values@, all_), primary_ok3_owned(f, fa.values@, fb.values@, fc.values@, primary),
        0 <= i < fa.values@.len(), *a == fa.values@[i as int], __it0.pos() == i + 1,
        0 <= j < fb.values@.len(), *b_val == fb.values@[j as int], __it1.pos() == j + 1, __it1.orig() == enumerated(refs(fb.values@)),
        __it2.orig() == enumerated(refs(fc.values@)), 0 <= __it2.pos() <= fc.values@.len(),
        all_.len() == (i * fb.values@.len() + j) * fc.values@.len() + __it2.pos(),
        all_.len() > 0 ==> all_ =~= seq![primary] + alternatives@,
        all_.len() == 0 ==> alternatives@.len() == 0,
    ensures __it2.pos() == fc.values@.len(),
    decreases __it2.orig().len() - __it2.pos(),
//@ at loop 2 start
    proof { lemma_place(__it0.pos() - 1, __it1.pos() - 1, __it2.pos() - 1, fb.values@.len() as int, fc.values@.len() as int); }
//@ at then 1
    proof { all_ = all_.push(primary); }
//@ at loop 2 end
    proof { all_ = all_.push(alternatives@.last()); }
//@ at after loop 2
    proof { assert((i * fb.values@.len() + j + 1) * fc.values@.len() == (i * fb.values@.len() + j) * fc.values@.len() + fc.values@.len()) by (nonlinear_arith); }
//@ at after loop 1
    proof { assert((i + 1) * fb.values@.len() == i * fb.values@.len() + fb.values@.len()) by (nonlinear_arith); }
//@ at after loop 0
    proof { lemma_products(fa.values@.len() as int, fb.values@.len() as int, fc.values@.len() as int); }
//@ fn datatypes/choice.rs Choice::flatten props C07
    requires self.values@.len() > 0 ==> self.values@[0].items().len() > 0, joined(parts::<I, T>(self.values@)).len() <= usize::MAX,
    ensures r.values@ =~= joined(parts::<I, T>(self.values@)),
//@ closure 0 |val: &T| -> (q: It<I>)
    ensures q.fresh(val.items()),
//@ at start
    proof {
        let vs = self.values@;
        if vs.len() > 0 {
            let p = parts::<I, T>(vs);
            assert(p =~= seq![p[0]] + parts::<I, T>(vs.skip(1)));
            lemma_joined_cons(p[0], parts::<I, T>(vs.skip(1)));
            assert(refs(vs).skip(1) =~= refs(vs.skip(1)));
            assert forall|o: Seq<It<I>>| o.len() == vs.len() - 1 && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i])@ == vs[i + 1].items())
                implies #[trigger] parts::<I, It<I>>(o) == parts::<I, T>(vs.skip(1)) by { assert(parts::<I, It<I>>(o) =~= parts::<I, T>(vs.skip(1))); }
        } else { assert(parts::<I, T>(vs) =~= Seq::empty()); }
    }
//@ fn datatypes/choice.rs Choice::try_flatten props C07
    requires joined(parts::<I, T>(self.values@)).len() <= usize::MAX,
    ensures
        self.values@.len() == 0 || self.values@[0].items().len() > 0 ==> (r matches Ok(q) && q.values@ =~= joined(parts::<I, T>(self.values@))),
        self.values@.len() > 0 && self.values@[0].items().len() == 0 ==> r is Err,
//@ closure 0 |val: &T| -> (q: It<I>)
    ensures q.fresh(val.items()),
//@ at start
    proof {
        let vs = self.values@;
        if vs.len() > 0 {
            let p = parts::<I, T>(vs);
            assert(p =~= seq![p[0]] + parts::<I, T>(vs.skip(1)));
            lemma_joined_cons(p[0], parts::<I, T>(vs.skip(1)));
            assert(refs(vs).skip(1) =~= refs(vs.skip(1)));
            assert forall|o: Seq<It<I>>| o.len() == vs.len() - 1 && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i])@ == vs[i + 1].items())
                implies #[trigger] parts::<I, It<I>>(o) == parts::<I, T>(vs.skip(1)) by { assert(parts::<I, It<I>>(o) =~= parts::<I, T>(vs.skip(1))); }
        } else { assert(parts::<I, T>(vs) =~= Seq::empty()); }
    }
//@ raw
pub open spec fn lazily<T, U, F: Fn(&T) -> Choice<U>>(f: F, v: T, r: Seq<U>) -> bool { exists|c: Choice<U>| #[trigger] f.ensures((&v,), c) && r == c.values@ }
//@ fn datatypes/choice.rs Choice::flatten_sorted props C07
    requires self.values@.len() > 0 ==> self.values@[0].items().len() > 0, joined(parts::<I, T>(self.values@)).len() <= usize::MAX,
    ensures
        self.values@.len() == 0 ==> r.values@.len() == 0,
        self.values@.len() > 0 ==> r.values@ =~= seq![self.values@[0].items()[0]] + sorted_seq(joined(parts::<I, T>(self.values@.skip(1))) + self.values@[0].items().skip(1)),
//@ closure 0 |val: &T| -> (q: It<I>)
    ensures q.fresh(val.items()),
//@ at start
    proof {
        let vs = self.values@;
        if vs.len() > 0 {
            let p = parts::<I, T>(vs);
            assert(p =~= seq![p[0]] + parts::<I, T>(vs.skip(1)));
            lemma_joined_cons(p[0], parts::<I, T>(vs.skip(1)));
            assert(refs(vs).skip(1) =~= refs(vs.skip(1)));
            assert forall|o: Seq<It<I>>| o.len() == vs.len() - 1 && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i])@ == vs[i + 1].items())
                implies #[trigger] parts::<I, It<I>>(o) == parts::<I, T>(vs.skip(1)) by { assert(parts::<I, It<I>>(o) =~= parts::<I, T>(vs.skip(1))); }
        }
    }
//@ at let alternatives
    proof { lemma_sorted_len(alternatives@); }
//@ fn datatypes/choice.rs Choice::bind_lazy props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
    ensures exists|o: Seq<Choice<U>>| #[trigger] mapped(f, refs(self.values@), o) && r@ =~= joined(lists(o)),
//@ closure 0 |val: &T| -> (q: It<U>)
    requires f.requires((val,)),
    ensures q.fresh(q.orig()), lazily(f, *val, q@),
//@ at start
    proof {
        let vs = self.values@;
        assert forall|o: Seq<It<U>>| o.len() == vs.len() && (forall|i: int| 0 <= i < o.len() ==> lazily(f, vs[i], (#[trigger] o[i])@))
            implies exists|c: Seq<Choice<U>>| #[trigger] mapped(f, refs(vs), c) && joined(#[trigger] parts::<U, It<U>>(o)) == joined(lists(c)) by {
            let c = Seq::new(vs.len(), |i: int| choose|c: Choice<U>| #[trigger] f.ensures((&vs[i],), c) && o[i]@ == c.values@);
            assert forall|i: int| 0 <= i < vs.len() implies f.ensures((&vs[i],), #[trigger] c[i]) && o[i]@ == c[i].values@ by { assert(lazily(f, vs[i], o[i]@)); }
            assert(mapped(f, refs(vs), c));
            assert(parts::<U, It<U>>(o) =~= lists(c));
        }
    }
//@ raw
// ---- the laws of C07 as consequences of the contracts above

/// What the contract of `bind` says of a function that is one.
pub open spec fn acts_as<T, U, F: Fn(&T) -> Choice<U>>(f: F, g: spec_fn(T) -> Seq<U>) -> bool {
    forall|x: T, c: Choice<U>| #[trigger] f.ensures((&x,), c) ==> c.values@ == g(x)
}
pub open spec fn bind_contract<T, U, F: Fn(&T) -> Choice<U>>(s: Seq<T>, f: F, r: Seq<U>) -> bool {
    exists|o: Seq<Choice<U>>| #[trigger] mapped(f, refs(s), o) && r =~= joined(lists(o))
}
pub proof fn lemma_bind_is_bindl<T, U, F: Fn(&T) -> Choice<U>>(s: Seq<T>, f: F, g: spec_fn(T) -> Seq<U>, r: Seq<U>)
    requires acts_as(f, g), bind_contract(s, f, r),
    ensures r == bindl(s, g),
{
    let o = choose|o: Seq<Choice<U>>| #[trigger] mapped(f, refs(s), o) && r =~= joined(lists(o));
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] o[i].values@ == g(s[i]) by { assert(f.ensures((refs(s)[i],), o[i])); }
    assert(lists(o) =~= s.map_values(g));
}
/// left identity, right identity and associativity of `bind`
pub proof fn law_bind<T, U, V, F: Fn(&T) -> Choice<U>, G: Fn(&U) -> Choice<V>>(x: T, s: Seq<T>, f: F, fs: spec_fn(T) -> Seq<U>, g: G, gs: spec_fn(U) -> Seq<V>, r1: Seq<U>, r2: Seq<U>, r3: Seq<V>)
    requires acts_as(f, fs), acts_as(g, gs), bind_contract(seq![x], f, r1), bind_contract(s, f, r2), bind_contract(r2, g, r3),
    ensures r1 == fs(x), r3 == bindl(s, |x: T| bindl(fs(x), gs)),
{
    lemma_bind_is_bindl(seq![x], f, fs, r1);
    lemma_bind_is_bindl(s, f, fs, r2);
    lemma_bind_is_bindl(r2, g, gs, r3);
    law_list_left_identity(x, fs);
    law_list_associativity(s, fs, gs);
}
pub proof fn law_bind_pure<T, F: Fn(&T) -> Choice<T>>(s: Seq<T>, f: F, r: Seq<T>)
    requires acts_as(f, |x: T| seq![x]), bind_contract(s, f, r),
    ensures r == s,
{
    lemma_bind_is_bindl(s, f, |x: T| seq![x], r);
    law_list_right_identity(s);
}
//@ fn datatypes/choice.rs Choice[Functor]::replace provided traits/functor.rs props C07
    ensures r.values@.len() == self.values@.len(), forall|i: int| 0 <= i < r.values@.len() ==> r.values@[i] == *value,
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == *value,
//@ fn datatypes/choice.rs Choice[Functor]::replace_owned provided traits/functor.rs props C07
    ensures r.values@.len() == self.values@.len(), forall|i: int| 0 <= i < r.values@.len() ==> r.values@[i] == value,
//@ closure 0 |_x: &T| -> (o: B)
    ensures o == value,
//@ fn datatypes/choice.rs Choice[Functor]::void provided traits/functor.rs props C07
    ensures r.values@.len() == self.values@.len(),
//@ closure 0 |_x: &T| -> (o: ())
    ensures true,
//@ fn datatypes/choice.rs Choice[Functor]::void_owned provided traits/functor.rs props C07
    ensures r.values@.len() == self.values@.len(),
//@ closure 0 |_x: T| -> (o: ())
    ensures true,
//@ fn datatypes/choice.rs Choice[Applicative]::sequence_right provided traits/applicative.rs tparams X,Y props C07
    requires fa.values@.len() * fb.values@.len() <= usize::MAX,
    ensures fa.values@.len() == 0 || fb.values@.len() == 0 ==> r.values@.len() == 0, fa.values@.len() > 0 && fb.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len(), forall|k: int| 0 <= k < r.values@.len() ==> #[trigger] r.values@[k] == fb.values@[k % fb.values@.len() as int],
//@ closure 0 |_a: &X, b: &Y| -> (o: Y)
    ensures o == *b,
//@ fn datatypes/choice.rs Choice[Applicative]::sequence_left provided traits/applicative.rs tparams X,Y props C07
    requires fa.values@.len() * fb.values@.len() <= usize::MAX,
    ensures fa.values@.len() == 0 || fb.values@.len() == 0 ==> r.values@.len() == 0, fa.values@.len() > 0 && fb.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len(), forall|k: int| 0 <= k < r.values@.len() ==> #[trigger] r.values@[k] == fa.values@[k / fb.values@.len() as int],
//@ closure 0 |a: &X, _b: &Y| -> (o: X)
    ensures o == *a,
//@ fn datatypes/choice.rs Choice[Applicative]::sequence_right_owned provided traits/applicative.rs tparams X,Y props C07
    requires fa.values@.len() * fb.values@.len() <= usize::MAX,
    ensures fa.values@.len() == 0 || fb.values@.len() == 0 ==> r.values@.len() == 0, fa.values@.len() > 0 && fb.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len(), forall|k: int| 0 <= k < r.values@.len() ==> #[trigger] r.values@[k] == fb.values@[k % fb.values@.len() as int],
//@ closure 0 |_a: X, b: Y| -> (o: Y)
    ensures o == b,
//@ fn datatypes/choice.rs Choice[Applicative]::sequence_left_owned provided traits/applicative.rs tparams X,Y props C07
    requires fa.values@.len() * fb.values@.len() <= usize::MAX,
    ensures fa.values@.len() == 0 || fb.values@.len() == 0 ==> r.values@.len() == 0, fa.values@.len() > 0 && fb.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len(), forall|k: int| 0 <= k < r.values@.len() ==> #[trigger] r.values@[k] == fa.values@[k / fb.values@.len() as int],
//@ closure 0 |a: X, _b: Y| -> (o: X)
    ensures o == a,
//@ fn datatypes/choice.rs Choice[Applicative]::ap2 provided traits/applicative.rs tparams X,Y,Z,F props C07
    requires fa.values@.len() * fb.values@.len() <= usize::MAX, forall|i: int, j: int| 0 <= i < fa.values@.len() && 0 <= j < fb.values@.len() ==> #[trigger] f.requires((&fa.values@[i], &fb.values@[j])),
    ensures fa.values@.len() == 0 || fb.values@.len() == 0 ==> r.values@.len() == 0, fa.values@.len() > 0 && fb.values@.len() > 0 ==> r.values@.len() == fa.values@.len() * fb.values@.len() && pairs2(f, fa.values@, fb.values@, r.values@),
//@ fn datatypes/choice.rs Choice[Monad]::flat_map provided traits/monad.rs props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((&#[trigger] self.values@[i],)),
    ensures exists|o: Seq<Choice<U>>| #[trigger] mapped(f, refs(self.values@), o) && r.values@ =~= joined(lists(o)),
//@ fn datatypes/choice.rs Choice[Monad]::flat_map_owned provided traits/monad.rs props C07
    requires forall|i: int| 0 <= i < self.values@.len() ==> f.requires((#[trigger] self.values@[i],)),
    ensures exists|o: Seq<Choice<U>>| #[trigger] mapped(f, self.values@, o) && r.values@ =~= joined(lists(o)),
