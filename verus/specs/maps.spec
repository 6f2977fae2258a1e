// Semigroups of strings, maps and sets.
//@ method iter iter_
//@ method into_iter into_iter_
//@ method extend extend_
//@ method + plus_
//@ raw
broadcast use {prelude_lemmas, prelude_len, faithful_clone, faithful_clone_call};
use std::hash::Hash;
//@ include inc/monoid
//@ include inc/hash
//@ include inc/btree
//@ raw
pub proof fn lemma_united_associative<K, V: Semigroup>(a: Map<K, V::M>, b: Map<K, V::M>, c: Map<K, V::M>)
    requires
        V::lawful(), unitable::<K, V>(a, b), unitable::<K, V>(united::<K, V>(a, b), c), unitable::<K, V>(b, c), unitable::<K, V>(a, united::<K, V>(b, c)),
    ensures united::<K, V>(united::<K, V>(a, b), c) == united::<K, V>(a, united::<K, V>(b, c)),
{
    let l = united::<K, V>(united::<K, V>(a, b), c);
    let r = united::<K, V>(a, united::<K, V>(b, c));
    assert(l.dom() =~= r.dom());
    assert forall|k: K| #[trigger] l.dom().contains(k) implies l[k] == r[k] by {
        if a.dom().contains(k) && b.dom().contains(k) && c.dom().contains(k) {
            let x = united::<K, V>(a, b)[k];
            let y = united::<K, V>(b, c)[k];
            assert(V::can(a[k], b[k]) && V::can(x, c[k]) && V::can(b[k], c[k]) && V::can(a[k], y));
            V::associative(a[k], b[k], c[k]);
        }
    }
    assert(l =~= r);
}
pub proof fn lemma_refs_contain<T>(s: Seq<T>)
    ensures forall|x: T| #[trigger] derefs(refs(s)).contains(x) <==> s.contains(x),
{ assert(derefs(refs(s)) =~= s); }

/// A string: its characters (`String` with what `+` and `clone` document).
#[verifier::external_body]
pub struct String { s: std::string::String }
impl String {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: String)
        ensures r@ == Seq::<char>::empty(),
    { unimplemented!() }
}
impl Clone for String {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}
impl String {
    /// `+`
    #[verifier::external_body]
    pub fn plus_(self, rhs: &String) -> (r: String)
        ensures r@ == self@ + rhs@,
    { unimplemented!() }
}
/// What the two maps hold, the values of keys in both combined, the left one's first.
pub open spec fn united<K, V: Semigroup>(a: Map<K, V::M>, b: Map<K, V::M>) -> Map<K, V::M> {
    Map::new(a.dom().union(b.dom()), |k: K| if a.dom().contains(k) { if b.dom().contains(k) { V::op(a[k], b[k]) } else { a[k] } } else { b[k] })
}
pub open spec fn unitable<K, V: Semigroup>(a: Map<K, V::M>, b: Map<K, V::M>) -> bool {
    forall|k: K| a.dom().contains(k) && b.dom().contains(k) ==> V::can(#[trigger] a[k], #[trigger] b[k])
}
pub open spec fn meant<K, V: Semigroup>(a: Map<K, V>) -> Map<K, V::M> { a.map_values(|v: V| v.m()) }
/// the map and the entries of `s` before `n`, united
pub open spec fn so_far<K, V: Semigroup>(a: Map<K, V>, b: Map<K, V>, s: Seq<(K, V)>, n: int, r: Map<K, V>) -> bool {
    &&& forall|k: K| #[trigger] r.dom().contains(k) <==> a.dom().contains(k) || key_before(s, n, k)
    &&& forall|k: K| #![trigger r[k]] r.dom().contains(k) ==> if key_before(s, n, k) {
            if a.dom().contains(k) { V::lawful() ==> r[k].m() == V::op(a[k].m(), b[k].m()) } else { r[k] == b[k] }
        } else { r[k] == a[k] }
}
pub proof fn lemma_united<K, V: Semigroup>(a: Map<K, V>, b: Map<K, V>, s: Seq<(K, V)>, r: Map<K, V>)
    requires entries(s, b), so_far(a, b, s, s.len() as int, r),
    ensures V::lawful() ==> meant(r) == united::<K, V>(meant(a), meant(b)),
{
    assert forall|k: K| b.dom().contains(k) <==> #[trigger] key_before(s, s.len() as int, k) by {
        if key_before(s, s.len() as int, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(b.dom().contains(s[i].0)); }
    }
    if V::lawful() {
        assert forall|k: K| #[trigger] meant(r).dom().contains(k) implies meant(r)[k] == united::<K, V>(meant(a), meant(b))[k] by { let q = r[k]; }
        assert(meant(r) =~= united::<K, V>(meant(a), meant(b)));
    }
}

//@ open traits/semigroup.rs String[Semigroup]
    type M = Seq<char>;
    open spec fn m(&self) -> Seq<char> { self@ }
    open spec fn op(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
    open spec fn can(a: Seq<char>, b: Seq<char>) -> bool { true }
    open spec fn lawful() -> bool { true }
    proof fn associative(a: Seq<char>, b: Seq<char>, c: Seq<char>) { assert(a + b + c =~= a + (b + c)); }
//@ fn traits/semigroup.rs String[Semigroup]::combine inside props C05
//@ fn traits/semigroup.rs String[Semigroup]::combine_owned inside props C05
//@ raw
}
//@ open traits/monoid.rs String[Monoid]
    open spec fn e() -> Seq<char> { Seq::empty() }
    open spec fn neutral() -> bool { true }
    proof fn identity(a: Seq<char>) { assert(Seq::empty() + a =~= a); assert(a + Seq::empty() =~= a); }
//@ fn traits/monoid.rs String[Monoid]::empty inside props C05
//@ raw
}

//@ open traits/semigroup.rs HashMap[Semigroup]
    type M = Map<K, V::M>;
    open spec fn m(&self) -> Map<K, V::M> { meant(self@) }
    open spec fn op(a: Map<K, V::M>, b: Map<K, V::M>) -> Map<K, V::M> { united::<K, V>(a, b) }
    open spec fn can(a: Map<K, V::M>, b: Map<K, V::M>) -> bool { unitable::<K, V>(a, b) }
    open spec fn lawful() -> bool { V::lawful() }
    proof fn associative(a: Map<K, V::M>, b: Map<K, V::M>, c: Map<K, V::M>) { lemma_united_associative::<K, V>(a, b, c); }
//@ fn traits/semigroup.rs HashMap[Semigroup]::combine inside props C05
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ closure 0 |e: &mut V|
    requires V::can((*e).m(), v.m()),
    ensures V::lawful() ==> (*final(e)).m() == V::op((*old(e)).m(), v.m()),
//@ loop 0
    invariant
        __it0.orig() == ref_entries(other.seq()), 0 <= __it0.pos() <= other.seq().len(), entries(other.seq(), other@),
        so_far(self@, other@, other.seq(), __it0.pos(), result@), unitable::<K, V>(meant(self@), meant(other@)),
    ensures __it0.pos() == other.seq().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost was_ = result@;
    proof {
        let n_ = __it0.pos() - 1;
        lemma_key_before(other.seq(), n_);
        lemma_entry_distinct(other.seq(), other@, n_);
        assert(meant(self@).dom() =~= self@.dom() && meant(other@).dom() =~= other@.dom());
        let k_ = other.seq()[n_].0;
        if self@.dom().contains(k_) { assert(V::can(meant(self@)[k_], meant(other@)[k_])); assert(result@[k_] == self@[k_]); }
    }
//@ at start
    proof { other.listed_once(); }
//@ at tail
    proof { lemma_united(self@, other@, other.seq(), result@); }
//@ fn traits/semigroup.rs HashMap[Semigroup]::combine_owned inside props C05
//@ loop 0
    invariant
        __it0.orig() == other.seq(), 0 <= __it0.pos() <= other.seq().len(), entries(other.seq(), other@),
        so_far(self@, other@, other.seq(), __it0.pos(), result@), unitable::<K, V>(meant(self@), meant(other@)),
    ensures __it0.pos() == other.seq().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost was_ = result@;
    proof {
        let n_ = __it0.pos() - 1;
        lemma_key_before(other.seq(), n_);
        lemma_entry_distinct(other.seq(), other@, n_);
        assert(meant(self@).dom() =~= self@.dom() && meant(other@).dom() =~= other@.dom());
        let k_ = other.seq()[n_].0;
        if self@.dom().contains(k_) { assert(V::can(meant(self@)[k_], meant(other@)[k_])); assert(result@[k_] == self@[k_]); }
    }
//@ at start
    proof { other.listed_once(); }
//@ at tail
    proof { lemma_united(self@, other@, other.seq(), result@); }
//@ raw
}

//@ open traits/semigroup.rs BTreeMap[Semigroup]
    type M = Map<K, V::M>;
    open spec fn m(&self) -> Map<K, V::M> { meant(self@) }
    open spec fn op(a: Map<K, V::M>, b: Map<K, V::M>) -> Map<K, V::M> { united::<K, V>(a, b) }
    open spec fn can(a: Map<K, V::M>, b: Map<K, V::M>) -> bool { unitable::<K, V>(a, b) }
    open spec fn lawful() -> bool { V::lawful() }
    proof fn associative(a: Map<K, V::M>, b: Map<K, V::M>, c: Map<K, V::M>) { lemma_united_associative::<K, V>(a, b, c); }
//@ fn traits/semigroup.rs BTreeMap[Semigroup]::combine inside props C05
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ closure 0 |e: &mut V|
    requires V::can((*e).m(), v.m()),
    ensures V::lawful() ==> (*final(e)).m() == V::op((*old(e)).m(), v.m()),
//@ loop 0
    invariant
        __it0.orig() == ref_entries(other.seq()), 0 <= __it0.pos() <= other.seq().len(), entries(other.seq(), other@),
        so_far(self@, other@, other.seq(), __it0.pos(), result@), unitable::<K, V>(meant(self@), meant(other@)),
    ensures __it0.pos() == other.seq().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost was_ = result@;
    proof {
        let n_ = __it0.pos() - 1;
        lemma_key_before(other.seq(), n_);
        lemma_entry_distinct(other.seq(), other@, n_);
        assert(meant(self@).dom() =~= self@.dom() && meant(other@).dom() =~= other@.dom());
        let k_ = other.seq()[n_].0;
        if self@.dom().contains(k_) { assert(V::can(meant(self@)[k_], meant(other@)[k_])); assert(result@[k_] == self@[k_]); }
    }
//@ at start
    proof { other.listed_once(); }
//@ at tail
    proof { lemma_united(self@, other@, other.seq(), result@); }
//@ fn traits/semigroup.rs BTreeMap[Semigroup]::combine_owned inside props C05
//@ loop 0
    invariant
        __it0.orig() == other.seq(), 0 <= __it0.pos() <= other.seq().len(), entries(other.seq(), other@),
        so_far(self@, other@, other.seq(), __it0.pos(), result@), unitable::<K, V>(meant(self@), meant(other@)),
    ensures __it0.pos() == other.seq().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    let ghost was_ = result@;
    proof {
        let n_ = __it0.pos() - 1;
        lemma_key_before(other.seq(), n_);
        lemma_entry_distinct(other.seq(), other@, n_);
        assert(meant(self@).dom() =~= self@.dom() && meant(other@).dom() =~= other@.dom());
        let k_ = other.seq()[n_].0;
        if self@.dom().contains(k_) { assert(V::can(meant(self@)[k_], meant(other@)[k_])); assert(result@[k_] == self@[k_]); }
    }
//@ at start
    proof { other.listed_once(); }
//@ at tail
    proof { lemma_united(self@, other@, other.seq(), result@); }
//@ raw
}

//@ open traits/semigroup.rs HashSet[Semigroup]
    type M = Set<T>;
    open spec fn m(&self) -> Set<T> { self@ }
    open spec fn op(a: Set<T>, b: Set<T>) -> Set<T> { a.union(b) }
    open spec fn can(a: Set<T>, b: Set<T>) -> bool { true }
    open spec fn lawful() -> bool { true }
    proof fn associative(a: Set<T>, b: Set<T>, c: Set<T>) { assert(a.union(b).union(c) =~= a.union(b.union(c))); }
//@ fn traits/semigroup.rs HashSet[Semigroup]::combine inside props C05
//@ at tail
    proof { other.listed_all(); lemma_refs_contain(other.seq()); assert(result@ =~= self@.union(other@)); }
//@ fn traits/semigroup.rs HashSet[Semigroup]::combine_owned inside props C05
//@ at start
    proof { other.listed_all(); }
//@ at tail
    proof { assert(result@ =~= self@.union(other@)); }
//@ raw
}

//@ open traits/semigroup.rs BTreeSet[Semigroup]
    type M = Set<T>;
    open spec fn m(&self) -> Set<T> { self@ }
    open spec fn op(a: Set<T>, b: Set<T>) -> Set<T> { a.union(b) }
    open spec fn can(a: Set<T>, b: Set<T>) -> bool { true }
    open spec fn lawful() -> bool { true }
    proof fn associative(a: Set<T>, b: Set<T>, c: Set<T>) { assert(a.union(b).union(c) =~= a.union(b.union(c))); }
//@ fn traits/semigroup.rs BTreeSet[Semigroup]::combine inside props C05
//@ at tail
    proof { other.listed_all(); lemma_refs_contain(other.seq()); assert(result@ =~= self@.union(other@)); }
//@ fn traits/semigroup.rs BTreeSet[Semigroup]::combine_owned inside props C05
//@ at start
    proof { other.listed_all(); }
//@ at tail
    proof { assert(result@ =~= self@.union(other@)); }
//@ raw
}
