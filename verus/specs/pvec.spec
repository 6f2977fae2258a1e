//@ method iter iter_
//@ method into into_same_
//@ method into_iter into_iter_
//@ method as_ref as_ref_
//@ method chunks chunks_
//@ method extend extend_
//@ method rev rev_
//@ method sort sort_
//@ method eq eq_
//@ method cmp cmp_
//@ method partial_cmp partial_cmp_
//@ path SmallVec::new Vec::new
//@ path SmallVec::with_capacity Vec::with_capacity
//@ path SmallVec::from_vec vec_id_
//@ path SmallVec::from_iter from_iter_
//@ bound IntoIterator IntoIt
//@ bound Iterator IntoIt
//@ method hash hash_
//@ assoc PersistentVector Source T
//@ assoc PersistentVector Output PersistentVector<$0>
//@ ctor RRBNode::Leaf mk_leaf_ elements
//@ ctor RRBNode::Branch mk_branch_ children sizes
//@ const pvec/node.rs BRANCHING_FACTOR
//@ const pvec/node.rs LEAF_CAPACITY
//@ const pvec/node.rs SMALL_BRANCH_SIZE
//@ const pvec/node.rs SMALL_SIZE_TABLE_SIZE
//@ type pvec/node.rs RRBNode
//@ raw
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
broadcast use prelude_lemmas;
impl<T: Clone> Clone for RRBNode<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
/// The elements below a node, in order.
#[verifier::opaque]
pub open spec fn nv<T>(n: RRBNode<T>) -> Seq<T>
    decreases n
{
    match n {
        RRBNode::Leaf { elements } => elements@,
        RRBNode::Branch { children, .. } => flat(children@),
    }
}
#[verifier::opaque]
pub open spec fn flat<T>(cs: Seq<Arc<RRBNode<T>>>) -> Seq<T>
    decreases cs
{
    if cs.len() == 0 { Seq::empty() } else { flat(cs.drop_last()) + nv(*cs.last()) }
}
pub open spec fn nlen<T>(n: RRBNode<T>) -> nat { nv(n).len() }
/// Representation invariant of a node: a branch has at least one child, no empty child, and a size
/// table with the number of elements below each child.
#[verifier::opaque]
pub open spec fn wf<T>(n: RRBNode<T>) -> bool
    decreases n
{
    nlen(n) <= usize::MAX && match n {
        RRBNode::Leaf { elements } => true,
        RRBNode::Branch { children, sizes } => sizes is Some && table(children@, sizes->0@) && children@.len() > 0
            && forall|i: int| 0 <= i < children@.len() ==> wf(*#[trigger] children@[i]) && nlen(*children@[i]) > 0,
    }
}
pub open spec fn table<T>(cs: Seq<Arc<RRBNode<T>>>, s: Seq<usize>) -> bool {
    s.len() == cs.len() && forall|i: int| #![trigger s[i]] #![trigger cs[i]] 0 <= i < cs.len() ==> s[i] == nlen(*cs[i])
}
/// Nodes that may be the children of a branch.
pub open spec fn kids<T>(cs: Seq<Arc<RRBNode<T>>>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> wf(*#[trigger] cs[i]) && nlen(*cs[i]) > 0
}
/// What a node is made of.
pub open spec fn opened<T>(n: RRBNode<T>) -> bool {
    match n {
        RRBNode::Leaf { elements } => nv(n) == elements@ && (wf(n) <==> elements@.len() <= usize::MAX),
        RRBNode::Branch { children, sizes } => nv(n) == flat(children@)
            && (wf(n) <==> sizes is Some && kids(children@) && table(children@, sizes->0@) && children@.len() > 0 && flat(children@).len() <= usize::MAX),
    }
}
pub proof fn lemma_open<T>(n: RRBNode<T>)
    ensures opened(n), wf(n) ==> nlen(n) <= usize::MAX, wf(n) && n is Branch ==> nlen(n) > 0,
{
    reveal(nv);
    reveal(flat);
    reveal(wf);
    if wf(n) && n is Branch { lemma_child_len(n->children@, 0); }
}
pub fn mk_leaf_<T>(elements: SmallVec<[T; LEAF_CAPACITY]>) -> (r: RRBNode<T>)
    ensures r == (RRBNode::Leaf { elements }), wf(r), nv(r) == elements@, elements@.len() <= usize::MAX,
{
    proof { lemma_open(RRBNode::Leaf { elements }); }
    let n = elements.len();
    RRBNode::Leaf { elements }
}
pub fn mk_branch_<T>(children: SmallVec<[Arc<RRBNode<T>>; SMALL_BRANCH_SIZE]>, sizes: Option<SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]>>) -> (r: RRBNode<T>)
    requires
        sizes is Some, children@.len() > 0, flat(children@).len() <= usize::MAX,
        kids(children@),
        table(children@, sizes->0@),
    ensures
        r == (RRBNode::Branch { children, sizes }),
        nv(r) == flat(children@),
        wf(r),
{
    proof { lemma_open(RRBNode::Branch { children, sizes }); }
    RRBNode::Branch { children, sizes }
}
pub proof fn lemma_flat_empty<T>()
    ensures flat(Seq::<Arc<RRBNode<T>>>::empty()) == Seq::<T>::empty(),
{
    reveal(flat);
}
pub proof fn lemma_flat_push<T>(a: Seq<Arc<RRBNode<T>>>, x: Arc<RRBNode<T>>)
    ensures flat(a.push(x)) == flat(a) + nv(*x),
{
    reveal(flat);
    reveal(nv);
    assert(a.push(x).drop_last() =~= a);
}
pub proof fn lemma_flat_add<T>(a: Seq<Arc<RRBNode<T>>>, b: Seq<Arc<RRBNode<T>>>)
    ensures flat(a + b) == flat(a) + flat(b),
    decreases b.len(),
{
    reveal(flat);
    reveal(nv);
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(flat(a + b) =~= flat(a) + flat(b));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_flat_add(a, b.drop_last());
        assert(flat(a + b) =~= flat(a) + flat(b));
    }
}
pub proof fn lemma_flat_one<T>(s: Seq<Arc<RRBNode<T>>>)
    ensures s.len() == 1 ==> flat(s) == nv(*s[0]),
{
    if s.len() == 1 {
        lemma_flat_empty::<T>();
        assert(s =~= Seq::empty().push(s[0]));
        lemma_flat_push(Seq::empty(), s[0]);
        assert(flat(s) =~= nv(*s[0]));
    }
}
pub proof fn lemma_flat_two<T>(s: Seq<Arc<RRBNode<T>>>)
    ensures s.len() == 2 ==> flat(s) == nv(*s[0]) + nv(*s[1]),
{
    if s.len() == 2 {
        lemma_flat_one(s.take(1));
        assert(s =~= s.take(1).push(s[1]));
        lemma_flat_push(s.take(1), s[1]);
    }
}
pub proof fn lemma_flat_cons<T>(a: Seq<Arc<RRBNode<T>>>, x: Arc<RRBNode<T>>)
    ensures flat(seq![x] + a) == nv(*x) + flat(a),
{
    lemma_flat_add(seq![x], a);
    lemma_flat_one(seq![x]);
}
pub proof fn lemma_flat_split<T>(a: Seq<Arc<RRBNode<T>>>, i: int)
    requires 0 <= i < a.len(),
    ensures
        flat(a) == flat(a.take(i)) + nv(*a[i]) + flat(a.skip(i + 1)),
        flat(a.take(i + 1)) == flat(a.take(i)) + nv(*a[i]),
{
    assert(a =~= a.take(i).push(a[i]) + a.skip(i + 1));
    lemma_flat_add(a.take(i).push(a[i]), a.skip(i + 1));
    lemma_flat_push(a.take(i), a[i]);
    assert(a.take(i + 1) =~= a.take(i).push(a[i]));
}
pub proof fn lemma_flat_update<T>(a: Seq<Arc<RRBNode<T>>>, i: int, x: Arc<RRBNode<T>>)
    requires 0 <= i < a.len(),
    ensures flat(a.update(i, x)) == flat(a.take(i)) + nv(*x) + flat(a.skip(i + 1)),
{
    lemma_flat_split(a.update(i, x), i);
    assert(a.update(i, x).take(i) =~= a.take(i));
    assert(a.update(i, x).skip(i + 1) =~= a.skip(i + 1));
}
/// The contents of `cs` with child `i` replaced, for use where the new child has no name yet.
pub open spec fn around<T>(a: Seq<Arc<RRBNode<T>>>, i: int, b: Seq<Arc<RRBNode<T>>>) -> bool {
    flat(b) == flat(a.take(i)) + nv(*b[i]) + flat(a.skip(i + 1))
}
pub proof fn lemma_replaced<T>(a: Seq<Arc<RRBNode<T>>>)
    ensures forall|i: int, x: Arc<RRBNode<T>>| 0 <= i < a.len() ==> flat(#[trigger] a.update(i, x)) == flat(a.take(i)) + nv(*x) + flat(a.skip(i + 1)),
        forall|i: int| 0 <= i < a.len() ==> flat(a) == flat(a.take(i)) + nv(*#[trigger] a[i]) + flat(a.skip(i + 1)),
{
    assert forall|i: int, x: Arc<RRBNode<T>>| 0 <= i < a.len() implies flat(#[trigger] a.update(i, x)) == flat(a.take(i)) + nv(*x) + flat(a.skip(i + 1)) by { lemma_flat_update(a, i, x); }
    assert forall|i: int| 0 <= i < a.len() implies flat(a) == flat(a.take(i)) + nv(*#[trigger] a[i]) + flat(a.skip(i + 1)) by { lemma_flat_split(a, i); }
}
pub proof fn lemma_grow<T>(a: Seq<Arc<RRBNode<T>>>)
    ensures
        forall|x: Arc<RRBNode<T>>| flat(#[trigger] a.push(x)) == flat(a) + nv(*x),
        forall|x: Arc<RRBNode<T>>| flat(#[trigger] (Seq::empty().push(x) + a)) == nv(*x) + flat(a),
{
    assert forall|x: Arc<RRBNode<T>>| flat(#[trigger] a.push(x)) == flat(a) + nv(*x) by { lemma_flat_push(a, x); }
    assert forall|x: Arc<RRBNode<T>>| flat(#[trigger] (Seq::empty().push(x) + a)) == nv(*x) + flat(a) by { lemma_flat_cons(a, x); assert(Seq::empty().push(x) + a =~= seq![x] + a); }
}
pub proof fn lemma_few<T>()
    ensures
        forall|s: Seq<Arc<RRBNode<T>>>| s.len() == 2 ==> #[trigger] flat(s) == nv(*s[0]) + nv(*s[1]),
        forall|s: Seq<Arc<RRBNode<T>>>| s.len() == 1 ==> #[trigger] flat(s) == nv(*s[0]),
        forall|s: Seq<Arc<RRBNode<T>>>| s.len() == 0 ==> #[trigger] flat(s) == Seq::<T>::empty(),
{
    assert forall|s: Seq<Arc<RRBNode<T>>>| s.len() == 2 implies #[trigger] flat(s) == nv(*s[0]) + nv(*s[1]) by { lemma_flat_two(s); }
    assert forall|s: Seq<Arc<RRBNode<T>>>| s.len() == 1 implies #[trigger] flat(s) == nv(*s[0]) by { lemma_flat_one(s); }
    assert forall|s: Seq<Arc<RRBNode<T>>>| s.len() == 0 implies #[trigger] flat(s) == Seq::<T>::empty() by { reveal(flat); }
}
pub proof fn lemma_adds<T>()
    ensures forall|a: Seq<Arc<RRBNode<T>>>, b: Seq<Arc<RRBNode<T>>>| #[trigger] flat(a + b) == flat(a) + flat(b),
{
    assert forall|a: Seq<Arc<RRBNode<T>>>, b: Seq<Arc<RRBNode<T>>>| #[trigger] flat(a + b) == flat(a) + flat(b) by { lemma_flat_add(a, b); }
}
/// The first and the last child, taken off or replaced.
pub proof fn lemma_ends<T>(a: Seq<Arc<RRBNode<T>>>)
    requires a.len() > 0,
    ensures
        flat(a) == nv(*a[0]) + flat(a.remove(0)),
        flat(a) == flat(a.drop_last()) + nv(*a[a.len() - 1]),
        forall|x: Arc<RRBNode<T>>| flat(#[trigger] a.update(0, x)) == nv(*x) + flat(a.remove(0)),
        forall|x: Arc<RRBNode<T>>| flat(#[trigger] a.update(a.len() - 1, x)) == flat(a.drop_last()) + nv(*x),
{
    lemma_flat_empty::<T>();
    lemma_flat_split(a, 0);
    assert(a.take(0) =~= Seq::empty());
    assert(a.skip(1) =~= a.remove(0));
    assert(flat(a) =~= nv(*a[0]) + flat(a.remove(0)));
    assert(a =~= a.drop_last().push(a.last()));
    lemma_flat_push(a.drop_last(), a.last());
    assert forall|x: Arc<RRBNode<T>>| flat(#[trigger] a.update(0, x)) == nv(*x) + flat(a.remove(0)) by {
        assert(a.update(0, x) =~= seq![x] + a.remove(0));
        lemma_flat_cons(a.remove(0), x);
    }
    assert forall|x: Arc<RRBNode<T>>| flat(#[trigger] a.update(a.len() - 1, x)) == flat(a.drop_last()) + nv(*x) by {
        assert(a.update(a.len() - 1, x) =~= a.drop_last().push(x));
        lemma_flat_push(a.drop_last(), x);
    }
}
pub proof fn lemma_table<T>(cs: Seq<Arc<RRBNode<T>>>, s: Seq<usize>)
    requires table(cs, s),
    ensures sum(s) == flat(cs).len(),
    decreases cs.len(),
{
    reveal(flat);
    reveal(nv);
    if cs.len() > 0 {
        assert forall|i: int| 0 <= i < cs.len() - 1 implies #[trigger] s.drop_last()[i] == nlen(*cs.drop_last()[i]) by { assert(s[i] == nlen(*cs[i])); }
        assert(s[cs.len() - 1] == nlen(*cs[cs.len() - 1]));
        lemma_table(cs.drop_last(), s.drop_last());
    }
}
pub proof fn lemma_table_prefix<T>(cs: Seq<Arc<RRBNode<T>>>, s: Seq<usize>, i: int)
    requires table(cs, s), 0 <= i <= s.len(),
    ensures sum(s.take(i)) == flat(cs.take(i)).len(),
{
    assert forall|k: int| 0 <= k < i implies #[trigger] s.take(i)[k] == nlen(*cs.take(i)[k]) by { assert(s[k] == nlen(*cs[k])); }
    lemma_table(cs.take(i), s.take(i));
}
/// One child is no longer than the whole.
pub proof fn lemma_child_len<T>(cs: Seq<Arc<RRBNode<T>>>, i: int)
    requires 0 <= i < cs.len(),
    ensures nlen(*cs[i]) <= flat(cs).len(),
{
    lemma_flat_split(cs, i);
}
//@ fn pvec/node.rs RRBNode::calculate_size props C01,C02
    requires wf(*self),
    ensures r == nlen(*self),
    decreases self,
//@ at start
    proof {
        lemma_open(*self);
        if let RRBNode::Branch { children, sizes } = self {
            lemma_table(children@, sizes->0@);
            lemma_sum_refs(sizes->0@);
        }
    }
//@ closure 0 |child: &Arc<RRBNode<T>>| -> (q: usize)
    requires false
//@ fn pvec/node.rs RRBNode::make_relaxed props C01,C02
    requires kids(children@), children@.len() > 0, flat(children@).len() <= usize::MAX,
    ensures wf(r), nv(r) =~= flat(children@),
//@ closure 0 |child: &Arc<RRBNode<T>>| -> (q: usize)
    requires wf(**child),
    ensures q == nlen(**child),
//@ fn pvec/node.rs RRBNode::find_child_regular props C01
    requires height <= 1,
//@ at start
    proof {
        vstd::arithmetic::power::lemma_pow0(BRANCHING_FACTOR as int);
        vstd::arithmetic::power::lemma_pow1(BRANCHING_FACTOR as int);
    }
//@ fn pvec/node.rs RRBNode::find_child_relaxed props C01,C02
    requires wf(*self),
    ensures
        self is Branch ==> match r {
            Some((i, sub)) => i < self->children@.len() && sub < nlen(*self->children@[i as int])
                && index == flat(self->children@.take(i as int)).len() + sub,
            None => index >= nlen(*self),
        },
//@ loop 0
    invariant
        __it0.orig() == enumerated(refs(sizes@)),
        0 <= __it0.pos() <= sizes@.len(),
        cumulative == sum(sizes@.take(__it0.pos())),
        cumulative <= index,
        sum(sizes@) <= usize::MAX,
        table(self->children@, sizes@), self is Branch, self->sizes == Some(*sizes), sizes@.len() <= usize::MAX,
    ensures
        index >= sum(sizes@.take(sizes@.len() as int)),
    decreases sizes@.len() - __it0.pos(),
//@ at start
    proof { lemma_open(*self); }
//@ at iter 0
    proof { lemma_table(self->children@, sizes@); }
//@ at loop 0 start
    proof {
        lemma_sum_step(sizes@, i as int);
        lemma_table_prefix(self->children@, sizes@, i as int);
    }
//@ at after loop 0
    proof { lemma_table(self->children@, sizes@); assert(sizes@.take(sizes@.len() as int) =~= sizes@); }
//@ fn pvec/node.rs RRBNode::is_relaxed props C01
    ensures r == (self is Branch && self->sizes is Some),
//@ fn pvec/node.rs RRBNode::update_size_table_after_removal props C01
    requires sizes is Some ==> sizes->0@.len() > 0,
    ensures
        sizes is None ==> r is None,
        sizes is Some ==> ({
            let s = if index == 0 { sizes->0@.skip(1) } else { sizes->0@.drop_last() };
            if s.len() == 0 { r is None } else { r is Some && r->0@ == s }
        }),
//@ fn pvec/node.rs RRBNode::update_size_table_after_update props C01
    ensures
        sizes is None ==> r is None,
        sizes is Some ==> r is Some && r->0@ == (if index < sizes->0@.len() { sizes->0@.update(index as int, new_size) } else { sizes->0@ }),
//@ fn pvec/node.rs RRBNode::create_empty_leaf_result props C01
    ensures r matches Some((n, p)) && wf(n) && nv(n) =~= Seq::empty() && p == popped,
//@ fn pvec/node.rs RRBNode::create_branch_result props C01
    requires
        sizes is Some, children@.len() > 0, flat(children@).len() <= usize::MAX,
        kids(children@),
        table(children@, sizes->0@),
    ensures
        r matches Some((n, p)) && p == popped && nv(n) == flat(children@) && wf(n),
//@ fn pvec/node.rs RRBNode::get props C01
    requires wf(*self),
    ensures
        index < nlen(*self) ==> r == Some(&nv(*self)[index as int]),
        index >= nlen(*self) ==> r is None,
    decreases self,
//@ at start
    proof { lemma_open(*self); if let RRBNode::Branch { children, sizes } = self { lemma_replaced(children@); lemma_few::<T>(); } }
//@ fn pvec/node.rs RRBNode::find_child props C01
    requires wf(*self), self is Branch, self->sizes == *sizes,
    ensures
        match r {
            Some((i, sub)) => i < self->children@.len() && sub < nlen(*self->children@[i as int])
                && index == flat(self->children@.take(i as int)).len() + sub,
            None => index >= nlen(*self),
        },
//@ loop 0
    invariant
        0 <= i <= sizes@.len(),
        cumulative_size == sum(sizes@.take(i as int)),
        cumulative_size <= index,
        sum(sizes@) <= usize::MAX,
        table(self->children@, sizes@), self is Branch, self->sizes == Some(*sizes),
    decreases sizes@.len() - i,
//@ at start
    proof { lemma_open(*self); }
//@ at before loop 0
    proof { lemma_table(self->children@, sizes@); }
//@ at loop 0 start
    proof {
        lemma_sum_step(sizes@, i as int);
        lemma_table_prefix(self->children@, sizes@, i as int);
    }
//@ at after loop 0
    proof { lemma_table(self->children@, sizes@); assert(sizes@.take(i as int) =~= sizes@); }
//@ fn pvec/node.rs RRBNode::update props C01
    requires wf(*self),
    ensures
        wf(r),
        nv(r) =~= (if index < nlen(*self) { nv(*self).update(index as int, value) } else { nv(*self) }),
    decreases self,
//@ at start
    proof { lemma_open(*self); if let RRBNode::Branch { children, sizes } = self { lemma_replaced(children@); lemma_few::<T>(); } }
//@ fn pvec/node.rs RRBNode::push_leaf props C01,C02
    requires wf(*self), wf(*leaf), nlen(*leaf) > 0, nlen(*self) + nlen(*leaf) <= usize::MAX,
    ensures wf(r), nv(r) =~= nv(*self) + nv(*leaf),
//@ at start
    proof { lemma_few::<T>(); lemma_open(*self); if let RRBNode::Branch { children, sizes } = self { lemma_grow(children@); } }
//@ closure 0 || -> (q: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]>)
    requires wf(*self), *self == (RRBNode::Branch { children: *children, sizes: *sizes }),
    ensures table(children@, q@),
//@ closure 1 |child: &Arc<RRBNode<T>>| -> (q: usize)
    requires wf(**child),
    ensures q == nlen(**child),
//@ fn pvec/node.rs RRBNode::push_front_leaf props C01,C02
    requires wf(*self), wf(*leaf), nlen(*leaf) > 0, nlen(*self) + nlen(*leaf) <= usize::MAX,
    ensures wf(r), nv(r) =~= nv(*leaf) + nv(*self),
//@ at start
    proof { lemma_few::<T>(); lemma_open(*self); if let RRBNode::Branch { children, sizes } = self { lemma_grow(children@); } }
//@ closure 0 |child: &Arc<RRBNode<T>>| -> (q: usize)
    requires wf(**child),
    ensures q == nlen(**child),
//@ fn pvec/node.rs RRBNode::pop_back props C01
    requires wf(*self),
    ensures
        nlen(*self) == 0 ==> r is None,
        nlen(*self) > 0 ==> (r matches Some((n, p)) && wf(n) && nv(n) =~= nv(*self).drop_last() && p == nv(*self).last()),
    decreases self,
//@ at start
    proof { lemma_open(*self); if let RRBNode::Branch { children, sizes } = self { lemma_ends(children@); lemma_few::<T>(); } }
//@ fn pvec/node.rs RRBNode::pop_front props C01
    requires wf(*self),
    ensures
        nlen(*self) == 0 ==> r is None,
        nlen(*self) > 0 ==> (r matches Some((n, p)) && wf(n) && nv(n) =~= nv(*self).skip(1) && p == nv(*self)[0]),
    decreases self,
//@ at start
    proof { lemma_open(*self); if let RRBNode::Branch { children, sizes } = self { lemma_ends(children@); lemma_few::<T>(); } }
//@ type pvec/tree.rs RRBTree
//@ raw
impl<T: Clone> Clone for RRBTree<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
pub open spec fn node_of<T>(a: Arc<RRBNode<T>>) -> RRBNode<T> { *a }
/// What is below a node, for use where only the pointer to it has a name.
pub proof fn lemma_inside<T>(a: Arc<RRBNode<T>>)
    ensures
        opened(*a), wf(*a) ==> nlen(*a) <= usize::MAX, wf(*a) && *a is Branch ==> nlen(*a) > 0,
        *a is Branch ==> forall|i: int| 0 <= i < (*a)->children@.len() ==>
            flat((*a)->children@) == flat((*a)->children@.take(i)) + nv(*#[trigger] (*a)->children@[i]) + flat((*a)->children@.skip(i + 1)),
{
    lemma_open(node_of(a));
    if node_of(a) is Branch { lemma_replaced(node_of(a)->children@); }
}
pub proof fn lemma_tables<T>(a: Arc<RRBNode<T>>)
    requires *a is Branch, wf(*a),
    ensures
        sum((*a)->sizes->0@) == nlen(*a), (*a)->sizes->0@.len() == (*a)->children@.len(),
        forall|i: int| 0 <= i <= (*a)->children@.len() ==> sum(#[trigger] (*a)->sizes->0@.take(i)) == flat((*a)->children@.take(i)).len(),
{
    lemma_open(node_of(a));
    let cs = node_of(a)->children@;
    let s = node_of(a)->sizes->0@;
    lemma_table(cs, s);
    assert forall|i: int| 0 <= i <= cs.len() implies sum(#[trigger] s.take(i)) == flat(cs.take(i)).len() by { lemma_table_prefix(cs, s, i); }
}
/// The elements of a tree, in order.
pub open spec fn tv<T>(t: RRBTree<T>) -> Seq<T> { t.head@ + nv(*t.root) + t.tail@ }
pub open spec fn tlen<T>(t: RRBTree<T>) -> nat { t.head@.len() + nlen(*t.root) + t.tail@.len() }
pub open spec fn twf<T>(t: RRBTree<T>) -> bool { wf(*t.root) && t.len == tlen(t) }
pub open spec fn depth<T>(n: RRBNode<T>) -> nat
    decreases n
{
    match n {
        RRBNode::Leaf { .. } => 0,
        RRBNode::Branch { children, .. } => if children@.len() == 0 { 0 } else { 1 + depth(*children@[0]) },
    }
}
/// Each level of a tree in memory is an allocation of its own, so a tree that exists has fewer
/// levels than there are addresses.
#[verifier::external_body]
pub fn fits_in_memory_<T>(n: &RRBNode<T>)
    ensures depth(*n) < usize::MAX,
{ }
/// `path` leads from `n` to the leaf with element `i`.
pub open spec fn leads<T>(n: RRBNode<T>, i: int, path: Seq<usize>) -> bool
    decreases n
{
    match n {
        RRBNode::Leaf { elements } => path.len() == 0,
        RRBNode::Branch { children, .. } => path.len() > 0 && path[0] < children@.len() && ({
            let before = flat(children@.take(path[0] as int)).len();
            &&& before <= i < before + nlen(*children@[path[0] as int])
            &&& leads(*children@[path[0] as int], i - before, path.skip(1))
        }),
    }
}
//@ fn pvec/tree.rs RRBTree::get props C01
    requires twf(*self),
    ensures
        index < tlen(*self) ==> r == Some(&tv(*self)[index as int]),
        index >= tlen(*self) ==> r is None,
//@ fn pvec/tree.rs RRBTree::get_from_tree props C01
    requires twf(*self), index < nlen(*self.root),
    ensures r == Some(&nv(*self.root)[index as int]),
//@ loop 0
    invariant
        wf(**current_node), remaining_index < nlen(**current_node),
        nv(**current_node)[remaining_index as int] == nv(*self.root)[index as int],
    decreases **current_node,
//@ at loop 0 start
    proof { lemma_inside(*current_node); }
//@ fn pvec/tree.rs RRBTree::update props C01
    requires twf(*self),
    ensures
        twf(r),
        index < tlen(*self) ==> tv(r) =~= tv(*self).update(index as int, value),
        index >= tlen(*self) ==> r == *self,
//@ fn pvec/tree.rs RRBTree::push_back props C01
    requires twf(*self), tlen(*self) < usize::MAX,
    ensures twf(r), tv(r) =~= tv(*self).push(value),
    decreases self.tail@.len(),
//@ fn pvec/tree.rs RRBTree::push_tail_to_tree props C01,C02
    requires twf(*self),
    ensures twf(r), tv(r) =~= tv(*self), r.tail@.len() == 0, r.head@ == self.head@,
//@ fn pvec/tree.rs RRBTree::push_front props C01
    requires twf(*self), tlen(*self) < usize::MAX,
    ensures twf(r), tv(r) =~= seq![value] + tv(*self),
    decreases self.head@.len(),
//@ fn pvec/tree.rs RRBTree::push_head_to_tree props C01,C02
    requires twf(*self),
    ensures twf(r), tv(r) =~= tv(*self), r.head@.len() == 0, r.tail@ == self.tail@,
//@ fn pvec/tree.rs RRBTree::calculate_height props C01,C02
    ensures r == depth(**node),
    decreases **node,
//@ at start
    fits_in_memory_(node);
//@ fn pvec/tree.rs RRBTree::pop_back props C01
    requires twf(*self),
    ensures
        tlen(*self) == 0 ==> r is None,
        tlen(*self) > 0 ==> (r matches Some((t, p)) && twf(t) && tv(t) =~= tv(*self).drop_last() && p == tv(*self).last()),
//@ fn pvec/tree.rs RRBTree::pop_from_tree props C01
    requires twf(*self), self.tail@.len() == 0,
    ensures
        tlen(*self) == 0 ==> r is None,
        tlen(*self) > 0 ==> (r matches Some((t, p)) && twf(t) && tv(t) =~= tv(*self).drop_last() && p == tv(*self).last()),
//@ fn pvec/tree.rs RRBTree::pop_front props C01
    requires twf(*self),
    ensures
        tlen(*self) == 0 ==> r is None,
        tlen(*self) > 0 ==> (r matches Some((t, p)) && twf(t) && tv(t) =~= tv(*self).skip(1) && p == tv(*self)[0]),
//@ fn pvec/tree.rs RRBTree::pop_front_from_tree props C01
    requires twf(*self), self.head@.len() == 0,
    ensures
        tlen(*self) == 0 ==> r is None,
        tlen(*self) > 0 ==> (r matches Some((t, p)) && twf(t) && tv(t) =~= tv(*self).skip(1) && p == tv(*self)[0]),
//@ fn pvec/tree.rs RRBTree::empty props C02
    ensures twf(r), tv(r) =~= Seq::empty(),
//@ fn pvec/tree.rs RRBTree::from_head props C02
    ensures twf(r), tv(r) =~= head@,
//@ fn pvec/tree.rs RRBTree::from_tail props C02
    ensures twf(r), tv(r) =~= tail@,
//@ fn pvec/tree.rs RRBTree::from_head_and_tree_and_tail props C02
    requires wf(*root), head@.len() + nlen(*root) + tail@.len() <= usize::MAX,
    ensures twf(r), tv(r) =~= head@ + nv(*root) + tail@,
//@ fn pvec/tree.rs RRBTree::from_head_and_root props C02
    requires wf(*root), head@.len() + nlen(*root) <= usize::MAX,
    ensures twf(r), tv(r) =~= head@ + nv(*root),
//@ fn pvec/tree.rs RRBTree::from_root_and_tail props C02
    requires wf(*root), nlen(*root) + tail@.len() <= usize::MAX,
    ensures twf(r), tv(r) =~= nv(*root) + tail@,
//@ fn pvec/tree.rs RRBTree::split_head_at props C02
    requires index <= self.head@.len(),
    ensures r.0@ =~= self.head@.take(index as int), r.1@ =~= self.head@.skip(index as int),
//@ fn pvec/tree.rs RRBTree::split_tail_at props C02
    requires index <= self.tail@.len(),
    ensures r.0@ =~= self.tail@.take(index as int), r.1@ =~= self.tail@.skip(index as int),
//@ fn pvec/tree.rs RRBTree::concat props C02
    requires twf(*self), twf(*other), tlen(*self) + tlen(*other) <= usize::MAX,
    ensures twf(r), tv(r) =~= tv(*self) + tv(*other),
//@ fn pvec/tree.rs RRBTree::concat_same_height props C02
    requires twf(*self), twf(*other), tlen(*self) + tlen(*other) <= usize::MAX,
    ensures twf(r), tv(r) =~= tv(*self) + tv(*other),
//@ fn pvec/tree.rs RRBTree::concat_different_height props C02
    requires twf(*self), twf(*other), tlen(*self) + tlen(*other) <= usize::MAX,
    ensures twf(r), tv(r) =~= (if left_higher { tv(*self) + tv(*other) } else { tv(*other) + tv(*self) }),
//@ fn pvec/tree.rs RRBTree::elevate_tree props C02
    requires twf(*tree),
    ensures twf(r), tv(r) =~= tv(*tree),
//@ at start
    proof { lemma_few::<T>(); }
//@ loop 0
    invariant wf(*current_root), nv(*current_root) == nv(*tree.root), nlen(*tree.root) > 0, nlen(*tree.root) <= usize::MAX,
        forall|s: Seq<Arc<RRBNode<T>>>| s.len() == 1 ==> #[trigger] flat(s) == nv(*s[0]),
    decreases target_height - current_height,
//@ raw
pub proof fn lemma_middle<T>(m: Seq<Arc<RRBNode<T>>>, l: Seq<Arc<RRBNode<T>>>, r: Seq<Arc<RRBNode<T>>>)
    requires l.len() > 0, r.len() > 0, m.len() == l.len(), m.drop_last() =~= l.drop_last(),
        nv(*m.last()) =~= nv(*l.last()) + nv(*r[0]),
    ensures flat(m + r.remove(0)) =~= flat(l) + flat(r),
{
    lemma_ends(l);
    lemma_ends(r);
    lemma_ends(m);
    lemma_flat_add(m, r.remove(0));
}
//@ fn pvec/tree.rs RRBTree::concat_nodes props C02
    requires wf(**left), wf(**right), nlen(**left) + nlen(**right) <= usize::MAX,
    ensures wf(r), nv(r) =~= nv(**left) + nv(**right),
    decreases **left,
//@ at start
    proof { lemma_inside(*left); lemma_inside(*right); lemma_few::<T>(); lemma_adds::<T>(); }
//@ loop 0
    invariant
        new_children@ =~= left_children@.take(i as int),
//@ at before loop 1
    proof { lemma_ends(left_children@); lemma_ends(right_children@); lemma_middle(new_children@, left_children@, right_children@); }
    let ghost middle_ = new_children@;
//@ loop 1
    invariant
        i >= 1, new_children@ =~= middle_ + right_children@.subrange(1, i as int),
//@ at after loop 1
    proof { assert(right_children@.subrange(1, right_children@.len() as int) =~= right_children@.remove(0)); }
//@ fn pvec/tree.rs RRBTree::from_elements props C01,C02,C03
    ensures twf(r), tv(r) =~= elements.items(),
//@ raw
/// The `i`th of the chunks of `all`, taken as children.
pub open spec fn nth_chunk<X>(all: Seq<X>, n: int, i: int, c: Seq<X>) -> bool {
    &&& 0 <= i < chunked(all, n).len()
    &&& c == chunked(all, n)[i]
    &&& 0 < c.len() <= n
    &&& joined(chunked(all, n).take(i + 1)) == joined(chunked(all, n).take(i)) + c
}
pub proof fn lemma_chunk<X>(its: Seq<&[X]>, all: Seq<X>, n: int, i: int)
    requires n > 0, 0 <= i < its.len(), its.map_values(|c: &[X]| c@) == chunked(all, n),
    ensures
        nth_chunk(all, n, i, its[i]@),
        forall|k: int| 0 <= k < its[i]@.len() ==> all.contains(#[trigger] its[i]@[k]),
        joined(chunked(all, n).take(i)).len() + its[i]@.len() <= all.len(),
        exists|rest: Seq<X>| #[trigger] (joined(chunked(all, n).take(i + 1)) + rest) == all,
{
    hide(chunked);
    hide(joined);
    let c = chunked(all, n);
    lemma_chunks_joined(all, n);
    lemma_chunks_sizes(all, n);
    lemma_joined_prefix(c, i);
    assert(its.map_values(|c: &[X]| c@)[i] == its[i]@);
    let p = joined(c.take(i)).len() as int;
    assert forall|k: int| 0 <= k < its[i]@.len() implies all.contains(#[trigger] its[i]@[k]) by {
        assert(all.subrange(p, p + c[i].len())[k] == c[i][k]);
        assert(all[p + k] == c[i][k]);
    }
    let q = joined(c.take(i + 1));
    assert(q + all.skip(q.len() as int) =~= all);
}
pub proof fn lemma_chunks_done<X>(its: Seq<&[X]>, all: Seq<X>, n: int)
    requires n > 0, its.map_values(|c: &[X]| c@) == chunked(all, n),
    ensures
        its.len() == chunked(all, n).len(),
        joined(chunked(all, n).take(its.len() as int)) == all,
        joined(chunked(all, n).take(0)) == Seq::<X>::empty(),
        chunked(all, n).len() <= all.len(),
        n > 1 && all.len() > 1 ==> chunked(all, n).len() < all.len(),
        all.len() > 0 ==> chunked(all, n).len() > 0,
{
    lemma_chunks_joined(all, n);
    lemma_chunks_sizes(all, n);
    assert(its.map_values(|c: &[X]| c@).len() == its.len());
    assert(chunked(all, n).take(its.len() as int) =~= chunked(all, n));
    assert(chunked(all, n).take(0) =~= Seq::empty());
}
/// A chunk of children may be the children of a branch.
pub proof fn lemma_chunk_kids<T>(its: Seq<&[Arc<RRBNode<T>>]>, all: Seq<Arc<RRBNode<T>>>, n: int, i: int)
    requires n > 0, 0 <= i < its.len(), its.map_values(|c: &[Arc<RRBNode<T>>]| c@) == chunked(all, n), kids(all), flat(all).len() <= usize::MAX,
    ensures
        nth_chunk(all, n, i, its[i]@),
        kids(its[i]@),
        flat(its[i]@).len() <= usize::MAX,
        flat(its[i]@).len() > 0,
        flat(joined(chunked(all, n).take(i + 1))) == flat(joined(chunked(all, n).take(i))) + flat(its[i]@),
{
    lemma_chunk(its, all, n, i);
    let c = its[i]@;
    let p = joined(chunked(all, n).take(i));
    let q = joined(chunked(all, n).take(i + 1));
    lemma_flat_add(p, c);
    let rest = choose|rest: Seq<Arc<RRBNode<T>>>| #[trigger] (q + rest) == all;
    lemma_flat_add(q, rest);
    assert forall|k: int| 0 <= k < c.len() implies wf(*#[trigger] c[k]) && nlen(*c[k]) > 0 by {
        assert(all.contains(c[k]));
        let z = choose|z: int| 0 <= z < all.len() && all[z] == c[k];
        assert(wf(*all[z]));
    }
    lemma_child_len(c, 0);
}
//@ fn pvec/tree.rs RRBTree::build_tree_with_tail props C01,C02,C03
    ensures twf(r), tv(r) =~= elements@,
//@ at before loop 0
    proof { lemma_flat_empty::<T>(); }
//@ at iter 0
    proof { lemma_chunks_done(__it0.orig(), tree_elements@, LEAF_CAPACITY as int); }
//@ loop 0
    invariant
        __it0.orig().map_values(|c: &[T]| c@) == chunked(tree_elements@, LEAF_CAPACITY as int),
        0 <= __it0.pos() <= __it0.orig().len() == chunked(tree_elements@, LEAF_CAPACITY as int).len(),
        joined(chunked(tree_elements@, LEAF_CAPACITY as int).take(__it0.orig().len() as int)) == tree_elements@,
        leaves@.len() == __it0.pos(),
        kids(leaves@),
        flat(leaves@) == joined(chunked(tree_elements@, LEAF_CAPACITY as int).take(__it0.pos())),
    ensures leaves@.len() == chunked(tree_elements@, LEAF_CAPACITY as int).len(), flat(leaves@) == tree_elements@,
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { lemma_grow(leaves@); lemma_chunk(__it0.orig(), tree_elements@, LEAF_CAPACITY as int, __it0.pos() - 1); }
//@ fn pvec/tree.rs RRBTree::build_tree_recursive props C01,C02,C03
    requires kids(nodes@), nodes@.len() > 0, flat(nodes@).len() <= usize::MAX,
    ensures wf(*r.0), nv(*r.0) =~= flat(nodes@), r.1 < nodes@.len(),
    decreases nodes@.len(),
//@ at start
    proof { lemma_few::<T>(); lemma_flat_empty::<T>(); }
//@ at iter 0
    proof { lemma_chunks_done(__it0.orig(), nodes@, BRANCHING_FACTOR as int); }
//@ loop 0
    invariant
        __it0.orig().map_values(|c: &[Arc<RRBNode<T>>]| c@) == chunked(nodes@, BRANCHING_FACTOR as int),
        kids(nodes@), flat(nodes@).len() <= usize::MAX,
        0 <= __it0.pos() <= __it0.orig().len() == chunked(nodes@, BRANCHING_FACTOR as int).len(),
        joined(chunked(nodes@, BRANCHING_FACTOR as int).take(__it0.orig().len() as int)) == nodes@,
        next_level@.len() == __it0.pos(),
        kids(next_level@),
        flat(next_level@) == flat(joined(chunked(nodes@, BRANCHING_FACTOR as int).take(__it0.pos()))),
    ensures next_level@.len() == chunked(nodes@, BRANCHING_FACTOR as int).len(), flat(next_level@) == flat(nodes@),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { lemma_grow(next_level@); lemma_chunk_kids(__it0.orig(), nodes@, BRANCHING_FACTOR as int, __it0.pos() - 1); }
//@ closure 0 |child: &Arc<RRBNode<T>>| -> (q: usize)
    requires wf(**child),
    ensures q == nlen(**child),
//@ raw
pub proof fn lemma_leads_step<T>(root: RRBNode<T>, index: int, path: Seq<usize>, cur: RRBNode<T>, rem: int, c: usize, sub: int)
    requires
        forall|q: Seq<usize>| leads(cur, rem, q) ==> leads(root, index, #[trigger] (path + q)),
        cur is Branch, c < cur->children@.len(), rem == flat(cur->children@.take(c as int)).len() + sub,
        0 <= sub < nlen(*cur->children@[c as int]),
    ensures
        forall|q: Seq<usize>| leads(*cur->children@[c as int], sub, q) ==> leads(root, index, #[trigger] (path.push(c) + q)),
{
    assert forall|q: Seq<usize>| leads(*cur->children@[c as int], sub, q) implies leads(root, index, #[trigger] (path.push(c) + q)) by {
        let p = seq![c] + q;
        assert(p.skip(1) =~= q);
        assert(leads(cur, rem, p));
        assert(path + p =~= path.push(c) + q);
    }
}
//@ fn pvec/tree.rs RRBTree::find_path_to_index props C02
    requires twf(*self), index < nlen(*self.root),
    ensures leads(*self.root, index as int, r@),
//@ at before loop 0
    proof { assert forall|q: Seq<usize>| leads(*self.root, index as int, q) implies leads(*self.root, index as int, #[trigger] (path@ + q)) by { assert(path@ + q =~= q); } }
//@ loop 0
    invariant
        wf(**current_node), remaining_index < nlen(**current_node),
        forall|q: Seq<usize>| leads(**current_node, remaining_index as int, q) ==> leads(*self.root, index as int, #[trigger] (path@ + q)),
    ensures leads(*self.root, index as int, path@),
    decreases **current_node,
//@ at loop 0 start
    proof { lemma_inside(*current_node); assert(path@ + Seq::empty() =~= path@); }
    let ghost node_ = node_of(*current_node);
    let ghost path_ = path@;
    let ghost rem_ = remaining_index;
//@ at loop 0 end
    proof { lemma_leads_step(node_of(self.root), index as int, path_, node_, rem_ as int, path@.last(), remaining_index as int); assert(path@ =~= path_.push(path@.last())); }
//@ fn pvec/tree.rs RRBTree::split_leaf_node props C02
    requires **node is Leaf, wf(**node), index <= nlen(**node),
    ensures wf(*r.0), wf(*r.1), nv(*r.0) =~= nv(**node).take(index as int), nv(*r.1) =~= nv(**node).skip(index as int),
//@ at start
    proof { lemma_inside(*node); }
//@ fn pvec/tree.rs RRBTree::create_left_branch props C02
    requires kids(original_children@), split_index < original_children@.len(), wf(*new_child),
        flat(original_children@.take(split_index as int)).len() + nlen(*new_child) <= usize::MAX,
    ensures wf(r), nv(r) =~= flat(original_children@.take(split_index as int)) + nv(*new_child),
//@ at start
    proof { lemma_few::<T>(); }
//@ loop 0
    invariant left_children@ =~= original_children@.take(i as int), split_index < original_children@.len(),
//@ at after loop 0
    proof { lemma_grow(left_children@); }
//@ fn pvec/tree.rs RRBTree::create_right_branch props C02
    requires kids(original_children@), split_index < original_children@.len(), wf(*new_child),
        flat(original_children@.skip(split_index + 1)).len() + nlen(*new_child) <= usize::MAX,
    ensures wf(r), nv(r) =~= nv(*new_child) + flat(original_children@.skip(split_index + 1)),
//@ at start
    let _n = original_children.len();
//@ at before loop 0
    proof { lemma_few::<T>(); lemma_adds::<T>(); }
    let ghost first_ = right_children@;
//@ loop 0
    invariant right_children@ =~= first_ + original_children@.subrange(split_index + 1, i as int), i >= split_index + 1,
//@ at after loop 0
    proof { assert(original_children@.subrange(split_index + 1, original_children@.len() as int) =~= original_children@.skip(split_index + 1)); }
//@ fn pvec/tree.rs RRBTree::calculate_adjusted_index props C02
    requires sizes is Some, child_index <= sizes->0@.len(), sum(sizes->0@) <= usize::MAX,
    ensures r == (if target_index >= sum(sizes->0@.take(child_index as int)) { target_index - sum(sizes->0@.take(child_index as int)) } else { 0 }),
//@ loop 0
    invariant cumulative == sum(sizes@.take(i as int)), child_index <= sizes@.len(), sum(sizes@) <= usize::MAX,
//@ at loop 0 start
    proof { lemma_sum_step(sizes@, i as int); }
//@ fn pvec/tree.rs RRBTree::split_along_path props C02
    requires wf(**node), leads(**node, target_index as int, path@), target_index <= nlen(**node),
    ensures wf(*r.0), wf(*r.1), nv(*r.0) =~= nv(**node).take(target_index as int), nv(*r.1) =~= nv(**node).skip(target_index as int),
    decreases **node,
//@ at start
    proof { lemma_inside(*node); if node_of(*node) is Branch { lemma_tables(*node); } lemma_few::<T>(); }
//@ fn pvec/tree.rs RRBTree::split_tree_at props C02
    requires twf(*self), index < nlen(*self.root),
    ensures wf(*r.0), wf(*r.1), nv(*r.0) =~= nv(*self.root).take(index as int), nv(*r.1) =~= nv(*self.root).skip(index as int),
//@ fn pvec/tree.rs RRBTree::split_at props C02
    requires twf(*self),
    ensures twf(r.0), twf(r.1),
        index <= tlen(*self) ==> tv(r.0) =~= tv(*self).take(index as int) && tv(r.1) =~= tv(*self).skip(index as int),
        index > tlen(*self) ==> tv(r.0) =~= tv(*self) && tv(r.1) =~= Seq::empty(),
//@ const pvec/core.rs ADAPTIVE_INLINE_SIZE
//@ type pvec/core.rs Generation
//@ type pvec/core.rs VectorImpl
//@ type pvec/core.rs PersistentVector
//@ type pvec/error.rs PVecError
//@ type pvec/iter.rs PersistentVectorIter
//@ type pvec/iter.rs PersistentVectorIntoIter
//@ raw
impl<T: Clone> Clone for PersistentVector<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
/// The elements of a persistent vector, in order.
pub open spec fn pv<T>(v: PersistentVector<T>) -> Seq<T> {
    match v.inner {
        VectorImpl::Inline { elements } => elements@,
        VectorImpl::Tree { tree } => tv(*tree),
    }
}
pub open spec fn pwf<T>(v: PersistentVector<T>) -> bool {
    v.len == pv(v).len() && match v.inner {
        VectorImpl::Inline { elements } => true,
        VectorImpl::Tree { tree } => twf(*tree),
    }
}
impl<T> PersistentVector<T> {
    /// What the standard adaptors see of an iterator over a persistent vector; the contract of its
    /// `next` is proved below.
    #[verifier::external_body]
    pub fn iter_(&self) -> (r: It<&T>)
        requires pwf(*self),
        ensures r.fresh(refs(pv(*self))),
    { unimplemented!() }
}
impl<T: Clone> PersistentVector<T> {
    #[verifier::external_body]
    pub fn into_iter_(self) -> (r: It<T>)
        requires pwf(self),
        ensures r.fresh(pv(self)),
    { unimplemented!() }
}
//@ raw
pub trait IntoItRef<X>: Sized {
    spec fn okay(&self) -> bool;
    spec fn its(&self) -> Seq<X>;
    fn into_iter_(self) -> (r: It<X>)
        requires self.okay(),
        ensures r.fresh(self.its());
}
impl<'a, T> IntoItRef<&'a T> for &'a PersistentVector<T> {
    open spec fn okay(&self) -> bool { pwf(**self) }
    open spec fn its(&self) -> Seq<&'a T> { refs(pv(**self)) }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<&'a T>) { unimplemented!() }
}
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
/// A sequence without the elements equal to the one kept before them.
pub open spec fn deduped<T: PartialEq>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let d = deduped(s.drop_last());
        if d.len() > 0 && d.last().eq_spec(&s.last()) { d } else { d.push(s.last()) }
    }
}
//@ fn pvec/core.rs PersistentVector::new props C01,C05
    ensures pwf(r), pv(r) =~= Seq::empty(),
//@ fn pvec/core.rs PersistentVector::unit props C01
    ensures pwf(r), pv(r) =~= seq![value],
//@ fn pvec/core.rs PersistentVector::len props C01
    requires pwf(*self),
    ensures r == pv(*self).len(),
//@ fn pvec/core.rs PersistentVector::is_empty props C01
    requires pwf(*self),
    ensures r == (pv(*self).len() == 0),
//@ fn pvec/core.rs PersistentVector::get props C01,C03
    requires pwf(*self),
    ensures r == (if index < pv(*self).len() { Some(&pv(*self)[index as int]) } else { None }),
//@ fn pvec/core.rs PersistentVector::try_get props C01
    requires pwf(*self),
    ensures
        index < pv(*self).len() ==> r == Ok::<&T, PVecError>(&pv(*self)[index as int]),
        index >= pv(*self).len() ==> r is Err,
//@ fn pvec/core.rs PersistentVector::first props C01
    requires pwf(*self),
    ensures r == (if pv(*self).len() > 0 { Some(&pv(*self)[0]) } else { None }),
//@ fn pvec/core.rs PersistentVector::last props C01
    requires pwf(*self),
    ensures r == (if pv(*self).len() > 0 { Some(&pv(*self).last()) } else { None }),
//@ fn pvec/core.rs PersistentVector[FromIterator]::from_iter props C01,C02,C03
    ensures pwf(r), pv(r) =~= iter.items(),
//@ fn pvec/core.rs PersistentVector::from_slice props C03
    ensures pwf(r), pv(r) =~= slice@,
//@ fn pvec/core.rs PersistentVector::transition_to_tree props C01
    requires pwf(*self),
    ensures pwf(r), pv(r) =~= pv(*self), r.inner is Tree,
//@ fn pvec/core.rs PersistentVector::tree_push_back props C01
    requires pwf(*self), self.inner is Tree, pv(*self).len() < usize::MAX,
    ensures pwf(r), pv(r) =~= pv(*self).push(value),
//@ fn pvec/core.rs PersistentVector::tree_push_front props C01
    requires pwf(*self), self.inner is Tree, pv(*self).len() < usize::MAX,
    ensures pwf(r), pv(r) =~= seq![value] + pv(*self),
//@ fn pvec/core.rs PersistentVector::push_back props C01
    requires pwf(*self), pv(*self).len() < usize::MAX,
    ensures pwf(r), pv(r) =~= pv(*self).push(value),
    decreases (if self.inner is Inline { 1nat } else { 0nat }),
//@ fn pvec/core.rs PersistentVector::push_front props C01
    requires pwf(*self), pv(*self).len() < usize::MAX,
    ensures pwf(r), pv(r) =~= seq![value] + pv(*self),
    decreases (if self.inner is Inline { 1nat } else { 0nat }),
//@ fn pvec/core.rs PersistentVector::update props C01
    requires pwf(*self),
    ensures pwf(r), pv(r) =~= (if index < pv(*self).len() { pv(*self).update(index as int, value) } else { pv(*self) }),
//@ fn pvec/core.rs PersistentVector::try_update props C01
    requires pwf(*self),
    ensures
        index < pv(*self).len() ==> (r matches Ok(q) && pwf(q) && pv(q) =~= pv(*self).update(index as int, value)),
        index >= pv(*self).len() ==> r is Err,
//@ fn pvec/core.rs PersistentVector::concat props C02
    requires pwf(*self), pwf(*other), pv(*self).len() + pv(*other).len() <= usize::MAX,
    ensures pwf(r), pv(r) =~= pv(*self) + pv(*other),
//@ fn pvec/core.rs PersistentVector::ensure_tree props C02
    requires pwf(*self),
    ensures twf(r), tv(r) =~= pv(*self),
//@ fn pvec/core.rs PersistentVector::pop_back props C01
    requires pwf(*self),
    ensures
        pv(*self).len() == 0 ==> r is None,
        pv(*self).len() > 0 ==> (r matches Some((t, p)) && pwf(t) && pv(t) =~= pv(*self).drop_last() && p == pv(*self).last()),
//@ closure 0 |__p0: (RRBTree<T>, T)| -> (q: (PersistentVector<T>, T))
    requires self.len > 0,
    ensures q.1 == __p0.1, q.0.len == self.len - 1, q.0.inner is Tree, *(q.0.inner->tree) == __p0.0,
//@ fn pvec/core.rs PersistentVector::pop_front props C01
    requires pwf(*self),
    ensures
        pv(*self).len() == 0 ==> r is None,
        pv(*self).len() > 0 ==> (r matches Some((t, p)) && pwf(t) && pv(t) =~= pv(*self).skip(1) && p == pv(*self)[0]),
//@ closure 0 |__p0: (RRBTree<T>, T)| -> (q: (PersistentVector<T>, T))
    requires self.len > 0,
    ensures q.1 == __p0.1, q.0.len == self.len - 1, q.0.inner is Tree, *(q.0.inner->tree) == __p0.0,
//@ fn pvec/core.rs PersistentVector::split_at props C02
    requires pwf(*self),
    ensures pwf(r.0), pwf(r.1),
        index <= pv(*self).len() ==> pv(r.0) =~= pv(*self).take(index as int) && pv(r.1) =~= pv(*self).skip(index as int),
        index > pv(*self).len() ==> pv(r.0) =~= pv(*self) && pv(r.1) =~= Seq::empty(),
//@ fn pvec/core.rs PersistentVector::take props C02
    requires pwf(*self),
    ensures pwf(r), pv(r) =~= pv(*self).take(at_most(n, pv(*self).len())),
//@ fn pvec/core.rs PersistentVector::skip props C02
    requires pwf(*self),
    ensures pwf(r), pv(r) =~= pv(*self).skip(at_most(n, pv(*self).len())),
//@ fn pvec/core.rs PersistentVector::insert props C02
    requires pwf(*self), pv(*self).len() < usize::MAX,
    ensures pwf(r), pv(r) =~= pv(*self).insert(at_most(index, pv(*self).len()), value),
//@ fn pvec/core.rs PersistentVector::remove props C02
    requires pwf(*self),
    ensures
        index >= pv(*self).len() ==> r is None,
        index < pv(*self).len() ==> (r matches Some(q) && pwf(q) && pv(q) =~= pv(*self).remove(index as int)),
//@ fn pvec/core.rs PersistentVector::to_vec props C03
    requires pwf(*self),
    ensures r@ =~= pv(*self),
//@ fn pvec/iter.rs PersistentVectorIter[Iterator]::next props C03
    requires pwf(*old(self).vector), old(self).position <= pv(*old(self).vector).len(),
    ensures
        final(self).vector == old(self).vector,
        old(self).position < pv(*old(self).vector).len() ==> r == Some(&pv(*old(self).vector)[old(self).position as int]) && final(self).position == old(self).position + 1,
        old(self).position == pv(*old(self).vector).len() ==> r is None && final(self).position == old(self).position,
//@ fn pvec/iter.rs PersistentVectorIter[Iterator]::size_hint props C03
    requires pwf(*self.vector), self.position <= pv(*self.vector).len(),
    ensures r.0 == pv(*self.vector).len() - self.position, r.1 == Some(r.0),
//@ fn pvec/iter.rs PersistentVectorIntoIter[Iterator]::next props C03
    requires pwf(old(self).vector), old(self).position <= pv(old(self).vector).len(),
    ensures
        final(self).vector == old(self).vector,
        old(self).position < pv(old(self).vector).len() ==> r == Some(pv(old(self).vector)[old(self).position as int]) && final(self).position == old(self).position + 1,
        old(self).position == pv(old(self).vector).len() ==> r is None && final(self).position == old(self).position,
//@ fn pvec/iter.rs PersistentVectorIntoIter[Iterator]::size_hint props C03
    requires pwf(self.vector), self.position <= pv(self.vector).len(),
    ensures r.0 == pv(self.vector).len() - self.position, r.1 == Some(r.0),
//@ fn pvec/core.rs PersistentVector::iter props C03
    requires pwf(*self),
    ensures r.vector == self, r.position == 0,
//@ fn pvec/core.rs PersistentVector[IntoIterator]::into_iter props C03
    requires pwf(self),
    ensures r.vector == self, r.position == 0,
//@ fn pvec/core.rs PersistentVector::map props C03
    requires pwf(*self), forall|i: int| 0 <= i < pv(*self).len() ==> f.requires((&#[trigger] pv(*self)[i],)),
    ensures pwf(r), pv(r).len() == pv(*self).len(), forall|i: int| 0 <= i < pv(*self).len() ==> f.ensures((&pv(*self)[i],), #[trigger] pv(r)[i]),
//@ fn pvec/core.rs PersistentVector::filter props C03
    requires pwf(*self), forall|i: int| 0 <= i < pv(*self).len() ==> predicate.requires((&#[trigger] pv(*self)[i],)),
    ensures pwf(r), exists|keep: Seq<bool>| keep.len() == pv(*self).len()
            && (forall|i: int| 0 <= i < pv(*self).len() ==> predicate.ensures((&pv(*self)[i],), #[trigger] keep[i])) && pv(r) == #[trigger] select(pv(*self), keep),
//@ closure 0 |x: &&T| -> (q: bool)
    requires predicate.requires((*x,)),
    ensures predicate.ensures((*x,), q),
//@ fn pvec/core.rs PersistentVector::filter_map props C03
    requires pwf(*self), forall|i: int| 0 <= i < pv(*self).len() ==> f.requires((&#[trigger] pv(*self)[i],)),
    ensures pwf(r), exists|o: Seq<Option<U>>| #[trigger] mapped(f, refs(pv(*self)), o) && pv(r) == present(o),
//@ fn pvec/core.rs PersistentVector::flat_map props C03
    requires pwf(*self), forall|i: int| 0 <= i < pv(*self).len() ==> f.requires((&#[trigger] pv(*self)[i],)),
    ensures pwf(r), exists|o: Seq<I>| #[trigger] mapped(f, refs(pv(*self)), o) && pv(r) == joined(parts::<U, I>(o)),
//@ fn pvec/core.rs PersistentVector::fold props C03,C17
    requires pwf(*self), forall|b: B, i: int| 0 <= i < pv(*self).len() ==> #[trigger] f.requires((b, &pv(*self)[i])),
    ensures folds(f, init, refs(pv(*self)), r),
//@ fn pvec/core.rs PersistentVector::zip props C03
    requires pwf(*self), pwf(*other),
    ensures pwf(r), pv(r) =~= zipped(pv(*self), pv(*other)),
//@ closure 0 |__p0: (&T, &U)| -> (q: (T, U))
    ensures q == (*__p0.0, *__p0.1),
//@ raw
pub proof fn lemma_select_step<T>(s: Seq<T>, keep: Seq<bool>, b: bool)
    requires keep.len() < s.len(),
    ensures
        select(s.take(keep.len() as int + 1), keep.push(b)) == (if b { select(s.take(keep.len() as int), keep).push(s[keep.len() as int]) } else { select(s.take(keep.len() as int), keep) }),
        select(s.take(keep.len() as int + 1), keep.push(b).map_values(|b: bool| !b))
            == (if !b { select(s.take(keep.len() as int), keep.map_values(|b: bool| !b)).push(s[keep.len() as int]) } else { select(s.take(keep.len() as int), keep.map_values(|b: bool| !b)) }),
{
    assert(s.take(keep.len() as int + 1).drop_last() =~= s.take(keep.len() as int));
    assert(keep.push(b).drop_last() =~= keep);
    assert(keep.push(b).map_values(|b: bool| !b).drop_last() =~= keep.map_values(|b: bool| !b));
}
//@ fn pvec/core.rs PersistentVector::partition props C03
    requires pwf(*self), forall|i: int| 0 <= i < pv(*self).len() ==> predicate.requires((&#[trigger] pv(*self)[i],)),
    ensures pwf(r.0), pwf(r.1), exists|keep: Seq<bool>| #[trigger] keep.len() == pv(*self).len()
            && (forall|i: int| 0 <= i < pv(*self).len() ==> predicate.ensures((&pv(*self)[i],), #[trigger] keep[i]))
            && pv(r.0) == select(pv(*self), keep) && pv(r.1) == select(pv(*self), keep.map_values(|b: bool| !b)),
//@ at before loop 0
    let ghost mut keep_: Seq<bool> = Seq::empty();
//@ loop 0
    invariant
        __it0.orig() == refs(pv(*self)), 0 <= __it0.pos() <= pv(*self).len(),
        forall|i: int| 0 <= i < pv(*self).len() ==> predicate.requires((&#[trigger] pv(*self)[i],)),
        keep_.len() == __it0.pos(),
        forall|i: int| 0 <= i < keep_.len() ==> predicate.ensures((&pv(*self)[i],), #[trigger] keep_[i]),
        true_items@ == select(pv(*self).take(keep_.len() as int), keep_),
        false_items@ == select(pv(*self).take(keep_.len() as int), keep_.map_values(|b: bool| !b)),
    ensures keep_.len() == pv(*self).len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at then 0
    proof { lemma_select_step(pv(*self), keep_, true); keep_ = keep_.push(true); }
//@ at else 0
    proof { lemma_select_step(pv(*self), keep_, false); keep_ = keep_.push(false); }
//@ at after loop 0
    proof { assert(pv(*self).take(keep_.len() as int) =~= pv(*self)); }
//@ fn pvec/core.rs PersistentVector::chunk props C03
    requires pwf(*self),
    ensures pwf(r), size == 0 ==> pv(r).len() == 0,
        forall|i: int| 0 <= i < pv(r).len() ==> pwf(#[trigger] pv(r)[i]),
        size > 0 ==> pv(r).len() == chunked(pv(*self), size as int).len()
            && forall|i: int| 0 <= i < pv(r).len() ==> pv(#[trigger] pv(r)[i]) == chunked(pv(*self), size as int)[i],
//@ at start
    proof { if size > 0 { lemma_chunked_refs(pv(*self), size as int); } }
//@ closure 0 |chunk: &[&T]| -> (q: PersistentVector<T>)
    ensures pwf(q), pv(q) =~= derefs(chunk@),
//@ closure 1 |__p0: &&T| -> (q: T)
    ensures q == **__p0,
//@ fn pvec/core.rs PersistentVector[Extend]::extend props C03
    requires pwf(*old(self)), pv(*old(self)).len() + iter.items().len() <= usize::MAX,
    ensures pwf(*final(self)), pv(*final(self)) =~= pv(*old(self)) + iter.items(),
//@ loop 0
    invariant
        pwf(*self), __it0.orig() == iter.items(), 0 <= __it0.pos() <= __it0.orig().len(),
        pv(*self) =~= pv(*old(self)) + iter.items().take(__it0.pos()),
        pv(*old(self)).len() + iter.items().len() <= usize::MAX,
    ensures __it0.pos() == iter.items().len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { assert(iter.items().take(__it0.pos()) =~= iter.items().take(__it0.pos() - 1).push(iter.items()[__it0.pos() - 1])); }
//@ fn pvec/core.rs PersistentVector::dedup props C03
    requires pwf(*self), T::obeys_eq_spec(),
    ensures pwf(r), pv(r) == deduped(pv(*self)),
//@ loop 0
    invariant
        __it0.orig() == refs(pv(*self)), 0 <= __it0.pos() <= pv(*self).len(), T::obeys_eq_spec(),
        result@ == deduped(pv(*self).take(__it0.pos())),
        last == (if result@.len() > 0 { Some(&result@.last()) } else { None }),
    ensures __it0.pos() == pv(*self).len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { assert(pv(*self).take(__it0.pos()).drop_last() =~= pv(*self).take(__it0.pos() - 1)); }
//@ at after loop 0
    proof { assert(pv(*self).take(pv(*self).len() as int) =~= pv(*self)); }
//@ fn pvec/core.rs PersistentVector::sorted props C03
    requires pwf(*self),
    ensures pwf(r), pv(r) == sorted_seq(pv(*self)),
//@ fn pvec/core.rs PersistentVector::with_cache_policy props C01
    ensures pwf(r), pv(r) =~= Seq::empty(),
//@ fn pvec/core.rs PersistentVector::from_slice_with_cache_policy props C03
    ensures pwf(r), pv(r) =~= slice@,
//@ fn pvec/core.rs PersistentVector[PartialEq]::eq props C04 as pv_eq
    requires pwf(*self), pwf(*other), T::obeys_eq_spec(),
    ensures r == seq_eq(pv(*self), pv(*other)),
//@ fn pvec/core.rs PersistentVector[PartialOrd]::partial_cmp props C04 as pv_partial_cmp
    requires pwf(*self), pwf(*other), T::obeys_partial_cmp_spec(),
    ensures r == seq_partial_cmp(pv(*self), pv(*other)),
//@ fn pvec/core.rs PersistentVector[Ord]::cmp props C04 as pv_cmp
    requires pwf(*self), pwf(*other), T::obeys_cmp_spec(),
    ensures r == seq_cmp(pv(*self), pv(*other)),
//@ fn pvec/core.rs PersistentVector[Hash]::hash props C04 as pv_hash
    requires pwf(*self),
    ensures *final(state) == fed_all(fed(*old(state), pv(*self).len() as usize), pv(*self)),
//@ loop 0
    invariant
        pwf(*self),
        __it0.orig() == refs(pv(*self)), 0 <= __it0.pos() <= pv(*self).len(),
        *state == fed_all(fed(*old(state), pv(*self).len() as usize), pv(*self).take(__it0.pos())),
    ensures __it0.pos() == pv(*self).len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 start
    proof { assert(pv(*self).take(__it0.pos()).drop_last() =~= pv(*self).take(__it0.pos() - 1)); }
//@ at after loop 0
    proof { assert(pv(*self).take(pv(*self).len() as int) =~= pv(*self)); }
//@ fn pvec/core.rs PersistentVector[Default]::default props C01
    ensures pwf(r), pv(r) =~= Seq::empty(),
//@ fn pvec/core.rs PersistentVector[From]::from props C03
    ensures pwf(r), pv(r) =~= vec@,
//@ fn pvec/core.rs PersistentVector[Index]::index props C01
    requires pwf(*self), index < pv(*self).len(),
    ensures *r == pv(*self)[index as int],
//@ fn pvec/traits.rs PersistentVector[Identity]::value props C01
    requires pwf(*self), pv(*self).len() > 0,
    ensures *r == pv(*self)[0],
//@ fn pvec/traits.rs PersistentVector[Identity]::try_value props C01
    requires pwf(*self),
    ensures r == (if pv(*self).len() > 0 { Some(&pv(*self)[0]) } else { None }),
//@ fn pvec/traits.rs PersistentVector[Identity]::into_value props C01
    requires pwf(self), pv(self).len() > 0,
    ensures r == pv(self)[0],
//@ fn pvec/traits.rs PersistentVector[Identity]::try_into_value props C01
    requires pwf(self),
    ensures r == (if pv(self).len() > 0 { Some(pv(self)[0]) } else { None }),
//@ fn pvec/traits.rs PersistentVector[Functor]::fmap props C03,C06
    requires pwf(*self), forall|i: int| 0 <= i < pv(*self).len() ==> f.requires((&#[trigger] pv(*self)[i],)),
    ensures pwf(r), pv(r).len() == pv(*self).len(), forall|i: int| 0 <= i < pv(*self).len() ==> f.ensures((&pv(*self)[i],), #[trigger] pv(r)[i]),
//@ fn pvec/traits.rs PersistentVector[Functor]::fmap_owned props C03,C06
    requires pwf(self), forall|i: int| 0 <= i < pv(self).len() ==> f.requires((#[trigger] pv(self)[i],)),
    ensures pwf(r), pv(r).len() == pv(self).len(), forall|i: int| 0 <= i < pv(self).len() ==> f.ensures((pv(self)[i],), #[trigger] pv(r)[i]),
//@ fn pvec/traits.rs PersistentVector[Foldable]::fold_left props C17
    requires pwf(*self), left_ok(f, *init, pv(*self)),
    ensures folded_left(f, *init, pv(*self), r),
//@ at before loop 0
    let ghost mut a_: Seq<U> = seq![acc];
//@ loop 0
    invariant
        __it0.orig() == refs(pv(*self)), 0 <= __it0.pos() <= pv(*self).len(),
        left_ok(f, *init, pv(*self)),
        fold_left_steps(f, *init, pv(*self).take(__it0.pos()), a_), acc == a_.last(),
    ensures __it0.pos() == pv(*self).len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 end
    proof { lemma_fold_left_step(f, *init, pv(*self), __it0.pos() - 1, a_, acc); a_ = a_.push(acc); }
//@ at after loop 0
    proof { assert(pv(*self).take(pv(*self).len() as int) =~= pv(*self)); }
//@ fn pvec/traits.rs PersistentVector[Foldable]::fold_right props C17
    requires pwf(*self), right_ok(f, *init, pv(*self).reverse()),
    ensures folded_right(f, *init, pv(*self).reverse(), r),
//@ at before loop 0
    let ghost mut a_: Seq<U> = seq![acc];
//@ loop 0
    invariant
        pwf(*self), __it0.orig() == (0..(pv(*self).len() as usize)).down(), 0 <= __it0.pos() <= pv(*self).len(), pv(*self).len() <= usize::MAX,
        right_ok(f, *init, pv(*self).reverse()),
        fold_right_steps(f, *init, pv(*self).reverse().take(__it0.pos()), a_), acc == a_.last(),
    ensures __it0.pos() == pv(*self).len(),
    decreases __it0.orig().len() - __it0.pos(),
//@ at loop 0 end
    proof { lemma_fold_right_step(f, *init, pv(*self).reverse(), __it0.pos() - 1, a_, acc); a_ = a_.push(acc); }
//@ at after loop 0
    proof { assert(pv(*self).reverse().take(pv(*self).len() as int) =~= pv(*self).reverse()); }
//@ fn pvec/traits.rs PersistentVector[Foldable]::length props C17
    requires pwf(*self),
    ensures r == pv(*self).len(),
//@ fn pvec/traits.rs PersistentVector[Semigroup]::combine props C02,C05
    requires pwf(*self), pwf(*other), pv(*self).len() + pv(*other).len() <= usize::MAX,
    ensures pwf(r), pv(r) =~= pv(*self) + pv(*other),
//@ fn pvec/traits.rs PersistentVector[Semigroup]::combine_owned props C02,C05
    requires pwf(self), pwf(other), pv(self).len() + pv(other).len() <= usize::MAX,
    ensures pwf(r), pv(r) =~= pv(self) + pv(other),
//@ fn pvec/traits.rs PersistentVector[Monoid]::empty props C05
    ensures pwf(r), pv(r) =~= Seq::empty(),
