// The category of functions: what composed, paired and conditional morphisms compute.
//@ include inc/fun
//@ method iter iter_
//@ method rev rev_
//@ assoc FunctionCategory Morphism FunctionMorphism<$0,$1>
//@ type category/function_category.rs FunctionCategory
//@ type category/function_category.rs FunctionMorphism
//@ type category/function_category.rs PairMorphism
//@ raw
broadcast use {prelude_lemmas, prelude_len, faithful_clone, faithful_clone_call};
/// it may be run on anything
pub open spec fn total<A, B>(f: &FunctionMorphism<A, B>) -> bool { forall|a: A| #[trigger] f.rq(a) }
/// `f`, then `g`
pub open spec fn through<A, B, C>(f: &FunctionMorphism<A, B>, g: &FunctionMorphism<B, C>, a: A, c: C) -> bool {
    exists|b: B| #[trigger] f.en(a, b) && g.en(b, c)
}
pub open spec fn through_if<A, P: Fn(&A) -> bool>(f: &FunctionMorphism<A, A>, g: &FunctionMorphism<A, A>, p: &P, a: A, c: A) -> bool {
    exists|b: A| #[trigger] f.en(a, b) && ((p.ensures((&b,), true) && g.en(b, c)) || (p.ensures((&b,), false) && c == b))
}
pub open spec fn chain_steps<A, F: Fn(A) -> A>(s: Seq<F>, a: Seq<A>) -> bool {
    a.len() == s.len() + 1 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ensures((a[i],), a[i + 1])
}
/// a plain function
pub open spec fn sends<A, B, F: Fn(A) -> B>(f: &F, a: A, b: B) -> bool { f.ensures((a,), b) }
pub open spec fn answers<A, P: Fn(&A) -> bool>(p: &P, a: A, b: bool) -> bool { p.ensures((&a,), b) }
pub open spec fn if_sends<A, P: Fn(&A) -> bool, F: Fn(A) -> A>(p: &P, f: &F, a: A, b: A) -> bool {
    (answers(p, a, true) && sends(f, a, b)) || (answers(p, a, false) && b == a)
}
pub open spec fn chains<A, F: Fn(A) -> A>(s: &Vec<F>, x: A, r: A) -> bool { chained(s@, x, r) }
/// all of `s`, one after the other, starting from `x`
pub open spec fn chained<A, F: Fn(A) -> A>(s: Seq<F>, x: A, r: A) -> bool {
    exists|a: Seq<A>| #[trigger] chain_steps(s, a) && a[0] == x && a.last() == r
}
pub proof fn lemma_chain<A, G: Fn(A) -> A, F: Fn(A, &G) -> A>(f: F, s: Seq<G>, x: A, r: A)
    requires folds(f, x, refs(s), r), forall|a: A, g: &G, b: A| #[trigger] f.ensures((a, g), b) ==> g.ensures((a,), b),
    ensures chained(s, x, r),
{
    let a = choose|a: Seq<A>| fold_steps(f, x, refs(s), a) && #[trigger] a.last() == r;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).ensures((a[i],), a[i + 1]) by {
        assert(f.ensures((a[i], refs(s)[i]), a[i + 1]));
    }
    assert(chain_steps(s, a));
}
//@ fn category/function_category.rs FunctionCategory[Category]::identity_morphism props C20
    ensures total(&r), forall|a: A, b: A| #[trigger] r.en(a, b) ==> b == a,
//@ closure 0 |x: A| -> (q: A)
    ensures q == x,
//@ fn category/function_category.rs FunctionCategory[Category]::compose_morphisms props C20
    requires total(f), total(g),
    ensures total(&r), forall|a: A, c: C| #[trigger] r.en(a, c) ==> through(f, g, a, c),
//@ closure 0 |x: A| -> (q: C)
    requires total(&f_clone), total(&g_clone),
    ensures through(&f_clone, &g_clone, x, q),
//@ fn category/function_category.rs FunctionCategory[Arrow]::arrow props C20
    requires forall|b: B| #[trigger] f.requires((b,)),
    ensures total(&r), forall|b: B, c: C| #[trigger] r.en(b, c) ==> f.ensures((b,), c),
//@ fn category/function_category.rs FunctionCategory[Arrow]::first props C20
    requires total(f),
    ensures total(&r), forall|p: (B, D), q: (C, D)| #[trigger] r.en(p, q) ==> f.en(p.0, q.0) && q.1 == p.1,
//@ closure 0 |p_: (B, D)| -> (q: (C, D))
    requires total(&f_clone),
    ensures f_clone.en(p_.0, q.0), q.1 == p_.1,
//@ fn category/function_category.rs FunctionCategory[Arrow]::second props C20
    requires total(f),
    ensures total(&r), forall|p: (D, B), q: (D, C)| #[trigger] r.en(p, q) ==> f.en(p.1, q.1) && q.0 == p.0,
//@ closure 0 |p_: (D, B)| -> (q: (D, C))
    requires total(&f_clone),
    ensures f_clone.en(p_.1, q.1), q.0 == p_.0,
//@ fn category/function_category.rs FunctionCategory[Arrow]::split props C20
    requires total(f), total(g),
    ensures total(&r), forall|b: B, q: (C, D)| #[trigger] r.en(b, q) ==> f.en(b, q.0) && g.en(b, q.1),
//@ closure 0 |b: B| -> (q: (C, D))
    requires total(&f_clone), total(&g_clone),
    ensures f_clone.en(b, q.0), g_clone.en(b, q.1),
//@ fn category/function_category.rs FunctionCategory[Arrow]::combine_morphisms props C20
    requires total(f), total(g),
    ensures total(&r), forall|p: (B, D), q: (C, E)| #[trigger] r.en(p, q) ==> f.en(p.0, q.0) && g.en(p.1, q.1),
//@ closure 0 |p_: (B, D)| -> (q: (C, E))
    requires total(&f_clone), total(&g_clone),
    ensures f_clone.en(p_.0, q.0), g_clone.en(p_.1, q.1),
//@ fn category/function_category.rs FunctionCategory[Arrow]::split as default_split default traits/arrow.rs props C20
    requires total(f), total(g),
    ensures total(&r), forall|b: B, q: (C, D)| #[trigger] r.en(b, q) ==> f.en(b, q.0) && g.en(b, q.1),
//@ closure 0 |b: B| -> (q: (B, B))
    ensures q.0 == b, q.1 == b,
//@ fn category/function_category.rs FunctionCategory::both props C20
    requires forall|a: A| #[trigger] f.requires((a,)),
    ensures total(&r), forall|p: (A, A), q: (B, B)| #[trigger] r.en(p, q) ==> f.ensures((p.0,), q.0) && f.ensures((p.1,), q.1),
//@ closure 0 |p_: (A, A)| -> (q: (B, B))
    requires true,
    ensures sends(&f, p_.0, q.0), sends(&f, p_.1, q.1),
//@ fn category/function_category.rs FunctionCategory::when props C20
    requires forall|a: &A| #[trigger] predicate.requires((a,)), forall|a: A| #[trigger] transform.requires((a,)),
    ensures total(&r), forall|a: A, b: A| #[trigger] r.en(a, b) ==> if_sends(&predicate, &transform, a, b),
//@ closure 0 |a: A| -> (b: A)
    requires true,
    ensures if_sends(&predicate, &transform, a, b),
//@ fn category/function_category.rs FunctionCategory::lift props C20
    requires forall|a: A| #[trigger] f.requires((a,)),
    ensures total(&r), forall|a: A, b: B| #[trigger] r.en(a, b) ==> f.ensures((a,), b),
//@ fn category/function_category.rs FunctionCategory::then_if props C20
    requires total(first), total(second), forall|a: &A| #[trigger] predicate.requires((a,)),
    ensures total(&r), forall|a: A, c: A| #[trigger] r.en(a, c) ==> through_if(first, second, &predicate, a, c),
//@ closure 0 |x: A| -> (q: A)
    requires total(&first_clone), total(&second_clone),
    ensures through_if(&first_clone, &second_clone, &predicate, x, q),
//@ fn category/function_category.rs FunctionCategory::compose_when props C20
    requires total(first), total(second), forall|a: &A| #[trigger] predicate.requires((a,)),
    ensures total(&r), forall|a: A, c: A| #[trigger] r.en(a, c) ==> through_if(first, second, &predicate, a, c),
//@ fn category/function_category.rs FunctionCategory::sequence props C20
    requires forall|i: int, a: A| 0 <= i < functions@.len() ==> #[trigger] functions@[i].requires((a,)),
    ensures total(&r), forall|x: A, y: A| #[trigger] r.en(x, y) ==> chains(&functions, x, y),
//@ closure 0 |initial: A| -> (q: A)
    requires true,
    ensures chains(&functions, initial, q),
//@ closure 1 |acc: A, f: &F| -> (s: A)
    requires f.requires((acc,)),
    ensures f.ensures((acc,), s),
//@ hoist 1
//@ at closure 0 tail
    proof {
        assert forall|q: A| #[trigger] folds(__c1, initial, refs(functions@), q) implies chained(functions@, initial, q) by {
            lemma_chain(__c1, functions@, initial, q);
        }
    }
//@ raw
/// one result for each argument
pub open spec fn sure<A, B>(f: &FunctionMorphism<A, B>) -> bool { forall|a: A, b: B, c: B| #[trigger] f.en(a, b) && #[trigger] f.en(a, c) ==> b == c }
pub fn law_associative<A: 'static, B: 'static, C: 'static, D: 'static>(f: &FunctionMorphism<A, B>, g: &FunctionMorphism<B, C>, h: &FunctionMorphism<C, D>, x: A, y: A) -> (r: (D, D))
    requires total(f), total(g), total(h), sure(f), sure(g), sure(h), x == y,
    ensures r.0 == r.1,
{
    let l = FunctionCategory::compose_morphisms(h, &FunctionCategory::compose_morphisms(g, f));
    let m = FunctionCategory::compose_morphisms(&FunctionCategory::compose_morphisms(h, g), f);
    (l.ca_(x), m.ca_(y))
}
pub fn law_identity<A: 'static, B: 'static>(f: &FunctionMorphism<A, B>, x: A, y: A, z: A) -> (r: (B, B, B))
    requires total(f), sure(f), x == y, y == z,
    ensures r.0 == r.2, r.1 == r.2,
{
    let l = FunctionCategory::compose_morphisms(f, &FunctionCategory::identity_morphism());
    let m = FunctionCategory::compose_morphisms(&FunctionCategory::identity_morphism(), f);
    (l.ca_(x), m.ca_(y), f.ca_(z))
}
/// `first` respects composition
pub fn law_first<A: 'static, B: 'static, C: 'static, D: 'static>(f: &FunctionMorphism<A, B>, g: &FunctionMorphism<B, C>, x: (A, D), y: (A, D)) -> (r: ((C, D), (C, D)))
    requires total(f), total(g), sure(f), sure(g), x == y,
    ensures r.0 == r.1,
{
    let l = FunctionCategory::first(&FunctionCategory::compose_morphisms(g, f));
    let m = FunctionCategory::compose_morphisms(&FunctionCategory::first(g), &FunctionCategory::first(f));
    (l.ca_(x), m.ca_(y))
}
/// running on both halves is running on the first, then on the second
pub fn law_combine<A: 'static, B: 'static, C: 'static, D: 'static>(f: &FunctionMorphism<A, B>, g: &FunctionMorphism<C, D>, x: (A, C), y: (A, C)) -> (r: ((B, D), (B, D)))
    requires total(f), total(g), sure(f), sure(g), x == y,
    ensures r.0 == r.1,
{
    let l = FunctionCategory::combine_morphisms(f, g);
    let m = FunctionCategory::compose_morphisms(&FunctionCategory::second(g), &FunctionCategory::first(f));
    (l.ca_(x), m.ca_(y))
}
/// the implementation's `split` and the one the trait provides agree
pub fn law_split<A: 'static + Clone, B: 'static, C: 'static>(f: &FunctionMorphism<A, B>, g: &FunctionMorphism<A, C>, x: A, y: A) -> (r: ((B, C), (B, C)))
    requires total(f), total(g), sure(f), sure(g), x == y,
    ensures r.0 == r.1,
{
    (FunctionCategory::split(f, g).ca_(x), FunctionCategory::default_split(f, g).ca_(y))
}
