@dropuse std::collections::HashSet
@mod row::borrowed
/// All products of one element of xs and one of ys, ys varying slowest
pub open spec fn mul_all(xs: Seq<Seq<Bell>>, ys: Seq<Seq<Bell>>) -> Seq<Seq<Bell>> decreases ys.len() {
    if ys.len() == 0 { Seq::empty() } else { mul_all(xs, ys.drop_last()) + mul_row(xs, ys.last()) }
}
pub open spec fn mul_row(xs: Seq<Seq<Bell>>, y: Seq<Bell>) -> Seq<Seq<Bell>> { xs.map_values(|x: Seq<Bell>| compose(x, y)) }
pub proof fn lemma_mul_row_push(xs: Seq<Seq<Bell>>, x: Seq<Bell>, y: Seq<Bell>) ensures mul_row(xs.push(x), y) == mul_row(xs, y).push(compose(x, y)) { assert(mul_row(xs.push(x), y) =~= mul_row(xs, y).push(compose(x, y))); }
/// Everything not waiting in the frontier has been multiplied by every generator
#[verifier::opaque] pub open spec fn stepped(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, x: Seq<Bell>) -> bool { forall|i: int| 0 <= i < rs.len() ==> set.contains(compose(x, #[trigger] rs[i])) }
#[verifier::opaque] pub open spec fn grows(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, n: int) -> bool {
    &&& set.finite() && n > 0
    &&& forall|i: int| 0 <= i < rs.len() ==> set.contains(#[trigger] rs[i]) && valid(rs[i]) && rs[i].len() == n
    &&& forall|x: Seq<Bell>| #[trigger] set.contains(x) ==> generated(rs, x) && valid(x) && x.len() == n
    &&& forall|i: int| 0 <= i < front.len() ==> set.contains(#[trigger] front[i])
}
pub open spec fn cart(sets: Seq<Seq<Seq<Bell>>>) -> Seq<Seq<Bell>> decreases sets.len() {
    if sets.len() == 0 { Seq::empty() } else if sets.len() == 1 { sets[0] } else { mul_all(cart(sets.drop_last()), sets.last()) }
}
pub open spec fn set_view(s: Seq<&Row>) -> Seq<Seq<Bell>> { s.map_values(|r: &Row| r@) }
pub open spec fn sets_view(s: Seq<It<&Row>>) -> Seq<Seq<Seq<Bell>>> { s.map_values(|t: It<&Row>| set_view(t@)) }
pub open spec fn bufs_view(s: Seq<RowBuf>) -> Seq<Seq<Bell>> { s.map_values(|r: RowBuf| r@) }
pub open spec fn all_valid(sets: Seq<Seq<Seq<Bell>>>) -> bool { forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets[i].len() ==> valid(#[trigger] sets[i][j]) }
pub open spec fn all_len(sets: Seq<Seq<Seq<Bell>>>, n: int) -> bool { forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets[i].len() ==> (#[trigger] sets[i][j]).len() == n }
pub open spec fn uniform(sets: Seq<Seq<Seq<Bell>>>) -> bool { exists|n: int| #[trigger] all_len(sets, n) }
pub open spec fn some_empty(sets: Seq<Seq<Seq<Bell>>>) -> bool { exists|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).len() == 0 }
pub proof fn lemma_mul_all_empty(ys: Seq<Seq<Bell>>) ensures mul_all(Seq::empty(), ys).len() == 0 decreases ys.len() { if ys.len() > 0 { lemma_mul_all_empty(ys.drop_last()); } }
pub proof fn lemma_cart_empty(sets: Seq<Seq<Seq<Bell>>>, k: int)
    requires 0 <= k < sets.len(), cart(sets.take(k + 1)).len() == 0
    ensures cart(sets).len() == 0
    decreases sets.len() - k
{
    if k + 1 == sets.len() { assert(sets.take(k + 1) =~= sets); } else {
        let t = sets.take(k + 2);
        assert(t.drop_last() =~= sets.take(k + 1));
        assert(cart(sets.take(k + 1)) =~= Seq::empty());
        lemma_mul_all_empty(t.last());
        lemma_cart_empty(sets, k + 1);
    }
}
pub proof fn lemma_cart_nonempty(sets: Seq<Seq<Seq<Bell>>>)
    requires sets.len() > 0, !some_empty(sets)
    ensures cart(sets).len() > 0
    decreases sets.len()
{
    if sets.len() == 1 { assert(sets[0].len() != 0); } else {
        let t = sets.drop_last();
        assert(!some_empty(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() != 0 by { assert(sets[i].len() != 0); } }
        lemma_cart_nonempty(t);
        assert(sets[sets.len() - 1].len() != 0);
        assert(mul_all(cart(t), sets.last()).len() > 0);
    }
}
pub proof fn lemma_take_nonempty(sets: Seq<Seq<Seq<Bell>>>, k: int)
    requires 0 <= k <= sets.len(), !some_empty(sets)
    ensures !some_empty(sets.take(k))
{ assert forall|i: int| 0 <= i < sets.take(k).len() implies (#[trigger] sets.take(k)[i]).len() != 0 by { assert(sets[i].len() != 0); } }
/// Closed under a * b^-1
pub open spec fn closed_div(s: Set<Seq<Bell>>) -> bool { forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) ==> s.contains(#[trigger] compose(x, inverse(y))) }
/// x is a product of n + 1 rows of rs
pub open spec fn is_prod(rs: Seq<Seq<Bell>>, x: Seq<Bell>, n: nat) -> bool decreases n {
    if n == 0 { rs.contains(x) } else { exists|y: Seq<Bell>, i: int| is_prod(rs, y, (n - 1) as nat) && 0 <= i < rs.len() && x == #[trigger] compose(y, rs[i]) }
}
#[verifier::opaque] pub open spec fn generated(rs: Seq<Seq<Bell>>, x: Seq<Bell>) -> bool { exists|n: nat| #[trigger] is_prod(rs, x, n) }
pub proof fn lemma_closed_prods(rs: Seq<Seq<Bell>>, s: Set<Seq<Bell>>, x: Seq<Bell>, n: nat)
    requires forall|i: int| 0 <= i < rs.len() ==> s.contains(#[trigger] rs[i]),
        forall|y: Seq<Bell>, i: int| s.contains(y) && 0 <= i < rs.len() ==> s.contains(#[trigger] compose(y, rs[i])),
        is_prod(rs, x, n)
    ensures s.contains(x)
    decreases n
{
    if n > 0 {
        let (y, i) = choose|y: Seq<Bell>, i: int| is_prod(rs, y, (n - 1) as nat) && 0 <= i < rs.len() && x == #[trigger] compose(y, rs[i]);
        lemma_closed_prods(rs, s, y, (n - 1) as nat);
    }
}
pub proof fn lemma_prod_step(rs: Seq<Seq<Bell>>, y: Seq<Bell>, i: int)
    requires generated(rs, y), 0 <= i < rs.len()
    ensures generated(rs, compose(y, rs[i]))
{
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);

    let n = choose|n: nat| #[trigger] is_prod(rs, y, n);
    assert(is_prod(rs, compose(y, rs[i]), n + 1));
}
pub proof fn lemma_prod_mono(rs: Seq<Seq<Bell>>, y: Seq<Bell>, x: Seq<Bell>, n: nat)
    requires is_prod(rs, x, n)
    ensures is_prod(rs.push(y), x, n)
    decreases n
{
    let q = rs.push(y);
    if n == 0 { let i = choose|i: int| 0 <= i < rs.len() && rs[i] == x; assert(q[i] == x); } else {
        let (z, i) = choose|z: Seq<Bell>, i: int| is_prod(rs, z, (n - 1) as nat) && 0 <= i < rs.len() && x == #[trigger] compose(z, rs[i]);
        lemma_prod_mono(rs, y, z, (n - 1) as nat);
        assert(q[i] == rs[i]);
        assert(is_prod(q, z, (n - 1) as nat) && x == compose(z, q[i]));
    }
}
pub proof fn lemma_gen_mono(rs: Seq<Seq<Bell>>, y: Seq<Bell>)
    ensures forall|x: Seq<Bell>| generated(rs, x) ==> #[trigger] generated(rs.push(y), x)
{
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);

    assert forall|x: Seq<Bell>| generated(rs, x) implies #[trigger] generated(rs.push(y), x) by { let n = choose|n: nat| #[trigger] is_prod(rs, x, n); lemma_prod_mono(rs, y, x, n); }
}
#[verifier::opaque] pub open spec fn fresh(set: Set<Seq<Bell>>, front: Seq<Seq<Bell>>) -> bool { forall|x: Seq<Bell>| #[trigger] set.contains(x) ==> front.contains(x) }
#[verifier::opaque] pub open spec fn closing(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>) -> bool { forall|x: Seq<Bell>| #[trigger] set.contains(x) ==> front.contains(x) || stepped(set, rs, x) }
/// r has left the frontier and has been multiplied by the first k generators
#[verifier::opaque] pub open spec fn visiting(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, n: int, r: Seq<Bell>, k: int) -> bool {
    &&& grows(set, rs, front, n) && set.contains(r) && valid(r) && r.len() == n
    &&& forall|j: int| 0 <= j < k ==> set.contains(compose(r, #[trigger] rs[j]))
    &&& forall|x: Seq<Bell>| #[trigger] set.contains(x) && x != r ==> front.contains(x) || stepped(set, rs, x)
}
pub open spec fn add(set: Set<Seq<Bell>>, front: Seq<Seq<Bell>>, y: Seq<Bell>) -> Seq<Seq<Bell>> { if set.contains(y) { front } else { front.push(y) } }
pub proof fn lemma_push_contains(s: Seq<Seq<Bell>>, y: Seq<Bell>) ensures s.push(y).contains(y), forall|x: Seq<Bell>| s.contains(x) ==> #[trigger] s.push(y).contains(x)
{
    assert(s.push(y)[s.len() as int] == y);
    assert forall|x: Seq<Bell>| s.contains(x) implies #[trigger] s.push(y).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(y)[i] == x); }
}
pub proof fn lemma_seed(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, y: Seq<Bell>, n: int)
    requires grows(set, rs, front, n), fresh(set, front), valid(y), y.len() == n
    ensures grows(set.insert(y), rs.push(y), add(set, front, y), n), fresh(set.insert(y), add(set, front, y))
{
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);

    let q = rs.push(y);
    lemma_gen_mono(rs, y);
    lemma_push_contains(front, y);
    assert(is_prod(q, y, 0)) by { assert(q[rs.len() as int] == y); }
    assert(generated(q, y));
    let s2 = set.insert(y);
    assert forall|x: Seq<Bell>| #[trigger] s2.contains(x) implies generated(q, x) && valid(x) && x.len() == n by { if x != y { assert(set.contains(x)); } }
    assert forall|i: int| 0 <= i < q.len() implies s2.contains(#[trigger] q[i]) && valid(q[i]) && q[i].len() == n by { if i < rs.len() { assert(q[i] == rs[i]); } }
    let f2 = add(set, front, y);
    assert forall|i: int| 0 <= i < f2.len() implies s2.contains(#[trigger] f2[i]) by { if i < front.len() { assert(f2[i] == front[i]); } }
    assert forall|x: Seq<Bell>| #[trigger] s2.contains(x) implies f2.contains(x) by { if set.contains(x) { assert(front.contains(x)); } }
}
pub proof fn lemma_fresh(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>) requires fresh(set, front) ensures closing(set, rs, front) {
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);
 }
pub proof fn lemma_visit(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, n: int)
    requires grows(set, rs, front, n), closing(set, rs, front), front.len() > 0
    ensures visiting(set, rs, front.skip(1), n, front[0], 0)
{
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);

    let f2 = front.skip(1);
    assert(set.contains(front[0]));
    assert forall|i: int| 0 <= i < f2.len() implies set.contains(#[trigger] f2[i]) by { assert(f2[i] == front[i + 1]); }
    assert forall|x: Seq<Bell>| #[trigger] set.contains(x) && x != front[0] implies f2.contains(x) || stepped(set, rs, x) by {
        if front.contains(x) { let i = choose|i: int| 0 <= i < front.len() && front[i] == x; assert(f2[i - 1] == x); }
    }
}
pub proof fn lemma_visit_step(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, n: int, r: Seq<Bell>, k: int)
    requires visiting(set, rs, front, n, r, k), 0 <= k < rs.len()
    ensures visiting(set.insert(compose(r, rs[k])), rs, add(set, front, compose(r, rs[k])), n, r, k + 1), valid(r), valid(rs[k]), r.len() == rs[k].len()
{
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);

    let y = compose(r, rs[k]);
    let s2 = set.insert(y);
    let f2 = add(set, front, y);
    assert(set.contains(rs[k]));
    lemma_prod_step(rs, r, k);
    lemma_compose_valid(r, rs[k]);
    lemma_push_contains(front, y);
    assert forall|x: Seq<Bell>| #[trigger] s2.contains(x) implies generated(rs, x) && valid(x) && x.len() == n by { if x != y { assert(set.contains(x)); } }
    assert forall|i: int| 0 <= i < rs.len() implies s2.contains(#[trigger] rs[i]) && valid(rs[i]) && rs[i].len() == n by { assert(set.contains(rs[i])); }
    assert forall|i: int| 0 <= i < f2.len() implies s2.contains(#[trigger] f2[i]) by { if i < front.len() { assert(f2[i] == front[i]); } }
    assert forall|j: int| 0 <= j < k + 1 implies s2.contains(compose(r, #[trigger] rs[j])) by { if j < k { assert(set.contains(compose(r, rs[j]))); } }
    assert forall|x: Seq<Bell>| #[trigger] s2.contains(x) && x != r implies f2.contains(x) || stepped(s2, rs, x) by {
        if set.contains(x) && !front.contains(x) {
            assert(stepped(set, rs, x));
            assert forall|i: int| 0 <= i < rs.len() implies s2.contains(compose(x, #[trigger] rs[i])) by { assert(set.contains(compose(x, rs[i]))); }
        }
    }
}
pub proof fn lemma_visit_end(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, n: int, r: Seq<Bell>)
    requires visiting(set, rs, front, n, r, rs.len() as int)
    ensures grows(set, rs, front, n), closing(set, rs, front)
{
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);
 assert(stepped(set, rs, r)); }
pub proof fn lemma_closed_all(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, n: int)
    requires grows(set, rs, Seq::empty(), n), closing(set, rs, Seq::empty())
    ensures forall|x: Seq<Bell>| set.contains(x) <==> generated(rs, x), forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).len() == n
{
    reveal(stepped); reveal(grows); reveal(fresh); reveal(closing); reveal(visiting); reveal(generated);

    assert forall|x: Seq<Bell>| set.contains(x) <==> generated(rs, x) by {
        if generated(rs, x) {
            let m = choose|m: nat| #[trigger] is_prod(rs, x, m);
            assert forall|y: Seq<Bell>, i: int| set.contains(y) && 0 <= i < rs.len() implies set.contains(#[trigger] compose(y, rs[i])) by { assert(!Seq::<Seq<Bell>>::empty().contains(y)); assert(stepped(set, rs, y)); }
            lemma_closed_prods(rs, set, x, m);
        }
    }
}
pub proof fn lemma_grow_init(n: int) requires n > 0 ensures grows(Set::empty(), Seq::empty(), Seq::empty(), n), fresh(Set::empty(), Seq::empty()) { reveal(grows); reveal(fresh); }
pub proof fn lemma_grow_count(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, n: int) requires grows(set, rs, front, n) ensures set.finite(), set.len() <= npow(n, n as nat) { reveal(grows); lemma_row_count(set, n); }
pub proof fn lemma_grow_rows(set: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, front: Seq<Seq<Bell>>, n: int)
    requires grows(set, rs, front, n), rs.len() > 0
    ensures all_rows(set, n), set.len() > 0, set.finite(), forall|i: int| 0 <= i < rs.len() ==> set.contains(#[trigger] rs[i]) && valid(rs[i]) && rs[i].len() == n
{ reveal(grows); assert(set.contains(rs[0])); if set.len() == 0 { assert(set =~= Set::empty()); } }
/// A group of rows of one stage
pub open spec fn is_grp(s: Set<Seq<Bell>>, n: int) -> bool {
    &&& s.contains(rounds_seq(n))
    &&& forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) ==> s.contains(#[trigger] compose(x, y))
    &&& forall|x: Seq<Bell>| s.contains(x) ==> s.contains(#[trigger] inverse(x))
}
pub open spec fn all_rows(s: Set<Seq<Bell>>, n: int) -> bool { forall|x: Seq<Bell>| #[trigger] s.contains(x) ==> valid(x) && x.len() == n }
/// The subgroup test
pub proof fn lemma_group_test(s: Set<Seq<Bell>>, n: int)
    requires all_rows(s, n), s.len() > 0, s.finite(), 0 < n <= usize::MAX
    ensures closed_div(s) <==> is_grp(s, n)
{
    if closed_div(s) {
        let a = s.choose();
        assert(s.contains(a));
        lemma_inverse(a);
        assert(compose(a, inverse(a)) == rounds_seq(n));
        assert forall|x: Seq<Bell>| s.contains(x) implies s.contains(#[trigger] inverse(x)) by {
            lemma_inverse(x);
            lemma_compose_rounds(inverse(x));
            assert(s.contains(compose(rounds_seq(n), inverse(x))));
        }
        assert forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) implies s.contains(#[trigger] compose(x, y)) by {
            lemma_inverse(y);
            lemma_inv_unique(inverse(y), y);
            assert(s.contains(compose(x, inverse(inverse(y)))));
        }
    }
    if is_grp(s, n) {
        assert forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) implies s.contains(#[trigger] compose(x, inverse(y))) by { assert(s.contains(inverse(y))); }
    }
}
#[verifier::opaque] pub open spec fn closed_mul(s: Set<Seq<Bell>>) -> bool { forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) ==> s.contains(#[trigger] compose(x, y)) }
pub proof fn lemma_closed_mul(s: Set<Seq<Bell>>, x: Seq<Bell>, y: Seq<Bell>) requires closed_mul(s), s.contains(x), s.contains(y) ensures s.contains(compose(x, y)) { reveal(closed_mul); }
/// A finite non-empty set of rows closed under products is a group
pub proof fn lemma_finite_group(s: Set<Seq<Bell>>, n: int)
    requires all_rows(s, n), s.len() > 0, s.finite(), 0 < n <= usize::MAX, closed_mul(s)
    ensures is_grp(s, n)
{
    let e = rounds_seq(n);
    let a = s.choose();
    assert(s.contains(a));
    lemma_right_div(s, n, a, a);
    let x = choose|x: Seq<Bell>| s.contains(x) && #[trigger] compose(x, a) == a;
    lemma_solve_xa(a, a);
    lemma_compose_rounds(a);
    lemma_rounds_valid(n);
    assert(compose(e, a) == a);
    assert(s.contains(e));
    assert forall|b: Seq<Bell>| s.contains(b) implies s.contains(#[trigger] inverse(b)) by {
        lemma_right_div(s, n, b, e);
        let y = choose|y: Seq<Bell>| s.contains(y) && #[trigger] compose(y, b) == e;
        lemma_inverse(b);
        lemma_solve_xa(b, e);
        assert(compose(inverse(b), b) == e);
    }
    reveal(closed_mul);
}
pub proof fn lemma_right_div(s: Set<Seq<Bell>>, n: int, a: Seq<Bell>, t: Seq<Bell>)
    requires all_rows(s, n), s.finite(), 0 < n <= usize::MAX, s.contains(a), s.contains(t), closed_mul(s)
    ensures exists|x: Seq<Bell>| s.contains(x) && #[trigger] compose(x, a) == t
{
    let f = |x: Seq<Bell>| compose(x, a);
    let m = s.map(f);
    assert(s.injective_on(f)) by {
        assert forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) && f(x) == f(y) implies x == y by { lemma_solve_xa(a, compose(x, a)); assert(compose(x, a) == compose(y, a)); }
    }
    vstd::set_lib::lemma_map_size(s, m, f);
    assert(m.subset_of(s)) by { assert forall|v: Seq<Bell>| m.contains(v) implies s.contains(v) by { let x = choose|x: Seq<Bell>| s.contains(x) && f(x) == v; lemma_closed_mul(s, x, a); } }
    vstd::set_lib::lemma_subset_equality(m, s);
    assert(m.contains(t));
    let x = choose|x: Seq<Bell>| s.contains(x) && f(x) == t;
    assert(s.contains(x) && compose(x, a) == t);
}
/// The least set closed under products is a group, and every group with all the generators includes it
pub proof fn lemma_generated_group(s: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, n: int)
    requires all_rows(s, n), s.finite(), s.len() > 0, 0 < n <= usize::MAX, forall|x: Seq<Bell>| s.contains(x) <==> generated(rs, x), forall|i: int| 0 <= i < rs.len() ==> valid(#[trigger] rs[i]) && rs[i].len() == n
    ensures is_grp(s, n), forall|g: Set<Seq<Bell>>| #[trigger] is_grp(g, n) && (forall|i: int| 0 <= i < rs.len() ==> g.contains(#[trigger] rs[i])) ==> s.subset_of(g)
{
    reveal(generated);
    assert forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) implies s.contains(#[trigger] compose(x, y)) by {
        assert(generated(rs, y));
        let m = choose|m: nat| #[trigger] is_prod(rs, y, m);
        lemma_gen_compose(s, rs, n, x, y, m);
    }
    assert(closed_mul(s)) by { reveal(closed_mul); }
    lemma_finite_group(s, n);
    assert forall|g: Set<Seq<Bell>>| #[trigger] is_grp(g, n) && (forall|i: int| 0 <= i < rs.len() ==> g.contains(#[trigger] rs[i])) implies s.subset_of(g) by {
        assert forall|x: Seq<Bell>| s.contains(x) implies g.contains(x) by { assert(generated(rs, x)); let m = choose|m: nat| #[trigger] is_prod(rs, x, m); lemma_closed_prods(rs, g, x, m); }
    }
}
pub proof fn lemma_gen_compose(s: Set<Seq<Bell>>, rs: Seq<Seq<Bell>>, n: int, x: Seq<Bell>, y: Seq<Bell>, m: nat)
    requires all_rows(s, n), forall|x: Seq<Bell>| s.contains(x) <==> generated(rs, x), forall|i: int| 0 <= i < rs.len() ==> valid(#[trigger] rs[i]) && rs[i].len() == n, s.contains(x), is_prod(rs, y, m)
    ensures s.contains(compose(x, y)), s.contains(y)
    decreases m
{
    reveal(generated);
    assert(generated(rs, y));
    if m == 0 {
        let i = choose|i: int| 0 <= i < rs.len() && rs[i] == y;
        lemma_prod_step(rs, x, i);
    } else {
        let (z, i) = choose|z: Seq<Bell>, i: int| is_prod(rs, z, (m - 1) as nat) && 0 <= i < rs.len() && y == #[trigger] compose(z, rs[i]);
        lemma_gen_compose(s, rs, n, x, z, (m - 1) as nat);
        lemma_prod_step(rs, compose(x, z), i);
        lemma_compose_assoc(x, z, rs[i]);
    }
}
@fn row::borrowed::Row::multi_cartesian_product
    requires all_valid(sets_view(row_sets@))
    ensures
        res matches Ok(v) ==> bufs_view(v@) == cart(sets_view(row_sets@)),
        uniform(sets_view(row_sets@)) ==> res is Ok,
        res is Ok && !some_empty(sets_view(row_sets@)) ==> uniform(sets_view(row_sets@)),
        res matches Err(e) ==> e.lhs_stage != e.rhs_stage
@param row_sets It<It<&Row>>
@hint start
    let ghost all = sets_view(row_sets@);
@loop 0
    invariant all_valid(all), all == sets_view(row_sets@), all.len() > 0, set_view(xs_0) == all[0], bufs_view(transpose_from@) =~= set_view(xs_0).take(k_0),
        k_0 == 0 <==> stage is None, stage matches Some(s) ==> s.0 == all[0][0].len() && s.0 > 0,
        forall|j: int| 0 <= j < k_0 ==> (#[trigger] all[0][j]).len() == stage.unwrap().0,
        forall|j: int| 0 <= j < transpose_from@.len() ==> valid(#[trigger] transpose_from@[j]@) && transpose_from@[j]@.len() == stage.unwrap().0
@hint loop 0 start
    proof { assert(all[0][k_0 - 1] == x_0@ && valid(all[0][k_0 - 1])); assert(all[0][0] == xs_0[0]@); assert(all[0].take(k_0) =~= all[0].take(k_0 - 1).push(x_0@)); }
@hint loop 0 after
    proof { assert(bufs_view(transpose_from@) =~= all[0]); assert(all.take(1)[0] == all[0]); assert(cart(all.take(1)) == all[0]); }
@loop 1
    invariant all_valid(all), all == sets_view(row_sets@), all.len() > 0, xs_1.len() == all.len() - 1, forall|j: int| 0 <= j < xs_1.len() ==> set_view((#[trigger] xs_1[j])@) == all[j + 1],
        bufs_view(transpose_from@) == cart(all.take(k_1 + 1)),
        stage is None ==> transpose_from@.len() == 0,
        stage is None ==> all[0].len() == 0,
        stage matches Some(s) ==> all[0].len() > 0 && s.0 == all[0][0].len() && s.0 > 0,
        forall|i: int, j: int| 0 <= i < k_1 + 1 && 0 <= j < all[i].len() ==> (#[trigger] all[i][j]).len() == stage.unwrap().0,
        forall|j: int| 0 <= j < transpose_from@.len() ==> valid(#[trigger] transpose_from@[j]@) && transpose_from@[j]@.len() == stage.unwrap().0
@hint loop 1 start
    let ghost from0 = transpose_from@;
    let ghost all2 = all[k_1];
    proof {
        assert(set_view(x_1@) == all[k_1]);
        if from0.len() == 0 {
            assert(cart(all.take(k_1)).len() == 0);
            lemma_cart_empty(all, k_1 - 1);
            if !some_empty(all) { lemma_take_nonempty(all, k_1); lemma_cart_nonempty(all.take(k_1)); }
        }
        assert(Seq::<RowBuf>::empty() =~= Seq::<RowBuf>::empty());
        assert(all[k_1].take(0) =~= Seq::empty());
        assert(bufs_view(Seq::<RowBuf>::empty()) =~= Seq::<Seq<Bell>>::empty());
    }
@hint before return 0
    proof { assert(cart(all) =~= Seq::<Seq<Bell>>::empty()); assert(bufs_view(Seq::<RowBuf>::empty()) =~= Seq::<Seq<Bell>>::empty()); assert(all_len(all, 0)); }
@hint before return 1
    proof { assert(cart(all) =~= Seq::<Seq<Bell>>::empty()); assert(bufs_view(Seq::<RowBuf>::empty()) =~= Seq::<Seq<Bell>>::empty()); }
@loop 2
    invariant all_valid(all), all == sets_view(row_sets@), 0 < k_1 < all.len(), all2 == all[k_1], set_view(xs_2) == all2, transpose_from@ == from0, stage == Some(s), s.0 > 0,
        all[0].len() > 0, all[0][0].len() == s.0,
        bufs_view(transpose_to@) == mul_all(bufs_view(from0), all2.take(k_2)),
        forall|j: int| 0 <= j < k_2 ==> (#[trigger] all2[j]).len() == s.0,
        forall|j: int| 0 <= j < from0.len() ==> valid(#[trigger] from0[j]@) && from0[j]@.len() == s.0,
        forall|j: int| 0 <= j < transpose_to@.len() ==> valid(#[trigger] transpose_to@[j]@) && transpose_to@[j]@.len() == s.0
@hint loop 2 start
    let ghost to0 = transpose_to@;
    proof {
        assert(all[k_1][k_2 - 1] == x_2@ && valid(all[k_1][k_2 - 1]));
        assert(all2.take(k_2).drop_last() =~= all2.take(k_2 - 1));
        assert(all2.take(k_2).last() == x_2@);
        assert(mul_row(bufs_view(from0).take(0), x_2@) =~= Seq::empty());
        assert(bufs_view(to0) + Seq::<Seq<Bell>>::empty() =~= bufs_view(to0));
        if x_2@.len() != s.0 { assert(all[0][0].len() != all[k_1][k_2 - 1].len()); }
    }
@loop 3
    invariant xs_3 == ref_seq(from0), valid(r2@), r2@.len() == s.0,
        bufs_view(transpose_to@) =~= bufs_view(to0) + mul_row(bufs_view(from0).take(k_3), r2@),
        forall|j: int| 0 <= j < from0.len() ==> valid(#[trigger] from0[j]@) && from0[j]@.len() == s.0,
        forall|j: int| 0 <= j < transpose_to@.len() ==> valid(#[trigger] transpose_to@[j]@) && transpose_to@[j]@.len() == s.0
@hint loop 3 start
    let ghost to1 = transpose_to@;
    proof { assert(bufs_view(from0).take(k_3) =~= bufs_view(from0).take(k_3 - 1).push(x_3@)); lemma_mul_row_push(bufs_view(from0).take(k_3 - 1), x_3@, r2@); }
@hint loop 3 end
    proof { assert(bufs_view(transpose_to@) =~= bufs_view(to1).push(compose(x_3@, r2@))); }
@hint loop 3 after
    proof { assert(bufs_view(from0).take(from0.len() as int) =~= bufs_view(from0)); }
@hint loop 2 after
    proof {
        assert(all2.take(all2.len() as int) =~= all2);
        let t = all.take(k_1 + 1);
        assert(t.drop_last() =~= all.take(k_1));
        assert(t.last() == all2);
        assert(cart(t) == mul_all(cart(t.drop_last()), t.last()));
        assert forall|i: int, j: int| 0 <= i < k_1 + 1 && 0 <= j < all[i].len() implies (#[trigger] all[i][j]).len() == stage.unwrap().0 by { if i == k_1 { assert(all2[j].len() == s.0); } }
    }
@hint loop 1 after
    proof {
        assert(all.take(all.len() as int) =~= all);
        if stage is Some { assert(all_len(all, stage.unwrap().0 as int)); }
    }
@fn row::borrowed::Row::least_group_containing
    requires forall|i: int| 0 <= i < rows@.len() ==> valid(#[trigger] rows@[i]@)
    ensures
        (forall|i: int, j: int| 0 <= i < rows@.len() && 0 <= j < rows@.len() ==> rows@[i]@.len() == rows@[j]@.len()) <==> res is Ok,
        res matches Ok(s) ==> forall|x: Seq<Bell>| s@.contains(x) <==> generated(set_view(rows@), x),
        res is Ok && rows@.len() > 0 ==> is_grp(res.unwrap()@, rows@[0]@.len() as int) && forall|g: Set<Seq<Bell>>| #[trigger] is_grp(g, rows@[0]@.len() as int) && (forall|i: int| 0 <= i < rows@.len() ==> g.contains(#[trigger] set_view(rows@)[i])) ==> res.unwrap()@.subset_of(g),
        res matches Err(e) ==> e.lhs_stage != e.rhs_stage
@param rows It<&'a Row>
@generics <'a>
@hint start
    let ghost rs = set_view(rows@);
    let ghost n = if rs.len() > 0 { rs[0].len() as int } else { 1 };
@hint loop 0 before
    proof { if rs.len() > 0 { assert(rs[0] == rows@[0]@); } lemma_grow_init(n); assert(rs.take(0) =~= Seq::empty()); assert(bufs_view(frontier@) =~= Seq::empty()); }
@loop 0
    invariant rs == set_view(rows@), xs_0 == rows@, n == (if rs.len() > 0 { rs[0].len() as int } else { 1 }), forall|i: int| 0 <= i < rows@.len() ==> valid(#[trigger] rows@[i]@),
        stage is None <==> k_0 == 0, stage matches Some(s) ==> s.0 == n,
        grows(set@, rs.take(k_0), bufs_view(frontier@), n), fresh(set@, bufs_view(frontier@))
@hint loop 0 start
    let ghost (set0, front0) = (set@, bufs_view(frontier@));
    proof {
        assert(rs[k_0 - 1] == x_0@ && valid(rs[k_0 - 1]));
        assert(rs.take(k_0) =~= rs.take(k_0 - 1).push(x_0@));
        assert(rs[0] == rows@[0]@);
        if x_0@.len() != n { assert(rows@[k_0 - 1]@.len() != rows@[0]@.len()); }
    }
@hint loop 0 end
    proof {
        let front = bufs_view(frontier@);
        if set0.contains(x_0@) { assert(set0.insert(x_0@) =~= set0); assert(front == front0); } else { assert(front =~= front0.push(x_0@)); }
        lemma_seed(set0, rs.take(k_0 - 1), front0, x_0@, n);
    }
@hint loop 0 after
    proof {
        assert(rs.take(rs.len() as int) =~= rs);
        lemma_fresh(set@, rs, bufs_view(frontier@));
    }
@loop 1
    invariant rs == set_view(rows@), grows(set@, rs, bufs_view(frontier@), n), closing(set@, rs, bufs_view(frontier@))
    ensures frontier@.len() == 0
    decreases npow(n, n as nat) - set@.len(), frontier@.len()
@hint loop 1 top
    let ghost (set0, front0) = (set@, bufs_view(frontier@));
    proof { lemma_grow_count(set@, rs, bufs_view(frontier@), n); }
@loop 2
    invariant rs == set_view(rows@), xs_2 == rows@, visiting(set@, rs, bufs_view(frontier@), n, r@, k_2),
        set@.len() >= set0.len(), set@.len() == set0.len() ==> frontier@.len() == front0.len() - 1
@hint loop 2 before
    proof {
        assert(bufs_view(frontier@) =~= front0.skip(1));
        assert(front0[0] == r@);
        lemma_visit(set@, rs, front0, n);
    }
@hint loop 2 start
    let ghost (set1, front1) = (set@, bufs_view(frontier@));
    proof { assert(rs[k_2 - 1] == x_2@); lemma_visit_step(set1, rs, front1, n, r@, k_2 - 1); }
@hint loop 2 end
    proof {
        let y = compose(r@, x_2@);
        if set1.contains(y) { assert(set1.insert(y) =~= set1); assert(bufs_view(frontier@) == front1); } else { assert(bufs_view(frontier@) =~= front1.push(y)); }
    }
@hint loop 2 after
    proof { lemma_visit_end(set@, rs, bufs_view(frontier@), n, r@); lemma_grow_count(set@, rs, bufs_view(frontier@), n); }
@hint loop 1 after
    proof { assert(bufs_view(frontier@) =~= Seq::empty()); lemma_closed_all(set@, rs, n); assert forall|i: int, j: int| 0 <= i < rows@.len() && 0 <= j < rows@.len() implies rows@[i]@.len() == rows@[j]@.len() by { assert(rs[i].len() == rs[j].len()); } if rs.len() > 0 { lemma_grow_rows(set@, rs, Seq::empty(), n); lemma_generated_group(set@, rs, n); assert(rs[0] == rows@[0]@); } }
@fn row::borrowed::Row::is_group
    requires forall|i: int| 0 <= i < rows@.len() ==> valid(#[trigger] rows@[i]@)
    ensures
        (forall|i: int, j: int| 0 <= i < rows@.len() && 0 <= j < rows@.len() ==> rows@[i]@.len() == rows@[j]@.len()) <==> res is Ok,
        res matches Ok(b) ==> b == (rows@.len() > 0 && closed_div(set_view(rows@).to_set())),
        res matches Err(e) ==> e.lhs_stage != e.rhs_stage
@param rows It<&'a Row>
@generics <'a>
@hint start
    let ghost rs = set_view(rows@);
    let ghost sset = rs.to_set();
    let ghost n = if rows@.len() > 0 { rows@[0]@.len() as int } else { 1 };
@hint before let first_stage
    proof {
        assert(view_seq(rows@) =~= rs);
        assert forall|x: Seq<Bell>| sset.contains(x) implies valid(x) && exists|j: int| 0 <= j < rows@.len() && rows@[j]@ == x by { let j = choose|j: int| 0 <= j < rs.len() && rs[j] == x; assert(rows@[j]@ == x); }
        assert forall|j: int| 0 <= j < rows@.len() implies sset.contains(#[trigger] rows@[j]@) by { assert(rs[j] == rows@[j]@); }
    }
@hint before return 0
    proof {
        if rows@.len() > 0 { assert(rs.to_set().contains(rs[0])); assert(view_seq(rows@) =~= rs); }
    }
@loop 0
    invariant row_set@ == sset, rs == set_view(rows@), xs_0 == row_set.order(),
        forall|x: Seq<Bell>| #[trigger] sset.contains(x) ==> valid(x) && exists|j: int| 0 <= j < rows@.len() && rows@[j]@ == x,
        first_stage is None <==> k_0 == 0, first_stage matches Some(s) ==> s.0 > 0 && forall|j: int| 0 <= j < k_0 ==> (#[trigger] xs_0[j])@.len() == s.0
@hint loop 0 start
    proof {
        assert(sset.contains(x_0@)); assert(sset.contains(xs_0[0]@));
        let i = choose|j: int| 0 <= j < rows@.len() && rows@[j]@ == x_0@;
        let j = choose|j: int| 0 <= j < rows@.len() && rows@[j]@ == xs_0[0]@;
        assert(rows@[i]@ == x_0@ && rows@[j]@ == xs_0[0]@);
    }
@hint loop 0 after
    proof {
        assert(first_stage is Some) by { if row_set.order().len() == 0 { assert(row_set@ =~= Set::empty()); } }
        assert(rows@.len() > 0) by { if rows@.len() == 0 { assert(sset =~= Set::empty()); } }
        assert forall|x: Seq<Bell>| #[trigger] sset.contains(x) implies x.len() == first_stage.unwrap().0 by { let i = choose|i: int| 0 <= i < row_set.order().len() && (#[trigger] row_set.order()[i])@ == x; assert(row_set.order()[i]@.len() == first_stage.unwrap().0); }
        assert(sset.contains(rows@[0]@));
        assert(all_rows(sset, n));
        assert forall|i: int, j: int| 0 <= i < rows@.len() && 0 <= j < rows@.len() implies rows@[i]@.len() == rows@[j]@.len() by { assert(sset.contains(rows@[i]@) && sset.contains(rows@[j]@)); }
    }
@loop 1
    invariant row_set@ == sset, all_rows(sset, n), xs_1 == row_set.order(), rs == set_view(rows@), sset == rs.to_set(), rows@.len() > 0, valid(b_inv@), valid(a_mul_b_inv@),
        forall|i: int, j: int| 0 <= i < rows@.len() && 0 <= j < rows@.len() ==> rows@[i]@.len() == rows@[j]@.len(),
        forall|j: int, y: Seq<Bell>| 0 <= j < k_1 && sset.contains(y) ==> sset.contains(#[trigger] compose(y, inverse(xs_1[j]@)))
@hint loop 1 start
    proof { assert(sset.contains(x_1@)); lemma_inverse(x_1@); }
@loop 2
    invariant row_set@ == sset, all_rows(sset, n), xs_2 == row_set.order(), rs == set_view(rows@), sset == rs.to_set(), rows@.len() > 0, sset.contains(b@), b_inv@ == inverse(b@), valid(b_inv@), b_inv@.len() == n, valid(a_mul_b_inv@),
        forall|i: int, j: int| 0 <= i < rows@.len() && 0 <= j < rows@.len() ==> rows@[i]@.len() == rows@[j]@.len(),
        forall|j: int| 0 <= j < k_2 ==> sset.contains(compose((#[trigger] xs_2[j])@, inverse(b@)))
@hint loop 2 start
    proof { assert(sset.contains(x_2@)); }
@hint loop 2 after
    proof {
        assert forall|y: Seq<Bell>| sset.contains(y) implies sset.contains(#[trigger] compose(y, inverse(x_1@))) by { let i = choose|i: int| 0 <= i < row_set.order().len() && (#[trigger] row_set.order()[i])@ == y; assert(row_set.order()[i]@ == y); }
    }
@hint loop 1 after
    proof {
        assert forall|x: Seq<Bell>, y: Seq<Bell>| sset.contains(x) && sset.contains(y) implies sset.contains(#[trigger] compose(x, inverse(y))) by { let i = choose|i: int| 0 <= i < row_set.order().len() && (#[trigger] row_set.order()[i])@ == y; assert(row_set.order()[i]@ == y); }
    }
