@mod 
use crate::stage::{Stage, IncompatibleStages};
pub open spec fn inc_err(a: Seq<Bell>, b: Seq<Bell>) -> IncompatibleStages { IncompatibleStages { lhs_stage: Stage(a.len() as usize), rhs_stage: Stage(b.len() as usize) } }
impl View for Row { type V = Seq<Bell>; open spec fn view(&self) -> Seq<Bell> { self.bell_slice@ } }
impl View for RowBuf { type V = Seq<Bell>; open spec fn view(&self) -> Seq<Bell> { self.bell_vec@ } }
pub broadcast proof fn row_fits(r: &Row) ensures #[trigger] r@.len() <= usize::MAX { assert(r.bell_slice.len() == r.bell_slice@.len()); }
pub broadcast proof fn rowbuf_fits(r: &RowBuf) ensures #[trigger] r@.len() <= usize::MAX { assert(r.bell_vec.len() == r.bell_vec@.len()); }
use crate::row::borrowed::Row;
/// A reference to a row with the given bells
pub uninterp spec fn row_ref<'v>(s: Seq<Bell>) -> &'v Row;
pub broadcast axiom fn axiom_row_ref<'v>(s: Seq<Bell>) ensures s.len() <= usize::MAX ==> (#[trigger] row_ref::<'v>(s))@ == s;
pub open spec fn swap_seq<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }
pub proof fn lemma_swap_valid(s: Seq<Bell>, a: int, b: int)
    requires valid(s), 0 <= a < s.len(), 0 <= b < s.len()
    ensures valid(swap_seq(s, a, b))
{
    let t = swap_seq(s, a, b);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by {
        let p = if i == a { b } else if i == b { a } else { i };
        let q = if j == a { b } else if j == b { a } else { j };
        assert(t[i] == s[p] && t[j] == s[q] && p != q);
        if p < q { assert(s[p] != s[q]); } else { assert(s[q] != s[p]); }
    }
}
pub proof fn lemma_distinct_idx(s: Seq<Bell>)
    requires valid(s)
    ensures forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i].index != s[j].index
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i].index != s[j].index by {
        if s[i].index == s[j].index { assert(s[i] == s[j]); if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } }
    }
}
/// One more than the last place whose bell isn't in its own place (one for rounds)
pub open spec fn eff_stage(s: Seq<Bell>) -> int decreases s.len() {
    if s.len() <= 1 { 1 } else if s.last().index != s.len() - 1 { s.len() as int } else { eff_stage(s.drop_last()) }
}
pub proof fn lemma_eff_stage(s: Seq<Bell>, k: int)
    requires s.len() > 0, -1 <= k < s.len(), forall|i: int| k < i < s.len() ==> (#[trigger] s[i]).index == i, k >= 0 ==> s[k].index != k
    ensures eff_stage(s) == (if k < 0 { 1 } else { k + 1 })
    decreases s.len()
{
    if s.len() <= 1 { }
    else if s.last().index != s.len() - 1 { assert(s.last() == s[s.len() - 1]); }
    else { assert(s[s.len() - 1].index == s.len() - 1); lemma_eff_stage(s.drop_last(), k); }
}
pub open spec fn cg(s: Seq<Bell>, b: Bell) -> int decreases s.len() { if s.len() == 0 { 0 } else { cg(s.drop_last(), b) + (if s.last().index > b.index { 1int } else { 0 }) } }
/// The number of pairs of bells in descending order
pub open spec fn inversions(s: Seq<Bell>) -> int decreases s.len() { if s.len() == 0 { 0 } else { inversions(s.drop_last()) + cg(s.drop_last(), s.last()) } }
pub proof fn lemma_inv_nonneg(s: Seq<Bell>) ensures inversions(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_inv_nonneg(s.drop_last()); lemma_cg_nonneg(s.drop_last(), s.last()); } }
pub proof fn lemma_cg_nonneg(s: Seq<Bell>, b: Bell) ensures cg(s, b) >= 0 decreases s.len() { if s.len() > 0 { lemma_cg_nonneg(s.drop_last(), b); } }
pub proof fn lemma_cg_push(s: Seq<Bell>, x: Bell, b: Bell) ensures cg(s.push(x), b) == cg(s, b) + (if x.index > b.index { 1int } else { 0 }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_inv_push(s: Seq<Bell>, x: Bell) ensures inversions(s.push(x)) == inversions(s) + cg(s, x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_cg_adj(s: Seq<Bell>, i: int, b: Bell)
    requires 0 <= i < s.len() - 1
    ensures cg(swap_seq(s, i, i + 1), b) == cg(s, b)
    decreases s.len()
{
    let t = swap_seq(s, i, i + 1);
    if i + 1 == s.len() - 1 {
        let u = s.drop_last().drop_last();
        assert(s =~= u.push(s[i]).push(s[i + 1]));
        assert(t =~= u.push(s[i + 1]).push(s[i]));
        lemma_cg_push(u.push(s[i]), s[i + 1], b); lemma_cg_push(u, s[i], b);
        lemma_cg_push(u.push(s[i + 1]), s[i], b); lemma_cg_push(u, s[i + 1], b);
    } else {
        lemma_cg_adj(s.drop_last(), i, b);
        assert(t.drop_last() =~= swap_seq(s.drop_last(), i, i + 1));
    }
}
pub proof fn lemma_inv_adj(s: Seq<Bell>, i: int)
    requires 0 <= i < s.len() - 1, s[i].index != s[i + 1].index
    ensures (inversions(swap_seq(s, i, i + 1)) - inversions(s)) % 2 == 1
    decreases s.len()
{
    let t = swap_seq(s, i, i + 1);
    if i + 1 == s.len() - 1 {
        let u = s.drop_last().drop_last();
        assert(s =~= u.push(s[i]).push(s[i + 1]));
        assert(t =~= u.push(s[i + 1]).push(s[i]));
        lemma_inv_push(u.push(s[i]), s[i + 1]); lemma_inv_push(u, s[i]); lemma_cg_push(u, s[i], s[i + 1]);
        lemma_inv_push(u.push(s[i + 1]), s[i]); lemma_inv_push(u, s[i + 1]); lemma_cg_push(u, s[i + 1], s[i]);
    } else {
        lemma_inv_adj(s.drop_last(), i);
        assert(t.drop_last() =~= swap_seq(s.drop_last(), i, i + 1));
        lemma_cg_adj(s.drop_last(), i, s.last());
    }
}
pub proof fn lemma_inv_lt(s: Seq<Bell>, a: int, b: int)
    requires 0 <= a < b < s.len(), valid(s)
    ensures (inversions(swap_seq(s, a, b)) - inversions(s)) % 2 == 1
    decreases b - a
{
    lemma_distinct_idx(s);
    if b == a + 1 { lemma_inv_adj(s, a); } else {
        let s1 = swap_seq(s, b - 1, b);
        lemma_inv_adj(s, b - 1);
        lemma_swap_valid(s, b - 1, b);
        let s2 = swap_seq(s1, a, b - 1);
        lemma_inv_lt(s1, a, b - 1);
        lemma_swap_valid(s1, a, b - 1);
        lemma_distinct_idx(s2);
        let s3 = swap_seq(s2, b - 1, b);
        lemma_inv_adj(s2, b - 1);
        assert(s3 =~= swap_seq(s, a, b));
    }
}
/// Swapping two different places flips the parity
pub proof fn lemma_inversions_swap(s: Seq<Bell>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(), a != b, valid(s)
    ensures (inversions(swap_seq(s, a, b)) - inversions(s)) % 2 == 1
{
    if a < b { lemma_inv_lt(s, a, b); } else { lemma_inv_lt(s, b, a); assert(swap_seq(s, a, b) =~= swap_seq(s, b, a)); }
}
pub proof fn lemma_cg_rounds(n: int, b: Bell)
    requires 0 <= n <= usize::MAX, b.index >= n
    ensures cg(rounds_seq(n), b) == 0
    decreases n
{ if n > 0 { lemma_cg_rounds(n - 1, b); assert(rounds_seq(n).drop_last() =~= rounds_seq(n - 1)); } }
pub proof fn lemma_inversions_rounds(n: int)
    requires 0 <= n <= usize::MAX
    ensures inversions(rounds_seq(n)) == 0
    decreases n
{ if n > 0 { lemma_inversions_rounds(n - 1); assert(rounds_seq(n).drop_last() =~= rounds_seq(n - 1)); lemma_cg_rounds(n - 1, rounds_seq(n).last()); } }
/// How many bells are in their own place
pub open spec fn nfix(s: Seq<Bell>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nfix(s.drop_last()) + (if s.last().index == s.len() - 1 { 1int } else { 0 }) } }
pub proof fn lemma_nfix_bound(s: Seq<Bell>) ensures 0 <= nfix(s) <= s.len() decreases s.len() { if s.len() > 0 { lemma_nfix_bound(s.drop_last()); } }
pub proof fn lemma_nfix_update(s: Seq<Bell>, i: int, b: Bell)
    requires 0 <= i < s.len()
    ensures nfix(s.update(i, b)) == nfix(s) - (if s[i].index == i { 1int } else { 0 }) + (if b.index == i { 1int } else { 0 })
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.update(i, b).drop_last() =~= s.drop_last()); }
    else { lemma_nfix_update(s.drop_last(), i, b); assert(s.update(i, b).drop_last() =~= s.drop_last().update(i, b)); }
}
pub proof fn lemma_nfix_swap(s: Seq<Bell>, f: int, c: int)
    requires 0 <= f < s.len(), 0 <= c < s.len(), f != c, s[f].index == c, s[c].index != c
    ensures nfix(swap_seq(s, f, c)) >= nfix(s) + 1
{
    lemma_nfix_update(s, f, s[c]);
    lemma_nfix_update(s.update(f, s[c]), c, s[f]);
}
pub proof fn lemma_compose_ext(a: Seq<Bell>, b: Seq<Bell>)
    requires valid(a), valid(b), a.len() == b.len()
    ensures forall|s: Seq<Bell>| s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == a[b[i].index as int]) ==> #[trigger] valid(s) && s == compose(a, b)
{
    lemma_compose_valid(a, b);
    assert forall|s: Seq<Bell>| s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == a[b[i].index as int]) implies #[trigger] valid(s) && s == compose(a, b) by { assert(s =~= compose(a, b)); }
}
/// a multiplied by itself n times
pub open spec fn pow(a: Seq<Bell>, n: int) -> Seq<Bell> decreases n { if n <= 0 { rounds_seq(a.len() as int) } else { compose(pow(a, n - 1), a) } }
pub proof fn lemma_pow_valid(a: Seq<Bell>, n: int)
    requires valid(a), fits(a), n >= 0
    ensures valid(pow(a, n)), pow(a, n).len() == a.len()
    decreases n
{ if n > 0 { lemma_pow_valid(a, n - 1); lemma_compose_valid(pow(a, n - 1), a); } }
pub proof fn lemma_pow1(a: Seq<Bell>)
    requires valid(a), fits(a)
    ensures pow(a, 1) == a, pow(a, 0) == rounds_seq(a.len() as int)
{ lemma_compose_rounds(a); assert(pow(a, 1) == compose(pow(a, 0), a)); }
pub open spec fn is_closure(a: Seq<Bell>, c: Seq<RowBuf>) -> bool {
    c.len() > 0 && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == pow(a, i + 1)) && c.last()@ == rounds_seq(a.len() as int)
    && (forall|i: int| 0 <= i < c.len() - 1 ==> (#[trigger] c[i])@ != rounds_seq(a.len() as int))
}
pub open spec fn is_closure_from_rounds(a: Seq<Bell>, c: Seq<RowBuf>) -> bool {
    c.len() > 0 && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == pow(a, i)) && pow(a, c.len() as int) == rounds_seq(a.len() as int)
    && (forall|i: int| 1 <= i < c.len() ==> (#[trigger] c[i])@ != rounds_seq(a.len() as int))
}
pub proof fn lemma_solve_ax(a: Seq<Bell>, b: Seq<Bell>)
    requires valid(a), valid(b), a.len() == b.len(), fits(a)
    ensures compose(a, compose(inverse(a), b)) == b, forall|y: Seq<Bell>| valid(y) && y.len() == a.len() && #[trigger] compose(a, y) == b ==> y == compose(inverse(a), b)
{
    lemma_inverse(a);
    lemma_compose_assoc(a, inverse(a), b);
    lemma_compose_rounds(b);
    assert forall|y: Seq<Bell>| valid(y) && y.len() == a.len() && #[trigger] compose(a, y) == b implies y == compose(inverse(a), b) by {
        lemma_compose_assoc(inverse(a), a, y);
        lemma_compose_rounds(y);
    }
}
pub proof fn lemma_solve_xa(a: Seq<Bell>, b: Seq<Bell>)
    requires valid(a), valid(b), a.len() == b.len(), fits(a)
    ensures compose(compose(b, inverse(a)), a) == b, forall|y: Seq<Bell>| valid(y) && y.len() == a.len() && #[trigger] compose(y, a) == b ==> y == compose(b, inverse(a))
{
    lemma_inverse(a);
    lemma_compose_assoc(b, inverse(a), a);
    lemma_compose_rounds(b);
    assert forall|y: Seq<Bell>| valid(y) && y.len() == a.len() && #[trigger] compose(y, a) == b implies y == compose(b, inverse(a)) by {
        lemma_compose_assoc(y, a, inverse(a));
        lemma_compose_rounds(y);
    }
}
pub open spec fn fixed_seq(s: Seq<Bell>) -> Seq<Bell> { keep(enum_seq(ref_seq(s)), |p: (usize, &Bell)| p.0 == p.1.index).map_values(|p: (usize, &Bell)| *p.1) }
pub open spec fn npow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * npow(b, (e - 1) as nat) } }
/// The bells as digits of a number, first bell least significant
pub open spec fn hash_of(s: Seq<Bell>, base: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { hash_of(s.drop_last(), base) + s.last().index * npow(base, (s.len() - 1) as nat) } }
pub proof fn lemma_npow_mono(b: int, c: int, e: nat) requires 1 <= b <= c ensures 1 <= npow(b, e) <= npow(c, e) decreases e
{ if e > 0 { lemma_npow_mono(b, c, (e - 1) as nat); assert(b * npow(b, (e - 1) as nat) <= c * npow(c, (e - 1) as nat)) by (nonlinear_arith) requires 1 <= b <= c, 1 <= npow(b, (e - 1) as nat) <= npow(c, (e - 1) as nat); assert(b * npow(b, (e - 1) as nat) >= 1) by (nonlinear_arith) requires 1 <= b, 1 <= npow(b, (e - 1) as nat); } }
pub proof fn lemma_npow_exp(b: int, e: nat, f: nat) requires 1 <= b, e <= f ensures 1 <= npow(b, e) <= npow(b, f) decreases f - e
{ lemma_npow_mono(b, b, e); lemma_npow_mono(b, b, f); if e < f { lemma_npow_exp(b, e, (f - 1) as nat); lemma_npow_mono(b, b, (f - 1) as nat); assert(npow(b, (f - 1) as nat) <= b * npow(b, (f - 1) as nat)) by (nonlinear_arith) requires 1 <= b, npow(b, (f - 1) as nat) >= 1; } }
pub proof fn lemma_npow16() ensures npow(16, 16) == 0x1_0000_0000_0000_0000int, npow(16, 15) == 0x1000_0000_0000_0000int
{ reveal_with_fuel(npow, 17); assert(npow(16, 15) == 0x1000_0000_0000_0000int) by (compute_only); assert(npow(16, 16) == 0x1_0000_0000_0000_0000int) by (compute_only); }
pub proof fn lemma_hash_bound(s: Seq<Bell>, base: int)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).index < base, base >= 1
    ensures 0 <= hash_of(s, base) < npow(base, s.len())
    decreases s.len()
{
    if s.len() > 0 {
        let e = (s.len() - 1) as nat;
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).index < base by { assert(s[i].index < base); }
        lemma_hash_bound(s.drop_last(), base);
        lemma_npow_mono(base, base, e);
        let l = s.last().index as int; let p = npow(base, e);
        assert(s[s.len() - 1].index < base);
        assert(0 <= l * p && l * p + p <= base * p) by (nonlinear_arith) requires 0 <= l, l + 1 <= base, p >= 1;
    }
}
pub proof fn lemma_hash_step(s: Seq<Bell>, k: int)
    requires valid(s), s.len() <= 16, 0 <= k < s.len()
    ensures hash_of(s.take(k + 1), s.len() as int) == hash_of(s.take(k), s.len() as int) + s[k].index * npow(s.len() as int, k as nat),
        0 <= s[k].index * npow(s.len() as int, k as nat), hash_of(s.take(k), s.len() as int) >= 0,
        hash_of(s.take(k + 1), s.len() as int) <= u64::MAX, npow(s.len() as int, k as nat) <= u64::MAX,
        (s[k].index * npow(s.len() as int, k as nat)) % 0x1_0000_0000_0000_0000int == s[k].index * npow(s.len() as int, k as nat),
        k + 1 < 16 ==> (npow(s.len() as int, k as nat) * s.len()) % 0x1_0000_0000_0000_0000int == npow(s.len() as int, (k + 1) as nat),
        k + 1 < 16 ==> npow(s.len() as int, k as nat) * s.len() == npow(s.len() as int, (k + 1) as nat) && npow(s.len() as int, (k + 1) as nat) <= u64::MAX
{
    let n = s.len() as int;
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
    assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] s.take(k + 1)[i]).index < n by { assert(s[i].index < n); }
    assert forall|i: int| 0 <= i < k implies (#[trigger] s.take(k)[i]).index < n by { assert(s[i].index < n); }
    lemma_hash_bound(s.take(k + 1), n);
    lemma_hash_bound(s.take(k), n);
    lemma_npow16();
    lemma_npow_mono(n, 16, (k + 1) as nat);
    lemma_npow_exp(16, (k + 1) as nat, 16);
    lemma_npow_mono(n, 16, k as nat);
    lemma_npow_exp(16, k as nat, 15);
    if k + 1 < 16 { lemma_npow_exp(16, (k + 1) as nat, 15); }
    let p = npow(n, k as nat); let x = s[k].index as int;
    assert(0 <= x * p) by (nonlinear_arith) requires 0 <= x, p >= 1;
    assert(p * n == n * p) by (nonlinear_arith);
}
/// Rows of the same stage with equal digit sums are equal
pub proof fn lemma_hash_inj(a: Seq<Bell>, b: Seq<Bell>, base: int)
    requires a.len() == b.len(), base >= 1, forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).index < base, forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).index < base, hash_of(a, base) == hash_of(b, base)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        let (a1, b1) = (a.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i]).index < base by { assert(a[i].index < base); }
        assert forall|i: int| 0 <= i < b1.len() implies (#[trigger] b1[i]).index < base by { assert(b[i].index < base); }
        lemma_hash_bound(a1, base); lemma_hash_bound(b1, base);
        let p = npow(base, (a.len() - 1) as nat);
        let (x, y) = (a.last().index as int, b.last().index as int);
        let (h, g) = (hash_of(a1, base), hash_of(b1, base));
        assert(x == y) by (nonlinear_arith) requires h + x * p == g + y * p, 0 <= h < p, 0 <= g < p;
        lemma_hash_inj(a1, b1, base);
        assert(a =~= a1.push(a.last()));
        assert(b =~= b1.push(b.last()));
        assert(a.last() == b.last());
    } else { assert(a =~= b); }
}
/// There are at most n^n rows of stage n
pub proof fn lemma_row_count(s: Set<Seq<Bell>>, n: int)
    requires s.finite(), n > 0, forall|x: Seq<Bell>| s.contains(x) ==> x.len() == n && in_stage(x)
    ensures s.len() <= npow(n, n as nat)
{
    let f = |x: Seq<Bell>| hash_of(x, n);
    let m = s.map(f);
    assert(s.injective_on(f)) by {
        assert forall|x: Seq<Bell>, y: Seq<Bell>| s.contains(x) && s.contains(y) && f(x) == f(y) implies x == y by { lemma_hash_inj(x, y, n); }
    }
    vstd::set_lib::lemma_map_size(s, m, f);
    lemma_npow_mono(n, n, n as nat);
    vstd::set_lib::lemma_int_range(0, npow(n, n as nat));
    let full = vstd::set_lib::set_int_range(0, npow(n, n as nat));
    lemma_npow_mono(n, n, n as nat);
    assert(m.subset_of(full)) by {
        assert forall|v: int| m.contains(v) implies full.contains(v) by { let x = choose|x: Seq<Bell>| s.contains(x) && f(x) == v; lemma_hash_bound(x, n); }
    }
    vstd::set_lib::lemma_len_subset(m, full);
}
pub proof fn lemma_pow_add(a: Seq<Bell>, i: int, j: int)
    requires valid(a), fits(a), i >= 0, j >= 0
    ensures pow(a, i + j) == compose(pow(a, i), pow(a, j))
    decreases j
{
    lemma_pow_valid(a, i);
    if j == 0 { lemma_compose_rounds(pow(a, i)); } else {
        lemma_pow_add(a, i, j - 1);
        lemma_pow_valid(a, j - 1);
        lemma_compose_assoc(pow(a, i), pow(a, j - 1), a);
        assert(pow(a, i + j) == compose(pow(a, i + j - 1), a));
    }
}
/// Powers below the order are distinct
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
pub proof fn lemma_pow_distinct(a: Seq<Bell>, i: int, j: int)
    requires valid(a), fits(a), 0 <= i < j, pow(a, i) == pow(a, j)
    ensures pow(a, j - i) == rounds_seq(a.len() as int)
{
    lemma_pow_add(a, i, j - i);
    lemma_pow_valid(a, i); lemma_pow_valid(a, j - i);
    lemma_solve_ax(pow(a, i), pow(a, i));
    lemma_compose_rounds(pow(a, i));
    lemma_rounds_valid(a.len() as int);
    assert(compose(pow(a, i), rounds_seq(a.len() as int)) == pow(a, i));
}
pub open spec fn not_rounds(a: Seq<Bell>, i: int) -> bool { pow(a, i) != rounds_seq(a.len() as int) }
/// The powers reach rounds: there are at most n^n rows
pub proof fn lemma_powers_bounded(a: Seq<Bell>, m: int)
    requires valid(a), fits(a), m >= 0, forall|i: int| 1 <= i < m ==> #[trigger] not_rounds(a, i)
    ensures m <= npow(a.len() as int, a.len())
{
    let f = |i: int| pow(a, i);
    let r = vstd::set_lib::set_int_range(0, m);
    vstd::set_lib::lemma_int_range(0, m);
    let s = r.map(f);
    assert(r.injective_on(f)) by {
        assert forall|i: int, j: int| r.contains(i) && r.contains(j) && f(i) == f(j) implies i == j by {
            if i < j { lemma_pow_distinct(a, i, j); assert(not_rounds(a, j - i)); }
            if j < i { lemma_pow_distinct(a, j, i); assert(not_rounds(a, i - j)); }
        }
    }
    vstd::set_lib::lemma_map_size(r, s, f);
    assert forall|x: Seq<Bell>| s.contains(x) implies x.len() == a.len() && in_stage(x) by { let i = choose|i: int| r.contains(i) && f(i) == x; lemma_pow_valid(a, i); }
    lemma_row_count(s, a.len() as int);
}
/// The parity of a product is the product of the parities
pub proof fn lemma_parity_product(a: Seq<Bell>, b: Seq<Bell>)
    requires valid(a), valid(b), a.len() == b.len(), fits(a)
    ensures (inversions(compose(a, b)) - inversions(a) - inversions(b)) % 2 == 0
    decreases b.len() - nfix(b)
{
    let n = a.len() as int;
    lemma_nfix_bound(b);
    if b =~= rounds_seq(n) { lemma_compose_rounds(a); lemma_inversions_rounds(n); } else {
        let f = choose|f: int| 0 <= f < n && (#[trigger] b[f]).index != f;
        assert(exists|f: int| 0 <= f < n && (#[trigger] b[f]).index != f) by { if forall|f: int| 0 <= f < n ==> (#[trigger] b[f]).index == f { assert(b =~= rounds_seq(n)); } }
        let c = b[f].index as int;
        lemma_distinct_idx(b);
        assert(b[f].index < b.len());
        let d = swap_seq(b, f, c);
        lemma_nfix_swap(b, f, c);
        lemma_nfix_bound(d);
        lemma_swap_valid(b, f, c);
        lemma_parity_product(a, d);
        lemma_inversions_swap(b, f, c);
        lemma_compose_valid(a, b);
        lemma_inversions_swap(compose(a, b), f, c);
        assert(compose(a, d) =~= swap_seq(compose(a, b), f, c));
    }
}
pub proof fn lemma_back_valid(n: int) requires 0 < n <= usize::MAX ensures valid(rev_seq(rounds_seq(n))) { }
/// Odd bells ascending, then even bells ascending
pub open spec fn queens_seq(n: int) -> Seq<Bell> { Seq::new(n as nat, |i: int| Bell { index: (if i < (n + 1) / 2 { 2 * i } else { 2 * (i - (n + 1) / 2) + 1 }) as usize }) }
pub proof fn lemma_queens_valid(n: int) requires 0 < n <= usize::MAX ensures valid(queens_seq(n))
{
    let s = queens_seq(n);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).index < s.len() by { }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by { let h = (n + 1) / 2; let x = if i < h { 2 * i } else { 2 * (i - h) + 1 }; let y = if j < h { 2 * j } else { 2 * (j - h) + 1 }; assert(x != y); assert(0 <= x < n && 0 <= y < n); }
}
use crate::row::owned::RowBuf;
}
