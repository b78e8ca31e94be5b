@-- Shared specification library
@feature serde
@mod 
pub mod sp {
use vstd::prelude::*;
use crate::vf::*;
use crate::bell::Bell;

/// A sequence of bells is a valid row: a permutation of the first n bells, n > 0
pub open spec fn in_stage(s: Seq<Bell>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).index < s.len() }
pub open spec fn distinct<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn valid(s: Seq<Bell>) -> bool { s.len() > 0 && in_stage(s) && distinct(s) }
/// The product of two rows
pub open spec fn compose(a: Seq<Bell>, b: Seq<Bell>) -> Seq<Bell> { Seq::new(b.len(), |i: int| a[b[i].index as int]) }
pub open spec fn rounds_seq(n: int) -> Seq<Bell> { Seq::new(n as nat, |i: int| Bell { index: i as usize }) }
/// b is the inverse of a
pub open spec fn is_inv(a: Seq<Bell>, b: Seq<Bell>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> b[(#[trigger] a[i]).index as int] == (Bell { index: i as usize })
}
pub open spec fn has_idx(s: Seq<Bell>, b: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == b }
pub open spec fn idx_of(s: Seq<Bell>, b: int) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == b }
pub open spec fn inverse(s: Seq<Bell>) -> Seq<Bell> { Seq::new(s.len(), |b: int| Bell { index: idx_of(s, b) as usize }) }
pub open spec fn fits(s: Seq<Bell>) -> bool { s.len() <= usize::MAX }

pub open spec fn idx_set(s: Seq<Bell>) -> Set<int> { s.map(|i: int, b: Bell| b.index as int).to_set() }

/// An injective sequence of n indices below n hits every index (pigeonhole)
pub proof fn lemma_surj(s: Seq<Bell>)
    requires in_stage(s), distinct(s)
    ensures forall|b: int| 0 <= b < s.len() ==> #[trigger] has_idx(s, b)
{
    let m = s.map(|i: int, b: Bell| b.index as int);
    assert(m.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by {
            if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); }
        }
    }
    m.unique_seq_to_set();
    let full = vstd::set_lib::set_int_range(0, s.len() as int);
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    assert(m.to_set().subset_of(full)) by {
        assert forall|x: int| m.to_set().contains(x) implies full.contains(x) by {
            let i = choose|i: int| 0 <= i < m.len() && m[i] == x;
            assert(s[i].index < s.len());
        }
    }
    vstd::set_lib::lemma_subset_equality(m.to_set(), full);
    assert forall|b: int| 0 <= b < s.len() implies #[trigger] has_idx(s, b) by {
        assert(full.contains(b));
        assert(m.to_set().contains(b));
        let i = choose|i: int| 0 <= i < m.len() && m[i] == b;
        assert(s[i].index == b);
    }
}
pub proof fn lemma_idx_of(s: Seq<Bell>, b: int)
    requires valid(s), 0 <= b < s.len()
    ensures 0 <= idx_of(s, b) < s.len(), s[idx_of(s, b)].index == b
{ lemma_surj(s); assert(has_idx(s, b)); }
pub proof fn lemma_idx_unique(s: Seq<Bell>, i: int)
    requires valid(s), 0 <= i < s.len()
    ensures idx_of(s, s[i].index as int) == i
{
    lemma_idx_of(s, s[i].index as int);
    let j = idx_of(s, s[i].index as int);
    assert(s[j] == s[i]);
    if j < i { assert(s[j] != s[i]); } else if i < j { assert(s[i] != s[j]); }
}
pub proof fn lemma_rounds_valid(n: int)
    requires 0 < n <= usize::MAX
    ensures valid(rounds_seq(n)), rounds_seq(n).len() == n
{ }
pub proof fn lemma_compose_valid(a: Seq<Bell>, b: Seq<Bell>)
    requires valid(a), valid(b), a.len() == b.len()
    ensures valid(compose(a, b)), compose(a, b).len() == a.len()
{
    let c = compose(a, b);
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies c[i] != c[j] by {
        assert(b[i] != b[j]);
        let (x, y) = (b[i].index as int, b[j].index as int);
        assert(x != y);
        if x < y { assert(a[x] != a[y]); } else { assert(a[y] != a[x]); }
    }
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).index < c.len() by { assert(b[i].index < b.len()); assert(a[b[i].index as int].index < a.len()); }
}
pub proof fn lemma_compose_rounds(a: Seq<Bell>)
    requires in_stage(a), fits(a)
    ensures compose(a, rounds_seq(a.len() as int)) == a, compose(rounds_seq(a.len() as int), a) == a
{
    assert(compose(a, rounds_seq(a.len() as int)) =~= a);
    assert forall|i: int| 0 <= i < a.len() implies compose(rounds_seq(a.len() as int), a)[i] == a[i] by { assert(a[i].index < a.len()); }
    assert(compose(rounds_seq(a.len() as int), a) =~= a);
}
pub proof fn lemma_compose_assoc(a: Seq<Bell>, b: Seq<Bell>, c: Seq<Bell>)
    requires in_stage(c), b.len() == c.len()
    ensures compose(compose(a, b), c) == compose(a, compose(b, c))
{
    assert forall|i: int| 0 <= i < c.len() implies compose(compose(a, b), c)[i] == compose(a, compose(b, c))[i] by { assert(c[i].index < c.len()); }
    assert(compose(compose(a, b), c) =~= compose(a, compose(b, c)));
}
pub proof fn lemma_inverse(s: Seq<Bell>)
    requires valid(s), fits(s)
    ensures is_inv(s, inverse(s)), valid(inverse(s)), is_inv(inverse(s), s), inverse(s).len() == s.len(),
        compose(s, inverse(s)) == rounds_seq(s.len() as int), compose(inverse(s), s) == rounds_seq(s.len() as int)
{
    let v = inverse(s);
    assert forall|i: int| 0 <= i < s.len() implies v[(#[trigger] s[i]).index as int] == (Bell { index: i as usize }) by { lemma_idx_unique(s, i); assert(s[i].index < s.len()); }
    assert forall|b: int| 0 <= b < s.len() implies (#[trigger] v[b]).index < v.len() && s[v[b].index as int].index == b by { lemma_idx_of(s, b); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by {
        assert(s[v[i].index as int].index == i);
        assert(s[v[j].index as int].index == j);
    }
    assert(compose(s, v) =~= rounds_seq(s.len() as int)) by {
        assert forall|i: int| 0 <= i < s.len() implies compose(s, v)[i] == rounds_seq(s.len() as int)[i] by { assert(v[i].index < v.len()); assert(s[v[i].index as int].index == i); }
    }
    assert(compose(v, s) =~= rounds_seq(s.len() as int));
    assert forall|i: int| 0 <= i < v.len() implies s[(#[trigger] v[i]).index as int] == (Bell { index: i as usize }) by { assert(s[v[i].index as int].index == i); }
}
pub proof fn lemma_inv_unique(s: Seq<Bell>, v: Seq<Bell>)
    requires valid(s), fits(s), is_inv(s, v)
    ensures v == inverse(s)
{
    lemma_inverse(s);
    assert forall|b: int| 0 <= b < s.len() implies v[b] == inverse(s)[b] by { lemma_idx_of(s, b); let i = idx_of(s, b); assert(s[i].index == b); assert(v[s[i].index as int] == (Bell { index: i as usize })); assert(inverse(s)[s[i].index as int] == (Bell { index: i as usize })); }
    assert(v =~= inverse(s));
}
