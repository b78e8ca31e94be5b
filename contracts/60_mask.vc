@mod mask
use crate::sp::*;
use crate::vf::*;
use crate::bell::bell_of;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits};
pub type Fixed = Seq<Option<Bell>>;
/// The place described by a character of a mask, if it is not ignored
pub open spec fn elem_of(c: char) -> Option<Option<Bell>> {
    if c == 'x' || c == 'X' || c == '.' { Some(None) } else { match bell_of(c) { Some(b) => Some(Some(b)), None => None } }
}
pub open spec fn mask_of(s: Seq<char>) -> Fixed { opt_map(s, |c: char| elem_of(c)) }
/// A row matches a mask when it has its stage and has every fixed bell in its place
pub open spec fn matching(m: Fixed, r: Seq<Bell>) -> bool { m.len() == r.len() && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i] matches Some(b) ==> r[i] == b) }
/// No bell is fixed in two places
pub open spec fn unrepeated(m: Fixed) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() && (#[trigger] m[i]) is Some ==> m[i] != #[trigger] m[j] }
/// Every fixed bell is one of the stage's
pub open spec fn in_range(m: Fixed) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i] matches Some(b) ==> b.index < m.len()) }
/// No place and no bell is fixed differently
pub open spec fn same_places(a: Fixed, b: Fixed) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Some && b[i] is Some ==> a[i] == b[i] }
pub open spec fn compatible(a: Fixed, b: Fixed) -> bool { same_places(a, b) && forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && (#[trigger] a[i]) is Some && a[i] == #[trigger] b[j] ==> i == j }
/// What either fixes
pub open spec fn both(a: Fixed, b: Fixed) -> Fixed { Seq::new(a.len(), |i: int| if a[i] is Some { a[i] } else { b[i] }) }
/// Everything b fixes is fixed by a
pub open spec fn fixes_more(a: Fixed, b: Fixed) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> ((#[trigger] b[i]) is Some ==> a[i] == b[i]) }
/// The mask moved by a row on its right
pub open spec fn moved(m: Fixed, r: Seq<Bell>) -> Fixed { Seq::new(r.len(), |i: int| m[r[i].index as int]) }
/// The mask with its bells renamed by a row on its left
pub open spec fn renamed(r: Seq<Bell>, m: Fixed) -> Fixed { Seq::new(m.len(), |i: int| match m[i] { Some(b) => Some(r[b.index as int]), None => None }) }
pub open spec fn free_places(m: Fixed) -> Seq<usize> { keep(enum_seq(ref_seq(m)), |p: (usize, &Option<Bell>)| *p.1 is None).map_values(|p: (usize, &Option<Bell>)| p.0) }
pub open spec fn home(m: Fixed, s: Seq<Bell>) -> Fixed decreases s.len() { if s.len() == 0 { m } else { home(m, s.drop_last()).update(s.last().index as int, Some(s.last())) } }

/// Combining, comparing and permuting masks mean what they say in terms of the rows which match
pub proof fn lemma_combined(a: Fixed, b: Fixed, r: Seq<Bell>)
    requires valid(r)
    ensures matching(a, r) && matching(b, r) ==> compatible(a, b) && matching(both(a, b), r),
        compatible(a, b) && matching(both(a, b), r) ==> matching(a, r) && matching(b, r)
{
    if matching(a, r) && matching(b, r) {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && (#[trigger] a[i]) is Some && a[i] == #[trigger] b[j] implies i == j by { assert(r[i] == r[j]); if i < j { assert(r[i] != r[j]); } else if j < i { assert(r[j] != r[i]); } }
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] both(a, b)[i] matches Some(c) ==> r[i] == c) by { assert(a[i] is Some || b[i] is Some || both(a, b)[i] is None); }
    }
    if compatible(a, b) && matching(both(a, b), r) {
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i] matches Some(c) ==> r[i] == c) by { assert(both(a, b)[i] == a[i] || a[i] is None); }
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] b[i] matches Some(c) ==> r[i] == c) by { assert(a[i] is None || a[i] == b[i] || b[i] is None); assert(both(a, b)[i] == b[i] || b[i] is None); }
    }
}
pub proof fn lemma_subset(a: Fixed, b: Fixed, r: Seq<Bell>)
    requires fixes_more(a, b), matching(a, r)
    ensures matching(b, r)
{ assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i] matches Some(c) ==> r[i] == c) by { assert(b[i] is Some ==> a[i] == b[i]); } }
pub proof fn lemma_moved(m: Fixed, s: Seq<Bell>, r: Seq<Bell>)
    requires valid(s), valid(r), s.len() == m.len(), r.len() == m.len()
    ensures matching(m, s) <==> matching(moved(m, r), compose(s, r)), in_range(m) ==> (matching(m, s) <==> matching(renamed(r, m), compose(r, s)))
{
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).index < r.len() by { }
    if matching(m, s) { assert forall|i: int| 0 <= i < m.len() implies (#[trigger] moved(m, r)[i] matches Some(c) ==> compose(s, r)[i] == c) by { assert(r[i].index < r.len()); assert(m[r[i].index as int] == moved(m, r)[i]); } }
    if matching(moved(m, r), compose(s, r)) {
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i] matches Some(c) ==> s[i] == c) by { lemma_idx_of(r, i); let k = idx_of(r, i); assert(moved(m, r)[k] == m[i]); assert(compose(s, r)[k] == s[i]); }
    }
    if in_range(m) {
        if matching(m, s) { assert forall|i: int| 0 <= i < m.len() implies (#[trigger] renamed(r, m)[i] matches Some(c) ==> compose(r, s)[i] == c) by { assert(m[i] is Some || renamed(r, m)[i] is None); } }
        if matching(renamed(r, m), compose(r, s)) {
            assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i] matches Some(c) ==> s[i] == c) by {
                if m[i] is Some { let c = m[i]->0; assert(renamed(r, m)[i] == Some(r[c.index as int])); assert(compose(r, s)[i] == r[s[i].index as int]); assert(s[i].index < s.len());
                    let (x, y) = (c.index as int, s[i].index as int); if x < y { assert(r[x] != r[y]); } else if y < x { assert(r[y] != r[x]); } }
            }
        }
    }
}
@fn mask::Mask::parse
    ensures res.bells@ == mask_of(s@)
@closure 0 |c: char| -> (r: Option<Option<Bell>>) ensures r == elem_of(c)
@closure 1 |b: Bell| -> (r: Option<Bell>) ensures r == Some(b)
@fn mask::Mask::full_row
    ensures res.bells@.len() == row@.len(), forall|i: int| 0 <= i < row@.len() ==> #[trigger] res.bells@[i] == Some(row@[i])
@closure 0 |b: Bell| -> (r: Option<Bell>) ensures r == Some(b)
@hint end
    proof { assert forall|i: int| 0 <= i < row@.len() implies #[trigger] res.bells@[i] == Some(row@[i]) by { assert(crate::vf::ix(i)); } }
@fn mask::Mask::empty
    ensures res.bells@ == rep_seq(None::<Bell>, stage.0 as nat)
@fn mask::Mask::fix_bells
    requires forall|i: int| 0 <= i < fixed_bells@.len() ==> (#[trigger] fixed_bells@[i]).index < stage.0
    ensures res.bells@ == home(rep_seq(None::<Bell>, stage.0 as nat), fixed_bells@), res.bells@.len() == stage.0,
        forall|v: int| 0 <= v < stage.0 ==> #[trigger] res.bells@[v] == (if has_idx(fixed_bells@, v) { Some(Bell { index: v as usize }) } else { None })
@loop 0
    invariant forall|i: int| 0 <= i < xs_0.len() ==> (#[trigger] xs_0[i]).index < stage.0, new_mask.bells@ == home(rep_seq(None::<Bell>, stage.0 as nat), xs_0.take(k_0)), new_mask.bells@.len() == stage.0,
@hint loop 0 end
    proof { assert(xs_0.take(k_0).drop_last() =~= xs_0.take(k_0 - 1)); }
@hint end
    proof { assert(fixed_bells@.take(fixed_bells@.len() as int) =~= fixed_bells@); lemma_home(rep_seq(None::<Bell>, stage.0 as nat), fixed_bells@); }
@fn mask::Mask::fix
    requires b.index < old(self).bells@.len()
    ensures set_spec(old(self).bells@, b, b.index as int, final(self).bells@, res is Ok)
@fn mask::Mask::fix_unchecked
    requires b.index < old(self).bells@.len()
    ensures final(self).bells@ == old(self).bells@.update(b.index as int, Some(b))
@fn mask::Mask::unspecified_places
    ensures res@ == free_places(self.bells@)
@closure 0 |p: &(usize, &Option<Bell>)| -> (r: bool) ensures r == (*p.1 is None)
@closure 1 |p: (usize, &Option<Bell>)| -> (r: usize) ensures r == p.0
@hint end
    proof { assert(res@ =~= free_places(self.bells@)); }
@fn mask::Mask::stage
    requires self.bells@.len() > 0
    ensures res.0 == self.bells@.len()
@fn mask::Mask::matches
    requires valid(row@), self.bells@.len() > 0
    ensures res == matching(self.bells@, row@)
@loop 0
    invariant self.bells@.len() == row@.len(), xs_0.len() == row@.len(), forall|i: int| 0 <= i < xs_0.len() ==> (#[trigger] xs_0[i]) == (&self.bells@[i], row@[i]),
        forall|i: int| 0 <= i < k_0 ==> (#[trigger] self.bells@[i] matches Some(b) ==> row@[i] == b),
@fn mask::Mask::place_of
    ensures match res {
        Some(p) => p < self.bells@.len() && self.bells@[p as int] == Some(bell) && forall|i: int| 0 <= i < p ==> #[trigger] self.bells@[i] != Some(bell),
        None => forall|i: int| 0 <= i < self.bells@.len() ==> #[trigger] self.bells@[i] != Some(bell) }
@loop 0
    invariant xs_0 == enum_seq(ref_seq(self.bells@)), xs_0.len() <= usize::MAX, forall|i: int| 0 <= i < k_0 ==> #[trigger] self.bells@[i] != Some(bell),
@fn mask::Mask::set_bell
    requires place < old(self).bells@.len()
    ensures set_spec(old(self).bells@, bell, place as int, final(self).bells@, res is Ok)
@closure 0 |x: &Option<Bell>| -> (r: bool) ensures r == (*x == Some(bell))
@hint start
    proof { lemma_first_at(self.bells@, Some(bell)); assert(ix(first_at(self.bells@, Some(bell)))); }
@fn mask::Mask::set_bell_unchecked
    requires place < old(self).bells@.len()
    ensures final(self).bells@ == old(self).bells@.update(place as int, Some(bell))
@fn mask::Mask::is_empty
    ensures res == forall|i: int| 0 <= i < self.bells@.len() ==> (#[trigger] self.bells@[i]) is None
@hint end
    proof { if res { assert forall|i: int| 0 <= i < self.bells@.len() implies (#[trigger] self.bells@[i]) is None by { assert(ix(i)); } } }
@fn mask::Mask::as_row
    ensures match res {
        Some(r) => full(self.bells@) && r@ == spelled(self.bells@) && valid(r@),
        None => !(full(self.bells@) && valid(spelled(self.bells@))) }
@closure 0 |b: &Option<Bell>| -> (r: Bell) requires *b is Some ensures *b == Some(r)
@hint start
    proof { lemma_full(self.bells@); assert forall|i: int| 0 <= i < self.bells@.len() implies (#[trigger] self.bells@[i]) is Some || ix(i) by { } }
@fn mask::Mask::is_subset_of
    requires self.bells@.len() > 0, other.bells@.len() > 0
    ensures res == fixes_more(self.bells@, other.bells@)
@loop 0
    invariant self.bells@.len() == other.bells@.len(), xs_0.len() == self.bells@.len(), forall|i: int| 0 <= i < xs_0.len() ==> (#[trigger] xs_0[i]) == (&self.bells@[i], &other.bells@[i]),
        forall|i: int| 0 <= i < k_0 ==> ((#[trigger] other.bells@[i]) is Some ==> self.bells@[i] == other.bells@[i]),
@fn mask::Mask::is_compatible_with
    requires self.bells@.len() > 0, other.bells@.len() > 0
    ensures res ==> same_places(self.bells@, other.bells@), unrepeated(self.bells@) ==> res == compatible(self.bells@, other.bells@), compatible(self.bells@, other.bells@) ==> res
@closure 0 |b_self: Bell| -> (r: bool) ensures r == (b_self == b_other)
@closure 1 |b: &Option<Bell>| -> (r: bool) ensures r == (*b == Some(b_other))
@closure 2 |idx_self: usize| -> (r: bool) ensures r == (i == idx_self)
@loop 0
    invariant self.bells@.len() == other.bells@.len(), xs_0.len() == self.bells@.len(), forall|i: int| 0 <= i < xs_0.len() ==> (#[trigger] xs_0[i]) == (i as usize, (&other.bells@[i], &self.bells@[i])),
        forall|i: int| 0 <= i < k_0 ==> #[trigger] agrees(self.bells@, other.bells@, i),
        xs_0.len() <= usize::MAX,
@hint loop 0 start
    proof { lemma_first_at(self.bells@, other.bells@[k_0 - 1]); assert(ix(first_at(self.bells@, other.bells@[k_0 - 1]))); }
@hint end
    proof { if res { lemma_agrees(self.bells@, other.bells@); } }
@fn mask::Mask::combine
    requires self.bells@.len() > 0, other.bells@.len() > 0
    ensures res matches Some(m) ==> same_places(self.bells@, other.bells@) && m.bells@ == both(self.bells@, other.bells@),
        unrepeated(self.bells@) ==> (res is Some <==> compatible(self.bells@, other.bells@)), compatible(self.bells@, other.bells@) ==> res is Some
@closure 0 |maybe_bells: (&Option<Bell>, &Option<Bell>)| -> (r: Option<Bell>) requires *maybe_bells.0 is Some && *maybe_bells.1 is Some ==> *maybe_bells.0 == *maybe_bells.1 ensures r == (if *maybe_bells.0 is Some { *maybe_bells.0 } else { *maybe_bells.1 })
@hint end
    proof { if res is Some { assert(res->0.bells@ =~= both(self.bells@, other.bells@)); } }
@fn mask::<&Mask as Mul<&Row>>::mul
    ensures res.bells@ == moved(self.bells@, rhs@)
@closure 0 |b: Bell| -> (r: Option<Bell>) requires b.index < self.bells@.len() ensures r == self.bells@[b.index as int]
@hint end
    proof { assert(res.bells@ =~= moved(self.bells@, rhs@)); }
@fn mask::<&Row as Mul<&Mask>>::mul
    ensures res.bells@ == renamed(self@, rhs.bells@)
@closure 0 |maybe_bell: &Option<Bell>| -> (r: Option<Bell>) requires *maybe_bell matches Some(b) ==> b.index < self@.len() ensures r == (match *maybe_bell { Some(b) => Some(self@[b.index as int]), None => None })
@closure 1 |b: Bell| -> (r: Bell) requires b.index < self@.len() ensures r == self@[b.index as int]
@hint end
    proof { assert(res.bells@ =~= renamed(self@, rhs.bells@)); }
@mod mask
/// Fixing a bell fails, and changes nothing, when it is fixed elsewhere; otherwise only its place changes
pub open spec fn set_spec(m: Fixed, b: Bell, p: int, m2: Fixed, ok: bool) -> bool {
    let k = first_at(m, Some(b));
    if k < m.len() { m2 == m && ok == (k == p) } else { ok && m2 == m.update(p, Some(b)) }
}
/// The first place with this content (the length if there is none)
pub open spec fn first_at(m: Fixed, x: Option<Bell>) -> int decreases m.len() { if m.len() == 0 { 0 } else if first_at(m.drop_last(), x) < m.len() - 1 { first_at(m.drop_last(), x) } else if m.last() == x { m.len() - 1 } else { m.len() as int } }
pub proof fn lemma_first_at(m: Fixed, x: Option<Bell>)
    ensures 0 <= first_at(m, x) <= m.len(), forall|i: int| 0 <= i < first_at(m, x) ==> #[trigger] m[i] != x, first_at(m, x) < m.len() ==> m[first_at(m, x)] == x
    decreases m.len()
{ if m.len() > 0 { lemma_first_at(m.drop_last(), x); assert forall|i: int| 0 <= i < first_at(m, x) implies #[trigger] m[i] != x by { if i < m.len() - 1 { assert(m.drop_last()[i] == m[i]); } } } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a Row> for &'a Mask {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, r: &'a Row) -> bool { valid(r@) && self.bells@.len() == r@.len() }
    open spec fn mul_spec(self, r: &'a Row) -> Mask { arbitrary() }
}
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a Mask> for &'a Row {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, m: &'a Mask) -> bool { valid(self@) && self@.len() == m.bells@.len() && in_range(m.bells@) }
    open spec fn mul_spec(self, m: &'a Mask) -> Mask { arbitrary() }
}

@mod mask
/// What is checked of each place of b: a does not fix another bell there, and the first place it fixes that bell, if any, is there
pub open spec fn agrees(a: Fixed, b: Fixed, i: int) -> bool { b[i] is Some ==> (a[i] is Some ==> a[i] == b[i]) && (first_at(a, b[i]) < a.len() ==> first_at(a, b[i]) == i) }
pub proof fn lemma_agrees(a: Fixed, b: Fixed)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] agrees(a, b, i)
    ensures same_places(a, b), unrepeated(a) ==> compatible(a, b)
{
    assert forall|i: int| 0 <= i < a.len() implies ((#[trigger] a[i]) is Some && b[i] is Some ==> a[i] == b[i]) by { assert(agrees(a, b, i)); }
    if unrepeated(a) {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && (#[trigger] a[i]) is Some && a[i] == #[trigger] b[j] implies i == j by {
            assert(agrees(a, b, j)); lemma_first_at(a, b[j]); let k = first_at(a, b[j]); if k < i { assert(a[k] != a[i]); }
        }
    }
}
pub proof fn lemma_home(m: Fixed, s: Seq<Bell>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).index < m.len()
    ensures home(m, s).len() == m.len(), forall|v: int| 0 <= v < m.len() ==> #[trigger] home(m, s)[v] == (if has_idx(s, v) { Some(Bell { index: v as usize }) } else { m[v] })
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).index < m.len() by { assert(d[i] == s[i]); }
        lemma_home(m, d);
        assert forall|v: int| 0 <= v < m.len() implies #[trigger] home(m, s)[v] == (if has_idx(s, v) { Some(Bell { index: v as usize }) } else { m[v] }) by {
            if has_idx(d, v) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).index == v; assert(s[i].index == v); }
            if s.last().index == v { assert(s[s.len() - 1].index == v); }
            if has_idx(s, v) && s.last().index != v { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == v; assert(d[i].index == v); }
        }
    }
}
/// The row which a full mask spells
pub open spec fn full(m: Fixed) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) is Some }
pub open spec fn spelled(m: Fixed) -> Seq<Bell> { Seq::new(m.len(), |i: int| m[i]->0) }
pub proof fn lemma_full(m: Fixed)
    ensures forall|r: Seq<Bell>, res: Result<RowBuf, crate::InvalidRowError>| #[trigger] crate::row::owned::vec_spec(r, res) && r.len() == m.len() && (forall|i: int| #![trigger ix(i)] #![trigger r[i]] 0 <= i < r.len() ==> m[i] == Some(r[i])) ==> r == spelled(m)
{
    assert forall|r: Seq<Bell>, res: Result<RowBuf, crate::InvalidRowError>| #[trigger] crate::row::owned::vec_spec(r, res) && r.len() == m.len() && (forall|i: int| #![trigger ix(i)] #![trigger r[i]] 0 <= i < r.len() ==> m[i] == Some(r[i])) implies r == spelled(m) by { assert(r =~= spelled(m)); }
}
/// The pattern of a mask
pub open spec fn pattern(m: Fixed) -> Seq<RegexElem> { Seq::new(m.len(), |i: int| match m[i] { Some(b) => RegexElem::Bell(b), None => RegexElem::Any }) }
/// A mask and its pattern match the same rows
pub proof fn lemma_pattern(m: Fixed, r: Seq<Bell>)
    ensures crate::music::rx(pattern(m), r) == matching(m, r), crate::music::norm(pattern(m)) == pattern(m)
    decreases m.len()
{
    crate::music::lemma_norm_id(pattern(m));
    if m.len() > 0 {
        let t = m.skip(1);
        assert(pattern(m).skip(1) =~= pattern(t));
        assert(pattern(m)[0] == (match m[0] { Some(b) => RegexElem::Bell(b), None => RegexElem::Any }));
        if r.len() > 0 {
            lemma_pattern(t, r.skip(1));
            if matching(m, r) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] matches Some(b) ==> r.skip(1)[i] == b) by { assert(t[i] == m[i + 1]); } assert(m[0] is Some ==> r[0] == m[0]->0); }
            if matching(t, r.skip(1)) && (m[0] is Some ==> r[0] == m[0]->0) && m.len() == r.len() { assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i] matches Some(b) ==> r[i] == b) by { if i > 0 { assert(t[i - 1] == m[i]); assert(r.skip(1)[i - 1] == r[i]); } } }
        }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<Mask> for Regex {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Mask) -> Self { arbitrary() }
}
@fn mask::<Regex as From<Mask>>::from
    ensures res.elems@ == pattern(mask.bells@), crate::music::normal(res.elems@)
@closure 0 |b: &Option<Bell>| -> (r: RegexElem) ensures r == (match *b { Some(x) => RegexElem::Bell(x), None => RegexElem::Any })
@closure 1 |x: Bell| -> (r: RegexElem) ensures r == RegexElem::Bell(x)
@hint start
    proof { lemma_pattern(mask.bells@, Seq::empty()); assert forall|s: Seq<RegexElem>| s.len() == mask.bells@.len() && (forall|i: int| #![trigger s[i]] #![trigger ix(i)] 0 <= i < s.len() ==> s[i] == pattern(mask.bells@)[i]) implies #[trigger] crate::music::norm(s) == pattern(mask.bells@) by { assert(s =~= pattern(mask.bells@)); } }
