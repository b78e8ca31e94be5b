@-- Place notation
@mod place_not
use crate::sp::*;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits};
/// A place notation: the places made and its stage
pub ghost struct PnV { pub places: Seq<usize>, pub stage: Stage }
impl View for PlaceNot { type V = PnV; open spec fn view(&self) -> PnV { PnV { places: self.places@, stage: self.stage } } }
impl Clone for PlaceNot { #[verifier::external_body] fn clone(&self) -> (r: PlaceNot) ensures r@ == self@ { unimplemented!() } }
pub open spec fn views(s: Seq<PlaceNot>) -> Seq<PnV> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn incr(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn nondec(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
/// Places in order, in the stage, with an even number of bells before, between and after them
pub open spec fn wf(p: PnV) -> bool {
    &&& p.stage.0 > 0
    &&& incr(p.places)
    &&& forall|i: int| 0 <= i < p.places.len() ==> (#[trigger] p.places[i]) < p.stage.0 && p.places[i] % 2 == i % 2
    &&& p.places.len() % 2 == (p.stage.0 as int) % 2
}
/// Two neighbouring given places which are equal, or between which an odd number (three or more) of places is left
pub open spec fn gap_bad(s: Seq<usize>, i: int) -> bool { 0 <= i < s.len() - 1 && (s[i + 1] == s[i] || (s[i + 1] - s[i] > 2 && (s[i + 1] - s[i]) % 2 == 0)) }
pub open spec fn first_gap_bad(s: Seq<usize>, i: int) -> bool { gap_bad(s, i) && forall|j: int| 0 <= j < i ==> !#[trigger] gap_bad(s, j) }
pub open spec fn gaps_ok(s: Seq<usize>) -> bool { forall|j: int| !#[trigger] gap_bad(s, j) }
pub open spec fn single_gap(s: Seq<usize>, i: int, p: int) -> bool { 0 <= i < s.len() - 1 && s[i + 1] == s[i] + 2 && p == s[i] + 1 }
/// The places made when the places `s` (in order) are given at stage `n`: those, and the implied ones
pub open spec fn made(s: Seq<usize>, n: int, p: usize) -> bool {
    s.contains(p) || (p == 0 && s[0] % 2 == 1) || (p == n - 1 && (n - s.last()) % 2 == 0) || exists|i: int| #[trigger] single_gap(s, i, p as int)
}
pub open spec fn exp_pre(s: Seq<usize>, k: int) -> Seq<usize> decreases k {
    if k <= 0 { if s[0] % 2 == 1 { seq![0usize] } else { Seq::empty() } }
    else { let t = exp_pre(s, k - 1).push(s[k - 1]); if s[k] == s[k - 1] + 2 { t.push((s[k - 1] + 1) as usize) } else { t } }
}
pub open spec fn expand(s: Seq<usize>, n: int) -> Seq<usize> {
    let t = exp_pre(s, s.len() - 1).push(s.last());
    if (n - s.last()) % 2 == 0 { t.push((n - 1) as usize) } else { t }
}
pub open spec fn gap_err(s: Seq<usize>, i: int) -> ParseError { if s[i + 1] == s[i] { ParseError::DuplicatePlace(s[i]) } else { ParseError::AmbiguousPlacesBetween { p: s[i], q: s[i + 1] } } }
/// What the given places (in order) mean at a stage
pub open spec fn meaning_of(s: Seq<usize>, stage: Stage) -> Result<PnV, ParseError> {
    if s.len() == 0 { Err(ParseError::NoPlacesGiven) }
    else if s.last() >= stage.0 { Err(ParseError::PlaceOutOfStage { place: s.last(), stage }) }
    else if !gaps_ok(s) { Err(gap_err(s, choose|i: int| first_gap_bad(s, i))) }
    else { Ok(PnV { places: expand(s, stage.0 as int), stage }) }
}
pub open spec fn same_pn(r: Result<PlaceNot, ParseError>, s: Result<PnV, ParseError>) -> bool {
    match s { Ok(v) => r matches Ok(p) && p@ == v && wf(p@), Err(e) => r == Err::<PlaceNot, ParseError>(e) }
}
pub proof fn lemma_first_gap(s: Seq<usize>, i: int)
    requires first_gap_bad(s, i)
    ensures (choose|k: int| first_gap_bad(s, k)) == i, !gaps_ok(s)
{
    let k = choose|k: int| first_gap_bad(s, k);
    if k < i { assert(!gap_bad(s, k)); } else if i < k { assert(!gap_bad(s, i)); }
}
pub open spec fn pre_has(s: Seq<usize>, k: int, p: usize) -> bool { (p == 0 && s[0] % 2 == 1) || s.take(k).contains(p) || exists|j: int| j < k && #[trigger] single_gap(s, j, p as int) }
pub proof fn lemma_exp_pre(s: Seq<usize>, k: int)
    requires nondec(s), 0 <= k < s.len(), forall|j: int| 0 <= j < k ==> !#[trigger] gap_bad(s, j)
    ensures ({
        let t = exp_pre(s, k);
        &&& incr(t)
        &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) < s[k] && t[i] % 2 == i % 2
        &&& t.len() % 2 == (s[k] as int) % 2
    })
    decreases k
{
    if k > 0 {
        lemma_exp_pre(s, k - 1);
        assert(!gap_bad(s, k - 1));
        let t0 = exp_pre(s, k - 1);
        let t = exp_pre(s, k);
        assert(s[k - 1] <= s[k]);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < s[k] && t[i] % 2 == i % 2 by { if i < t0.len() { assert(t[i] == t0[i]); } }
        assert(incr(t)) by {
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] < t[j] by {
                if i < t0.len() { assert(t[i] == t0[i]); assert(t0[i] < s[k - 1]); }
                if j < t0.len() { assert(t[j] == t0[j]); }
            }
        }
    }
}
pub proof fn lemma_push_has(s: Seq<usize>, x: usize, p: usize)
    ensures s.push(x).contains(p) <==> s.contains(p) || p == x
{
    let t = s.push(x);
    if s.contains(p) { let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(t[i] == p); }
    if p == x { assert(t[s.len() as int] == p); }
    if t.contains(p) && p != x { let i = choose|i: int| 0 <= i < t.len() && t[i] == p; assert(s[i] == p); }
}
pub proof fn lemma_exp_has(s: Seq<usize>, k: int, p: usize)
    requires 0 <= k < s.len(), nondec(s)
    ensures exp_pre(s, k).contains(p) <==> pre_has(s, k, p)
    decreases k
{
    if k == 0 {
        if p == 0 && s[0] % 2 == 1 { assert(exp_pre(s, 0)[0] == 0); }
    } else {
        lemma_exp_has(s, k - 1, p);
        let t0 = exp_pre(s, k - 1);
        lemma_push_has(t0, s[k - 1], p);
        lemma_push_has(t0.push(s[k - 1]), (s[k - 1] + 1) as usize, p);
        assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
        lemma_push_has(s.take(k - 1), s[k - 1], p);
        if s[k] == s[k - 1] + 2 && p == s[k - 1] + 1 { assert(single_gap(s, k - 1, p as int)); }
    }
}
pub proof fn lemma_expand(s: Seq<usize>, n: int)
    requires nondec(s), s.len() > 0, s.last() < n, gaps_ok(s), n <= usize::MAX
    ensures wf(PnV { places: expand(s, n), stage: Stage(n as usize) }), forall|p: usize| #[trigger] expand(s, n).contains(p) <==> made(s, n, p)
{
    let m = s.len() - 1;
    assert(forall|j: int| 0 <= j < m ==> !#[trigger] gap_bad(s, j));
    lemma_exp_pre(s, m);
    let t0 = exp_pre(s, m);
    let t1 = t0.push(s.last());
    let t = expand(s, n);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < n && t[i] % 2 == i % 2 by { if i < t0.len() { assert(t[i] == t0[i]); } }
    assert(incr(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] < t[j] by {
            if i < t0.len() { assert(t[i] == t0[i]); assert(t0[i] < s[m]); }
            if j < t0.len() { assert(t[j] == t0[j]); }
        }
    }
    assert forall|p: usize| #[trigger] t.contains(p) <==> made(s, n, p) by {
        lemma_exp_has(s, m, p);
        lemma_push_has(t0, s.last(), p);
        lemma_push_has(t1, (n - 1) as usize, p);
        assert(s =~= s.take(m).push(s[m]));
        lemma_push_has(s.take(m), s[m], p);
    }
}

/// The number of places below i
pub open spec fn cnt(pl: Seq<usize>, i: int) -> int decreases pl.len() { if pl.len() == 0 { 0 } else { cnt(pl.drop_last(), i) + (if pl.last() < i { 1int } else { 0 }) } }
/// The place whose bell moves to place i
pub open spec fn partner(pl: Seq<usize>, i: int) -> int { if pl.contains(i as usize) { i } else if (i - cnt(pl, i)) % 2 == 0 { i + 1 } else { i - 1 } }
/// The row after the places `pl` are made in the row `r`
pub open spec fn apply(pl: Seq<usize>, r: Seq<Bell>) -> Seq<Bell> { Seq::new(r.len(), |i: int| r[partner(pl, i)]) }
pub open spec fn trans(p: PnV) -> Seq<Bell> { apply(p.places, rounds_seq(p.stage.0 as int)) }
pub proof fn lemma_cnt(pl: Seq<usize>, i: int, j: int)
    requires incr(pl), 0 <= j <= pl.len(), j > 0 ==> pl[j - 1] < i, j < pl.len() ==> i <= pl[j]
    ensures cnt(pl, i) == j
    decreases pl.len()
{
    if pl.len() > 0 {
        let t = pl.drop_last();
        if j == pl.len() {
            if j > 1 { assert(pl[j - 2] < pl[j - 1]); }
            lemma_cnt(t, i, j - 1);
        } else {
            assert(pl.last() >= pl[j]);
            lemma_cnt(t, i, j);
        }
    }
}
/// There is an index splitting the places below i from the rest
pub proof fn lemma_cnt_ex(pl: Seq<usize>, i: int)
    requires incr(pl)
    ensures 0 <= cnt(pl, i) <= pl.len(), cnt(pl, i) > 0 ==> pl[cnt(pl, i) - 1] < i, cnt(pl, i) < pl.len() ==> i <= pl[cnt(pl, i)]
    decreases pl.len()
{
    if pl.len() > 0 {
        let t = pl.drop_last();
        lemma_cnt_ex(t, i);
        let c = cnt(t, i);
        if pl.last() < i { if c < t.len() { assert(pl[c] < pl.last()); } assert(c == t.len()); }
    }
}
/// A place that is not made is swapped with the neighbour that is not made either
pub proof fn lemma_partner(p: PnV, i: int)
    requires wf(p), 0 <= i < p.stage.0
    ensures 0 <= partner(p.places, i) < p.stage.0, partner(p.places, partner(p.places, i)) == i, p.places.contains(i as usize) <==> partner(p.places, i) == i,
        partner(p.places, i) - i <= 1, i - partner(p.places, i) <= 1
{
    let pl = p.places;
    lemma_cnt_ex(pl, i);
    let c = cnt(pl, i);
    if !pl.contains(i as usize) {
        if c < pl.len() { assert(pl[c] != i); }
        if (i - c) % 2 == 0 {
            // i + 1 is in the stage and not a place
            if c < pl.len() { assert(pl[c] % 2 == c % 2); assert(pl[c] != i + 1); assert(i + 1 < pl[c]); assert(pl[c] < p.stage.0); }
            assert(!pl.contains((i + 1) as usize)) by {
                if pl.contains((i + 1) as usize) { let k = choose|k: int| 0 <= k < pl.len() && pl[k] == i + 1; if k < c { assert(pl[k] <= pl[c - 1]); } else if k > c { assert(pl[c] < pl[k]); } }
            }
            lemma_cnt(pl, i + 1, c);
        } else {
            if c > 0 { assert(pl[c - 1] % 2 == (c - 1) % 2); assert(pl[c - 1] != i - 1); }
            assert(i >= 1);
            assert(!pl.contains((i - 1) as usize)) by {
                if pl.contains((i - 1) as usize) { let k = choose|k: int| 0 <= k < pl.len() && pl[k] == i - 1; if k < c - 1 { assert(pl[k] < pl[c - 1]); } else if k >= c { if k > c { assert(pl[c] < pl[k]); } } }
            }
            lemma_cnt(pl, i - 1, c);
        }
    }
}
pub proof fn lemma_apply_valid(p: PnV, r: Seq<Bell>)
    requires wf(p), valid(r), r.len() == p.stage.0
    ensures valid(apply(p.places, r)), apply(p.places, r).len() == r.len(), apply(p.places, apply(p.places, r)) == r,
        apply(p.places, r) == compose(r, trans(p)), valid(trans(p))
{
    let a = apply(p.places, r);
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] partner(p.places, i) < r.len() && partner(p.places, partner(p.places, i)) == i by { lemma_partner(p, i); }
    assert(in_stage(a)) by { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).index < a.len() by { let k = partner(p.places, i); assert(a[i] == r[k]); assert(r[k].index < r.len()); } }
    assert(distinct(a)) by {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by {
            let (x, y) = (partner(p.places, i), partner(p.places, j));
            assert(partner(p.places, x) == i && partner(p.places, y) == j);
            assert(x != y);
            if x < y { assert(r[x] != r[y]); } else { assert(r[y] != r[x]); }
        }
    }
    assert(apply(p.places, a) =~= r) by { assert forall|i: int| 0 <= i < r.len() implies apply(p.places, a)[i] == r[i] by { let x = partner(p.places, i); assert(partner(p.places, x) == i); } }
    let t = trans(p);
    let n = p.stage.0 as int;
    assert forall|i: int| 0 <= i < n implies (#[trigger] t[i]).index == partner(p.places, i) by { lemma_partner(p, i); }
    assert(a =~= compose(r, t)) by { assert forall|i: int| 0 <= i < n implies a[i] == compose(r, t)[i] by { assert(t[i].index == partner(p.places, i)); } }
    assert(distinct(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { assert(t[i].index == partner(p.places, i)); assert(t[j].index == partner(p.places, j)); assert(partner(p.places, partner(p.places, i)) == i); }
    }
    assert(in_stage(t));
}
@fn place_not::PlaceNot::parse
    requires stage.0 > 0
    ensures s@.len() == 1 && is_cross_char(s@[0]) ==> (if stage.0 % 2 == 0 { res matches Ok(p) && p@ == PnV { places: Seq::empty(), stage } && wf(p@) } else { res == Err::<PlaceNot, ParseError>(ParseError::OddStageCross(stage)) }),
        !(s@.len() == 1 && is_cross_char(s@[0])) ==> same_pn(res, meaning_of(places_in(s@).sort_by(usize_leq()), stage))
@hint start
    proof { lemma_one_byte(s@); lemma_sorted_places(places_in(s@)); }
@hint before call sort_unstable
    proof { assert(parsed_places@ =~= places_in(s@)); }
@fn place_not::PlaceNot::from_sorted_slice
    requires nondec(parsed_places@), stage.0 > 0
    ensures same_pn(res, meaning_of(parsed_places@, stage))
@hint start
    proof { axiom_slice_fits(parsed_places); }
@closure 0 |p: &&usize| -> (r: bool) ensures r == (**p >= stage.0)
@closure 1 |p: &&usize| -> (r: bool) ensures r == (**p % 2 == 1)
@closure 2 |p: &&usize| -> (r: bool) requires **p < stage.0 ensures r == ((stage.0 - **p) % 2 == 0)
@loop 0
    invariant nondec(parsed_places@), parsed_places@.len() > 0, xs_0.len() == parsed_places@.len() - 1,
        forall|i: int| 0 <= i < xs_0.len() ==> #[trigger] xs_0[i] == (parsed_places@[i], parsed_places@[i + 1]),
        forall|j: int| 0 <= j < k_0 ==> !#[trigger] gap_bad(parsed_places@, j),
        places@ == exp_pre(parsed_places@, k_0), parsed_places@.last() < stage.0
@hint loop 0 start
    proof {
        assert(x_0 == (parsed_places@[k_0 - 1], parsed_places@[k_0])); assert(p <= q);
        if p == q || (q - p > 2 && (q - p) % 2 == 0) { assert(gap_bad(parsed_places@, k_0 - 1)); assert(first_gap_bad(parsed_places@, k_0 - 1)); lemma_first_gap(parsed_places@, k_0 - 1); }
    }
@hint loop 0 after
    proof { assert(gaps_ok(parsed_places@)); lemma_expand(parsed_places@, stage.0 as int); }
@fn place_not::PlaceNot::cross
    requires stage.0 > 0
    ensures stage.0 % 2 == 0 ==> (res matches Some(p) && p@ == PnV { places: Seq::empty(), stage } && wf(p@)), stage.0 % 2 == 1 ==> res is None
@fn place_not::PlaceNot::is_cross
    ensures res == (self@.places.len() == 0)
@fn place_not::PlaceNot::contains
    ensures res == self@.places.contains(place)
@hint end
    proof { if self.places@.contains(place) { let i = choose|i: int| 0 <= i < self.places@.len() && self.places@[i] == place; assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&self.places@[i], &place)); } }
@fn place_not::PlaceNot::has_internal_places
    requires wf(self@)
    ensures res == exists|i: int| 0 <= i < self@.places.len() && 0 < #[trigger] self@.places[i] < self@.stage.0 - 1
@hint end
    proof { lemma_internal(self@); }
@fn place_not::PlaceNot::stage
    ensures res == self@.stage
@fn place_not::PlaceNot::pn_between
    requires valid(r1@), valid(r2@)
    ensures match res {
        Some(p) => wf(p@) && p@.stage.0 == r1@.len() && r1@.len() == r2@.len() && r2@ == apply(p@.places, r1@) && adjacent(r1@, r2@),
        None => r1@.len() != r2@.len() || !adjacent(r1@, r2@),
    }
@hint start
    let ghost mut k: int = 0;
    let ghost xs = Seq::new(r1@.len(), |i: int| (i as usize, (r1@[i], r2@[i])));
@loop 0
    invariant valid(r1@), valid(r2@), r1@.len() == r2@.len(), 0 <= k <= r1@.len(), bell_pair_iter@ == xs.skip(k), xs == Seq::new(r1@.len(), |i: int| (i as usize, (r1@[i], r2@[i]))),
        prefix_ok(places@, k, r1@, r2@)
    ensures k == r1@.len()
    decreases r1@.len() - k
@hint loop 0 before
    proof { assert(bell_pair_iter@ =~= xs.skip(0)); }
@hint loop 0 top
    proof { if k < xs.len() { assert(bell_pair_iter@[0] == xs[k]); assert(xs.skip(k).skip(1) =~= xs.skip(k + 1)); if k + 1 < xs.len() { assert(xs.skip(k + 1)[0] == xs[k + 1]); assert(xs.skip(k + 1).skip(1) =~= xs.skip(k + 2)); } } }
@hint loop 0 start
    proof { assert(place == k && b1 == r1@[k] && b2 == r2@[k]); lemma_prefix(places@, k, r1@, r2@); if b1 == b2 { k = k + 1; } else { k = k + 2; } }
@hint end
    proof { lemma_between(places@, r1@, r2@); }
@fn place_not::PlaceNot::transposition
    requires wf(self@)
    ensures res@ == trans(self@), valid(res@)
@fn place_not::PlaceNot::permute
    requires wf(self@), valid(old(row)@)
    ensures old(row)@.len() == self@.stage.0 ==> res is Ok && final(row)@ == apply(self@.places, old(row)@) && final(row)@ == compose(old(row)@, trans(self@)) && valid(final(row)@),
        old(row)@.len() != self@.stage.0 ==> final(row)@ == old(row)@ && res == Err::<(), IncompatibleStages>(crate::stage::inc(Stage(old(row)@.len() as usize), self@.stage))
@fn place_not::PlaceNot::permute_unchecked
    requires wf(self@), valid(old(row)@), old(row)@.len() == self@.stage.0
    ensures final(row)@ == apply(self@.places, old(row)@), final(row)@ == compose(old(row)@, trans(self@)), valid(final(row)@), final(row)@.len() == old(row)@.len(), apply(self@.places, final(row)@) == old(row)@
@loop 0
    invariant wf(self@), 0 <= j <= self@.places.len(), places@ == self@.places.skip(j), valid(row@), row@.len() == self@.stage.0, old(row)@.len() == row@.len(), valid(old(row)@),
        j > 0 ==> self@.places[j - 1] < i, j < self@.places.len() ==> i <= self@.places[j], i <= self@.stage.0, i as int % 2 == j % 2,
        forall|t: int| 0 <= t < i ==> #[trigger] row@[t] == old(row)@[partner(self@.places, t)],
        forall|t: int| i <= t < row@.len() ==> #[trigger] row@[t] == old(row)@[t]
    decreases self@.stage.0 - i
@hint start
    let ghost mut j: int = 0;
@hint after let places
    proof { assert(places@ =~= self@.places.skip(0)); }
@hint loop 0 start
    proof { lemma_step(self@, i as int, j); assert(j < self@.places.len() ==> places@[0] == self@.places[j]); }
@hint before call next
    proof { j = j + 1; assert(self@.places.skip(j - 1).skip(1) =~= self@.places.skip(j)); }
@hint end
    proof { assert(row@ =~= apply(self@.places, old(row)@)); lemma_apply_valid(self@, old(row)@); }
@fn place_not::PlaceNot::permute_new
    requires wf(self@), valid(row@)
    ensures row@.len() == self@.stage.0 ==> (res matches Ok(r) && r@ == apply(self@.places, row@) && r@ == compose(row@, trans(self@)) && valid(r@)),
        row@.len() != self@.stage.0 ==> (res matches Err(e) && e == crate::stage::inc(Stage(row@.len() as usize), self@.stage))
@fn place_not::PlaceNot::permute_new_unchecked
    requires wf(self@), valid(row@), row@.len() == self@.stage.0
    ensures res@ == apply(self@.places, row@), res@ == compose(row@, trans(self@)), valid(res@)
@mod place_not
pub open spec fn is_cross_char(c: char) -> bool { c == 'x' || c == 'X' || c == '-' }
pub open spec fn places_in(s: Seq<char>) -> Seq<usize> { crate::bell::bells_in(s).map(|i: int, b: Bell| b.index) }
/// Every bell of a is at most one place away in b
pub open spec fn adjacent(a: Seq<Bell>, b: Seq<Bell>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && #[trigger] a[i] == #[trigger] b[j] ==> j - i <= 1 && i - j <= 1 }
pub proof fn lemma_step(p: PnV, i: int, j: int)
    requires wf(p), 0 <= j <= p.places.len(), 0 <= i < p.stage.0, j > 0 ==> p.places[j - 1] < i, j < p.places.len() ==> i <= p.places[j], i % 2 == j % 2
    ensures p.places.contains(i as usize) <==> (j < p.places.len() && p.places[j] == i),
        !p.places.contains(i as usize) ==> i + 1 < p.stage.0 && partner(p.places, i) == i + 1 && partner(p.places, i + 1) == i && (j < p.places.len() ==> i + 2 <= p.places[j]),
        p.places.contains(i as usize) ==> partner(p.places, i) == i && (j + 1 < p.places.len() ==> i + 1 <= p.places[j + 1])
{
    let pl = p.places;
    lemma_cnt(pl, i, j);
    lemma_partner(p, i);
    if pl.contains(i as usize) { let k = choose|k: int| 0 <= k < pl.len() && pl[k] == i; if k < j { assert(pl[k] <= pl[j - 1]); } else if k > j { assert(pl[j] < pl[k]); } }
    else { if j < pl.len() { assert(pl[j] != i); assert(pl[j] % 2 == j % 2); } lemma_partner(p, i + 1); }
}
pub open spec fn char_meaning(c: char) -> CharMeaning {
    match crate::bell::bell_of(c) {
        Some(b) => CharMeaning::Bell(b),
        None => if c == '+' { CharMeaning::Asym } else if c == ' ' || c == '.' { CharMeaning::Delimiter } else if c == 'x' || c == 'X' || c == '-' { CharMeaning::Cross } else { CharMeaning::Unknown },
    }
}
impl vstd::std_specs::convert::FromSpecImpl<char> for CharMeaning {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: char) -> CharMeaning { char_meaning(c) }
}
@fn place_not::<CharMeaning as From<char>>::from
    ensures res == char_meaning(c)
@mod place_not
/// The first k places of b are those of a with the places `pl` made
pub open spec fn prefix_ok(pl: Seq<usize>, k: int, a: Seq<Bell>, b: Seq<Bell>) -> bool {
    if k == 0 { pl.len() == 0 } else { wf(PnV { places: pl, stage: Stage(k as usize) }) && forall|t: int| 0 <= t < k ==> #[trigger] b[t] == a[partner(pl, t)] }
}
pub proof fn lemma_cnt_push(pl: Seq<usize>, x: usize, t: int)
    requires t <= x
    ensures cnt(pl.push(x), t) == cnt(pl, t), t < x ==> partner(pl.push(x), t) == partner(pl, t) || t < 0
{
    assert(pl.push(x).drop_last() =~= pl);
    if 0 <= t < x {
        let p2 = pl.push(x);
        if pl.contains(t as usize) { let i = choose|i: int| 0 <= i < pl.len() && pl[i] == t; assert(p2[i] == t); }
        if p2.contains(t as usize) { let i = choose|i: int| 0 <= i < p2.len() && p2[i] == t; assert(i < pl.len()); assert(pl[i] == t); }
    }
}
pub proof fn lemma_prefix(pl: Seq<usize>, k: int, a: Seq<Bell>, b: Seq<Bell>)
    requires valid(a), valid(b), a.len() == b.len(), fits(a), 0 <= k < a.len(), prefix_ok(pl, k, a, b)
    ensures a[k] == b[k] ==> prefix_ok(pl.push(k as usize), k + 1, a, b),
        a[k] != b[k] && k + 1 < a.len() && a[k + 1] == b[k] && b[k + 1] == a[k] ==> prefix_ok(pl, k + 2, a, b),
        a[k] != b[k] && !(k + 1 < a.len() && a[k + 1] == b[k] && b[k + 1] == a[k]) ==> !adjacent(a, b),
{
    let v = PnV { places: pl, stage: Stage(k as usize) };
    if a[k] == b[k] {
        let q = pl.push(k as usize);
        let w = PnV { places: q, stage: Stage((k + 1) as usize) };
        assert(wf(w)) by { assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < k + 1 && q[i] % 2 == i % 2 by { if i < pl.len() { assert(pl[i] == q[i]); } } assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] < q[j] by { if j < pl.len() { assert(pl[i] < pl[j]); } else { assert(pl[i] < k); } } }
        assert forall|t: int| 0 <= t < k + 1 implies #[trigger] b[t] == a[partner(q, t)] by { if t < k { lemma_cnt_push(pl, k as usize, t); } else { assert(q[pl.len() as int] == k); assert(q.contains(k as usize)); } }
    } else if k + 1 < a.len() && a[k + 1] == b[k] && b[k + 1] == a[k] {
        let w = PnV { places: pl, stage: Stage((k + 2) as usize) };
        assert(wf(w)) by { assert forall|i: int| 0 <= i < pl.len() implies (#[trigger] pl[i]) < k + 2 && pl[i] % 2 == i % 2 by { assert(pl[i] < k); } }
        if pl.len() > 0 { assert(pl[pl.len() - 1] < k); }
        lemma_step(w, k, pl.len() as int);
        assert(!pl.contains(k as usize)) by { if pl.contains(k as usize) { let i = choose|i: int| 0 <= i < pl.len() && pl[i] == k; assert(pl[i] < k); } }
        assert forall|t: int| 0 <= t < k + 2 implies #[trigger] b[t] == a[partner(pl, t)] by { }
    } else if adjacent(a, b) {
        lemma_surj(a); lemma_surj(b);
        assert(b[k].index < b.len() && a[k].index < a.len());
        assert(has_idx(b, a[k].index as int) && has_idx(a, b[k].index as int));
        let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).index == a[k].index;
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).index == b[k].index;
        assert(b[j] == a[k] && a[i] == b[k]);
        if j < k { lemma_partner(v, j); let x = partner(pl, j); assert(b[j] == a[x]); assert(a[x] != a[k]); }
        if i < k { lemma_partner(v, i); let x = partner(pl, i); assert(b[x] == a[partner(pl, x)]); assert(b[x] == a[i]); assert(b[x] != b[k]); }
        assert(false);
    }
}
pub proof fn lemma_between(pl: Seq<usize>, a: Seq<Bell>, b: Seq<Bell>)
    requires valid(a), valid(b), a.len() == b.len(), fits(a), prefix_ok(pl, a.len() as int, a, b)
    ensures b == apply(pl, a), adjacent(a, b), wf(PnV { places: pl, stage: Stage(a.len() as usize) })
{
    assert(b =~= apply(pl, a));
    let v = PnV { places: pl, stage: Stage(a.len() as usize) };
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && #[trigger] a[i] == #[trigger] b[j] implies j - i <= 1 && i - j <= 1 by {
        lemma_partner(v, j);
        let x = partner(pl, j);
        assert(a[x] == a[i]);
        if x < i { assert(a[x] != a[i]); } else if i < x { assert(a[i] != a[x]); }
    }
}
pub proof fn lemma_sorted_places(s: Seq<usize>)
    ensures nondec(s.sort_by(usize_leq())), s.sort_by(usize_leq()).to_multiset() == s.to_multiset(), s.sort_by(usize_leq()).len() == s.len()
{
    s.lemma_sort_by_ensures(usize_leq());
    let t = s.sort_by(usize_leq());
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies t[i] <= t[j] by { if i < j { assert(usize_leq()(t[i], t[j])); } }
    s.to_multiset_ensures(); t.to_multiset_ensures();
}
pub proof fn lemma_internal(p: PnV)
    requires wf(p)
    ensures ({
        let pl = p.places; let n = p.stage.0 as int;
        let ext = (if pl.len() > 0 && pl[0] == 0 { 1int } else { 0 }) + (if pl.len() > 0 && pl.last() == n - 1 { 1int } else { 0 });
        (pl.len() > ext) == exists|i: int| 0 <= i < pl.len() && 0 < #[trigger] pl[i] < n - 1
    })
{
    let pl = p.places; let n = p.stage.0 as int;
    let ext = (if pl.len() > 0 && pl[0] == 0 { 1int } else { 0 }) + (if pl.len() > 0 && pl.last() == n - 1 { 1int } else { 0 });
    if pl.len() > ext {
        if pl[0] != 0 && pl[0] < n - 1 { assert(0 < pl[0] < n - 1); }
        else if pl[0] == 0 && pl.len() > 1 { assert(pl[0] < pl[1]); if pl[1] < n - 1 { } else { if pl.len() > 2 { assert(pl[1] < pl[2]); } } }
        else if pl[0] != 0 { assert(pl[0] == n - 1); if pl.len() > 1 { assert(pl[0] < pl[1]); } }
    }
    if exists|i: int| 0 <= i < pl.len() && 0 < #[trigger] pl[i] < n - 1 {
        let i = choose|i: int| 0 <= i < pl.len() && 0 < #[trigger] pl[i] < n - 1;
        if pl.len() <= ext { }
    }
}
@derive place_not::PnBlockParseError Debug
@derive place_not::InvalidPnBlockError Debug
@type place_not::PnBlock
pub struct PnBlock { pub pns: Vec<PlaceNot> }
@mod place_not
/// A block of changes of one stage
pub open spec fn bwf(b: Seq<PnV>) -> bool { b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> wf(#[trigger] b[i]) && b[i].stage == b[0].stage }
pub open spec fn one_stage(b: Seq<PnV>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).stage == b[0].stage }
impl View for PnBlock { type V = Seq<PnV>; open spec fn view(&self) -> Seq<PnV> { views(self.pns@) } }
impl Clone for PnBlock { #[verifier::external_body] fn clone(&self) -> (r: PnBlock) ensures r@ == self@ { unimplemented!() } }

/// The characters of a sub-block at byte offset `off`, followed by an imaginary delimiter
pub open spec fn toks(s: Seq<char>, off: int) -> Seq<(usize, CharMeaning)> {
    Seq::new(s.len() + 1, |i: int| if i < s.len() { ((off + byte_len(s.take(i))) as usize, char_meaning(s[i])) } else { ((off + byte_len(s)) as usize, CharMeaning::Delimiter) })
}
pub open spec fn blank(m: CharMeaning) -> bool { m == CharMeaning::Delimiter || m == CharMeaning::Unknown }
/// Meaningless characters at the start are skipped
pub open spec fn skipped(t: Seq<(usize, CharMeaning)>) -> Seq<(usize, CharMeaning)> decreases t.len() { if t.len() > 0 && blank(t[0].1) { skipped(t.skip(1)) } else { t } }
/// What is known while a sub-block is read: the changes so far, the places of the change being read and where it starts
pub ghost struct Rd { pub out: Seq<PnV>, pub places: Seq<usize>, pub start: usize }
pub open spec fn rd_flush(st: Rd, index: usize, stage: Stage) -> Result<Rd, PnBlockParseError> {
    if st.places.len() == 0 { Ok(st) } else {
        match meaning_of(st.places.sort_by(usize_leq()), stage) {
            Ok(v) => Ok(Rd { out: st.out.push(v), places: Seq::empty(), start: st.start }),
            Err(e) => Err(PnBlockParseError::PnError(core::ops::Range { start: st.start, end: index }, e)),
        }
    }
}
pub open spec fn rd_cross(st: Rd, index: usize, stage: Stage) -> Result<Rd, PnBlockParseError> {
    if stage.0 % 2 == 0 { Ok(Rd { out: st.out.push(PnV { places: Seq::empty(), stage }), places: st.places, start: st.start }) }
    else { Err(PnBlockParseError::PnError(core::ops::Range { start: index, end: (index + 1) as usize }, ParseError::OddStageCross(stage))) }
}
pub open spec fn rd_step(st: Rd, t: (usize, CharMeaning), stage: Stage) -> Result<Rd, PnBlockParseError> {
    match t.1 {
        CharMeaning::Bell(b) => Ok(Rd { out: st.out, places: st.places.push(b.index), start: if st.places.len() == 0 { t.0 } else { st.start } }),
        CharMeaning::Delimiter => rd_flush(st, t.0, stage),
        CharMeaning::Cross => match rd_flush(st, t.0, stage) { Ok(st) => rd_cross(st, t.0, stage), Err(e) => Err(e) },
        CharMeaning::Asym => Err(PnBlockParseError::PlusNotAtBlockStart(t.0)),
        CharMeaning::Unknown => Ok(st),
    }
}
pub open spec fn rd(t: Seq<(usize, CharMeaning)>, k: int, stage: Stage) -> Result<Rd, PnBlockParseError> decreases k {
    if k <= 0 { Ok(Rd { out: Seq::empty(), places: Seq::empty(), start: 0 }) } else {
        match rd(t, k - 1, stage) { Ok(st) => rd_step(st, t[k - 1], stage), Err(e) => Err(e) }
    }
}
pub open spec fn starts_plus(t: Seq<(usize, CharMeaning)>) -> bool { t.len() > 0 && t[0].1 == CharMeaning::Asym }
pub open spec fn after_plus(t: Seq<(usize, CharMeaning)>) -> Seq<(usize, CharMeaning)> { if starts_plus(t) { t.skip(1) } else { t } }
/// The changes written in a sub-block
pub open spec fn sub_block(s: Seq<char>, off: int, stage: Stage) -> Result<Seq<PnV>, PnBlockParseError> {
    let t = after_plus(skipped(toks(s, off)));
    match rd(t, t.len() as int, stage) { Ok(st) => Ok(st.out), Err(e) => Err(e) }
}
pub open spec fn sub_is_asym(s: Seq<char>, off: int) -> bool { starts_plus(skipped(toks(s, off))) }
/// A sub-block mirrored about its last change
pub open spec fn mirrored(b: Seq<PnV>) -> Seq<PnV> { if b.len() == 0 { b } else { b + rev_seq(b.drop_last()) } }
pub open spec fn blocks(s: Seq<char>, k: int, stage: Stage) -> Result<Seq<PnV>, PnBlockParseError> decreases k {
    if k <= 0 { Ok(Seq::empty()) } else {
        let off = byte_len(s.take(piece_lo(s, ',', k - 1)));
        let p = piece(s, ',', k - 1);
        match blocks(s, k - 1, stage) {
            Err(e) => Err(e),
            Ok(b) => match sub_block(p, off, stage) {
                Err(e) => Err(e),
                Ok(c) => Ok(b + (if !s.contains(',') || sub_is_asym(p, off) { c } else { mirrored(c) })),
            }
        }
    }
}
/// What a whole text means
pub open spec fn block_of(s: Seq<char>, stage: Stage) -> Result<Seq<PnV>, PnBlockParseError> {
    match blocks(s, cuts(s, ',').len() as int + 1, stage) {
        Err(e) => Err(e),
        Ok(b) => if b.len() == 0 { Err(PnBlockParseError::EmptyBlock) } else { Ok(b) },
    }
}
pub proof fn lemma_rd_err(t: Seq<(usize, CharMeaning)>, k: int, m: int, stage: Stage)
    requires 0 <= k <= m, rd(t, k, stage) is Err
    ensures rd(t, m, stage) == rd(t, k, stage)
    decreases m
{ if k < m { lemma_rd_err(t, k, m - 1, stage); } }
pub open spec fn all_wf(b: Seq<PnV>, stage: Stage) -> bool { forall|i: int| 0 <= i < b.len() ==> wf(#[trigger] b[i]) && b[i].stage == stage }
pub proof fn lemma_blocks_err(s: Seq<char>, k: int, m: int, stage: Stage)
    requires 0 <= k <= m, blocks(s, k, stage) is Err
    ensures blocks(s, m, stage) == blocks(s, k, stage)
    decreases m
{ if k < m { lemma_blocks_err(s, k, m - 1, stage); } }
pub proof fn lemma_views_push(s: Seq<PlaceNot>, x: PlaceNot) ensures views(s.push(x)) == views(s).push(x@) { assert(views(s.push(x)) =~= views(s).push(x@)); }
@fn place_not::PnBlock::parse
    requires stage.0 > 0
    ensures match block_of(s@, stage) {
        Ok(b) => res matches Ok(r) && r@ == b && bwf(r@) && all_wf(r@, stage),
        Err(e) => res == Err::<PnBlock, PnBlockParseError>(e),
    }
@loop 0
    invariant stage.0 > 0, address_of_start_of_s == s.addr(), address_of_start_of_s + byte_len(s@) <= usize::MAX, is_single_block == !s@.contains(','),
        xs_0.len() == cuts(s@, ',').len() + 1,
        forall|k: int| 0 <= k < xs_0.len() ==> (#[trigger] xs_0[k]).text@ == piece(s@, ',', k) && xs_0[k].at@ == s.addr() + byte_len(s@.take(piece_lo(s@, ',', k))),
        sym_block_buf@.len() == 0, blocks(s@, k_0, stage) == Ok::<Seq<PnV>, PnBlockParseError>(views(pns@)), all_wf(views(pns@), stage)
@hint loop 0 start
    let ghost pns0 = pns@;
    proof {
        lemma_cuts(s@, ',');
        lemma_byte_len(s@, piece_lo(s@, ',', k_0 - 1));
        lemma_piece(s@, ',', k_0 - 1);
        let off = byte_len(s@.take(piece_lo(s@, ',', k_0 - 1)));
        if sub_block(piece(s@, ',', k_0 - 1), off, stage) is Err { lemma_blocks_err(s@, k_0, cuts(s@, ',').len() as int + 1, stage); }
    }
@hint before call append
    let ghost buf0 = sym_block_buf@;
@hint after call append
    proof { assert(views(pns@) =~= views(pns0) + views(buf0)); lemma_all_wf_add(views(pns0), views(buf0), stage); }
@hint before call extend_from_slice
    let ghost buf0 = sym_block_buf@;
@hint after call extend
    proof { assert(views(pns@) =~= views(pns0) + mirrored(views(buf0))); lemma_all_wf_mirror(views(buf0), stage); lemma_all_wf_add(views(pns0), mirrored(views(buf0)), stage); }
@hint loop 0 before
    proof { assert(views(pns@) =~= Seq::<PnV>::empty()); }
@fn place_not::PnBlock::parse_asym_block
    requires stage.0 > 0, old(buf)@.len() == 0, byte_offset + byte_len(block.text@) <= usize::MAX
    ensures match sub_block(block.text@, byte_offset as int, stage) {
        Ok(b) => views(final(buf)@) == b && all_wf(b, stage) && res == Ok::<bool, PnBlockParseError>(sub_is_asym(block.text@, byte_offset as int)),
        Err(e) => res == Err::<bool, PnBlockParseError>(e),
    }
@param block &SubStr
@closure 0 |p: (usize, char)| -> (r: (usize, CharMeaning)) requires p.0 + byte_offset <= usize::MAX ensures r == ((p.0 + byte_offset) as usize, char_meaning(p.1))
@closure 1 |e: ParseError| -> (r: PnBlockParseError) ensures r == PnBlockParseError::PnError(core::ops::Range { start: current_pn_start_index, end: index }, e)
@closure 2 |e: ParseError| -> (r: PnBlockParseError) requires index < usize::MAX ensures r == PnBlockParseError::PnError(core::ops::Range { start: index, end: (index + 1) as usize }, e)
@hint start
    let ghost T = toks(block.text@, byte_offset as int);
    proof { assert forall|i: int| 0 <= i <= block.text@.len() implies 0 <= #[trigger] byte_len(block.text@.take(i)) <= byte_len(block.text@) && (i < block.text@.len() ==> byte_len(block.text@.take(i)) < byte_len(block.text@)) by { lemma_byte_len(block.text@, i); } }
@loop 0
    invariant skipped(tok_indices@) == skipped(T), tok_ok(tok_indices@)
    ensures tok_indices@ == skipped(T), tok_ok(tok_indices@)
    decreases tok_indices@.len()
@hint loop 0 before
    proof { assert(tok_indices@ =~= T); assert(tok_ok(T)); }
@loop 1
    invariant stage.0 > 0, xs_1 == after_plus(skipped(T)), tok_ok(xs_1), sub_block(block.text@, byte_offset as int, stage) == (match rd(xs_1, xs_1.len() as int, stage) { Ok(st) => Ok::<Seq<PnV>, PnBlockParseError>(st.out), Err(e) => Err(e) }),
        rd(xs_1, k_1, stage) == Ok::<Rd, PnBlockParseError>(Rd { out: views(buf@), places: places@, start: current_pn_start_index }), all_wf(views(buf@), stage),
@hint loop 1 start
    let ghost b0 = buf@;
    proof {
        assert forall|x: PlaceNot| views(#[trigger] b0.push(x)) == views(b0).push(x@) by { lemma_views_push(b0, x); }
        assert forall|x: PlaceNot, y: PlaceNot| views(#[trigger] b0.push(x).push(y)) == views(b0).push(x@).push(y@) by { lemma_views_push(b0, x); lemma_views_push(b0.push(x), y); }
        lemma_sorted_places(places@);
        if rd(xs_1, k_1, stage) is Err { lemma_rd_err(xs_1, k_1, xs_1.len() as int, stage); }
    }
@hint loop 1 before
    proof { assert(views(buf@) =~= Seq::<PnV>::empty()); assert(places@ =~= Seq::<usize>::empty()); }
@hint loop 1 end
    proof {
        if places@.len() == 0 { assert(places@ =~= Seq::<usize>::empty()); }
        lemma_all_wf_push(views(b0), stage);
    }
@fn place_not::PnBlock::from_iter
    requires forall|i: int| 0 <= i < iter@.len() ==> wf((#[trigger] iter@[i])@)
    ensures vec_res(iter@, res)
@fn place_not::PnBlock::from_vec
    requires forall|i: int| 0 <= i < pns@.len() ==> wf((#[trigger] pns@[i])@)
    ensures vec_res(pns@, res)
@loop 0
    invariant pns@.len() > 0, first_stage == pns@[0]@.stage, xs_0.len() == pns@.len() - 1, pns@.len() <= usize::MAX,
        forall|i: int| 0 <= i < xs_0.len() ==> #[trigger] xs_0[i] == ((i + 1) as usize, &pns@[i + 1]),
        forall|j: int| 0 <= j <= k_0 ==> (#[trigger] views(pns@)[j]).stage == pns@[0]@.stage
@closure 0 |e: IncompatibleStages| -> (r: InvalidPnBlockError) ensures r == InvalidPnBlockError::IncompatibleStages(i, e)
@hint loop 0 start
    proof { assert(x_0 == (k_0 as usize, &pns@[k_0])); if pn.stage != first_stage { assert(first_other(views(pns@), k_0)); } }
@fn place_not::PnBlock::from_vec_unchecked
    ensures res@ == views(pns@)
@fn place_not::PnBlock::place_nots
    ensures res@ == ref_seq(self.pns@)
@ret It<&PlaceNot>
@fn place_not::PnBlock::stage
    requires bwf(self@)
    ensures res == self@[0].stage
@fn place_not::PnBlock::len
    ensures res == self@.len()
@mod place_not
/// The first change whose stage is not that of the first
pub open spec fn first_other(b: Seq<PnV>, i: int) -> bool { 0 < i < b.len() && b[i].stage != b[0].stage && forall|j: int| 0 <= j < i ==> (#[trigger] b[j]).stage == b[0].stage }
pub open spec fn vec_res(pns: Seq<PlaceNot>, res: Result<PnBlock, InvalidPnBlockError>) -> bool {
    if pns.len() == 0 { res == Err::<PnBlock, InvalidPnBlockError>(InvalidPnBlockError::EmptyBlock) }
    else if one_stage(views(pns)) { res matches Ok(b) && b@ == views(pns) && bwf(b@) }
    else { exists|i: int| #[trigger] first_other(views(pns), i) && res == Err::<PnBlock, InvalidPnBlockError>(InvalidPnBlockError::IncompatibleStages(i as usize, crate::stage::inc(pns[0]@.stage, pns[i]@.stage))) }
}
pub proof fn lemma_piece(s: Seq<char>, d: char, k: int)
    requires 0 <= k <= cuts(s, d).len()
    ensures 0 <= piece_lo(s, d, k) <= piece_hi(s, d, k) <= s.len(), byte_len(s.take(piece_lo(s, d, k))) + byte_len(piece(s, d, k)) <= byte_len(s)
{
    lemma_cuts(s, d);
    if k > 0 { assert(cuts(s, d)[k - 1] < s.len()); }
    if k < cuts(s, d).len() { assert(cuts(s, d)[k] < s.len()); if k > 0 { assert(cuts(s, d)[k - 1] < cuts(s, d)[k]); } }
    let (lo, hi) = (piece_lo(s, d, k), piece_hi(s, d, k));
    lemma_byte_len(s, hi);
    lemma_byte_len(s.take(hi), lo);
    assert(s.take(hi).take(lo) =~= s.take(lo));
    assert(s.take(hi).skip(lo) =~= s.subrange(lo, hi));
}
pub proof fn lemma_all_wf_add(a: Seq<PnV>, b: Seq<PnV>, stage: Stage)
    requires all_wf(a, stage), all_wf(b, stage)
    ensures all_wf(a + b, stage)
{ assert forall|i: int| 0 <= i < (a + b).len() implies wf(#[trigger] (a + b)[i]) && (a + b)[i].stage == stage by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_all_wf_push(a: Seq<PnV>, stage: Stage)
    requires all_wf(a, stage)
    ensures forall|x: PnV| #[trigger] all_wf(a.push(x), stage) <==> (wf(x) && x.stage == stage),
        forall|x: PnV, y: PnV| #[trigger] all_wf(a.push(x).push(y), stage) <==> (wf(x) && x.stage == stage && wf(y) && y.stage == stage)
{
    assert forall|x: PnV, y: PnV| #[trigger] all_wf(a.push(x).push(y), stage) <==> (wf(x) && x.stage == stage && wf(y) && y.stage == stage) by {
        let b = a.push(x).push(y);
        if all_wf(b, stage) { assert(wf(b[a.len() as int])); assert(wf(b[a.len() as int + 1])); }
        else if wf(x) && x.stage == stage && wf(y) && y.stage == stage { assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i]) && b[i].stage == stage by { if i < a.len() { assert(b[i] == a[i]); } } }
    }
    assert forall|x: PnV| #[trigger] all_wf(a.push(x), stage) <==> (wf(x) && x.stage == stage) by {
        let b = a.push(x);
        if all_wf(b, stage) { assert(wf(b[a.len() as int])); }
        else if wf(x) && x.stage == stage { assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i]) && b[i].stage == stage by { if i < a.len() { assert(b[i] == a[i]); } } }
    }
}
pub proof fn lemma_all_wf_mirror(b: Seq<PnV>, stage: Stage)
    requires all_wf(b, stage)
    ensures all_wf(mirrored(b), stage)
{
    if b.len() > 0 {
        let r = rev_seq(b.drop_last());
        assert forall|i: int| 0 <= i < r.len() implies wf(#[trigger] r[i]) && r[i].stage == stage by { assert(r[i] == b[b.len() - 2 - i]); }
        lemma_all_wf_add(b, r, stage);
    }
}
pub open spec fn tok_ok(t: Seq<(usize, CharMeaning)>) -> bool { forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == CharMeaning::Cross ==> t[i].0 < usize::MAX }
/// r starts with `start`, and each next row is the previous one with the next change applied
pub open spec fn expansion(r: Seq<Seq<Bell>>, start: Seq<Bell>, b: Seq<PnV>, n: int) -> bool {
    r.len() == n + 1 && r[0] == start && forall|i: int| 0 <= i < n ==> #[trigger] next_row(r, b, i)
}
pub open spec fn next_row(r: Seq<Seq<Bell>>, b: Seq<PnV>, i: int) -> bool { r[i + 1] == apply(b[i].places, r[i]) && r[i + 1] == compose(r[i], trans(b[i])) }
@fn place_not::PnBlock::to_rows
    requires bwf(self@), valid(start_row@)
    ensures start_row@.len() == self@[0].stage.0 ==> (res matches Ok(v) && v.ok() && v.stage == self@[0].stage && expansion(v@, start_row@, self@, self@.len() as int)),
        start_row@.len() != self@[0].stage.0 ==> res == Err::<SameStageVec, IncompatibleStages>(crate::stage::inc(Stage(start_row@.len() as usize), self@[0].stage))
@loop 0
    invariant bwf(self@), xs_0 == ref_seq(self.pns@), valid(current_row@), current_row@.len() == self@[0].stage.0, rows.ok(), rows.stage == self@[0].stage,
        expansion(rows@, start_row@, self@, k_0), rows@[k_0] == current_row@
@hint loop 0 start
    proof { assert(wf(self@[k_0 - 1]) && self@[k_0 - 1].stage == self@[0].stage); assert(*pn == self.pns@[k_0 - 1]); }
    let ghost vf_before = rows@;
@hint loop 0 end
    proof {
        assert(next_row(rows@, self@, k_0 - 1));
        assert forall|i: int| 0 <= i < k_0 implies #[trigger] next_row(rows@, self@, i) by { if i < k_0 - 1 { assert(next_row(vf_before, self@, i)); } }
    }
@fn place_not::PnBlock::to_block
    requires bwf(self@), valid(start_row@), call_requires(A::default, ())
    ensures start_row@.len() == self@[0].stage.0 ==> (res matches Ok(v) && v.ok() && v.rows.stage == self@[0].stage && expansion(v.rs(), start_row@, self@, self@.len() as int)
            && v.annots@.len() == self@.len() && forall|i: int| 0 <= i < v.annots@.len() ==> call_ensures(A::default, (), #[trigger] v.annots@[i])),
        start_row@.len() != self@[0].stage.0 ==> res == Err::<AnnotBlock<A>, IncompatibleStages>(crate::stage::inc(Stage(start_row@.len() as usize), self@[0].stage))
@fn place_not::PnBlock::to_block_from_rounds
    requires bwf(self@), call_requires(A::default, ())
    ensures res.ok(), res.rows.stage == self@[0].stage, expansion(res.rs(), rounds_seq(self@[0].stage.0 as int), self@, self@.len() as int),
        res.annots@.len() == self@.len(), forall|i: int| 0 <= i < res.annots@.len() ==> call_ensures(A::default, (), #[trigger] res.annots@[i])
@hint start
    proof { assert(wf(self@[0])); }
