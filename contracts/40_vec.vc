@-- SameStageVec and the helper functions
@mod utils
use crate::vf::VfRange;
@fn utils::clamp_range
    requires range_lo(range) <= usize::MAX, range_hi(range, length as int) <= usize::MAX
    ensures res.start == range_lo(range), res.end == range_hi(range, length as int)
@fn utils::run_len
    requires iter@.len() <= usize::MAX, forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).index <= isize::MAX
    ensures iter@.len() > 0 ==> is_run_len(iter@, res as int)
@closure 0 |b: Bell| -> (r: usize) ensures r == b.index
@closure 1 |p: &(usize, usize)| -> (r: bool) requires p.0 <= isize::MAX, p.1 <= isize::MAX ensures r == (p.0 - p.1 == 1 || p.1 - p.0 == 1)
@hint end
    proof {
        if iter@.len() > 0 {
            assert(crate::vf::ix(res - 1) && crate::vf::ix(res as int));
            assert forall|i: int| 0 <= i < res - 1 implies #[trigger] adjacent(iter@, i) by { assert(crate::vf::ix(i) && crate::vf::ix(i + 1)); }
        }
    }
@mod utils
/// Neighbours i and i+1 differ by exactly one
pub open spec fn adjacent(s: Seq<Bell>, i: int) -> bool { s[i].index - s[i + 1].index == 1 || s[i + 1].index - s[i].index == 1 }
/// k is the length of the longest prefix in which neighbours differ by exactly one
pub open spec fn is_run_len(s: Seq<Bell>, k: int) -> bool { 1 <= k <= s.len() && (forall|i: int| 0 <= i < k - 1 ==> #[trigger] adjacent(s, i)) && (k < s.len() ==> !adjacent(s, k - 1)) }
@fn utils::split_vec
    ensures index > vec@.len() ==> res is None,
        index <= vec@.len() ==> (res matches Some(p) && p.0@ == vec@.take(index as int) && p.1@ == vec@.skip(index as int))
@mod row::same_stage_vec
use crate::sp::*;
use crate::vf::VfRange;
use crate::bell::bells_in;
use crate::row::owned::vec_spec;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits, crate::sp::axiom_row_ref};
/// The rows of n bells which are stored one after the other in `b`
pub open spec fn rows_of(b: Seq<Bell>, n: int) -> Seq<Seq<Bell>> { Seq::new((b.len() as int / n) as nat, |i: int| b.subrange(i * n, i * n + n)) }
pub open spec fn whole(b: Seq<Bell>, n: int) -> bool { n > 0 && b.len() as int % n == 0 }
pub open spec fn rows_valid(r: Seq<Seq<Bell>>, n: int) -> bool { forall|i: int| 0 <= i < r.len() ==> valid(#[trigger] r[i]) && r[i].len() == n }
pub open spec fn vec_ok(b: Seq<Bell>, n: int) -> bool { whole(b, n) && rows_valid(rows_of(b, n), n) }
/// Every row multiplied on the left by `t`
pub open spec fn trans_rows(t: Seq<Bell>, r: Seq<Seq<Bell>>) -> Seq<Seq<Bell>> { Seq::new(r.len(), |i: int| compose(t, r[i])) }
impl View for SameStageVec { type V = Seq<Seq<Bell>>; open spec fn view(&self) -> Seq<Seq<Bell>> { rows_of(self.bells@, self.stage.0 as int) } }
impl<'v> View for Iter<'v> { type V = Seq<Seq<Bell>>; open spec fn view(&self) -> Seq<Seq<Bell>> { rows_of(self.bells_left@, self.stage.0 as int) } }
impl SameStageVec {
    /// Every stage-aligned segment is a valid row
    pub open spec fn ok(&self) -> bool { vec_ok(self.bells@, self.stage.0 as int) }
    pub fn vf_to_owned(&self) -> (r: Self) ensures r@ == self@, r.stage == self.stage, r.bells@ == self.bells@ {
        let r = self.clone();
        r
    }
}
impl Clone for SameStageVec { #[verifier::external_body] fn clone(&self) -> (r: SameStageVec) ensures r@ == self@, r.stage == self.stage, r.bells@ == self.bells@ { unimplemented!() } }
impl<'v> Iter<'v> { pub open spec fn ok(&self) -> bool { vec_ok(self.bells_left@, self.stage.0 as int) } }
pub open spec fn row_refs<'v>(r: Seq<Seq<Bell>>) -> Seq<&'v Row> { Seq::new(r.len(), |i: int| row_ref(r[i])) }
// What the standard adapters yield when they are given this iterator: the rows that repeated calls of `next` return
impl<'v> crate::vf::IntoIt<&'v Row> for Iter<'v> {
    open spec fn it_seq(&self) -> Seq<&'v Row> { row_refs(self@) }
    #[verifier::external_body] fn vf_it(self) -> (r: It<&'v Row>) { unimplemented!() }
}
impl<'v> crate::vf::IntoIt<&'v Row> for &'v SameStageVec {
    open spec fn it_seq(&self) -> Seq<&'v Row> { row_refs((**self)@) }
    #[verifier::external_body] fn vf_it(self) -> (r: It<&'v Row>) { unimplemented!() }
}
impl<'v> Iter<'v> {
    pub fn map<U, F: FnMut(&'v Row) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (row_refs(self@)[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger crate::vf::ix(i)] 0 <= i < self@.len() ==> call_ensures(f, (row_refs(self@)[i],), r@[i])
    { crate::vf::IntoIt::vf_it(self).map(f) }
    pub fn zip_eq<U, I: crate::vf::IntoIt<U>>(self, o: I) -> (r: It<(&'v Row, U)>)
        requires self@.len() == o.it_seq().len()
        ensures r@ == Seq::new(self@.len(), |i: int| (row_refs::<'v>(self@)[i], o.it_seq()[i]))
    { crate::vf::IntoIt::vf_it(self).zip_eq(o) }
    pub fn enumerate(self) -> (r: It<(usize, &'v Row)>) ensures r@ == enum_seq(row_refs::<'v>(self@)), self@.len() <= usize::MAX
    { crate::vf::IntoIt::vf_it(self).enumerate() }
    pub fn skip(self, n: usize) -> (r: It<&'v Row>) ensures r@ == row_refs::<'v>(self@).skip(if n < self@.len() { n as int } else { self@.len() as int })
    { crate::vf::IntoIt::vf_it(self).skip(n) }
    pub fn take(self, n: usize) -> (r: It<&'v Row>) ensures r@ == row_refs::<'v>(self@).take(if n < self@.len() { n as int } else { self@.len() as int })
    { crate::vf::IntoIt::vf_it(self).take(n) }
    pub fn rev(self) -> (r: It<&'v Row>) ensures r@ == rev_seq(row_refs::<'v>(self@))
    { crate::vf::IntoIt::vf_it(self).rev() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Iter<'v>) ensures r == *self { unimplemented!() }
}
pub proof fn lemma_div(x: int, n: int)
    requires n > 0, x % n == 0, x >= 0
    ensures x == (x / n) * n, x / n >= 0
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n); vstd::arithmetic::mul::lemma_mul_is_commutative(n, x / n); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, n); }
pub proof fn lemma_row_range(x: int, n: int, i: int)
    requires n > 0, x >= 0, 0 <= i < x / n
    ensures 0 <= i * n, i * n + n <= x
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    assert(i * n + n <= (x / n) * n) by (nonlinear_arith) requires 0 <= i < x / n, n > 0;
    assert(0 <= i * n) by (nonlinear_arith) requires 0 <= i, n > 0;
    vstd::arithmetic::mul::lemma_mul_is_commutative(n, x / n);
}
pub proof fn lemma_not_row(x: int, n: int, i: int)
    requires n > 0, x >= 0, x % n == 0, i >= x / n
    ensures i * n >= x
{ lemma_div(x, n); assert(i * n >= (x / n) * n) by (nonlinear_arith) requires i >= x / n, n > 0; }
pub proof fn lemma_mult(k: int, n: int)
    requires n > 0, k >= 0
    ensures (k * n) % n == 0, (k * n) / n == k, k * n >= 0
{ vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, n); vstd::arithmetic::div_mod::lemma_div_by_multiple(k, n); assert(k * n >= 0) by (nonlinear_arith) requires k >= 0, n > 0; }
pub proof fn lemma_rows_empty(n: int) requires n > 0 ensures rows_of(Seq::empty(), n) == Seq::<Seq<Bell>>::empty(), vec_ok(Seq::empty(), n)
{ vstd::arithmetic::div_mod::lemma_div_basics(n); assert(rows_of(Seq::empty(), n) =~= Seq::<Seq<Bell>>::empty()); }
pub proof fn lemma_rows_one(b: Seq<Bell>)
    requires b.len() > 0
    ensures rows_of(b, b.len() as int) == seq![b], whole(b, b.len() as int), valid(b) ==> vec_ok(b, b.len() as int)
{
    let n = b.len() as int;
    vstd::arithmetic::div_mod::lemma_div_basics(n);
    assert(rows_of(b, n)[0] =~= b);
    assert(rows_of(b, n) =~= seq![b]);
}
pub proof fn lemma_rows_add(a: Seq<Bell>, b: Seq<Bell>, n: int)
    requires whole(a, n), whole(b, n)
    ensures whole(a + b, n), rows_of(a + b, n) == rows_of(a, n) + rows_of(b, n), vec_ok(a, n) && vec_ok(b, n) ==> vec_ok(a + b, n)
{
    let (ka, kb) = (a.len() as int / n, b.len() as int / n);
    lemma_div(a.len() as int, n); lemma_div(b.len() as int, n);
    assert((a + b).len() == (ka + kb) * n) by { vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(n, ka, kb); }
    lemma_mult(ka + kb, n);
    assert forall|i: int| 0 <= i < ka + kb implies rows_of(a + b, n)[i] == (rows_of(a, n) + rows_of(b, n))[i] by {
        lemma_row_range((a + b).len() as int, n, i);
        if i < ka { lemma_row_range(a.len() as int, n, i); assert(rows_of(a + b, n)[i] =~= rows_of(a, n)[i]); }
        else {
            lemma_row_range(b.len() as int, n, i - ka);
            assert(i * n == ka * n + (i - ka) * n) by { vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(n, ka, i - ka); }
            assert(rows_of(a + b, n)[i] =~= rows_of(b, n)[i - ka]);
        }
    }
    assert(rows_of(a + b, n) =~= rows_of(a, n) + rows_of(b, n));
}
pub proof fn lemma_rows_push(a: Seq<Bell>, r: Seq<Bell>, n: int)
    requires whole(a, n), r.len() == n
    ensures whole(a + r, n), rows_of(a + r, n) == rows_of(a, n).push(r), vec_ok(a, n) && valid(r) ==> vec_ok(a + r, n)
{ lemma_rows_one(r); lemma_rows_add(a, r, n); assert(rows_of(a + r, n) =~= rows_of(a, n).push(r)); }
pub proof fn lemma_rows_sub(a: Seq<Bell>, n: int, lo: int, hi: int)
    requires whole(a, n), 0 <= lo <= hi <= a.len() as int / n
    ensures 0 <= lo * n <= hi * n <= a.len(), whole(a.subrange(lo * n, hi * n), n), rows_of(a.subrange(lo * n, hi * n), n) == rows_of(a, n).subrange(lo, hi), vec_ok(a, n) ==> vec_ok(a.subrange(lo * n, hi * n), n)
{
    lemma_div(a.len() as int, n);
    assert(0 <= lo * n <= hi * n <= (a.len() as int / n) * n) by (nonlinear_arith) requires 0 <= lo <= hi <= a.len() as int / n, n > 0;
    let s = a.subrange(lo * n, hi * n);
    assert(s.len() == (hi - lo) * n) by { vstd::arithmetic::mul::lemma_mul_is_distributive_sub_other_way(n, hi, lo); }
    lemma_mult(hi - lo, n);
    assert forall|i: int| 0 <= i < hi - lo implies rows_of(s, n)[i] == rows_of(a, n).subrange(lo, hi)[i] by {
        lemma_row_range(s.len() as int, n, i);
        lemma_row_range(a.len() as int, n, i + lo);
        assert((i + lo) * n == i * n + lo * n) by { vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(n, i, lo); }
        assert(rows_of(s, n)[i] =~= rows_of(a, n)[i + lo]);
    }
    assert(rows_of(s, n) =~= rows_of(a, n).subrange(lo, hi));
}
pub proof fn lemma_rows_split(a: Seq<Bell>, n: int, k: int)
    requires whole(a, n), 0 <= k <= a.len() as int / n
    ensures 0 <= k * n <= a.len(),
        whole(a.take(k * n), n), rows_of(a.take(k * n), n) == rows_of(a, n).take(k), vec_ok(a, n) ==> vec_ok(a.take(k * n), n),
        whole(a.skip(k * n), n), rows_of(a.skip(k * n), n) == rows_of(a, n).skip(k), vec_ok(a, n) ==> vec_ok(a.skip(k * n), n),
{
    let m = a.len() as int / n;
    lemma_div(a.len() as int, n);
    lemma_rows_sub(a, n, 0, k);
    lemma_rows_sub(a, n, k, m);
    assert(0 * n == 0);
    assert(a.subrange(0 * n, k * n) =~= a.take(k * n));
    assert(a.subrange(k * n, m * n) =~= a.skip(k * n));
    assert(rows_of(a, n).subrange(0, k) =~= rows_of(a, n).take(k));
    assert(rows_of(a, n).subrange(k, m) =~= rows_of(a, n).skip(k));
}
/// Where the k-th bell is
pub proof fn lemma_bell(a: Seq<Bell>, n: int, k: int)
    requires vec_ok(a, n), 0 <= k < a.len()
    ensures a[k].index < n
{
    lemma_div(a.len() as int, n);
    let (i, j) = (k / n, k % n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, n);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, n);
    assert(n * (k / n) == i * n) by { vstd::arithmetic::mul::lemma_mul_is_commutative(n, i); }
    if i >= a.len() as int / n { lemma_not_row(a.len() as int, n, i); }
    lemma_row_range(a.len() as int, n, i);
    assert(valid(rows_of(a, n)[i]));
    assert(rows_of(a, n)[i][j] == a[k]);
}
pub proof fn lemma_bells(a: Seq<Bell>, n: int)
    requires vec_ok(a, n)
    ensures forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).index < n
{ assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).index < n by { lemma_bell(a, n, k); } }
pub proof fn lemma_rows_trans(t: Seq<Bell>, a: Seq<Bell>, n: int)
    requires vec_ok(a, n), valid(t), t.len() == n
    ensures rows_of(compose(t, a), n) == trans_rows(t, rows_of(a, n)), vec_ok(compose(t, a), n)
{
    let c = compose(t, a);
    lemma_bells(a, n);
    assert forall|i: int| 0 <= i < rows_of(a, n).len() implies rows_of(c, n)[i] == trans_rows(t, rows_of(a, n))[i] && valid(rows_of(c, n)[i]) && rows_of(c, n)[i].len() == n by {
        lemma_row_range(a.len() as int, n, i);
        assert(rows_of(c, n)[i] =~= compose(t, rows_of(a, n)[i]));
        lemma_compose_valid(t, rows_of(a, n)[i]);
    }
    assert(rows_of(c, n) =~= trans_rows(t, rows_of(a, n)));
}
/// The lines that are parsed: an empty text is one empty line
pub open spec fn row_lines(s: Seq<char>) -> Seq<Seq<char>> { if lines_of(s).len() == 0 { seq![Seq::empty()] } else { lines_of(s) } }
pub open spec fn line_ok(ls: Seq<Seq<char>>, i: int) -> bool { no_bad_row(bells_in(ls[i])) && bells_in(ls[i]).len() == bells_in(ls[0]).len() }
pub open spec fn no_bad_row(s: Seq<Bell>) -> bool { s.len() > 0 && crate::row::owned::no_bad(s, s.len() as int) }
pub open spec fn line_err(ls: Seq<Seq<char>>, k: int, e: ParseError) -> bool {
    if no_bad_row(bells_in(ls[k])) {
        e == ParseError::IncompatibleStages { line_num: (k + 1) as usize, first_stage: Stage(bells_in(ls[0]).len() as usize), different_stage: Stage(bells_in(ls[k]).len() as usize) }
    } else {
        e matches ParseError::InvalidRow { line_num, err } && line_num == k + 1 && vec_spec(bells_in(ls[k]), Err::<RowBuf, InvalidRowError>(err))
    }
}
pub open spec fn first_bad_line(ls: Seq<Seq<char>>, k: int) -> bool { 0 <= k < ls.len() && !line_ok(ls, k) && forall|j: int| 0 <= j < k ==> #[trigger] line_ok(ls, j) }
pub open spec fn lines_spec(ls: Seq<Seq<char>>, res: Result<SameStageVec, ParseError>) -> bool {
    match res {
        Ok(v) => v.ok() && v@.len() == ls.len() && (forall|i: int| 0 <= i < ls.len() ==> #[trigger] line_ok(ls, i)) && forall|i: int| 0 <= i < ls.len() ==> #[trigger] v@[i] == bells_in(ls[i]),
        Err(e) => exists|k: int| #[trigger] first_bad_line(ls, k) && line_err(ls, k, e),
    }
}
@fn row::same_stage_vec::SameStageVec::new
    requires stage.0 > 0
    ensures res.ok(), res.stage == stage, res@ == Seq::<Seq<Bell>>::empty()
@hint start
    proof { lemma_rows_empty(stage.0 as int); }
@fn row::same_stage_vec::SameStageVec::with_capacity
    requires stage.0 > 0, capacity * stage.0 <= usize::MAX
    ensures res.ok(), res.stage == stage, res@ == Seq::<Seq<Bell>>::empty()
@hint start
    proof { lemma_rows_empty(stage.0 as int); }
@fn row::same_stage_vec::SameStageVec::from_row_buf
    requires valid(row@)
    ensures res.ok(), res.stage.0 == row@.len(), res@ == seq![row@]
@hint start
    proof { lemma_rows_one(row@); }
@fn row::same_stage_vec::SameStageVec::parse
    ensures lines_spec(row_lines(s@), res)
@hint start
    proof { reveal_strlit(""); lemma_vec_spec_valid(); }
@closure 0 |p: (usize, &str)| -> (r: (usize, &str)) requires p.0 < usize::MAX ensures r.0 == p.0 + 1, r.1 == p.1
@closure 1 |err: InvalidRowError| -> (e: ParseError) ensures e == (ParseError::InvalidRow { line_num: 1, err })
@closure 2 |err: InvalidRowError| -> (e: ParseError) ensures e == (ParseError::InvalidRow { line_num, err })
@closure 3 |p: IncompatibleStages| -> (e: ParseError) ensures e == (ParseError::IncompatibleStages { line_num, first_stage: p.lhs_stage, different_stage: p.rhs_stage })
@loop 0
    invariant new_vec.ok(), new_vec@.len() == k_0 + 1, xs_0.len() + 1 == row_lines(s@).len(), new_vec.stage.0 == bells_in(row_lines(s@)[0]).len(),
        forall|i: int| 0 <= i < xs_0.len() ==> (#[trigger] xs_0[i]).0 == i + 2 && xs_0[i].1@ == row_lines(s@)[i + 1],
        forall|i: int| 0 <= i < k_0 + 1 ==> #[trigger] line_ok(row_lines(s@), i),
        forall|i: int| 0 <= i < k_0 + 1 ==> #[trigger] new_vec@[i] == bells_in(row_lines(s@)[i]),
        forall|b: Seq<Bell>, e: InvalidRowError| #[trigger] vec_spec(b, Err(e)) ==> !no_bad_row(b),
        forall|b: Seq<Bell>, r: RowBuf| #[trigger] vec_spec(b, Ok(r)) ==> no_bad_row(b) && r@ == b && valid(b),
@hint loop 0 start
    proof { assert(xs_0[k_0 - 1].1@ == row_lines(s@)[k_0]); if !line_ok(row_lines(s@), k_0) { assert(first_bad_line(row_lines(s@), k_0)); } }
@hint before let first_row
    proof { assert(first_line@ == row_lines(s@)[0]); if !line_ok(row_lines(s@), 0) { assert(first_bad_line(row_lines(s@), 0)); } }
@fn row::same_stage_vec::SameStageVec::from_bell_vec_unchecked
    requires vec_ok(bells@, stage.0 as int)
    ensures res.ok(), res.stage == stage, res.bells@ == bells@, res@ == rows_of(bells@, stage.0 as int)
@fn row::same_stage_vec::SameStageVec::stage
    ensures res == self.stage
@fn row::same_stage_vec::SameStageVec::len
    requires self.ok()
    ensures res == self@.len()
@fn row::same_stage_vec::SameStageVec::is_empty
    requires self.ok()
    ensures res == (self@.len() == 0)
@hint start
    proof { lemma_last(self.bells@, self.stage.0 as int); }
@fn row::same_stage_vec::SameStageVec::get
    requires self.ok()
    ensures match res { Some(r) => index < self@.len() && r@ == self@[index as int] && valid(r@), None => index >= self@.len() }
@hint start
    proof { lemma_vec_fits(&self.bells); lemma_get(self.bells@, self.stage.0 as int, index as int); }
@fn row::same_stage_vec::SameStageVec::get_mut
    requires old(self).ok()
    ensures res is Some <==> index < old(self)@.len(),
        res matches Some(r) ==> r@ == old(self)@[index as int] && valid(r@),
        res matches Some(r) ==> final(r)@.len() == r@.len() ==> final(self).stage == old(self).stage,
        res matches Some(r) ==> final(r)@.len() == r@.len() ==> final(self).bells@ == old(self).bells@.update_subrange_with((index as int) * old(self).stage.0, final(r)@),
        res matches Some(r) ==> valid(final(r)@) && final(r)@.len() == r@.len() ==> final(self).ok(),
        res matches Some(r) ==> valid(final(r)@) && final(r)@.len() == r@.len() ==> final(self)@ == old(self)@.update(index as int, final(r)@),
        res is None ==> final(self)@ == old(self)@ && final(self).ok() && final(self).stage == old(self).stage
@hint start
    proof { lemma_vec_fits(&self.bells); lemma_get(self.bells@, self.stage.0 as int, index as int); lemma_get_mut(self.bells@, self.stage.0 as int, index as int, index as int * self.stage.0 as int); }
@fn row::same_stage_vec::SameStageVec::first
    requires self.ok()
    ensures match res { Some(r) => self@.len() > 0 && r@ == self@[0] && valid(r@), None => self@.len() == 0 }
@fn row::same_stage_vec::SameStageVec::first_mut
    requires old(self).ok()
    ensures res is Some <==> 0 < old(self)@.len(),
        res matches Some(r) ==> r@ == old(self)@[0] && valid(r@),
        res matches Some(r) ==> final(r)@.len() == r@.len() ==> final(self).stage == old(self).stage,
        res matches Some(r) ==> final(r)@.len() == r@.len() ==> final(self).bells@ == old(self).bells@.update_subrange_with((0) * old(self).stage.0, final(r)@),
        res matches Some(r) ==> valid(final(r)@) && final(r)@.len() == r@.len() ==> final(self).ok(),
        res matches Some(r) ==> valid(final(r)@) && final(r)@.len() == r@.len() ==> final(self)@ == old(self)@.update(0, final(r)@),
        res is None ==> final(self)@ == old(self)@ && final(self).ok() && final(self).stage == old(self).stage
@fn row::same_stage_vec::SameStageVec::last
    requires self.ok()
    ensures match res { Some(r) => self@.len() > 0 && r@ == self@.last() && valid(r@), None => self@.len() == 0 }
@fn row::same_stage_vec::SameStageVec::last_mut
    requires old(self).ok()
    ensures res is Some <==> 0 < old(self)@.len(),
        res matches Some(r) ==> r@ == old(self)@[old(self)@.len() - 1] && valid(r@),
        res matches Some(r) ==> final(r)@.len() == r@.len() ==> final(self).stage == old(self).stage,
        res matches Some(r) ==> final(r)@.len() == r@.len() ==> final(self).bells@ == old(self).bells@.update_subrange_with((old(self)@.len() - 1) * old(self).stage.0, final(r)@),
        res matches Some(r) ==> valid(final(r)@) && final(r)@.len() == r@.len() ==> final(self).ok(),
        res matches Some(r) ==> valid(final(r)@) && final(r)@.len() == r@.len() ==> final(self)@ == old(self)@.update(old(self)@.len() - 1, final(r)@),
        res is None ==> final(self)@ == old(self)@ && final(self).ok() && final(self).stage == old(self).stage
@fn row::same_stage_vec::SameStageVec::iter
    requires self.ok()
    ensures res.ok(), res@ == self@, res.stage == self.stage
@fn row::same_stage_vec::SameStageVec::path_of
    requires self.ok()
    ensures match res {
        None => bell.index >= self.stage.0,
        Some(p) => bell.index < self.stage.0 && p@.len() == self@.len() && forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]) < self.stage.0 && self@[i][p@[i] as int] == bell }
@closure 0 || -> (r: Vec<usize>) requires bell.index < self.stage.0 ensures r@.len() == self@.len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) < self.stage.0 && self@[i][r@[i] as int] == bell
@closure 1 |r: &Row| -> (p: usize) requires valid(r@), bell.index < r@.len() ensures p < r@.len(), r@[p as int] == bell
@hint start
    proof { lemma_rows_fit(self); }
@fn row::same_stage_vec::SameStageVec::push
    requires old(self).ok(), valid(row@)
    ensures row@.len() == old(self).stage.0 ==> res is Ok && final(self)@ == old(self)@.push(row@),
        row@.len() != old(self).stage.0 ==> final(self)@ == old(self)@ && res == Err::<(), IncompatibleStages>(crate::stage::inc(old(self).stage, Stage(row@.len() as usize))),
        final(self).ok(), final(self).stage == old(self).stage
@hint start
    proof { if row@.len() == self.stage.0 { lemma_rows_push(self.bells@, row@, self.stage.0 as int); } }
@fn row::same_stage_vec::SameStageVec::pop
    requires old(self).ok()
    ensures final(self).ok(), final(self).stage == old(self).stage, match res {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(r) => old(self)@.len() > 0 && r@ == old(self)@.last() && valid(r@) && final(self)@ == old(self)@.drop_last() }
@hint start
    proof { lemma_last(self.bells@, self.stage.0 as int); }
@fn row::same_stage_vec::SameStageVec::extend
    requires old(self).ok(), forall|i: int| 0 <= i < row_iter@.len() ==> valid(#[trigger] row_iter@[i]@)
    ensures final(self).ok(), final(self).stage == old(self).stage, match res {
        Ok(_) => (forall|i: int| 0 <= i < row_iter@.len() ==> !#[trigger] odd_row(row_iter@, i, old(self).stage.0 as int)) && final(self)@ == old(self)@ + row_views(row_iter@),
        Err(e) => final(self)@ == old(self)@ && exists|i: int| #[trigger] first_odd(row_iter@, i, old(self).stage.0 as int) && e == crate::stage::inc(old(self).stage, Stage(row_iter@[i]@.len() as usize)) }
@generics <'a>
@param row_iter It<&'a Row>
@loop 0
    invariant old(self).ok(), self.ok(), self.stage == old(self).stage, self.bells@.take(old(self).bells@.len() as int) == old(self).bells@, num_bells_before_extend == old(self).bells@.len(), num_bells_before_extend <= self.bells@.len(), xs_0 == row_iter@,
        forall|i: int| 0 <= i < xs_0.len() ==> valid(#[trigger] xs_0[i]@),
        forall|i: int| 0 <= i < k_0 ==> !#[trigger] odd_row(xs_0, i, old(self).stage.0 as int),
        self@ == old(self)@ + row_views(xs_0.take(k_0))
@hint start
    proof { assert(self.bells@.take(self.bells@.len() as int) =~= self.bells@); assert(row_iter@.take(0) =~= Seq::empty()); assert(self@ + row_views(row_iter@.take(0)) =~= self@); }
@hint loop 0 start
    proof {
        assert(valid(xs_0[k_0 - 1]@));
        if odd_row(xs_0, k_0 - 1, self.stage.0 as int) { assert(first_odd(xs_0, k_0 - 1, self.stage.0 as int)); }
        else {
            lemma_rows_push(self.bells@, x_0@, self.stage.0 as int);
            assert(row_views(xs_0.take(k_0)) =~= row_views(xs_0.take(k_0 - 1)).push(x_0@));
            assert(old(self)@ + row_views(xs_0.take(k_0)) =~= (old(self)@ + row_views(xs_0.take(k_0 - 1))).push(x_0@));
        }
    }
    let ghost vf_prev = self.bells@;
@hint loop 0 end
    proof { assert(self.bells@.take(old(self).bells@.len() as int) =~= vf_prev.take(old(self).bells@.len() as int)); }
@hint before return 0
    proof { assert(self.bells@ =~= old(self).bells@); }
@hint end
    proof { assert(row_iter@.take(row_iter@.len() as int) =~= row_iter@); }
@mod row::same_stage_vec
pub open spec fn odd_row(r: Seq<&Row>, i: int, n: int) -> bool { r[i]@.len() != n }
pub open spec fn first_odd(r: Seq<&Row>, i: int, n: int) -> bool { 0 <= i < r.len() && odd_row(r, i, n) && forall|j: int| 0 <= j < i ==> !#[trigger] odd_row(r, j, n) }
pub open spec fn row_views(r: Seq<&Row>) -> Seq<Seq<Bell>> { Seq::new(r.len(), |i: int| r[i]@) }
@fn row::same_stage_vec::SameStageVec::extend_from_buf
    requires old(self).ok(), other.ok()
    ensures final(self).ok(), final(self).stage == old(self).stage,
        old(self).stage == other.stage ==> res is Ok && final(self)@ == old(self)@ + other@,
        old(self).stage != other.stage ==> final(self)@ == old(self)@ && res == Err::<(), IncompatibleStages>(crate::stage::inc(old(self).stage, other.stage))
@hint start
    proof { if self.stage == other.stage { lemma_rows_add(self.bells@, other.bells@, self.stage.0 as int); } assert(deref_seq(ref_seq(other.bells@)) =~= other.bells@); }
@fn row::same_stage_vec::SameStageVec::extend_transposed
    requires old(self).ok(), other.ok(), valid(transposition@)
    ensures final(self).ok(), final(self).stage == old(self).stage,
        ext_trans(old(self).stage, old(self)@, transposition@, other.stage, other@, res, final(self)@)
@hint start
    proof { assert(other@.subrange(0, other@.len() as int) =~= other@); }
@fn row::same_stage_vec::SameStageVec::extend_range_transposed
    requires old(self).ok(), other.ok(), valid(transposition@), 0 <= range_lo(range) <= range_hi(range, other@.len() as int) <= other@.len()
    ensures final(self).ok(), final(self).stage == old(self).stage,
        ext_trans(old(self).stage, old(self)@, transposition@, other.stage, other@.subrange(range_lo(range), range_hi(range, other@.len() as int)), res, final(self)@)
@hint start
    proof {
        lemma_vec_fits(&self.bells);
        let n = self.stage.0 as int;
        let (lo, hi) = (range_lo(range), range_hi(range, other@.len() as int));
        if transposition@.len() == n && other.stage.0 == n {
            lemma_ext_trans(self.bells@, n, transposition@, other.bells@, lo, hi);
            let c = other.bells@.subrange(lo * n, hi * n);
            assert forall|s: Seq<Bell>| s.len() == c.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == transposition@[c[i].index as int]) implies #[trigger] (self.bells@ + s) == self.bells@ + compose(transposition@, c) by { assert(s =~= compose(transposition@, c)); }
        }
    }
@closure 0 |b: &Bell| -> (r: Bell) requires b.index < transposition@.len() ensures r == transposition@[b.index as int]
@fn row::same_stage_vec::SameStageVec::extend_transposed_from_within
    requires old(self).ok(), valid(transposition@), 0 <= range_lo(range) <= range_hi(range, old(self)@.len() as int) <= old(self)@.len()
    ensures final(self).ok(), final(self).stage == old(self).stage,
        ext_trans(old(self).stage, old(self)@, transposition@, old(self).stage, old(self)@.subrange(range_lo(range), range_hi(range, old(self)@.len() as int)), res, final(self)@)
@hint start
    proof {
        lemma_vec_fits(&self.bells);
        if transposition@.len() == self.stage.0 { lemma_ext_trans(self.bells@, self.stage.0 as int, transposition@, self.bells@, range_lo(range), range_hi(range, self@.len() as int)); }
    }
@loop 0
    invariant old(self).ok(), self.stage == old(self).stage, transposition@.len() == self.stage.0, forall|k: int| 0 <= k < old(self).bells@.len() ==> (#[trigger] old(self).bells@[k]).index < self.stage.0,
        xs_0 == range_seq(range_lo(range) * self.stage.0, range_hi(range, old(self)@.len() as int) * self.stage.0),
        0 <= range_lo(range) * self.stage.0 <= range_hi(range, old(self)@.len() as int) * self.stage.0 <= old(self).bells@.len() <= usize::MAX,
        self.bells@ == old(self).bells@ + compose(transposition@, old(self).bells@.subrange(range_lo(range) * self.stage.0, range_lo(range) * self.stage.0 + k_0))
@hint loop 0 end
    proof { assert(self.bells@ =~= old(self).bells@ + compose(transposition@, old(self).bells@.subrange(range_lo(range) * self.stage.0, range_lo(range) * self.stage.0 + k_0))); }
@fn row::same_stage_vec::SameStageVec::permute
    requires old(self).ok(), valid(lhs_row@)
    ensures final(self).ok(), final(self).stage == old(self).stage,
        lhs_row@.len() == old(self).stage.0 ==> res is Ok && final(self)@ == trans_rows(lhs_row@, old(self)@),
        lhs_row@.len() != old(self).stage.0 ==> final(self)@ == old(self)@ && res == Err::<(), IncompatibleStages>(crate::stage::inc(Stage(lhs_row@.len() as usize), old(self).stage))
@fn row::same_stage_vec::SameStageVec::pre_multiply
    requires old(self).ok(), valid(lhs_row@)
    ensures final(self).ok(), final(self).stage == old(self).stage,
        lhs_row@.len() == old(self).stage.0 ==> res is Ok && final(self)@ == trans_rows(lhs_row@, old(self)@),
        lhs_row@.len() != old(self).stage.0 ==> final(self)@ == old(self)@ && res == Err::<(), IncompatibleStages>(crate::stage::inc(Stage(lhs_row@.len() as usize), old(self).stage))
@hint start
    proof { lemma_bells(self.bells@, self.stage.0 as int); if lhs_row@.len() == self.stage.0 { lemma_rows_trans(lhs_row@, self.bells@, self.stage.0 as int); } }
@loop 0
    invariant self.stage == old(self).stage, lhs_row@.len() == self.stage.0, self.bells@.len() == old(self).bells@.len(),
        forall|k: int| 0 <= k < old(self).bells@.len() ==> (#[trigger] old(self).bells@[k]).index < self.stage.0,
        forall|j: int| i_0 <= j < self.bells@.len() ==> #[trigger] self.bells@[j] == old(self).bells@[j],
        forall|j: int| 0 <= j < i_0 ==> #[trigger] self.bells@[j] == lhs_row@[old(self).bells@[j].index as int]
@hint end
    proof { assert(self.bells@ =~= compose(lhs_row@, old(self).bells@)); }
@fn row::same_stage_vec::SameStageVec::pre_multiplied
    requires self.ok(), valid(lhs_row@)
    ensures lhs_row@.len() == self.stage.0 ==> (res matches Ok(v) && v.ok() && v.stage == self.stage && v@ == trans_rows(lhs_row@, self@)),
        lhs_row@.len() != self.stage.0 ==> (res matches Err(e) && e == crate::stage::inc(self.stage, Stage(lhs_row@.len() as usize)))
@hint start
    proof { lemma_trans_empty(); }
@fn row::same_stage_vec::SameStageVec::split
    requires self.ok()
    ensures match res {
        None => index > self@.len(),
        Some(p) => index <= self@.len() && p.0.ok() && p.1.ok() && p.0.stage == self.stage && p.1.stage == self.stage && p.0@ == self@.take(index as int) && p.1@ == self@.skip(index as int) }
@hint start
    proof { lemma_vec_fits(&self.bells); let n = self.stage.0 as int; if index <= self@.len() { lemma_rows_split(self.bells@, n, index as int); } else { lemma_not_row(self.bells@.len() as int, n, index - 1); assert((index - 1) * n + n == index * n) by (nonlinear_arith); } }
@fn row::same_stage_vec::SameStageVec::to_bell_range
    requires self.ok(), 0 <= range_lo(range) <= range_hi(range, self@.len() as int) <= self@.len()
    ensures res.start == range_lo(range) * self.stage.0, res.end == range_hi(range, self@.len() as int) * self.stage.0,
        0 <= res.start <= res.end <= self.bells@.len()
@hint start
    proof { lemma_vec_fits(&self.bells); lemma_div(self.bells@.len() as int, self.stage.0 as int); lemma_rows_sub(self.bells@, self.stage.0 as int, range_lo(range), range_hi(range, self@.len() as int)); }
@fn row::same_stage_vec::SameStageVec::get_range_of_row
    requires self.stage.0 > 0
    ensures match res { Some(r) => r.start == index * self.stage.0 && r.end == index * self.stage.0 + self.stage.0, None => index * self.stage.0 + self.stage.0 > usize::MAX }
@fn row::same_stage_vec::<SameStageVec as Index<usize>>::index
    ensures res@ == self@[index as int], valid(res@)
@hint start
    proof { lemma_vec_fits(&self.bells); lemma_get(self.bells@, self.stage.0 as int, index as int); }
@mod row::same_stage_vec
impl vstd::std_specs::core::IndexSpecImpl<usize> for SameStageVec {
    open spec fn index_req(&self, i: &usize) -> bool { self.ok() && *i < self@.len() }
}
pub open spec fn ext_trans(st: Stage, s: Seq<Seq<Bell>>, t: Seq<Bell>, ost: Stage, o: Seq<Seq<Bell>>, res: Result<(), IncompatibleStages>, f: Seq<Seq<Bell>>) -> bool {
    if st.0 != t.len() { f == s && res == Err::<(), IncompatibleStages>(crate::stage::inc(st, Stage(t.len() as usize))) }
    else if st != ost { f == s && res == Err::<(), IncompatibleStages>(crate::stage::inc(st, ost)) }
    else { res is Ok && f == s + trans_rows(t, o) }
}
pub proof fn lemma_get(b: Seq<Bell>, n: int, i: int)
    requires vec_ok(b, n), 0 <= i, b.len() <= usize::MAX
    ensures i < rows_of(b, n).len() <==> i * n + n <= b.len(), i < rows_of(b, n).len() ==> 0 <= i * n && b.subrange(i * n, i * n + n) == rows_of(b, n)[i] && valid(rows_of(b, n)[i]) && rows_of(b, n)[i].len() == n
{
    if i < rows_of(b, n).len() { lemma_row_range(b.len() as int, n, i); assert(valid(rows_of(b, n)[i])); } else { lemma_not_row(b.len() as int, n, i); }
}
@mod row::same_stage_vec
pub proof fn lemma_vec_fits(v: &Vec<Bell>) ensures v@.len() <= usize::MAX { assert(v.len() == v@.len()); }
pub proof fn lemma_set_row(b: Seq<Bell>, n: int, i: int, f: Seq<Bell>)
    requires vec_ok(b, n), 0 <= i < rows_of(b, n).len(), valid(f), f.len() == n
    ensures vec_ok(b.update_subrange_with(i * n, f), n), rows_of(b.update_subrange_with(i * n, f), n) == rows_of(b, n).update(i, f)
{
    lemma_row_range(b.len() as int, n, i);
    let c = b.update_subrange_with(i * n, f);
    assert(c.len() == b.len());
    assert forall|j: int| 0 <= j < rows_of(b, n).len() implies rows_of(c, n)[j] == rows_of(b, n).update(i, f)[j] by {
        lemma_row_range(b.len() as int, n, j);
        if j < i { assert(j * n + n <= i * n) by (nonlinear_arith) requires j + 1 <= i, n > 0; }
        if j > i { assert(i * n + n <= j * n) by (nonlinear_arith) requires i + 1 <= j, n > 0; }
        assert(rows_of(c, n)[j] =~= rows_of(b, n).update(i, f)[j]);
        assert(valid(rows_of(b, n)[j]));
    }
    assert(rows_of(c, n) =~= rows_of(b, n).update(i, f));
}
pub proof fn lemma_rows_fit(v: &SameStageVec)
    requires v.ok()
    ensures forall|i: int| 0 <= i < v@.len() ==> valid(#[trigger] row_refs(v@)[i]@) && row_refs(v@)[i]@ == v@[i] && v@[i].len() == v.stage.0
{
    lemma_vec_fits(&v.bells);
    assert forall|i: int| 0 <= i < v@.len() implies valid(#[trigger] row_refs(v@)[i]@) && row_refs(v@)[i]@ == v@[i] && v@[i].len() == v.stage.0 by { assert(valid(v@[i])); lemma_row_range(v.bells@.len() as int, v.stage.0 as int, i); }
}
pub proof fn lemma_trans_empty() ensures forall|s: Seq<Seq<Bell>>| #[trigger] (Seq::<Seq<Bell>>::empty() + s) == s { assert forall|s: Seq<Seq<Bell>>| #[trigger] (Seq::<Seq<Bell>>::empty() + s) == s by { assert(Seq::<Seq<Bell>>::empty() + s =~= s); } }
pub proof fn lemma_ext_trans(b: Seq<Bell>, n: int, t: Seq<Bell>, o: Seq<Bell>, lo: int, hi: int)
    requires vec_ok(b, n), vec_ok(o, n), valid(t), t.len() == n, 0 <= lo <= hi <= rows_of(o, n).len()
    ensures 0 <= lo * n <= hi * n <= o.len(), ({
        let c = o.subrange(lo * n, hi * n);
        vec_ok(c, n) && vec_ok(b + compose(t, c), n) && rows_of(b + compose(t, c), n) == rows_of(b, n) + trans_rows(t, rows_of(o, n).subrange(lo, hi))
    }), forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]).index < n
{
    lemma_rows_sub(o, n, lo, hi);
    let c = o.subrange(lo * n, hi * n);
    lemma_rows_trans(t, c, n);
    lemma_rows_add(b, compose(t, c), n);
    lemma_bells(o, n);
}
pub proof fn lemma_vec_spec_valid()
    ensures forall|b: Seq<Bell>, e: InvalidRowError| #[trigger] vec_spec(b, Err(e)) ==> !no_bad_row(b),
        forall|b: Seq<Bell>, r: RowBuf| #[trigger] vec_spec(b, Ok(r)) ==> no_bad_row(b) && r@ == b && valid(b),
{ }
pub proof fn lemma_get_mut(b: Seq<Bell>, n: int, i: int, lo: int)
    requires vec_ok(b, n), 0 <= i, lo == i * n
    ensures i < rows_of(b, n).len() ==> forall|c: Seq<Bell>, f: Seq<Bell>| #![trigger vec_ok(c, n), valid(f)] #![trigger rows_of(c, n), valid(f)] valid(f) && f.len() == n && c =~= b.update_subrange_with(lo, f) ==> vec_ok(c, n) && rows_of(c, n) == rows_of(b, n).update(i, f),
{
    if i < rows_of(b, n).len() {
        assert forall|c: Seq<Bell>, f: Seq<Bell>| #![trigger vec_ok(c, n), valid(f)] #![trigger rows_of(c, n), valid(f)] valid(f) && f.len() == n && c =~= b.update_subrange_with(lo, f) implies vec_ok(c, n) && rows_of(c, n) == rows_of(b, n).update(i, f) by { lemma_set_row(b, n, i, f); }
    }
}
/// The last row, and what is before it
pub proof fn lemma_last(b: Seq<Bell>, n: int)
    requires vec_ok(b, n)
    ensures b.len() == 0 <==> rows_of(b, n).len() == 0, b.len() < n <==> b.len() == 0,
        b.len() >= n ==> b.skip(b.len() - n) == rows_of(b, n).last() && valid(rows_of(b, n).last()) && vec_ok(b.take(b.len() - n), n) && rows_of(b.take(b.len() - n), n) == rows_of(b, n).drop_last() && (b.len() - n) % n == 0,
        b.len() >= n ==> b.take(n) == rows_of(b, n)[0] && valid(rows_of(b, n)[0]) && vec_ok(b.skip(n), n) && rows_of(b.skip(n), n) == rows_of(b, n).skip(1),
{
    lemma_div(b.len() as int, n);
    let k = b.len() as int / n;
    if k > 0 {
        assert(k * n >= n) by (nonlinear_arith) requires k >= 1, n > 0;
        assert((k - 1) * n == k * n - n) by (nonlinear_arith);
        lemma_rows_split(b, n, k - 1);
        lemma_rows_split(b, n, 1);
        lemma_row_range(b.len() as int, n, k - 1);
        lemma_row_range(b.len() as int, n, 0);
        assert(b.skip(b.len() - n) =~= rows_of(b, n)[k - 1]);
        assert(b.take(n) =~= rows_of(b, n)[0]);
        assert(rows_of(b, n).take(k - 1) =~= rows_of(b, n).drop_last());
        lemma_mult(k - 1, n);
    } else { assert(k * n == 0) by (nonlinear_arith) requires k == 0; vstd::arithmetic::div_mod::lemma_div_basics(n); }
}
@fn row::same_stage_vec::<&SameStageVec as IntoIterator>::into_iter => vf_into_iter
    requires self.ok()
    ensures res.ok(), res@ == self@, res.stage == self.stage
@ret Iter<'v>
@fn row::same_stage_vec::<Iter as Iterator>::next => next
    requires old(self).ok()
    ensures final(self).ok(), final(self).stage == old(self).stage,
        old(self)@.len() == 0 ==> res is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> (res matches Some(r) && r@ == old(self)@[0] && valid(r@) && final(self)@ == old(self)@.skip(1))
@ret Option<&'v Row>
@hint start
    proof { lemma_last(self.bells_left@, self.stage.0 as int); }
@fn row::same_stage_vec::<Iter as DoubleEndedIterator>::next_back => next_back
    requires old(self).ok()
    ensures final(self).ok(), final(self).stage == old(self).stage,
        old(self)@.len() == 0 ==> res is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> (res matches Some(r) && r@ == old(self)@.last() && valid(r@) && final(self)@ == old(self)@.drop_last())
@ret Option<&'v Row>
@hint start
    proof { lemma_last(self.bells_left@, self.stage.0 as int); }
@fn row::same_stage_vec::<Iter as Iterator>::size_hint => size_hint
    requires self.ok()
    ensures res.0 == self@.len(), res.1 == Some(self@.len() as usize)
@fn row::same_stage_vec::<Iter as ExactSizeIterator>::len => len
    requires self.ok()
    ensures res == self@.len()
