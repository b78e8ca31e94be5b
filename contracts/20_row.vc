@mod row::borrowed
use crate::sp::*;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits, crate::vf::axiom_set_order, crate::vf::axiom_set_finite};
impl PartialEq for Row { #[verifier::external_body] fn eq(&self, o: &Row) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Row { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl Eq for Row { }
impl Row { #[verifier::external_body] pub fn vf_as_ref(&self) -> (r: &Row) ensures r == self { unimplemented!() } }
impl vstd::std_specs::core::IndexSpecImpl<usize> for Row {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a Row> for &'a Row {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, r: &'a Row) -> bool { valid(self@) && valid(r@) && self@.len() == r@.len() }
    open spec fn mul_spec(self, r: &'a Row) -> RowBuf { arbitrary() }
}
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b RowBuf> for &'a Row {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, r: &'b RowBuf) -> bool { valid(self@) && valid(r@) && self@.len() == r@.len() }
    open spec fn mul_spec(self, r: &'b RowBuf) -> RowBuf { arbitrary() }
}
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b Row> for &'a RowBuf {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, r: &'b Row) -> bool { valid(self@) && valid(r@) && self@.len() == r@.len() }
    open spec fn mul_spec(self, r: &'b Row) -> RowBuf { arbitrary() }
}
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a RowBuf> for &'a RowBuf {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, r: &'a RowBuf) -> bool { valid(self@) && valid(r@) && self@.len() == r@.len() }
    open spec fn mul_spec(self, r: &'a RowBuf) -> RowBuf { arbitrary() }
}
impl<'a> vstd::std_specs::ops::NotSpecImpl for &'a Row {
    open spec fn obeys_not_spec() -> bool { false }
    open spec fn not_req(self) -> bool { valid(self@) }
    open spec fn not_spec(self) -> RowBuf { arbitrary() }
}
impl<'a> vstd::std_specs::ops::NotSpecImpl for &'a RowBuf {
    open spec fn obeys_not_spec() -> bool { false }
    open spec fn not_req(self) -> bool { valid(self@) }
    open spec fn not_spec(self) -> RowBuf { arbitrary() }
}
@type row::borrowed::BellIter
pub type BellIter = It<Bell>;
@fn row::borrowed::Row::from_slice_unchecked
    requires valid(slice@)
    ensures res@ == slice@
@trusted
@fn row::borrowed::Row::from_mut_slice_unchecked
    requires valid(old(slice)@)
    ensures res@ == old(slice)@, final(res)@ == final(slice)@
@trusted
@fn row::borrowed::Row::stage
    requires self@.len() > 0
    ensures res.0 == self@.len()
@fn row::borrowed::Row::bell_iter
    ensures res@ == self@
@ret It<Bell>
@hint end
    proof { assert(deref_seq(ref_seq(self.bell_slice@)) =~= self@); }
@fn row::borrowed::Row::slice
    ensures res@ == self@
@fn row::borrowed::Row::place_of
    requires valid(self@)
    ensures res is Some <==> bell.index < self@.len(), res matches Some(p) ==> p < self@.len() && self@[p as int] == bell
@closure 0 |b: Bell| -> (r: bool) ensures r == (b == bell)
@hint start
    proof { lemma_surj(self@); if bell.index < self@.len() { assert(has_idx(self@, bell.index as int)); } }
@fn row::borrowed::Row::get_bell_unchecked
    requires place < self@.len()
    ensures res == self@[place as int]
@fn row::borrowed::<Row as Index<usize>>::index
    ensures *res == self@[index as int]
@fn row::borrowed::Row::swap
    requires a < old(self)@.len(), b < old(self)@.len()
    ensures final(self)@ == swap_seq(old(self)@, a as int, b as int), valid(old(self)@) ==> valid(final(self)@)
@hint start
    proof { if valid(self@) { lemma_swap_valid(self@, a as int, b as int); } }
@fn row::borrowed::Row::is_rounds
    ensures res <==> self@ == rounds_seq(self@.len() as int)
@closure 0 |p: (usize, Bell)| -> (r: bool) ensures r == (p.1.index == p.0)
@hint end
    proof { assert(enum_seq(self@).len() == self@.len()); if res { assert forall|j: int| 0 <= j < self@.len() implies self@[j] == rounds_seq(self@.len() as int)[j] by { assert(enum_seq(self@)[j].1 == self@[j]); } assert(self@ =~= rounds_seq(self@.len() as int)); } }
@fn row::borrowed::Row::is_backrounds
    ensures res <==> self@ == rev_seq(rounds_seq(self@.len() as int))
@closure 0 |p: (usize, Bell)| -> (r: bool) ensures r == (p.1.index == p.0)
@hint end
    proof {
        let n = self@.len() as int;
        if res {
            assert forall|j: int| 0 <= j < n implies self@[j] == rev_seq(rounds_seq(n))[j] by { assert(enum_seq(rev_seq(self@))[n - 1 - j].1 == self@[j]); }
            assert(self@ =~= rev_seq(rounds_seq(n)));
        }
    }
@fn row::borrowed::Row::effective_stage
    requires valid(self@)
    ensures res.0 == eff_stage(self@)
@loop 0 
    invariant valid(self@), xs_0 == rev_seq(enum_seq(ref_seq(self@))),
        forall|i: int| self@.len() - k_0 <= i < self@.len() ==> (#[trigger] self@[i]).index == i
@hint before return 0
    proof { lemma_eff_stage(self@, i as int); }
@hint end
    proof { lemma_eff_stage(self@, -1); }
@fn row::borrowed::Row::parity
    requires valid(old(self)@), fits(old(self)@)
    ensures res == crate::parity::par(inversions(old(self)@)), final(self)@.len() == old(self)@.len(), valid(final(self)@)
@hint start
    proof { lemma_nfix_bound(self@); }
@loop 0
    invariant valid(self@), self@.len() == old(self)@.len(),
        first_non_rounds_bell <= self@.len(), num_swaps <= nfix(self@),
        forall|i: int| 0 <= i < first_non_rounds_bell ==> (#[trigger] self@[i]).index == i,
        (inversions(self@) + num_swaps) % 2 == inversions(old(self)@) % 2,
    decreases 2 * self@.len() - first_non_rounds_bell - nfix(self@)
@hint loop 0 start
    proof { lemma_nfix_bound(self@); assert((self@[first_non_rounds_bell as int]).index < self@.len()); let ghost_s = self@; }
@hint before call swap
    proof {
        let c = cur_bell.index as int; let f = first_non_rounds_bell as int;
        assert(c != f);
        assert(self@[c].index != c) by { if self@[c].index == c { assert(self@[c] == self@[f]); if c < f { assert(self@[c] != self@[f]); } else { assert(self@[f] != self@[c]); } } }
        if c < f { assert(self@[c].index == c); }
        lemma_nfix_swap(self@, f, c);
        lemma_inversions_swap(self@, f, c);
        lemma_nfix_bound(swap_seq(self@, f, c));
    }
@hint end
    proof { assert(self@ =~= rounds_seq(self@.len() as int)); lemma_inversions_rounds(self@.len() as int); }
@fn row::borrowed::Row::mul_result
    requires valid(self@), valid(rhs@)
    ensures self@.len() == rhs@.len() ==> (res matches Ok(r) && r@ == compose(self@, rhs@) && valid(r@)),
        self@.len() != rhs@.len() ==> (res matches Err(e) && e == inc_err(self@, rhs@))
@fn row::borrowed::Row::mul_unchecked
    requires valid(self@), valid(rhs@), self@.len() == rhs@.len()
    ensures res@ == compose(self@, rhs@), valid(res@)
@closure 0 |b: Bell| -> (r: Bell) requires b.index < self@.len() ensures r == self@[b.index as int]
@hint start
    proof { lemma_compose_ext(self@, rhs@); }
@fn row::borrowed::Row::mul_into
    requires valid(self@), valid(rhs@)
    ensures self@.len() == rhs@.len() ==> res is Ok && final(out)@ == compose(self@, rhs@) && valid(final(out)@),
        self@.len() != rhs@.len() ==> final(out)@ == old(out)@ && (res matches Err(e) && e == inc_err(self@, rhs@))
@fn row::borrowed::Row::mul_into_unchecked
    requires valid(self@), valid(rhs@), self@.len() == rhs@.len()
    ensures final(out)@ == compose(self@, rhs@), valid(final(out)@)
@closure 0 |b: Bell| -> (r: Bell) requires b.index < self@.len() ensures r == self@[b.index as int]
@hint start
    proof { lemma_compose_valid(self@, rhs@); }
@hint end
    proof { assert(out@ =~= compose(self@, rhs@)); }
@fn row::borrowed::Row::mul_into_row
    requires valid(self@), valid(rhs@), valid(old(out)@)
    ensures self@.len() == rhs@.len() && self@.len() == old(out)@.len() ==> res is Ok && final(out)@ == compose(self@, rhs@) && valid(final(out)@),
        self@.len() != rhs@.len() ==> final(out)@ == old(out)@ && (res matches Err(MulIntoError::RhsStage(e)) && e == inc_err(self@, rhs@)),
        self@.len() == rhs@.len() && self@.len() != old(out)@.len() ==> final(out)@ == old(out)@ && (res matches Err(MulIntoError::IntoStage(e)) && e == inc_err(self@, old(out)@)),
@closure 0 |e: IncompatibleStages| -> (r: MulIntoError) ensures r == MulIntoError::RhsStage(e)
@closure 1 |e: IncompatibleStages| -> (r: MulIntoError) ensures r == MulIntoError::IntoStage(e)
@fn row::borrowed::Row::mul_into_row_unchecked
    requires valid(self@), valid(rhs@), self@.len() == rhs@.len(), old(out)@.len() == rhs@.len()
    ensures final(out)@ == compose(self@, rhs@), valid(final(out)@)
@loop 0
    invariant valid(self@), valid(rhs@), self@.len() == rhs@.len(), out@.len() == rhs@.len(), xs_0 == ref_seq(rhs@), forall|j: int| 0 <= j < i_0 ==> #[trigger] out@[j] == self@[rhs@[j].index as int]
@hint end
    proof { lemma_compose_valid(self@, rhs@); assert(out@ =~= compose(self@, rhs@)); }
@fn row::borrowed::Row::inv
    requires valid(self@)
    ensures res@ == inverse(self@), valid(res@)
@loop 0
    invariant valid(self@), xs_0 == enum_seq(ref_seq(self@)), inv_bells@.len() == self@.len(),
        forall|j: int| 0 <= j < k_0 ==> inv_bells@[(#[trigger] self@[j]).index as int] == (Bell { index: j as usize })
@hint loop 0 start
    proof { lemma_distinct_idx(self@); }
@hint loop 0 after
    proof { lemma_inv_unique(self@, inv_bells@); lemma_inverse(self@); }
@fn row::borrowed::Row::inv_into
    requires valid(self@), valid(old(out)@)
    ensures self@.len() == old(out)@.len() ==> res is Ok && final(out)@ == inverse(self@) && valid(final(out)@),
        self@.len() != old(out)@.len() ==> final(out)@ == old(out)@ && (res matches Err(e) && e == inc_err(self@, old(out)@))
@loop 0
    invariant valid(self@), xs_0 == enum_seq(self@), out@.len() == self@.len(),
        forall|j: int| 0 <= j < k_0 ==> out@[(#[trigger] self@[j]).index as int] == (Bell { index: j as usize })
@hint loop 0 start
    proof { lemma_distinct_idx(self@); }
@hint loop 0 after
    proof { lemma_inv_unique(self@, out@); lemma_inverse(self@); }
@fn row::borrowed::Row::inv_into_buf
    requires valid(self@), valid(old(out)@)
    ensures final(out)@ == inverse(self@), valid(final(out)@)
@loop 0
    invariant valid(self@), xs_0 == enum_seq(self@), out@.len() == self@.len(),
        forall|j: int| 0 <= j < k_0 ==> out@[(#[trigger] self@[j]).index as int] == (Bell { index: j as usize })
@hint loop 0 start
    proof { lemma_distinct_idx(self@); }
@hint loop 0 after
    proof { lemma_inv_unique(self@, out@); lemma_inverse(self@); }
@fn row::borrowed::Row::pow_i
    requires valid(self@)
    ensures res@ == (if exponent < 0 { pow(inverse(self@), -exponent as int) } else { pow(self@, exponent as int) }), valid(res@)
@fn row::borrowed::Row::pow_u
    requires valid(self@)
    ensures res@ == pow(self@, exponent as int), valid(res@)
@loop 0
    invariant valid(self@), xs_0.len() == exponent, accumulator.total@ == pow(self@, k_0 as int), accumulator.total@.len() == self@.len(), valid(accumulator.total@)
@fn row::borrowed::Row::solve_ax_equals_b
    requires valid(a@), valid(b@)
    ensures a@.len() == b@.len() ==> (res matches Ok(x) && valid(x@) && x@.len() == a@.len() && compose(a@, x@) == b@ && forall|y: Seq<Bell>| valid(y) && y.len() == a@.len() && compose(a@, y) == b@ ==> y == x@),
        a@.len() != b@.len() ==> (res matches Err(e) && e == inc_err(a@, b@))
@hint start
    proof { lemma_inverse(a@); if a@.len() == b@.len() { lemma_solve_ax(a@, b@); } }
@fn row::borrowed::Row::solve_xa_equals_b
    requires valid(a@), valid(b@)
    ensures a@.len() == b@.len() ==> (res matches Ok(x) && valid(x@) && x@.len() == a@.len() && compose(x@, a@) == b@ && forall|y: Seq<Bell>| valid(y) && y.len() == a@.len() && compose(y, a@) == b@ ==> y == x@),
        a@.len() != b@.len() ==> (res matches Err(e) && e == inc_err(b@, a@))
@hint start
    proof { lemma_inverse(a@); if a@.len() == b@.len() { lemma_solve_xa(a@, b@); } }
@fn row::borrowed::Row::tranposition_to
    requires valid(self@), valid(other@)
    ensures self@.len() == other@.len() ==> (res matches Ok(x) && valid(x@) && compose(x@, self@) == other@),
        self@.len() != other@.len() ==> (res matches Err(e) && e == inc_err(other@, self@))
@hint start
    proof { lemma_inverse(self@); if self@.len() == other@.len() { lemma_solve_xa(self@, other@); } }
@fn row::borrowed::Row::tranposition_to_unchecked
    requires valid(self@), valid(other@), self@.len() == other@.len()
    ensures valid(res@) && compose(res@, self@) == other@
@hint start
    proof { lemma_inverse(self@); lemma_solve_xa(self@, other@); }
@fn row::borrowed::Row::fixed_bells
    ensures res@ == fixed_seq(self@)
@closure 0 |p: &(usize, &Bell)| -> (r: bool) ensures r == (p.0 == p.1.index)
@closure 1 |p: (usize, &Bell)| -> (r: Bell) ensures r == *p.1
@hint end
    proof { assert(res@ =~= fixed_seq(self@)); }
@fn row::borrowed::Row::copy_into
    ensures final(other)@ == self@
@hint end
    proof { assert(other@ =~= self@); }
@fn row::borrowed::Row::closure
    requires valid(self@)
    ensures is_closure(self@, res@)
@loop 0
    invariant valid(self@), closure@.len() > 0, forall|i: int| 0 <= i < closure@.len() ==> (#[trigger] closure@[i])@ == pow(self@, i + 1),
        forall|i: int| 0 <= i < closure@.len() - 1 ==> (#[trigger] closure@[i])@ != rounds_seq(self@.len() as int)
    decreases npow(self@.len() as int, self@.len()) - closure@.len()
@hint start
    proof { lemma_pow1(self@); }
@hint loop 0 start
    proof { lemma_pow_valid(self@, closure@.len() as int); }
@hint loop 0 end
    proof {
        let m = closure@.len() as int - 1;
        assert forall|i: int| 1 <= i < m + 1 implies #[trigger] not_rounds(self@, i) by { assert(closure@[i - 1]@ == pow(self@, i)); }
        lemma_powers_bounded(self@, m + 1);
    }
@fn row::borrowed::Row::closure_from_rounds
    requires valid(self@)
    ensures is_closure_from_rounds(self@, res@)
@loop 0
    invariant valid(self@), closure@.len() > 0, forall|i: int| 0 <= i < closure@.len() ==> (#[trigger] closure@[i])@ == pow(self@, i),
        forall|i: int| 1 <= i < closure@.len() ==> (#[trigger] closure@[i])@ != rounds_seq(self@.len() as int)
    decreases npow(self@.len() as int, self@.len()) - closure@.len()
@hint loop 0 end
    proof {
        let m = closure@.len() as int;
        assert forall|i: int| 1 <= i < m implies #[trigger] not_rounds(self@, i) by { assert(closure@[i]@ == pow(self@, i)); }
        lemma_powers_bounded(self@, m);
    }
@hint loop 0 start
    proof { lemma_pow_valid(self@, closure@.len() - 1); lemma_pow_valid(self@, closure@.len() as int); }
@fn row::borrowed::Row::fast_hash
    requires valid(self@)
    ensures self@.len() <= 16 ==> res == hash_of(self@, self@.len() as int)
@loop 0
    invariant valid(self@), xs_0 == self@, self@.len() <= 16 ==> accum == hash_of(self@.take(k_0 as int), self@.len() as int) && (k_0 < 16 ==> multiplier == npow(self@.len() as int, k_0 as nat))
@hint loop 0 start
    proof { if self@.len() <= 16 { lemma_hash_step(self@, k_0 - 1); assert(x_0 == self@[k_0 - 1]); assert(multiplier == npow(self@.len() as int, (k_0 - 1) as nat)); assert((x_0.index as nat * multiplier as nat) == x_0.index * npow(self@.len() as int, (k_0 - 1) as nat)); } }
@hint end
    proof { assert(self@.take(self@.len() as int) =~= self@); }
@fn row::borrowed::<&RowBuf as Not>::not
    ensures res@ == inverse(self@), valid(res@)
@fn row::borrowed::<&Row as Not>::not
    ensures res@ == inverse(self@), valid(res@)
@fn row::borrowed::<&RowBuf as Mul>::mul
    ensures res@ == compose(self@, rhs@), valid(res@)
@opt mul_method
@fn row::borrowed::<&RowBuf as Mul<&Row>>::mul
    ensures res@ == compose(self@, rhs@), valid(res@)
@opt mul_method
@fn row::borrowed::<&Row as Mul<&RowBuf>>::mul
    ensures res@ == compose(self@, rhs@), valid(res@)
@opt mul_method
@fn row::borrowed::<&Row as Mul>::mul
    ensures res@ == compose(self@, rhs@), valid(res@)
@mod row::owned
use crate::sp::*;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits};
impl Clone for RowBuf { #[verifier::external_body] fn clone(&self) -> (r: RowBuf) ensures r@ == self@ { unimplemented!() } }
impl PartialEq for RowBuf { #[verifier::external_body] fn eq(&self, o: &RowBuf) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for RowBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl Eq for RowBuf { }
impl Deref for RowBuf { type Target = Row; #[verifier::external_body] fn deref(&self) -> (res: &Row) ensures res@ == self@ { unimplemented!() } }
impl DerefMut for RowBuf { #[verifier::external_body] fn deref_mut(&mut self) -> (res: &mut Row) ensures res@ == old(self)@, final(self)@ == final(res)@ { unimplemented!() } }
impl FromIt<Bell> for RowBuf { open spec fn from_it(&self, s: Seq<Bell>) -> bool { false } }
/// The errors of the checked constructors
pub open spec fn bad_at(s: Seq<Bell>, n: int, i: int) -> bool { 0 <= i < s.len() && (s[i].index >= n || exists|j: int| 0 <= j < i && #[trigger] s[j] == s[i]) }
pub open spec fn first_bad(s: Seq<Bell>, n: int, i: int) -> bool { bad_at(s, n, i) && forall|j: int| 0 <= j < i ==> !#[trigger] bad_at(s, n, j) }
pub open spec fn no_bad(s: Seq<Bell>, n: int) -> bool { forall|j: int| 0 <= j < s.len() ==> !#[trigger] bad_at(s, n, j) }
pub open spec fn bad_err(s: Seq<Bell>, n: int, e: InvalidRowError) -> bool {
    exists|i: int| #[trigger] first_bad(s, n, i) && e == (if s[i].index >= n { InvalidRowError::BellOutOfStage(s[i], Stage(n as usize)) } else { InvalidRowError::DuplicateBell(s[i]) })
}
pub open spec fn vec_spec(s: Seq<Bell>, res: Result<RowBuf, InvalidRowError>) -> bool {
    if s.len() == 0 { res == Err::<RowBuf, InvalidRowError>(InvalidRowError::NoBells) }
    else if no_bad(s, s.len() as int) { res matches Ok(r) && r@ == s && valid(s) }
    else { res matches Err(e) && bad_err(s, s.len() as int, e) }
}
pub open spec fn max_idx(s: Seq<Bell>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s.last().index > max_idx(s.drop_last()) { s.last().index as int } else { max_idx(s.drop_last()) } }
pub open spec fn missing(s: Seq<Bell>, b: int) -> bool { !has_idx(s, b) }
pub open spec fn padded(s: Seq<Bell>, n: int) -> Seq<Bell> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { Bell { index: i as usize } }) }
pub open spec fn stage_spec(s: Seq<Bell>, n: int, res: Result<RowBuf, InvalidRowError>) -> bool {
    if !no_bad(s, n) { res matches Err(e) && bad_err(s, n, e) }
    else if exists|b: int| 0 <= b < max_idx(s) && #[trigger] missing(s, b) {
        exists|b: int| 0 <= b < max_idx(s) && #[trigger] missing(s, b) && (forall|c: int| 0 <= c < b ==> !#[trigger] missing(s, c)) && res == Err::<RowBuf, InvalidRowError>(InvalidRowError::MissingBell(Bell { index: b as usize }))
    } else { res matches Ok(r) && r@ == padded(s, n) && valid(r@) }
}
pub proof fn lemma_take_push<T>(s: Seq<T>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1) == s.take(k).push(s[k]), s.take(k + 1).drop_last() == s.take(k), s.take(k + 1).last() == s[k] { assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_has_idx_push(s: Seq<Bell>, b: Bell)
    ensures forall|v: int| #[trigger] has_idx(s.push(b), v) <==> (has_idx(s, v) || v == b.index)
{
    assert forall|v: int| #[trigger] has_idx(s.push(b), v) <==> (has_idx(s, v) || v == b.index) by {
        if has_idx(s, v) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == v; assert(s.push(b)[i].index == v); }
        if v == b.index { assert(s.push(b)[s.len() as int].index == v); }
        if has_idx(s.push(b), v) && v != b.index { let i = choose|i: int| 0 <= i < s.push(b).len() && (#[trigger] s.push(b)[i]).index == v; assert(s[i].index == v); }
    }
}
pub proof fn lemma_max_bound(s: Seq<Bell>) ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).index <= max_idx(s), s.len() > 0 ==> has_idx(s, max_idx(s)), max_idx(s) >= 0 decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_max_bound(t);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).index <= max_idx(s) by { if i < t.len() { assert(t[i] == s[i]); } }
        if t.len() > 0 && s.last().index <= max_idx(t) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).index == max_idx(t); assert(s[i].index == max_idx(s)); }
        else { assert(s[s.len() - 1].index == max_idx(s)); }
    }
}
pub proof fn lemma_max_idx(s: Seq<Bell>, n: int)
    requires no_bad(s, n), n > 0
    ensures 0 <= max_idx(s) < n
{
    lemma_max_bound(s);
    if s.len() > 0 { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == max_idx(s); assert(!bad_at(s, n, i)); }
}
pub proof fn lemma_padded(s: Seq<Bell>, n: int)
    requires no_bad(s, n), 0 < n <= usize::MAX, forall|b: int| 0 <= b < max_idx(s) ==> !#[trigger] missing(s, b)
    ensures s.len() <= n, valid(padded(s, n))
{
    lemma_max_bound(s);
    let m = if s.len() == 0 { 0 } else { max_idx(s) + 1 };
    assert(distinct(s)) by { assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by { assert(!bad_at(s, n, j)); } }
    // exactly the bells below m occur, so there are m of them
    let idx = s.map(|i: int, b: Bell| b.index as int);
    assert(idx.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < idx.len() && 0 <= j < idx.len() && i != j implies idx[i] != idx[j] by { if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } } }
    idx.unique_seq_to_set();
    let full = vstd::set_lib::set_int_range(0, m);
    vstd::set_lib::lemma_int_range(0, m);
    assert(idx.to_set() =~= full) by {
        assert forall|x: int| idx.to_set().contains(x) <==> full.contains(x) by {
            if idx.to_set().contains(x) { let i = choose|i: int| 0 <= i < idx.len() && idx[i] == x; assert(s[i].index <= max_idx(s)); }
            if full.contains(x) {
                if x < max_idx(s) { assert(!missing(s, x)); }
                assert(has_idx(s, x));
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == x;
                assert(idx[i] == x);
                assert(idx.to_set().contains(idx[i]));
            }
        }
    }
    assert(s.len() == m);
    lemma_max_idx(s, n);
    let p = padded(s, n);
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).index < p.len() by { if i < s.len() { assert(s[i].index <= max_idx(s)); } }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies p[i] != p[j] by { if j < s.len() { assert(s[i] != s[j]); } else if i < s.len() { assert(s[i].index <= max_idx(s)); } }
}
pub proof fn lemma_no_bad_valid(s: Seq<Bell>)
    requires s.len() > 0, no_bad(s, s.len() as int)
    ensures valid(s)
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).index < s.len() by { assert(!bad_at(s, s.len() as int, i)); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by { assert(!bad_at(s, s.len() as int, j)); }
}
@fn row::borrowed::<&Row as IntoIterator>::into_iter => vf_into_iter
    ensures res@ == self@
@ret It<Bell>
@fn row::owned::<&RowBuf as IntoIterator>::into_iter => vf_into_iter
    ensures res@ == self@
@ret It<Bell>
@fn row::owned::<RowBuf as Deref>::deref => vf_deref
    requires valid(self@)
    ensures res@ == self@
@ret &Row
@fn row::owned::<RowBuf as DerefMut>::deref_mut => vf_deref_mut
    requires valid(old(self)@)
    ensures res@ == old(self)@, final(self)@ == final(res)@
@ret &mut Row
@fn row::owned::<RowBuf as Borrow<Row>>::borrow => vf_borrow
    ensures res@ == self@
@fn row::owned::<RowBuf as BorrowMut<Row>>::borrow_mut => vf_borrow_mut
    ensures res@ == old(self)@, final(self)@ == final(res)@
@fn row::owned::<RowBuf as AsRef<Row>>::as_ref => vf_as_ref
    requires valid(self@)
    ensures res@ == self@
@fn row::owned::<RowBuf as AsMut<Row>>::as_mut => vf_as_mut
    requires valid(old(self)@)
    ensures res@ == old(self)@, final(self)@ == final(res)@
@fn row::owned::<Row as ToOwned>::to_owned => vf_to_owned
    requires valid(self@)
    ensures res@ == self@
@ret RowBuf
@fn row::owned::RowBuf::parse
    ensures vec_spec(crate::bell::bells_in(s@), res)
@fn row::owned::RowBuf::parse_with_stage
    requires stage.0 > 0
    ensures stage_spec(crate::bell::bells_in(s@), stage.0 as int, res)
@fn row::owned::<RowBuf as FromStr>::from_str => vf_from_str
    ensures vec_spec(crate::bell::bells_in(s@), res)
@ret Result<RowBuf, InvalidRowError>
@fn row::owned::RowBuf::rounds
    requires stage.0 > 0
    ensures res@ == rounds_seq(stage.0 as int), valid(res@)
@hint start
    proof { lemma_rounds_valid(stage.0 as int); assert forall|s: Seq<Bell>| s.len() == stage.0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).index == i) implies #[trigger] valid(s) && s == rounds_seq(stage.0 as int) by { assert(s =~= rounds_seq(stage.0 as int)); } }
@fn row::owned::RowBuf::backrounds
    requires stage.0 > 0
    ensures res@ == rev_seq(rounds_seq(stage.0 as int)), valid(res@)
@hint start
    proof { let n = stage.0 as int; lemma_back_valid(n); assert forall|s: Seq<Bell>| s.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).index == n - 1 - i) implies #[trigger] valid(s) && s == rev_seq(rounds_seq(n)) by { assert(s =~= rev_seq(rounds_seq(n))); } }
@fn row::owned::RowBuf::queens
    requires stage.0 > 0
    ensures res@ == queens_seq(stage.0 as int), valid(res@)
@hint start
    proof { let n = stage.0 as int; lemma_queens_valid(n); assert forall|s: Seq<Bell>| s.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).index == queens_seq(n)[i].index) implies #[trigger] valid(s) && s == queens_seq(n) by { assert(s =~= queens_seq(n)); } }
@fn row::owned::RowBuf::from_vec
    ensures vec_spec(bells@, res)
@opt try_from
@loop 0
    invariant xs_0 == ref_seq(bells@), checklist@.len() == bells@.len(), bells@.len() > 0, stage.0 == bells@.len(),
        forall|v: int| 0 <= v < bells@.len() ==> (#[trigger] checklist@[v] <==> exists|j: int| 0 <= j < k_0 && (#[trigger] bells@[j]).index == v),
        forall|j: int| 0 <= j < k_0 ==> !#[trigger] bad_at(bells@, bells@.len() as int, j)
@hint before return 0
    proof { assert(first_bad(bells@, bells@.len() as int, k_0 - 1)); }
@hint before return 1
    proof { let j = choose|j: int| 0 <= j < k_0 - 1 && (#[trigger] bells@[j]).index == b.index; assert(bells@[j] == b); assert(first_bad(bells@, bells@.len() as int, k_0 - 1)); }
@hint loop 0 after
    proof { lemma_no_bad_valid(bells@); }
@fn row::owned::RowBuf::from_vec_unchecked
    requires valid(bells@)
    ensures res@ == bells@
@fn row::owned::RowBuf::from_bell_iter
    ensures vec_spec(iter@, res)
@fn row::owned::RowBuf::from_bell_iter_unchecked
    requires valid(iter@)
    ensures res@ == iter@
@fn row::owned::RowBuf::from_vec_with_stage
    requires stage.0 > 0
    ensures stage_spec(bells@, stage.0 as int, res)
@loop 0
    invariant stage.0 > 0, xs_0 == ref_seq(bells@), checklist@.len() == stage.0,
        forall|v: int| 0 <= v < stage.0 ==> (#[trigger] checklist@[v] <==> has_idx(bells@.take(k_0), v)),
        forall|j: int| 0 <= j < k_0 ==> !#[trigger] bad_at(bells@, stage.0 as int, j),
        biggest_bell_found.index == max_idx(bells@.take(k_0))
@hint loop 0 start
    proof {
        lemma_take_push(bells@, k_0 - 1); lemma_has_idx_push(bells@.take(k_0 - 1), bells@[k_0 - 1]);
        let c = bells@[k_0 - 1];
        if bad_at(bells@, stage.0 as int, k_0 - 1) && c.index < stage.0 {
            let j = choose|j: int| 0 <= j < k_0 - 1 && #[trigger] bells@[j] == c;
            assert(bells@.take(k_0 - 1)[j].index == c.index);
            assert(has_idx(bells@.take(k_0 - 1), c.index as int));
        }
    }
@hint before return 0
    proof { assert(first_bad(bells@, stage.0 as int, k_0 - 1)); }
@hint before return 1
    proof { let j = choose|j: int| 0 <= j < k_0 - 1 && (#[trigger] bells@.take(k_0 - 1)[j]).index == b.index; assert(bells@[j] == b); assert(first_bad(bells@, stage.0 as int, k_0 - 1)); }
@hint loop 0 after
    proof { assert(bells@.take(k_0) =~= bells@); lemma_max_idx(bells@, stage.0 as int); }
@closure 0 |p: &(usize, &bool)| -> (r: bool) ensures r == !*p.1
@hint before return 2
    proof {
        let ck = enum_seq(ref_seq(checklist@.subrange(0, biggest_bell_found.index as int)));
        assert(missing(bells@, index as int));
        assert forall|c: int| 0 <= c < index implies !#[trigger] missing(bells@, c) by { assert(*ck[c].1 == checklist@[c]); }
    }
@hint after call find
    proof {
        let ck = enum_seq(ref_seq(checklist@.subrange(0, biggest_bell_found.index as int)));
        assert forall|c: int| 0 <= c < max_idx(bells@) implies !#[trigger] missing(bells@, c) by { assert(*ck[c].1 == checklist@[c]); }
        lemma_padded(bells@, stage.0 as int);
    }
@hint after call extend
    proof { assert(bells@ =~= padded(old_bells, stage.0 as int)); }
@hint start
    let ghost old_bells = bells@;
@fn row::owned::RowBuf::into_bell_vec
    ensures res@ == self@
@fn row::owned::RowBuf::as_row
    requires valid(self@)
    ensures res@ == self@
@fn row::owned::RowBuf::as_mut_row
    requires valid(old(self)@)
    ensures res@ == old(self)@, final(self)@ == final(res)@
@fn row::owned::RowBuf::extend_to_stage
    requires valid(old(self)@), old(self)@.len() <= stage.0
    ensures final(self)@ == padded(old(self)@, stage.0 as int), valid(final(self)@)
@fn row::owned::RowBuf::overwrite_from
    ensures final(self)@ == row@
@fn row::owned::<RowBuf as PartialEq<Row>>::eq => vf_eq_row
    requires valid(self@)
    ensures res == (self@ == other@)
@fn row::owned::<Row as PartialEq<RowBuf>>::eq => vf_eq_buf
    requires valid(other@)
    ensures res == (self@ == other@)
@mod row::errors
impl vstd::std_specs::convert::FromSpecImpl<ZeroStageError> for InvalidRowError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ZeroStageError) -> InvalidRowError { InvalidRowError::NoBells }
}
@derive row::errors::InvalidRowError Debug
@derive row::errors::MulIntoError Debug, Clone, Copy
@mod row::accumulator
use crate::sp::*;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits};
@derive row::accumulator::RowAccumulator
@fn row::errors::<InvalidRowError as From<ZeroStageError>>::from
    ensures res == InvalidRowError::NoBells
@fn row::accumulator::RowAccumulator::rounds
    requires stage.0 > 0
    ensures res.total@ == rounds_seq(stage.0 as int), valid(res.total@)
@fn row::accumulator::RowAccumulator::new
    requires valid(total@)
    ensures res.total@ == total@
@fn row::accumulator::RowAccumulator::accumulate
    requires valid(old(self).total@), valid(row@)
    ensures old(self).total@.len() == row@.len() ==> res is Ok && final(self).total@ == compose(old(self).total@, row@) && valid(final(self).total@),
        old(self).total@.len() != row@.len() ==> final(self).total@ == old(self).total@ && (res matches Err(e) && e == inc_err(old(self).total@, row@))
@fn row::accumulator::RowAccumulator::pre_accumulate
    requires valid(old(self).total@), valid(row@)
    ensures old(self).total@.len() == row@.len() ==> res is Ok && final(self).total@ == compose(row@, old(self).total@) && valid(final(self).total@),
        old(self).total@.len() != row@.len() ==> final(self).total@ == old(self).total@ && (res matches Err(e) && e == inc_err(row@, old(self).total@))
@fn row::accumulator::RowAccumulator::set
    ensures final(self).total@ == row@
@fn row::accumulator::RowAccumulator::total
    ensures res@ == self.total@
@fn row::accumulator::RowAccumulator::into_total
    ensures res@ == self.total@
@fn row::accumulator::<RowAccumulator as MulAssign<&Row>>::mul_assign => vf_mul_assign_row
    requires valid(old(self).total@), valid(rhs@), old(self).total@.len() == rhs@.len()
    ensures final(self).total@ == compose(old(self).total@, rhs@), valid(final(self).total@)
@fn row::accumulator::<RowAccumulator as MulAssign<&RowBuf>>::mul_assign => vf_mul_assign_buf
    requires valid(old(self).total@), valid(rhs@), old(self).total@.len() == rhs@.len()
    ensures final(self).total@ == compose(old(self).total@, rhs@), valid(final(self).total@)
@dropuse std::rc
@dropuse std::sync
@mod row::borrowed
use counted::{Rc, Arc, vf_ptr_cast, VfShared};
/// Reference-counted slices of bells, and the pointers they are taken apart into.  Assumed: `std::rc` and `std::sync` keep the
/// bells, and a `Row` (`repr(transparent)`) is laid out as its slice of bells.
pub mod counted {
    use vstd::prelude::*;
    use crate::bell::Bell;
    use super::Row;
    use crate::sp::valid;
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Rc<T: ?Sized> { p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Arc<T: ?Sized> { p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Raw<T: ?Sized> { p: core::marker::PhantomData<T> }
    impl<T: ?Sized> Rc<T> { pub uninterp spec fn held(&self) -> Seq<Bell>; }
    impl<T: ?Sized> Arc<T> { pub uninterp spec fn held(&self) -> Seq<Bell>; }
    /// The bells pointed at, and whether the pointer came from an `Rc` (or an `Arc`) and still owns its count
    impl<T: ?Sized> Raw<T> { pub uninterp spec fn held(&self) -> Seq<Bell>; pub uninterp spec fn rc(&self) -> bool; pub uninterp spec fn arc(&self) -> bool; }
    pub trait VfShared<T>: Sized { spec fn shares(self, r: T) -> bool; fn vf_shared(self) -> (r: T) ensures self.shares(r); }
    impl VfShared<Rc<[Bell]>> for Vec<Bell> { open spec fn shares(self, r: Rc<[Bell]>) -> bool { r.held() == self@ } #[verifier::external_body] fn vf_shared(self) -> (r: Rc<[Bell]>) { unimplemented!() } }
    impl VfShared<Arc<[Bell]>> for Vec<Bell> { open spec fn shares(self, r: Arc<[Bell]>) -> bool { r.held() == self@ } #[verifier::external_body] fn vf_shared(self) -> (r: Arc<[Bell]>) { unimplemented!() } }
    impl<'a> VfShared<Rc<[Bell]>> for &'a [Bell] { open spec fn shares(self, r: Rc<[Bell]>) -> bool { r.held() == self@ } #[verifier::external_body] fn vf_shared(self) -> (r: Rc<[Bell]>) { unimplemented!() } }
    impl<'a> VfShared<Arc<[Bell]>> for &'a [Bell] { open spec fn shares(self, r: Arc<[Bell]>) -> bool { r.held() == self@ } #[verifier::external_body] fn vf_shared(self) -> (r: Arc<[Bell]>) { unimplemented!() } }
    impl<T: ?Sized> Rc<T> {
        #[verifier::external_body]
        pub fn into_raw(x: Rc<T>) -> (r: Raw<T>) ensures r.held() == x.held(), r.rc(), !r.arc() { unimplemented!() }
        #[verifier::external_body]
        pub unsafe fn from_raw(x: Raw<T>) -> (r: Rc<T>) requires x.rc() ensures r.held() == x.held() { unimplemented!() }
    }
    impl<T: ?Sized> Arc<T> {
        #[verifier::external_body]
        pub fn into_raw(x: Arc<T>) -> (r: Raw<T>) ensures r.held() == x.held(), r.arc(), !r.rc() { unimplemented!() }
        #[verifier::external_body]
        pub unsafe fn from_raw(x: Raw<T>) -> (r: Arc<T>) requires x.arc() ensures r.held() == x.held() { unimplemented!() }
    }
    pub trait FromBells { }
    impl FromBells for Row { }
    #[verifier::external_body]
    pub fn vf_ptr_cast<U: ?Sized + FromBells>(x: Raw<[Bell]>) -> (r: Raw<U>) requires valid(x.held()) ensures r.held() == x.held(), r.rc() == x.rc(), r.arc() == x.arc() { unimplemented!() }
} // end of module
@fn row::borrowed::Row::to_rc
    requires valid(self@)
    ensures res.held() == self@
@opt into_as vf_shared
@fn row::borrowed::Row::to_arc
    requires valid(self@)
    ensures res.held() == self@
@opt into_as vf_shared
