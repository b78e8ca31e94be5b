@mod block
use crate::sp::*;
use core::ops::Mul;
use crate::vf::VfRange;
use crate::row::same_stage_vec::{rows_of, row_refs, trans_rows, lines_spec, row_lines};
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits, crate::sp::axiom_row_ref};
impl<A> AnnotBlock<A> {
    /// One row more than annotations, all of one stage
    pub open spec fn ok(&self) -> bool { self.rows.ok() && self.rows@.len() == self.annots@.len() + 1 }
    /// The rows, with the left-over one
    pub open spec fn rs(&self) -> Seq<Seq<Bell>> { self.rows@ }
    pub open spec fn st(&self) -> int { self.rows.stage.0 as int }
    /// Each row but the last with its annotation
    pub open spec fn pairs<'b>(&'b self) -> Seq<(usize, (&'b Row, &'b A))> { Seq::new(self.annots@.len(), |i: int| (i as usize, (row_ref(self.rs()[i]), &self.annots@[i]))) }
}
pub open spec fn all_cloned<A: Clone>(from: Seq<A>, to: Seq<A>) -> bool { from.len() == to.len() && forall|i: int| 0 <= i < from.len() ==> cloned(#[trigger] from[i], to[i]) }
/// The row which takes a to b when it multiplies a on the left
pub open spec fn taking(a: Seq<Bell>, b: Seq<Bell>) -> Seq<Bell> { compose(b, inverse(a)) }
/// What appending the rows lo..hi (then their left-over row) of `o` to `s` gives: each is pre-multiplied by the row which takes the first of them to the left-over row of s
pub open spec fn extended(s: Seq<Seq<Bell>>, o: Seq<Seq<Bell>>, lo: int, hi: int) -> Seq<Seq<Bell>> { s + trans_rows(taking(o[lo], s.last()), o.subrange(lo + 1, hi + 1)) }
pub proof fn lemma_extended<A>(a: &AnnotBlock<A>, o: &AnnotBlock<A>, lo: int, hi: int)
    requires a.ok(), o.ok(), 0 <= lo <= hi <= o.annots@.len(), a.st() == o.st()
    ensures ({ let t = taking(o.rs()[lo], a.rs().last());
            valid(t) && t.len() == a.st() && compose(t, o.rs()[lo]) == a.rs().last()
            && (forall|y: Seq<Bell>| valid(y) && y.len() == a.st() && #[trigger] compose(y, o.rs()[lo]) == a.rs().last() ==> y == t)
            && a.rs().drop_last() + trans_rows(t, o.rs().subrange(lo, hi + 1)) == extended(a.rs(), o.rs(), lo, hi)
            && extended(a.rs(), o.rs(), lo, hi).len() == a.rs().len() + hi - lo })
{
    let t = taking(o.rs()[lo], a.rs().last());
    lemma_rows(o); lemma_rows(a);
    lemma_inverse(o.rs()[lo]);
    lemma_solve_xa(o.rs()[lo], a.rs().last());
    lemma_compose_valid(a.rs().last(), inverse(o.rs()[lo]));
    assert(a.rs().drop_last() + trans_rows(t, o.rs().subrange(lo, hi + 1)) =~= extended(a.rs(), o.rs(), lo, hi));
}
/// Every row has the block's stage, and there are no more than can be counted
pub proof fn lemma_rows<A>(b: &AnnotBlock<A>)
    requires b.ok()
    ensures b.rs().len() <= usize::MAX, b.st() > 0, forall|i: int| 0 <= i < b.rs().len() ==> valid(#[trigger] b.rs()[i]) && b.rs()[i].len() == b.st() && fits(b.rs()[i])
{
    crate::row::same_stage_vec::lemma_vec_fits(&b.rows.bells);
    crate::row::same_stage_vec::lemma_rows_fit(&b.rows);
    crate::row::same_stage_vec::lemma_div(b.rows.bells@.len() as int, b.st());
    assert forall|i: int| 0 <= i < b.rs().len() implies valid(#[trigger] b.rs()[i]) && b.rs()[i].len() == b.st() && fits(b.rs()[i]) by { assert(row_refs(b.rows@)[i]@ == b.rs()[i]); }
}
@type block::InnerIter
pub type InnerIter<'b, A> = It<(usize, (&'b Row, &'b A))>;
@fn block::AnnotRow::new
    ensures res.row == row, res.annot == annot
@fn block::AnnotRow::row
    ensures res == self.row
@fn block::AnnotRow::annot
    ensures res == self.annot
@fn block::AnnotBlock::parse
    requires call_requires(A::default, ())
    ensures match res {
        Ok(b) => b.ok() && lines_spec(row_lines(s@), Ok(b.rows)) && forall|i: int| 0 <= i < b.annots@.len() ==> call_ensures(A::default, (), #[trigger] b.annots@[i]),
        Err(ParseError::Other(e)) => lines_spec(row_lines(s@), Err(e)),
        Err(ParseError::ZeroLengthBlock) => false }
@closure 0 |e: same_stage_vec::ParseError| -> (r: ParseError) ensures r == ParseError::Other(e)
@fn block::AnnotBlock::with_default_annots
    requires rows.ok(), rows@.len() > 0, call_requires(A::default, ())
    ensures res.ok(), res.rows == rows, forall|i: int| 0 <= i < res.annots@.len() ==> call_ensures(A::default, (), #[trigger] res.annots@[i])
@fn block::AnnotBlock::empty
    requires stage.0 > 0
    ensures res.ok(), res.rows.stage == stage, res.annots@.len() == 0, res.rs() == seq![rounds_seq(stage.0 as int)]
@fn block::AnnotBlock::with_annots_from_indices
    requires rows.ok(), forall|i: usize| i + 1 < rows@.len() ==> #[trigger] call_requires(f, (i,))
    ensures match res {
        None => rows@.len() == 0,
        Some(b) => rows@.len() > 0 && b.ok() && b.rows == rows && forall|i: int| 0 <= i < b.annots@.len() ==> call_ensures(f, (i as usize,), #[trigger] b.annots@[i]) }
@fn block::AnnotBlock::stage
    ensures res == self.rows.stage
@fn block::AnnotBlock::effective_stage
    requires self.ok()
    ensures (exists|i: int| 0 <= i < self.rs().len() && res.0 == #[trigger] eff_stage(self.rs()[i])), forall|i: int| 0 <= i < self.rs().len() ==> #[trigger] eff_stage(self.rs()[i]) <= res.0
@hint start
    proof { lemma_rows(self); }
@hint end
    proof { assert forall|i: int| 0 <= i < self.rs().len() implies #[trigger] eff_stage(self.rs()[i]) <= res.0 by { assert(crate::vf::ix(i)); } }
@fn block::AnnotBlock::is_empty
    ensures res == (self.annots@.len() == 0)
@fn block::AnnotBlock::len
    ensures res == self.annots@.len()
@fn block::AnnotBlock::get_row
    requires self.ok()
    ensures match res { Some(r) => index < self.rs().len() && r@ == self.rs()[index as int] && valid(r@), None => index >= self.rs().len() }
@fn block::AnnotBlock::get_annot
    ensures res == (if index < self.annots@.len() { Some(&self.annots@[index as int]) } else { None::<&A> })
@fn block::AnnotBlock::get_annot_mut
    requires old(self).ok()
    ensures res is Some <==> index < old(self).annots@.len(),
        res matches Some(r) ==> *r == old(self).annots@[index as int] && final(self).rows == old(self).rows && final(self).annots@ == old(self).annots@.update(index as int, *final(r)),
        res is None ==> final(self).annots@ == old(self).annots@ && final(self).rows == old(self).rows
@fn block::AnnotBlock::get_annot_row
    requires self.ok()
    ensures match res { Some(r) => index < self.annots@.len() && r.row@ == self.rs()[index as int] && valid(r.row@) && r.annot == self.annots@[index as int], None => index >= self.annots@.len() }
@fn block::AnnotBlock::first_row
    requires self.ok()
    ensures res@ == self.rs()[0], valid(res@)
@fn block::AnnotBlock::first_annot_row
    requires self.ok()
    ensures match res { Some(r) => 0 < self.annots@.len() && r.row@ == self.rs()[0] && valid(r.row@) && r.annot == self.annots@[0], None => self.annots@.len() == 0 }
@fn block::AnnotBlock::leftover_row
    requires self.ok()
    ensures res@ == self.rs().last(), valid(res@), res@.len() == self.st()
@fn block::AnnotBlock::rows
    requires self.ok()
    ensures res.ok(), res@ == self.rs().drop_last(), res.stage == self.rows.stage
@fn block::AnnotBlock::all_rows
    requires self.ok()
    ensures res.ok(), res@ == self.rs(), res.stage == self.rows.stage
@fn block::AnnotBlock::annots
    ensures res@ == ref_seq(self.annots@)
@fn block::AnnotBlock::annot_rows
    requires self.ok()
    ensures res@.len() == self.annots@.len(), forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]).row@ == self.rs()[i] && res@[i].annot == self.annots@[i]
@closure 0 |p: (&Row, &A)| -> (r: AnnotRow<A>) ensures r.row == p.0, r.annot == p.1
@fn block::AnnotBlock::path_of
    requires self.ok()
    ensures match res {
        None => bell.index >= self.st(),
        Some(p) => bell.index < self.st() && p.0@.len() == self.annots@.len() && (forall|i: int| 0 <= i < p.0@.len() ==> (#[trigger] p.0@[i]) < self.st() && self.rs()[i][p.0@[i] as int] == bell)
            && p.1 < self.st() && self.rs().last()[p.1 as int] == bell }
@fn block::AnnotBlock::full_path_of
    requires self.ok()
    ensures match res {
        None => bell.index >= self.st(),
        Some(p) => bell.index < self.st() && p@.len() == self.rs().len() && forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]) < self.st() && self.rs()[i][p@[i] as int] == bell }
@fn block::AnnotBlock::permute
    requires old(self).ok(), valid(lhs_row@)
    ensures final(self).ok(), final(self).annots == old(self).annots, final(self).rows.stage == old(self).rows.stage,
        lhs_row@.len() == old(self).st() ==> res is Ok && final(self).rs() == trans_rows(lhs_row@, old(self).rs()),
        lhs_row@.len() != old(self).st() ==> final(self).rs() == old(self).rs() && res == Err::<(), IncompatibleStages>(crate::stage::inc(Stage(lhs_row@.len() as usize), old(self).rows.stage))
@fn block::AnnotBlock::pre_multiply
    requires old(self).ok(), valid(lhs_row@)
    ensures final(self).ok(), final(self).annots == old(self).annots, final(self).rows.stage == old(self).rows.stage,
        lhs_row@.len() == old(self).st() ==> res is Ok && final(self).rs() == trans_rows(lhs_row@, old(self).rs()),
        lhs_row@.len() != old(self).st() ==> final(self).rs() == old(self).rs() && res == Err::<(), IncompatibleStages>(crate::stage::inc(Stage(lhs_row@.len() as usize), old(self).rows.stage))
@fn block::AnnotBlock::extend
    requires old(self).ok(), other.ok()
    ensures final(self).ok(), final(self).rows.stage == old(self).rows.stage,
        old(self).st() != other.st() ==> res == Err::<(), IncompatibleStages>(crate::stage::inc(old(self).rows.stage, other.rows.stage)) && final(self).rs() == old(self).rs() && final(self).annots@ == old(self).annots@,
        old(self).st() == other.st() ==> res is Ok && final(self).rs() == extended(old(self).rs(), other.rs(), 0, other.annots@.len() as int)
            && final(self).annots@.take(old(self).annots@.len() as int) == old(self).annots@ && all_cloned(other.annots@, final(self).annots@.skip(old(self).annots@.len() as int))
@hint start
    proof { assert(other.annots@.subrange(0, other.annots@.len() as int) =~= other.annots@); }
@fn block::AnnotBlock::extend_range
    requires old(self).ok(), other.ok(), 0 <= range_lo(range) <= range_hi(range, other.annots@.len() as int) <= other.annots@.len()
    ensures final(self).ok(), final(self).rows.stage == old(self).rows.stage,
        old(self).st() != other.st() ==> res == Err::<(), IncompatibleStages>(crate::stage::inc(old(self).rows.stage, other.rows.stage)) && final(self).rs() == old(self).rs() && final(self).annots@ == old(self).annots@,
        old(self).st() == other.st() ==> res is Ok && final(self).rs() == extended(old(self).rs(), other.rs(), range_lo(range), range_hi(range, other.annots@.len() as int))
            && final(self).annots@.take(old(self).annots@.len() as int) == old(self).annots@
            && all_cloned(other.annots@.subrange(range_lo(range), range_hi(range, other.annots@.len() as int)), final(self).annots@.skip(old(self).annots@.len() as int))
@opt generic_cloned
@hint start
    proof {
        lemma_rows(self); lemma_rows(other);
        if self.st() == other.st() { lemma_extended(self, other, range_lo(range), range_hi(range, other.annots@.len() as int)); }
    }
@hint end
    proof {
        assert(self.annots@.take(old(self).annots@.len() as int) =~= old(self).annots@);
        assert forall|i: int| 0 <= i < self.annots@.len() - old(self).annots@.len() implies cloned(#[trigger] other.annots@[range_lo(range) + i], self.annots@[old(self).annots@.len() + i]) by { assert(crate::vf::ix(i)); }
    }
@fn block::AnnotBlock::extend_from_within
    requires old(self).ok(), 0 <= range_lo(range) <= range_hi(range, old(self).annots@.len() as int) <= old(self).annots@.len()
    ensures final(self).ok(), final(self).rows.stage == old(self).rows.stage,
        final(self).rs() == extended(old(self).rs(), old(self).rs(), range_lo(range), range_hi(range, old(self).annots@.len() as int)),
        final(self).annots@.take(old(self).annots@.len() as int) == old(self).annots@,
        all_cloned(old(self).annots@.subrange(range_lo(range), range_hi(range, old(self).annots@.len() as int)), final(self).annots@.skip(old(self).annots@.len() as int))
@hint start
    proof { lemma_rows(self); lemma_extended(self, self, range_lo(range), range_hi(range, self.annots@.len() as int)); }
@fn block::AnnotBlock::into_row_vec
    ensures res == self.rows
@fn block::AnnotBlock::row_vec
    ensures res == self.rows
@fn block::AnnotBlock::map_annots
    requires self.ok(), forall|i: int| 0 <= i < self.annots@.len() ==> #[trigger] call_requires(f, (self.annots@[i],))
    ensures res.ok(), res.rows == self.rows, forall|i: int| 0 <= i < res.annots@.len() ==> call_ensures(f, (self.annots@[i],), #[trigger] res.annots@[i])
@fn block::AnnotBlock::map_annots_with_index
    requires self.ok(), forall|i: int| 0 <= i < self.annots@.len() ==> #[trigger] call_requires(f, (i as usize, self.annots@[i]))
    ensures res.ok(), res.rows == self.rows, forall|i: int| 0 <= i < res.annots@.len() ==> call_ensures(f, (i as usize, self.annots@[i]), #[trigger] res.annots@[i])
@closure 0 |p: (usize, A)| -> (r: B) requires call_requires(f, (p.0, p.1)) ensures call_ensures(f, (p.0, p.1), r)
@fn block::AnnotBlock::clone_map_annots_with_index
    requires self.ok(), forall|i: int| 0 <= i < self.annots@.len() ==> #[trigger] call_requires(f, (i as usize, &self.annots@[i]))
    ensures res.ok(), res.rs() == self.rs(), res.rows.stage == self.rows.stage, forall|i: int| 0 <= i < res.annots@.len() ==> call_ensures(f, (i as usize, &self.annots@[i]), #[trigger] res.annots@[i])
@closure 0 |p: (usize, &'s A)| -> (r: B) requires call_requires(f, (p.0, p.1)) ensures call_ensures(f, (p.0, p.1), r)
@fn block::AnnotBlock::split
    requires self.ok()
    ensures match res {
        None => index > self.annots@.len(),
        Some(p) => index <= self.annots@.len() && p.0.ok() && p.1.ok() && p.0.rows.stage == self.rows.stage && p.1.rows.stage == self.rows.stage
            && p.0.annots@ == self.annots@.take(index as int) && p.1.annots@ == self.annots@.skip(index as int)
            && p.0.rs() == self.rs().take(index + 1) && p.1.rs() == self.rs().skip(index as int) }
@mod block
impl<'b, A> RepeatIter<'b, A> {
    /// The head has the block's stage, and what is left of the pass is its end
    pub open spec fn ok(&self) -> bool {
        self.block.ok() && valid(self.current_block_head@) && self.current_block_head@.len() == self.block.st() && self.iter@.len() <= self.block.annots@.len()
        && self.iter@ == self.block.pairs().skip(self.block.annots@.len() - self.iter@.len())
    }
    /// How many rows of the pass have been given
    pub open spec fn place(&self) -> int { self.block.annots@.len() - self.iter@.len() }
}
/// One step of ringing `b` over and over: from head h with p rows of the pass given to head h2 with p2 given, giving the row at q under h2
pub open spec fn rep_step<A>(b: &AnnotBlock<A>, h: Seq<Bell>, p: int, h2: Seq<Bell>, p2: int) -> bool {
    if p < b.annots@.len() { h2 == h && p2 == p + 1 } else { h2 == compose(h, b.rs().last()) && p2 == 1 }
}
/// The head of pass k: the start row times the block's last row k times
pub open spec fn head<A>(b: &AnnotBlock<A>, start: Seq<Bell>, k: int) -> Seq<Bell> decreases k { if k <= 0 { start } else { compose(head(b, start, k - 1), b.rs().last()) } }
pub proof fn lemma_next_div(t: int, n: int)
    requires n > 0, t > 0
    ensures (t - 1) % n + 1 < n ==> t % n == (t - 1) % n + 1 && t / n == (t - 1) / n, (t - 1) % n + 1 >= n ==> (t - 1) % n + 1 == n && t % n == 0 && t / n == (t - 1) / n + 1
{
    let (q, r) = ((t - 1) / n, (t - 1) % n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t - 1, n);
    assert(n * (q + 1) == n * q + n) by (nonlinear_arith);
    assert(q * n == n * q && (q + 1) * n == n * (q + 1)) by (nonlinear_arith);
    if r + 1 < n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t, n, q, r + 1); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t, n, q + 1, 0); }
}
/// Stepping t + 1 times from the start of the first pass gives, at the last step, the row at place t % n of pass t / n
pub proof fn lemma_repeat<A>(b: &AnnotBlock<A>, start: Seq<Bell>, hs: Seq<Seq<Bell>>, ps: Seq<int>, t: int)
    requires b.ok(), b.annots@.len() > 0, hs.len() == ps.len(), hs.len() > t + 1, t >= 0, hs[0] == start, ps[0] == 0,
        forall|i: int| 0 <= i < hs.len() - 1 ==> rep_step(b, #[trigger] hs[i], ps[i], hs[i + 1], ps[i + 1])
    ensures hs[t + 1] == head(b, start, t / b.annots@.len() as int), ps[t + 1] == t % b.annots@.len() as int + 1
    decreases t
{
    let n = b.annots@.len() as int;
    assert(rep_step(b, hs[t], ps[t], hs[t + 1], ps[t + 1]));
    if t > 0 {
        lemma_repeat(b, start, hs, ps, t - 1);
        lemma_next_div(t, n);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(0, n, 0, 0);
    }
}
@fn block::AnnotBlock::repeat_iter
    requires self.ok(), valid(start_row@)
    ensures start_row@.len() == self.st() ==> (res matches Ok(r) && r.ok() && r.block == self && r.current_block_head@ == start_row@ && r.place() == 0),
        start_row@.len() != self.st() ==> res == Err::<RepeatIter<A>, IncompatibleStages>(crate::stage::inc(Stage(start_row@.len() as usize), self.rows.stage))
@fn block::RepeatIter::new
    requires block.ok(), valid(start_row@)
    ensures start_row@.len() == block.st() ==> (res matches Ok(r) && r.ok() && r.block == block && r.current_block_head@ == start_row@ && r.place() == 0),
        start_row@.len() != block.st() ==> res == Err::<RepeatIter<A>, IncompatibleStages>(crate::stage::inc(Stage(start_row@.len() as usize), block.rows.stage))
@hint start
    proof { assert(block.pairs().skip(0) =~= block.pairs()); }
@fn block::RepeatIter::get_iter
    requires block.ok()
    ensures res@ == block.pairs()
@hint start
    proof { lemma_rows(block); }
@hint end
    proof { assert(res@ =~= block.pairs()); }
@fn block::RepeatIter::next_untransposed_row
    requires old(self).ok()
    ensures final(self).ok(), final(self).block == old(self).block, match res {
        None => old(self).block.annots@.len() == 0,
        Some(t) => rep_step(old(self).block, old(self).current_block_head@, old(self).place(), final(self).current_block_head@, final(self).place())
            && t.0 == final(self).place() - 1 && t.1.0@ == old(self).block.rs()[t.0 as int] && valid(t.1.0@) && t.1.0@.len() == old(self).block.st() && t.1.1 == old(self).block.annots@[t.0 as int] }
@opt mul_method
@hint start
    proof { lemma_rows(self.block); lemma_compose_valid(self.current_block_head@, self.block.rs().last());
        let (it, ps) = (self.iter@, self.block.pairs());
        if it.len() > 0 { assert(it.skip(1) =~= ps.skip(ps.len() - (it.len() - 1))); }
        if ps.len() > 0 { assert(ps.skip(1) =~= ps.skip(ps.len() - (ps.len() - 1))); }
        assert(ps.skip(0) =~= ps);
        assert(ps.skip(ps.len() as int) =~= Seq::empty());
    }
@fn block::RepeatIter::next_into
    requires old(self).ok(), valid(old(out)@)
    ensures final(self).ok(), final(self).block == old(self).block, match res {
        None => old(self).block.annots@.len() == 0 && final(out)@ == old(out)@,
        Some(t) => rep_step(old(self).block, old(self).current_block_head@, old(self).place(), final(self).current_block_head@, final(self).place())
            && t.0 == final(self).place() - 1 && final(out)@ == compose(final(self).current_block_head@, old(self).block.rs()[t.0 as int]) && valid(final(out)@) && t.1 == old(self).block.annots@[t.0 as int] }
@fn block::<RepeatIter<A> as Iterator>::next => next
    requires old(self).ok()
    ensures final(self).ok(), final(self).block == old(self).block, match res {
        None => old(self).block.annots@.len() == 0,
        Some(t) => rep_step(old(self).block, old(self).current_block_head@, old(self).place(), final(self).current_block_head@, final(self).place())
            && t.1 == final(self).place() - 1 && t.0@ == compose(final(self).current_block_head@, old(self).block.rs()[t.1 as int]) && valid(t.0@) && t.2 == old(self).block.annots@[t.1 as int] }
@opt mul_method
@fn block::<AnnotRow<A> as Clone>::clone
    ensures res.row == self.row, res.annot == self.annot
