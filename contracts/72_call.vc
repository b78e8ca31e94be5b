@mod call
use crate::sp::*;
use crate::Bell;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits};
impl Call {
    pub open spec fn ok(&self) -> bool { self.block.ok() }
    /// A call over the lead end, which rings the changes of b
    pub open spec fn over_lead_end(&self, n: char, b: Seq<crate::place_not::PnV>) -> bool {
        &&& self.ok() && self.notation == n && self.location@ == "LE"@ && self.covers == b.len() && self.block.rows.stage == b[0].stage && self.block.annots@.len() == b.len()
        &&& crate::place_not::expansion(self.block.rs(), rounds_seq(b[0].stage.0 as int), b, b.len() as int)
    }
}
@fn call::Call::new
    ensures res.notation == notation, res.location == location, res.covers == covers, res.block == block
@fn call::Call::le_bob
    requires crate::place_not::bwf(pn_block@)
    ensures res.over_lead_end('-', pn_block@)
@fn call::Call::le_single
    requires crate::place_not::bwf(pn_block@)
    ensures res.over_lead_end('s', pn_block@)
@fn call::Call::block
    ensures res == self.block
@fn call::Call::stage
    ensures res == self.block.rows.stage
@fn call::Call::cover_len
    ensures res == self.covers
@fn call::Call::len
    requires self.ok()
    ensures res == self.block.annots@.len()
@fn call::Call::notation
    ensures res == self.notation
@fn call::Call::location
    ensures res@ == self.location@
@fn call::Call::transposition
    requires self.ok()
    ensures res@ == self.block.rs().last(), valid(res@), res@.len() == self.block.st()
@fn call::Call::effective_stage
    requires self.ok()
    ensures (exists|i: int| 0 <= i < self.block.rs().len() && res.0 == #[trigger] eff_stage(self.block.rs()[i])), forall|i: int| 0 <= i < self.block.rs().len() ==> #[trigger] eff_stage(self.block.rs()[i]) <= res.0
