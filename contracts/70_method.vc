@mod method::class
use crate::sp::*;
/// The word for a class
pub open spec fn class_word(c: Class) -> Seq<char> {
    match c {
        Class::Principle => "Principle"@, Class::Place => "Place"@, Class::Bob => "Bob"@, Class::TrebleBob => "Treble Bob"@, Class::Delight => "Delight"@,
        Class::Surprise => "Surprise"@, Class::TreblePlace => "Treble Place"@, Class::Alliance => "Alliance"@, Class::Hybrid => "Hybrid"@ }
}
/// Titles leave out principle and hybrid
pub open spec fn in_title(c: Class) -> bool { !(c is Principle || c is Hybrid) }
/// One more word, separated by a space
pub open spec fn worded(t: Seq<char>, on: bool, w: Seq<char>) -> Seq<char> { if !on { t } else if t.len() == 0 { w } else { t.push(' ') + w } }
/// The words of a class: jump, differential, little and the class itself; a title leaves out principle and hybrid, and with them little
pub open spec fn class_text(c: FullClass, title: bool) -> Seq<char> {
    let shown = !title || in_title(c.class);
    worded(worded(worded(worded(Seq::empty(), c.is_jump, "Jump"@), c.is_differential, "Differential"@), shown && c.is_little, "Little"@), shown, class_word(c.class))
}
pub proof fn lemma_words()
    ensures " "@ == seq![' '], "Jump"@.len() == 4, "Differential"@.len() == 12, "Little"@.len() == 6, forall|c: Class| (#[trigger] class_word(c)).len() > 0,
        forall|a: Seq<char>, c: char| #[trigger] (a + seq![c]) == a.push(c)
{
    reveal_strlit(" "); reveal_strlit("Jump"); reveal_strlit("Differential"); reveal_strlit("Little");
    reveal_strlit("Principle"); reveal_strlit("Place"); reveal_strlit("Bob"); reveal_strlit("Treble Bob"); reveal_strlit("Delight"); reveal_strlit("Surprise"); reveal_strlit("Treble Place"); reveal_strlit("Alliance"); reveal_strlit("Hybrid");
    assert(" "@ =~= seq![' ']);
    assert forall|a: Seq<char>, c: char| #[trigger] (a + seq![c]) == a.push(c) by { assert(a + seq![c] =~= a.push(c)); }
}
impl VfShow for Class {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(class_word(*self)) }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
@fn method::class::<Class as Display>::fmt => vf_display
    ensures shows(*old(f), *final(f), res, class_word(*self))
@hint start
    proof { lemma_app(); }
@fn method::class::<FullClass as Display>::fmt => vf_display
    ensures shows(*old(f), *final(f), res, class_text(*self, false))
@fn method::class::FullClass::new
    ensures res == (FullClass { is_jump, is_little, is_differential, class })
@fn method::class::FullClass::is_jump
    ensures res == self.is_jump
@fn method::class::FullClass::is_little
    ensures res == self.is_little
@fn method::class::FullClass::is_differential
    ensures res == self.is_differential
@fn method::class::FullClass::class
    ensures res == self.class
@fn method::class::FullClass::fmt_name
    ensures shows(*old(f), *final(f), res, class_text(*self, is_for_title))
@hint start
    proof { lemma_words(); lemma_app(); }
@fn method::class::Class::name
    ensures res@ == class_word(self)
@fn method::class::Class::name_in_title
    ensures match res { Some(n) => in_title(self) && n@ == class_word(self), None => !in_title(self) }
@fn method::class::Class::is_plain
    ensures res == (self is Place || self is Bob)
@fn method::class::Class::is_treble_dodging
    ensures res == (self is TrebleBob || self is Delight || self is Surprise)
@fn method::class::Class::is_symmetric_hunter
    ensures res == !(self is Principle || self is Hybrid)
@fn method::class::Class::hunt_bell_class
    ensures res == hunt_class(self)
@mod method::class
pub open spec fn hunt_class(c: Class) -> Option<HuntBellClass> {
    match c {
        Class::Principle => None,
        Class::Place | Class::Bob => Some(HuntBellClass::Plain),
        Class::TrebleBob | Class::Delight | Class::Surprise => Some(HuntBellClass::TrebleDodging),
        Class::TreblePlace => Some(HuntBellClass::TreblePlace), Class::Alliance => Some(HuntBellClass::Alliance), Class::Hybrid => Some(HuntBellClass::Hybrid) }
}
@mod method
use crate::sp::*;
use core::ops::Mul;
use crate::Bell;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits};
/// The standard title: name, class and stage as far as there are any, with a space after each but the last
pub open spec fn title_text(name: Seq<char>, class: FullClass, stage: Stage) -> Seq<char> {
    let c = class::class_text(class, true);
    (if name.len() == 0 { name } else { name.push(' ') }) + (if c.len() == 0 { c } else { c.push(' ') }) + crate::stage::stage_name(stage.0 as int)
}
impl Method {
    /// The lead is made of rows of one stage and starts from rounds
    pub open spec fn ok(&self) -> bool { self.first_lead.ok() && self.first_lead.rs()[0] == rounds_seq(self.first_lead.st()) }
    pub open spec fn n(&self) -> int { self.first_lead.annots@.len() as int }
    pub open spec fn lh(&self) -> Seq<Bell> { self.first_lead.rs().last() }
    /// The row at `i` of the course: the lead head once per complete lead, then the lead's own row
    pub open spec fn row_at(&self, i: int) -> Seq<Bell> { compose(pow(self.lh(), i / self.n()), self.first_lead.rs()[i % self.n()]) }
    /// k leads of the course, with the row they lead to
    pub open spec fn leads(&self, rs: Seq<Seq<Bell>>, k: int) -> bool { rs.len() == k * self.n() + 1 && forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] == self.row_at(i) }
    /// The first time the lead head comes back to rounds
    pub open spec fn first_round(&self, k: int) -> bool { k >= 1 && !not_rounds(self.lh(), k) && forall|j: int| 1 <= j < k ==> #[trigger] not_rounds(self.lh(), j) }
}
pub open spec fn carries(l: Option<String>, s: Seq<char>) -> bool { l is Some && l->0@ == s }
pub open spec fn label_of(l: Option<String>, s: Option<&str>) -> bool { match s { Some(s) => l is Some && s@ == l->0@, None => l is None } }
/// Row `i` of the course carries its index within the lead, and that row's label
pub open spec fn annotated(m: &Method, a: RowAnnot, i: int) -> bool { a.sub_lead_idx == i % m.n() && label_of(m.first_lead.annots@[i % m.n()], a.label) }
impl<'meth> Clone for RowAnnot<'meth> { fn clone(&self) -> (r: Self) ensures r == *self { RowAnnot { sub_lead_idx: self.sub_lead_idx, label: self.label } } }
pub proof fn lemma_divs(n: int, k: int, j: int)
    requires n > 0, 0 <= j <= n
    ensures j < n ==> (k * n + j) / n == k && (k * n + j) % n == j, (k * n + n) / n == k + 1, (k * n + n) % n == 0, (k + 1) * n == k * n + n
{
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    if j < n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k * n + j, n, k, j); }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k * n + n, n, k + 1, 0);
}
/// The lead itself is one lead of the course
pub proof fn lemma_one_lead(m: &Method)
    requires m.ok(), m.n() > 0
    ensures m.leads(m.first_lead.rs(), 1), valid(m.lh()), m.lh().len() == m.first_lead.st(), fits(m.lh())
{
    crate::block::lemma_rows(&m.first_lead);
    let rs = m.first_lead.rs();
    assert(rs.last() == rs[m.n()]);
    lemma_pow1(m.lh());
    assert forall|i: int| 0 <= i < rs.len() implies #[trigger] rs[i] == m.row_at(i) by {
        lemma_divs(m.n(), 0, i);
        if i == m.n() { lemma_compose_rounds(m.lh()); } else { lemma_compose_rounds(rs[i]); }
    }
}
/// Row j of one more lead
proof fn lemma_more_row(m: &Method, k: int, j: int, r: Seq<Bell>)
    requires m.ok(), m.n() > 0, k >= 1, 1 <= j <= m.n(), r == m.row_at(j)
    ensures compose(pow(m.lh(), k), r) == m.row_at(k * m.n() + j)
{
    let (n, lh) = (m.n(), m.lh());
    lemma_one_lead(m);
    crate::block::lemma_rows(&m.first_lead);
    lemma_divs(n, k, j); lemma_divs(n, 0, j);
    assert(m.first_lead.rs()[j] == m.row_at(j));
    if j == n {
        lemma_pow_valid(lh, k + 1); lemma_compose_rounds(pow(lh, k + 1));
        assert(r == lh);
        assert(pow(lh, k + 1) == compose(pow(lh, k), lh));
        assert(m.row_at(k * n + n) == compose(pow(lh, k + 1), m.first_lead.rs()[0]));
    } else {
        assert(m.row_at(k * n + j) == compose(pow(lh, k), m.first_lead.rs()[j]));
    }
}
proof fn lemma_taking_rounds(b: Seq<Bell>)
    requires valid(b), fits(b), b.len() > 0
    ensures crate::block::taking(rounds_seq(b.len() as int), b) == b
{ lemma_rounds_valid(b.len() as int); lemma_inverse(rounds_seq(b.len() as int)); lemma_compose_rounds(inverse(rounds_seq(b.len() as int))); lemma_compose_rounds(b); }
/// The ends of k leads
proof fn lemma_lead_ends(m: &Method, rs: Seq<Seq<Bell>>, k: int)
    requires m.ok(), m.n() > 0, k >= 1, m.leads(rs, k)
    ensures k * m.n() >= m.n(), rs[0] == rounds_seq(m.first_lead.st()), rs.last() == pow(m.lh(), k), crate::block::taking(rs[0], rs.last()) == pow(m.lh(), k)
{
    let (n, lh, st) = (m.n(), m.lh(), m.first_lead.st());
    lemma_one_lead(m);
    crate::block::lemma_rows(&m.first_lead);
    lemma_pow_valid(lh, k);
    lemma_compose_rounds(pow(lh, k)); lemma_taking_rounds(pow(lh, k));
    lemma_divs(n, k, 0); lemma_divs(n, 0, 0);
    assert(k * n >= n) by (nonlinear_arith) requires k >= 1, n > 0;
    assert(rs[0] == m.row_at(0));
    assert(m.row_at(0) == m.first_lead.rs()[0]) by { assert(m.first_lead.rs()[0] == m.row_at(0)); }
    assert(rs[k * n] == m.row_at(k * n));
}
/// The annotations of one more lead
proof fn lemma_more_annots(m: &Method, a: Seq<RowAnnot>, b: Seq<RowAnnot>, k: int)
    requires m.n() > 0, k >= 1, a.len() == k * m.n(), k * m.n() >= m.n(), b.len() >= a.len(), b.take(a.len() as int) == a, crate::block::all_cloned(a.subrange(0, m.n()), b.skip(a.len() as int)),
        forall|i: int| 0 <= i < a.len() ==> annotated(m, #[trigger] a[i], i)
    ensures forall|i: int| 0 <= i < b.len() ==> annotated(m, #[trigger] b[i], i)
{
    let n = m.n();
    assert forall|i: int| 0 <= i < b.len() implies annotated(m, #[trigger] b[i], i) by {
        if i < a.len() { assert(b[i] == b.take(a.len() as int)[i]); assert(annotated(m, a[i], i)); } else {
            let j = i - k * n;
            lemma_divs(n, k, j); lemma_divs(n, 0, j);
            assert(b.skip(a.len() as int)[j] == b[i]);
            assert(a.subrange(0, n)[j] == a[j]);
            assert(cloned(a.subrange(0, n)[j], b.skip(a.len() as int)[j]));
            assert(annotated(m, a[j], j));
        }
    }
}
/// One more lead
pub proof fn lemma_next_lead(m: &Method, rs: Seq<Seq<Bell>>, k: int)
    requires m.ok(), m.n() > 0, k >= 1, m.leads(rs, k)
    ensures m.leads(crate::block::extended(rs, rs, 0, m.n()), k + 1)
{
    let n = m.n();
    let new = crate::block::extended(rs, rs, 0, n);
    lemma_lead_ends(m, rs, k);
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    let t = crate::block::taking(rs[0], rs.last());
    let tail = rs.subrange(1, n + 1);
    let tr = crate::row::same_stage_vec::trans_rows(t, tail);
    assert(new == rs + tr);
    assert forall|i: int| 0 <= i < new.len() implies #[trigger] new[i] == m.row_at(i) by {
        if i < rs.len() { assert(new[i] == rs[i]); } else {
            let j = i - k * n;
            assert(rs[j] == m.row_at(j));
            lemma_more_row(m, k, j, rs[j]);
            assert(tail[j - 1] == rs[j]);
            assert(tr[j - 1] == compose(t, tail[j - 1]));
            assert(new[i] == tr[j - 1]);
        }
    }
}
@derive method::RowAnnot Debug
@fn method::RowAnnot::new
    ensures res.sub_lead_idx == sub_lead_idx, res.label == label
@fn method::RowAnnot::sub_lead_idx
    ensures res == self.sub_lead_idx
@fn method::RowAnnot::label
    ensures res == self.label
@fn method::Method::new
    ensures res.title == title, res.name == name, res.class == class, res.first_lead == first_lead
@fn method::Method::lead
    ensures res == self.first_lead
@fn method::Method::first_lead
    ensures res == self.first_lead
@fn method::Method::lead_head
    requires self.first_lead.ok()
    ensures res@ == self.lh(), valid(res@), res@.len() == self.first_lead.st()
@fn method::Method::lead_len
    ensures res == self.n()
@fn method::Method::stage
    ensures res == self.first_lead.rows.stage
@fn method::Method::name
    ensures res@ == self.name@
@fn method::Method::title
    ensures res@ == self.title@
@fn method::Method::row_in_plain_lead
    requires self.first_lead.ok(), idx <= self.n()
    ensures res@ == self.first_lead.rs()[idx as int], valid(res@), res@.len() == self.first_lead.st()
@hint start
    proof { crate::block::lemma_rows(&self.first_lead); }
@fn method::Method::row_in_plain_course
    requires self.first_lead.ok(), self.n() > 0
    ensures res@ == self.row_at(idx as int), valid(res@)
@opt mul_method
@fn method::Method::plain_course
    requires self.ok()
    ensures res.ok(), res.rows.stage == self.first_lead.rows.stage,
        self.n() == 0 ==> res.rs() == self.first_lead.rs(),
        self.n() > 0 ==> exists|k: int| #[trigger] self.first_round(k) && self.leads(res.rs(), k),
        forall|i: int| 0 <= i < res.annots@.len() ==> annotated(self, #[trigger] res.annots@[i], i)
@closure 0 |i: usize, label: &Option<String>| -> (r: RowAnnot) ensures r.sub_lead_idx == i, label_of(*label, r.label)
@hint start
    let ghost mut k = 1int;
    proof { crate::block::lemma_rows(&self.first_lead); if self.n() > 0 { lemma_one_lead(self); lemma_pow1(self.lh()); assert(1 * self.n() == self.n()); } }
@loop 0
    invariant self.ok(), k >= 1, plain_course.ok(), plain_course.rows.stage == self.first_lead.rows.stage, valid(self.lh()), fits(self.lh()), self.lh().len() == self.first_lead.st(),
        self.n() == 0 ==> plain_course.rs() == self.first_lead.rs() && plain_course.annots@.len() == 0,
        self.n() > 0 ==> self.leads(plain_course.rs(), k) && plain_course.rs().last() == pow(self.lh(), k) && (forall|j: int| 1 <= j < k ==> #[trigger] not_rounds(self.lh(), j)),
        forall|i: int| 0 <= i < plain_course.annots@.len() ==> annotated(self, #[trigger] plain_course.annots@[i], i)
    decreases npow(self.lh().len() as int, self.lh().len()) - k
@hint loop 0 before
    proof { if self.n() > 0 { assert forall|i: int| 0 <= i < plain_course.annots@.len() implies annotated(self, #[trigger] plain_course.annots@[i], i) by { lemma_divs(self.n(), 0, i); } } }
@hint loop 0 start
    let ghost before = plain_course;
    proof { assert(self.n() > 0); assert(not_rounds(self.lh(), k)); lemma_powers_bounded(self.lh(), k + 1); lemma_lead_ends(self, before.rs(), k); lemma_next_lead(self, before.rs(), k); }
@hint loop 0 end
    proof {
        k = k + 1;
        lemma_lead_ends(self, plain_course.rs(), k);
        lemma_more_annots(self, before.annots@, plain_course.annots@, k - 1);
    }
@hint end
    proof { if self.n() > 0 { assert(self.first_round(k)); } }
@fn method::Method::set_label
    requires old(self).ok(), index < old(self).n()
    ensures final(self).ok(), final(self).first_lead.rows == old(self).first_lead.rows, final(self).first_lead.annots@ == old(self).first_lead.annots@.update(index as int, label),
        final(self).name == old(self).name, final(self).title == old(self).title, final(self).class == old(self).class
@fn method::Method::set_lead_end_label
    requires old(self).ok(), 0 < old(self).n()
    ensures final(self).ok(), final(self).first_lead.rows == old(self).first_lead.rows, final(self).first_lead.annots@.len() == old(self).n(), final(self).first_lead.annots@.skip(1) == old(self).first_lead.annots@.skip(1),
        final(self).first_lead.annots@[0] is Some, final(self).first_lead.annots@[0]->0@ == "LE"@, final(self).name == old(self).name, final(self).title == old(self).title, final(self).class == old(self).class
@fn method::Method::get_label
    requires index < self.first_lead.annots@.len()
    ensures label_of(self.first_lead.annots@[index as int], res)
@fn method::Method::label_indices
    ensures forall|i: int, j: int| 0 <= i < j < res@.len() ==> res@[i] < res@[j], forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] < self.n(),
        forall|i: int| 0 <= i < self.n() ==> (res@.contains(i as usize) <==> carries(#[trigger] self.first_lead.annots@[i], label@))
@closure 0 |l: &Option<String>| -> (r: bool) ensures r == carries(*l, label@)
@hint start
    proof { let ls = self.first_lead.annots@; assert forall|i: int| 0 <= i < ls.len() implies #[trigger] ls[i] == *ref_seq(ls)[i] by {} }
@opt text_eq
@fn method::generate_title
    requires 1 <= stage.0 <= 22
    ensures res@ == title_text(name@, class, stage)
@hint start
    let ghost c = class::class_text(class, true);
    let ghost t0 = if name@.len() == 0 { name@ } else { name@.push(' ') };
    proof { lemma_app(); lemma_byte_len(t0 + c, t0.len() as int); assert((t0 + c).take(t0.len() as int) =~= t0); assert((t0 + c).skip(t0.len() as int) =~= c); lemma_byte_len(c, 0);
        assert(t0 + c.push(' ') =~= (t0 + c).push(' '));
        assert(Seq::<char>::empty() + name@ =~= name@); assert(t0 + Seq::<char>::empty() =~= t0); }
@mod method
impl Method {
    /// Named and classified after its lead
    pub open spec fn made(&self, name: Seq<char>, lead: AnnotBlock<Option<String>>) -> bool {
        self.name@ == name && self.first_lead == lead && class::classified(lead.rs(), self.class) && self.title@ == title_text(name, self.class, lead.rows.stage)
    }
    pub open spec fn rung(&self, name: Seq<char>, block: Seq<crate::place_not::PnV>) -> bool {
        &&& self.ok() && self.n() == block.len() && self.first_lead.rows.stage == block[0].stage && self.name@ == name
        &&& crate::place_not::expansion(self.first_lead.rs(), rounds_seq(block[0].stage.0 as int), block, block.len() as int)
        &&& class::classified(self.first_lead.rs(), self.class)
        &&& self.title@ == title_text(name, self.class, block[0].stage)
    }
}
@fn method::Method::with_name
    requires first_lead.ok(), first_lead.annots@.len() > 0, first_lead.rs()[0] == rounds_seq(first_lead.st()), first_lead.rows.stage.0 <= 22
    ensures res.made(name@, first_lead)
@hint start
    proof { crate::block::lemma_rows(&first_lead); }
@fn method::Method::from_place_not_string
    requires 1 <= stage.0 <= 22
    ensures match crate::place_not::block_of(place_notation@, stage) {
        Ok(b) => res matches Ok(m) && m.rung(name@, b) && b[0].stage == stage && forall|i: int| 0 <= i < m.n() ==> (#[trigger] m.first_lead.annots@[i]) is None,
        Err(e) => res == Err::<Method, PnBlockParseError>(e),
    }
@fn method::Method::with_lead_end
    requires crate::place_not::bwf(block@), block@[0].stage.0 <= 22
    ensures res.rung(name@, block@),
        forall|i: int| 0 <= i < res.n() - 1 ==> (#[trigger] res.first_lead.annots@[i]) is None,
        res.first_lead.annots@.last() is Some, res.first_lead.annots@.last()->0@ == "LE"@
