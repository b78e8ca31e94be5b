@-- Displayed text, and reading it back
@mod bell
/// The text of a sequence of bells
pub open spec fn row_text(s: Seq<Bell>) -> Seq<char> { cat(s, |b: Bell| bell_text(b)) }
pub open spec fn named(s: Seq<Bell>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).index < 33 }
/// The displayed text of bells with names is read back as those bells
pub proof fn lemma_bells_back(s: Seq<Bell>)
    requires named(s)
    ensures bells_in(row_text(s)) == s
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] bell_text(s[i])).len() == 1 && bell_of(bell_text(s[i])[0]) == Some(s[i]) by { lemma_bell_back(s[i]); }
    lemma_cat_back(s, |b: Bell| bell_text(b), |c: char| bell_of(c));
}
pub proof fn lemma_row_text_chars(s: Seq<Bell>)
    requires named(s)
    ensures row_text(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] row_text(s)[i] == bell_names()[s[i].index as int]
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] bell_text(s[i])).len() == 1 && bell_of(bell_text(s[i])[0]) == Some(s[i]) by { lemma_bell_back(s[i]); }
    lemma_cat_back(s, |b: Bell| bell_text(b), |c: char| bell_of(c));
}
@mod row::borrowed
impl crate::vf::VfShow for Row {
    open spec fn show_ok(&self) -> bool { valid(self@) }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(crate::bell::row_text(self@)) }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
@fn row::borrowed::<Row as Display>::fmt => vf_display
    requires valid(self@)
    ensures crate::vf::shows(*old(f), *final(f), res, crate::bell::row_text(self@))
@hint start
    let ghost f0 = *f;
    proof { crate::vf::lemma_app(); }
@loop 0
    invariant f0 == *old(f), xs_0 == self@, valid(self@), crate::vf::shows(f0, *f, Ok(()), crate::vf::cat(xs_0.take(k_0), |b: Bell| crate::bell::bell_text(b)))
@hint loop 0 start
    proof { crate::vf::lemma_app(); assert(xs_0.take(k_0).drop_last() =~= xs_0.take(k_0 - 1)); assert(self@[k_0 - 1].index < self@.len()); }
@hint loop 0 after
    proof { assert(xs_0.take(k_0) =~= xs_0); }
@fn row::borrowed::<Row as Debug>::fmt => vf_debug
    requires valid(self@)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@hint start
    proof { crate::vf::lemma_app(); }
@mod row::owned
impl crate::vf::VfShow for RowBuf {
    open spec fn show_ok(&self) -> bool { valid(self@) }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(crate::bell::row_text(self@)) }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
/// A displayed row of at most 33 bells is read back as itself, with or without its stage
pub proof fn lemma_row_back(r: Seq<Bell>, a: Result<RowBuf, InvalidRowError>, b: Result<RowBuf, InvalidRowError>)
    requires valid(r), r.len() <= 33, vec_spec(crate::bell::bells_in(crate::bell::row_text(r)), a), stage_spec(crate::bell::bells_in(crate::bell::row_text(r)), r.len() as int, b)
    ensures a matches Ok(x) && x@ == r, b matches Ok(y) && y@ == r
{
    crate::bell::lemma_bells_back(r);
    assert(no_bad(r, r.len() as int)) by { assert forall|i: int| 0 <= i < r.len() implies !#[trigger] bad_at(r, r.len() as int, i) by { assert(r[i].index < r.len()); } }
    lemma_max_bound(r);
    assert forall|c: int| 0 <= c < max_idx(r) implies !#[trigger] missing(r, c) by { let m = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).index == max_idx(r); lemma_idx_of(r, c); assert(r[idx_of(r, c)].index == c); }
    assert(padded(r, r.len() as int) =~= r);
}
@fn row::owned::<RowBuf as Display>::fmt => vf_display
    requires valid(self@)
    ensures crate::vf::shows(*old(f), *final(f), res, crate::bell::row_text(self@))
@fn row::owned::<RowBuf as Debug>::fmt => vf_debug
    requires valid(self@)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@hint start
    proof { crate::vf::lemma_app(); }
@mod row::errors
impl crate::vf::VfShow for InvalidRowError {
    open spec fn show_ok(&self) -> bool { match *self { InvalidRowError::DuplicateBell(b) => b.index < usize::MAX, InvalidRowError::BellOutOfStage(b, _) => b.index < usize::MAX, InvalidRowError::NoBells => true, InvalidRowError::MissingBell(b) => b.index < usize::MAX } }
    open spec fn shown(&self) -> Option<Seq<char>> { None }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
@fn row::errors::<InvalidRowError as Display>::fmt => vf_display
    requires crate::vf::VfShow::show_ok(self)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@hint start
    proof { crate::vf::lemma_app(); }
@fn row::errors::<MulIntoError as Display>::fmt => vf_display
    ensures crate::vf::quiet(*old(f), *final(f), res)
@hint start
    proof { crate::vf::lemma_app(); }
@mod row::owned
/// What reading a row from text reports can be displayed
pub proof fn lemma_row_errors(s: Seq<char>, n: int, e: InvalidRowError)
    requires vec_spec(crate::bell::bells_in(s), Err(e)) || stage_spec(crate::bell::bells_in(s), n, Err(e))
    ensures crate::vf::VfShow::show_ok(&e)
{
    let b = crate::bell::bells_in(s);
    crate::bell::lemma_bells_named(s);
    lemma_max_bound(b);
    if exists|i: int| #[trigger] first_bad(b, b.len() as int, i) { let i = choose|i: int| #[trigger] first_bad(b, b.len() as int, i); assert(b[i].index < 33); }
    if exists|i: int| #[trigger] first_bad(b, n, i) { let i = choose|i: int| #[trigger] first_bad(b, n, i); assert(b[i].index < 33); }
    if b.len() > 0 { let m = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).index == max_idx(b); assert(b[m].index < 33); }
}
@mod bell
pub proof fn lemma_bells_named(s: Seq<char>)
    ensures named(bells_in(s))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_bells_named(s.drop_last());
        let d = bells_in(s.drop_last());
        assert forall|i: int| 0 <= i < bells_in(s).len() implies (#[trigger] bells_in(s)[i]).index < 33 by { if i < d.len() { assert(bells_in(s)[i] == d[i]); } }
    }
}
@mod place_not
pub open spec fn pn_text(p: PnV) -> Seq<char> { if p.places.len() == 0 { seq!['-'] } else { crate::bell::row_text(p.places.map_values(|p: usize| Bell { index: p })) } }
impl crate::vf::VfShow for PlaceNot {
    open spec fn show_ok(&self) -> bool { wf(self@) }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(pn_text(self@)) }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
@fn place_not::<PlaceNot as Display>::fmt => vf_display
    requires wf(self@)
    ensures crate::vf::shows(*old(f), *final(f), res, pn_text(self@))
@hint start
    let ghost f0 = *f;
    proof { crate::vf::lemma_app(); reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
@loop 0
    invariant f0 == *old(f), wf(self@), self@.places.len() > 0, xs_0.len() == self@.places.len(), forall|i: int| 0 <= i < xs_0.len() ==> *#[trigger] xs_0[i] == self@.places[i],
        crate::vf::shows(f0, *f, Ok(()), crate::bell::row_text(self@.places.map_values(|p: usize| Bell { index: p }).take(k_0)))
@hint loop 0 start
    proof { crate::vf::lemma_app(); let t = self@.places.map_values(|p: usize| Bell { index: p }); assert(t.take(k_0).drop_last() =~= t.take(k_0 - 1)); assert(*xs_0[k_0 - 1] == self@.places[k_0 - 1]); assert(t.take(k_0).last() == t[k_0 - 1]); }
@hint loop 0 after
    proof { let t = self@.places.map_values(|p: usize| Bell { index: p }); assert(t.take(k_0) =~= t); }
@fn place_not::<PlaceNot as Debug>::fmt => vf_debug
    requires wf(self@)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@hint start
    proof { crate::vf::lemma_app(); }
@mod place_not
/// A displayed place notation of at most 33 bells is read back, at its stage, as itself
pub open spec fn parses_to(s: Seq<char>, stage: Stage, res: Result<PlaceNot, ParseError>) -> bool {
    &&& s.len() == 1 && is_cross_char(s[0]) ==> (if stage.0 % 2 == 0 { res matches Ok(p) && p@ == PnV { places: Seq::empty(), stage } && wf(p@) } else { res == Err::<PlaceNot, ParseError>(ParseError::OddStageCross(stage)) })
    &&& !(s.len() == 1 && is_cross_char(s[0])) ==> same_pn(res, meaning_of(places_in(s).sort_by(crate::vf::usize_leq()), stage))
}
pub proof fn lemma_expand_full(s: Seq<usize>, k: int)
    requires incr(s), 0 <= k < s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) % 2 == i % 2
    ensures exp_pre(s, k) == s.take(k), gaps_ok(s)
    decreases k
{
    assert forall|j: int| !#[trigger] gap_bad(s, j) by { if 0 <= j < s.len() - 1 { assert(s[j] < s[j + 1]); assert(s[j] % 2 == j % 2); assert(s[j + 1] % 2 == (j + 1) % 2); } }
    assert(s[0] % 2 == 0);
    if k > 0 { lemma_expand_full(s, k - 1); assert(s[k] % 2 == k % 2); assert(s[k - 1] % 2 == (k - 1) % 2); assert(s.take(k) =~= s.take(k - 1).push(s[k - 1])); }
    else { assert(s.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_pn_back(p: PnV, res: Result<PlaceNot, ParseError>)
    requires wf(p), p.stage.0 <= 33, parses_to(pn_text(p), p.stage, res)
    ensures res matches Ok(q) && q@ == p,
{
    let s = p.places;
    let t = s.map_values(|p: usize| Bell { index: p });
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).index < 33 by { assert(s[i] < p.stage.0); }
        crate::bell::lemma_bells_back(t);
        assert(places_in(pn_text(p)) =~= s);
        crate::bell::lemma_row_text_chars(t);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies crate::vf::usize_leq()(s[i], s[j]) by { }
        lemma_sorted_places(s);
        s.lemma_sort_by_ensures(crate::vf::usize_leq());
        vstd::seq_lib::lemma_sorted_unique(s, s.sort_by(crate::vf::usize_leq()), crate::vf::usize_leq());
        lemma_expand_full(s, s.len() - 1);
        let l = s.len() - 1;
        assert(s[l] % 2 == l % 2); assert(s[l] < p.stage.0);
        assert(s.take(l).push(s[l]) =~= s);
        assert(expand(s, p.stage.0 as int) == s);
    } else { assert(s =~= Seq::empty()); }
}
@mod place_not
/// The errors of reading a place notation, or a block of them, can be displayed
pub open spec fn pn_err_ok(e: ParseError) -> bool {
    match e { ParseError::PlaceOutOfStage { place, stage } => place < usize::MAX, ParseError::AmbiguousPlacesBetween { p, q } => p < q < usize::MAX, ParseError::DuplicatePlace(p) => p < usize::MAX, _ => true }
}
impl crate::vf::VfShow for ParseError {
    open spec fn show_ok(&self) -> bool { pn_err_ok(*self) }
    open spec fn shown(&self) -> Option<Seq<char>> { None }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
impl crate::vf::VfShow for PnBlockParseError {
    open spec fn show_ok(&self) -> bool { match *self { PnBlockParseError::PnError(_, e) => pn_err_ok(e), _ => true } }
    open spec fn shown(&self) -> Option<Seq<char>> { None }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
@fn place_not::<ParseError as Display>::fmt => vf_display
    requires pn_err_ok(*self)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@fn place_not::<PnBlockParseError as Display>::fmt => vf_display
    requires crate::vf::VfShow::show_ok(self)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@fn place_not::<InvalidPnBlockError as Display>::fmt => vf_display
    ensures crate::vf::quiet(*old(f), *final(f), res)
@mod place_not
pub proof fn lemma_meaning_err(s: Seq<usize>, stage: Stage, e: ParseError)
    requires nondec(s), meaning_of(s, stage) == Err::<PnV, ParseError>(e), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < usize::MAX
    ensures pn_err_ok(e)
{
    if s.len() > 0 && s.last() < stage.0 && !gaps_ok(s) {
        let j = choose|j: int| #[trigger] gap_bad(s, j);
        lemma_some_first_gap(s, j);
        let i = choose|i: int| first_gap_bad(s, i);
        assert(s[i] <= s[i + 1]);
    }
}
pub proof fn lemma_some_first_gap(s: Seq<usize>, j: int)
    requires gap_bad(s, j)
    ensures exists|i: int| first_gap_bad(s, i)
    decreases j
{
    if first_gap_bad(s, j) { } else { let k = choose|k: int| 0 <= k < j && #[trigger] gap_bad(s, k); lemma_some_first_gap(s, k); }
}
pub proof fn lemma_small_sorted(s: Seq<usize>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < usize::MAX
    ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s.sort_by(crate::vf::usize_leq())[i]) < usize::MAX, nondec(s.sort_by(crate::vf::usize_leq())), s.sort_by(crate::vf::usize_leq()).len() == s.len()
{
    lemma_sorted_places(s);
    let t = s.sort_by(crate::vf::usize_leq());
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]) < usize::MAX by { assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); assert(s.contains(t[i])); }
}
/// Whatever is wrong with the text of a change can be displayed
pub proof fn lemma_pn_err(s: Seq<char>, stage: Stage, e: ParseError)
    requires parses_to(s, stage, Err(e))
    ensures pn_err_ok(e)
{
    crate::bell::lemma_bells_named(s);
    let p = places_in(s);
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) < usize::MAX by { assert(crate::bell::bells_in(s)[i].index < 33); }
    lemma_small_sorted(p);
    if !(s.len() == 1 && is_cross_char(s[0])) { lemma_meaning_err(p.sort_by(crate::vf::usize_leq()), stage, e); }
}
pub open spec fn blk_err_ok(e: PnBlockParseError) -> bool { match e { PnBlockParseError::PnError(_, e) => pn_err_ok(e), _ => true } }
pub open spec fn small(s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < usize::MAX }
pub open spec fn toks_named(t: Seq<(usize, CharMeaning)>) -> bool { forall|i: int| 0 <= i < t.len() ==> ((#[trigger] t[i]).1 matches CharMeaning::Bell(b) ==> b.index < 33) }
pub proof fn lemma_rd_small(t: Seq<(usize, CharMeaning)>, k: int, stage: Stage)
    requires toks_named(t), k <= t.len()
    ensures match rd(t, k, stage) { Ok(st) => small(st.places), Err(e) => blk_err_ok(e) }
    decreases k
{
    if k > 0 {
        lemma_rd_small(t, k - 1, stage);
        if let Ok(st) = rd(t, k - 1, stage) {
            lemma_small_sorted(st.places);
            let x = t[k - 1];
            if rd_flush(st, x.0, stage) is Err { lemma_meaning_err(st.places.sort_by(crate::vf::usize_leq()), stage, rd_flush(st, x.0, stage)->Err_0->PnError_1); }
            match x.1 {
                CharMeaning::Bell(b) => { assert(small(st.places.push(b.index))); }
                _ => { }
            }
        }
    }
}
pub proof fn lemma_skipped_named(t: Seq<(usize, CharMeaning)>)
    requires toks_named(t)
    ensures toks_named(skipped(t))
    decreases t.len()
{
    if t.len() > 0 && blank(t[0].1) { assert(toks_named(t.skip(1))) by { assert forall|i: int| 0 <= i < t.skip(1).len() implies ((#[trigger] t.skip(1)[i]).1 matches CharMeaning::Bell(b) ==> b.index < 33) by { assert(t.skip(1)[i] == t[i + 1]); } } lemma_skipped_named(t.skip(1)); }
}
pub proof fn lemma_blocks_err_ok(s: Seq<char>, k: int, stage: Stage)
    ensures blocks(s, k, stage) matches Err(e) ==> blk_err_ok(e)
    decreases k
{
    if k > 0 {
        lemma_blocks_err_ok(s, k - 1, stage);
        let off = byte_len(s.take(piece_lo(s, ',', k - 1)));
        let p = piece(s, ',', k - 1);
        let t0 = toks(p, off);
        assert forall|i: int| 0 <= i < t0.len() implies ((#[trigger] t0[i]).1 matches CharMeaning::Bell(b) ==> b.index < 33) by { }
        lemma_skipped_named(t0);
        let t1 = skipped(t0);
        let t = after_plus(t1);
        assert(toks_named(t)) by { assert forall|i: int| 0 <= i < t.len() implies ((#[trigger] t[i]).1 matches CharMeaning::Bell(b) ==> b.index < 33) by { if starts_plus(t1) { assert(t[i] == t1[i + 1]); } } }
        lemma_rd_small(t, t.len() as int, stage);
    }
}
/// Whatever is wrong with the text of a block can be displayed
pub proof fn lemma_block_err(s: Seq<char>, stage: Stage, e: PnBlockParseError)
    requires block_of(s, stage) == Err::<Seq<PnV>, PnBlockParseError>(e)
    ensures crate::vf::VfShow::show_ok(&e)
{ lemma_blocks_err_ok(s, cuts(s, ',').len() as int + 1, stage); }
@mod row::same_stage_vec
impl crate::vf::VfShow for ParseError {
    open spec fn show_ok(&self) -> bool { match *self { ParseError::InvalidRow { line_num, err } => crate::vf::VfShow::show_ok(&err), _ => true } }
    open spec fn shown(&self) -> Option<Seq<char>> { None }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
/// Whatever is wrong with the text of some rows can be displayed
pub proof fn lemma_lines_err(s: Seq<char>, e: ParseError)
    requires lines_spec(row_lines(s), Err(e))
    ensures crate::vf::VfShow::show_ok(&e)
{
    let ls = row_lines(s);
    let k = choose|k: int| #[trigger] first_bad_line(ls, k) && line_err(ls, k, e);
    if let ParseError::InvalidRow { line_num, err } = e { crate::row::owned::lemma_row_errors(ls[k], 0, err); }
}
@fn row::same_stage_vec::<ParseError as Display>::fmt => vf_display
    requires crate::vf::VfShow::show_ok(self)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@mod block
impl crate::vf::VfShow for ParseError {
    open spec fn show_ok(&self) -> bool { match *self { ParseError::Other(e) => crate::vf::VfShow::show_ok(&e), _ => true } }
    open spec fn shown(&self) -> Option<Seq<char>> { None }
    fn vf_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_display(f) }
}
@fn block::<ParseError as Display>::fmt => vf_display
    requires crate::vf::VfShow::show_ok(self)
    ensures crate::vf::quiet(*old(f), *final(f), res)
@mod mask
pub open spec fn place_text(m: Option<Bell>) -> Seq<char> { match m { Some(b) => crate::bell::bell_text(b), None => seq!['x'] } }
pub open spec fn mask_text(m: Fixed) -> Seq<char> { cat(m, |e: Option<Bell>| place_text(e)) }
pub open spec fn mask_named(m: Fixed, n: int) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i] matches Some(b) ==> b.index < n) }
/// A displayed mask whose bells have names is read back as itself
pub proof fn lemma_mask_back(m: Fixed)
    requires mask_named(m, 33)
    ensures mask_of(mask_text(m)) == m
{
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] place_text(m[i])).len() == 1 && elem_of(place_text(m[i])[0]) == Some(m[i]) by {
        if let Some(b) = m[i] { crate::bell::lemma_bell_back(b); }
    }
    lemma_cat_back(m, |e: Option<Bell>| place_text(e), |c: char| elem_of(c));
}
impl VfShow for Mask {
    open spec fn show_ok(&self) -> bool { mask_named(self.bells@, usize::MAX as int) }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(mask_text(self.bells@)) }
    fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { self.vf_display(f) }
}
@fn mask::<Mask as Display>::fmt => vf_display
    requires mask_named(self.bells@, usize::MAX as int)
    ensures shows(*old(f), *final(f), res, mask_text(self.bells@))
@hint start
    let ghost f0 = *f;
    proof { lemma_app(); reveal_strlit("x"); assert("x"@ =~= seq!['x']); }
@loop 0
    invariant f0 == *old(f), mask_named(self.bells@, usize::MAX as int), "x"@ == seq!['x'], xs_0.len() == self.bells@.len(), forall|i: int| 0 <= i < xs_0.len() ==> *#[trigger] xs_0[i] == self.bells@[i],
        shows(f0, *f, Ok(()), mask_text(self.bells@.take(k_0)))
@hint loop 0 start
    proof { lemma_app(); let t = self.bells@; assert(t.take(k_0).drop_last() =~= t.take(k_0 - 1)); assert(*xs_0[k_0 - 1] == t[k_0 - 1]); assert(t.take(k_0).last() == t[k_0 - 1]); }
@hint loop 0 after
    proof { let t = self.bells@; assert(t.take(k_0) =~= t); }
@fn mask::<Mask as Debug>::fmt => vf_debug
    requires mask_named(self.bells@, usize::MAX as int)
    ensures quiet(*old(f), *final(f), res)
@mod music
pub open spec fn elem_text(e: RegexElem) -> Seq<char> { match e { RegexElem::Bell(b) => crate::bell::bell_text(b), RegexElem::Any => seq!['x'], RegexElem::Glob => seq!['*'] } }
pub open spec fn pat_text(e: Pat) -> Seq<char> { cat(e, |e: RegexElem| elem_text(e)) }
pub open spec fn pat_named(m: Pat, n: int) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i] matches RegexElem::Bell(b) ==> b.index < n) }
/// A displayed normalised pattern whose bells have names is read back as itself
pub proof fn lemma_pat_back(m: Pat)
    requires pat_named(m, 33), normal(m)
    ensures norm(pattern_of(pat_text(m))) == m
{
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] elem_text(m[i])).len() == 1 && elem_of(elem_text(m[i])[0]) == Some(m[i]) by {
        if let RegexElem::Bell(b) = m[i] { crate::bell::lemma_bell_back(b); }
    }
    lemma_cat_back(m, |e: RegexElem| elem_text(e), |c: char| elem_of(c));
    lemma_norm_id(m);
}
impl VfShow for RegexElem {
    open spec fn show_ok(&self) -> bool { *self matches RegexElem::Bell(b) ==> b.index < usize::MAX }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(elem_text(*self)) }
    fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { self.vf_display(f) }
}
impl VfShow for Regex {
    open spec fn show_ok(&self) -> bool { pat_named(self.elems@, usize::MAX as int) }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(pat_text(self.elems@)) }
    fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { self.vf_display(f) }
}
@fn music::<RegexElem as Display>::fmt => vf_display
    requires *self matches RegexElem::Bell(b) ==> b.index < usize::MAX
    ensures shows(*old(f), *final(f), res, elem_text(*self))
@hint start
    proof { reveal_strlit("x"); assert("x"@ =~= seq!['x']); reveal_strlit("*"); assert("*"@ =~= seq!['*']); }
@fn music::<Regex as Display>::fmt => vf_display
    requires pat_named(self.elems@, usize::MAX as int)
    ensures shows(*old(f), *final(f), res, pat_text(self.elems@))
@hint start
    let ghost f0 = *f;
    proof { lemma_app(); }
@loop 0
    invariant f0 == *old(f), pat_named(self.elems@, usize::MAX as int), xs_0.len() == self.elems@.len(), forall|i: int| 0 <= i < xs_0.len() ==> *#[trigger] xs_0[i] == self.elems@[i],
        shows(f0, *f, Ok(()), pat_text(self.elems@.take(k_0)))
@hint loop 0 start
    proof { lemma_app(); let t = self.elems@; assert(t.take(k_0).drop_last() =~= t.take(k_0 - 1)); assert(*xs_0[k_0 - 1] == t[k_0 - 1]); assert(t.take(k_0).last() == t[k_0 - 1]); }
@hint loop 0 after
    proof { let t = self.elems@; assert(t.take(k_0) =~= t); }
@fn music::<Regex as Debug>::fmt => vf_debug
    requires pat_named(self.elems@, usize::MAX as int)
    ensures quiet(*old(f), *final(f), res)
@mod row::borrowed
impl<'r> crate::vf::VfDebug for DbgRow<'r> {
    open spec fn dbg_ok(&self) -> bool { valid(self.0@) }
    fn vf_dbg_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_debug(f) }
}
@fn row::borrowed::<DbgRow as Debug>::fmt => vf_debug
    requires valid(self.0@)
    ensures crate::vf::shows(*old(f), *final(f), res, crate::bell::row_text(self.0@))
@hint start
    proof { crate::vf::lemma_app(); }
@fn row::same_stage_vec::<SameStageVec as Debug>::fmt => vf_debug
    requires self.ok()
    ensures crate::vf::quiet(*old(f), *final(f), res)
@hint start
    let ghost f0 = *f;
@loop 0
    invariant self.ok(), xs_0 == row_refs(self@), f.sound() == f0.sound(), formatter.sound() == f0.sound()
@hint loop 0 start
    proof { assert(row@ == self@[k_0 - 1]); assert(valid(self@[k_0 - 1])); }
@mod block
impl<'b, A> Copy for AnnotRow<'b, A> { }
impl<K: crate::vf::VfDebug, V: crate::vf::VfDebug> crate::vf::VfDebug for Pair<K, V> {
    open spec fn dbg_ok(&self) -> bool { self.0.dbg_ok() && self.1.dbg_ok() }
    fn vf_dbg_fmt(&self, f: &mut crate::vf::Fmt) -> (r: crate::vf::FmtResult) { self.vf_debug(f) }
}
@fn block::<Pair<K,V> as Debug>::fmt => vf_debug
    requires self.0.dbg_ok(), self.1.dbg_ok()
    ensures crate::vf::quiet(*old(f), *final(f), res)
@fn block::<AnnotBlock<T> as Debug>::fmt => vf_debug
    requires self.ok(), forall|i: int| 0 <= i < self.annots@.len() ==> (#[trigger] self.annots@[i]).dbg_ok()
    ensures crate::vf::quiet(*old(f), *final(f), res)
@hint start
    let ghost f0 = *f;
    proof { lemma_rows(self); }
@loop 0
    invariant self.ok(), xs_0.len() == self.annots@.len(), forall|i: int| 0 <= i < xs_0.len() ==> (#[trigger] xs_0[i]).row@ == self.rs()[i] && xs_0[i].annot == self.annots@[i],
        forall|i: int| 0 <= i < self.annots@.len() ==> (#[trigger] self.annots@[i]).dbg_ok(), forall|i: int| 0 <= i < self.rs().len() ==> valid(#[trigger] self.rs()[i]),
        f.sound() == f0.sound(), builder.sound() == f0.sound()
@hint loop 0 start
    proof { assert(annot_row.row@ == self.rs()[k_0 - 1] && *annot_row.annot == self.annots@[k_0 - 1]); }
