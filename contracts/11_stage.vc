@derive stage::ZeroStageError Debug, Clone, Copy, PartialEq, Eq, Structural
@mod stage
impl vstd::std_specs::convert::TryFromSpecImpl<usize> for Stage {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(n: usize) -> Result<Stage, ZeroStageError> { if n == 0 { Err(ZeroStageError) } else { Ok(Stage(n)) } }
}
pub open spec fn stage_cmp(a: Stage, b: Stage) -> core::cmp::Ordering { if a.0 < b.0 { core::cmp::Ordering::Less } else if a.0 == b.0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
#[verifier::external]
impl core::fmt::Debug for Stage { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl PartialOrd for Stage { #[verifier::external_body] fn partial_cmp(&self, o: &Stage) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Ord for Stage { #[verifier::external_body] fn cmp(&self, o: &Stage) -> core::cmp::Ordering { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Stage { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(stage_cmp(*self, *o)) } }
impl vstd::std_specs::cmp::OrdSpecImpl for Stage { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { stage_cmp(*self, *o) } }
pub open spec fn inc(a: Stage, b: Stage) -> IncompatibleStages { IncompatibleStages { lhs_stage: a, rhs_stage: b } }
@fn stage::<Stage as TryFrom<usize>>::try_from
@fn stage::Stage::new
    requires num_bells > 0
    ensures res.0 == num_bells
@fn stage::Stage::num_bells
    ensures res == self.0
@fn stage::Stage::as_usize
    ensures res == self.0
@fn stage::Stage::tenor
    requires self.0 > 0
    ensures res.index == self.0 - 1
@fn stage::Stage::bells
    ensures res@ == crate::sp::rounds_seq(self.0 as int)
@hint end
    proof { assert(res@ =~= crate::sp::rounds_seq(self.0 as int)); }
@fn stage::Stage::is_even
    ensures res == (self.0 % 2 == 0)
@fn stage::IncompatibleStages::test_err
    ensures lhs_stage == rhs_stage ==> res == Ok::<(), IncompatibleStages>(()), lhs_stage != rhs_stage ==> res == Err::<(), IncompatibleStages>(inc(lhs_stage, rhs_stage))
@fn stage::IncompatibleStages::test_err_opt
    ensures match *old(opt) {
        None => res is Ok && *final(opt) == Some(stage),
        Some(s) => *final(opt) == *old(opt) && (if s == stage { res is Ok } else { res == Err::<(), IncompatibleStages>(inc(s, stage)) }),
    }
@mod stage
/// The standard names of stages 1 to 22
pub open spec fn stage_name(n: int) -> Seq<char> {
    if n == 1 { "One"@ } else if n == 2 { "Two"@ } else if n == 3 { "Singles"@ } else if n == 4 { "Minimus"@ } else if n == 5 { "Doubles"@ } else if n == 6 { "Minor"@ } else if n == 7 { "Triples"@ } else if n == 8 { "Major"@ } else if n == 9 { "Caters"@ } else if n == 10 { "Royal"@ } else if n == 11 { "Cinques"@ } else if n == 12 { "Maximus"@ } else if n == 13 { "Sextuples"@ } else if n == 14 { "Fourteen"@ } else if n == 15 { "Septuples"@ } else if n == 16 { "Sixteen"@ } else if n == 17 { "Octuples"@ } else if n == 18 { "Eighteen"@ } else if n == 19 { "Nonuples"@ } else if n == 20 { "Twenty"@ } else if n == 21 { "Decuples"@ } else if n == 22 { "Twenty-two"@ } else { Seq::empty() }
}
pub open spec fn lower_stage_name(n: int) -> Seq<char> {
    if n == 1 { "one"@ } else if n == 2 { "two"@ } else if n == 3 { "singles"@ } else if n == 4 { "minimus"@ } else if n == 5 { "doubles"@ } else if n == 6 { "minor"@ } else if n == 7 { "triples"@ } else if n == 8 { "major"@ } else if n == 9 { "caters"@ } else if n == 10 { "royal"@ } else if n == 11 { "cinques"@ } else if n == 12 { "maximus"@ } else if n == 13 { "sextuples"@ } else if n == 14 { "fourteen"@ } else if n == 15 { "septuples"@ } else if n == 16 { "sixteen"@ } else if n == 17 { "octuples"@ } else if n == 18 { "eighteen"@ } else if n == 19 { "nonuples"@ } else if n == 20 { "twenty"@ } else if n == 21 { "decuples"@ } else if n == 22 { "twenty-two"@ } else { Seq::empty() }
}
/// ASCII lower case
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
/// The stage with a lower-case name
pub open spec fn stage_of(s: Seq<char>) -> Option<Stage> {
    if exists|n: int| 1 <= n <= 22 && #[trigger] lower_stage_name(n) == s { Some(Stage((choose|n: int| 1 <= n <= 22 && #[trigger] lower_stage_name(n) == s) as usize)) } else { None }
}
pub open spec fn stage_text(s: Stage) -> Seq<char> { if 1 <= s.0 <= 22 { stage_name(s.0 as int) } else { dec(s.0 as int) + " bells"@ } }
/// A number that identifies a stage name
pub open spec fn name_sig(s: Seq<char>) -> int { s.len() + 100 * (s[0] as int) + 100000 * (s[1] as int) + 100000000 * (s[2] as int) }
#[verifier::spinoff_prover]
pub proof fn lemma_stage_names(n: int)
    requires 1 <= n <= 22
    ensures stage_name(n).len() == lower_stage_name(n).len(), forall|i: int| 0 <= i < stage_name(n).len() ==> #[trigger] lower_stage_name(n)[i] == lower(stage_name(n)[i]),
        n == 1 ==> name_sig(lower_stage_name(n)) == 10111011103,
        n == 2 ==> name_sig(lower_stage_name(n)) == 11111911603,
        n == 3 ==> name_sig(lower_stage_name(n)) == 11010511507,
        n == 4 ==> name_sig(lower_stage_name(n)) == 11010510907,
        n == 5 ==> name_sig(lower_stage_name(n)) == 11711110007,
        n == 6 ==> name_sig(lower_stage_name(n)) == 11010510905,
        n == 7 ==> name_sig(lower_stage_name(n)) == 10511411607,
        n == 8 ==> name_sig(lower_stage_name(n)) == 10609710905,
        n == 9 ==> name_sig(lower_stage_name(n)) == 11609709906,
        n == 10 ==> name_sig(lower_stage_name(n)) == 12111111405,
        n == 11 ==> name_sig(lower_stage_name(n)) == 11010509907,
        n == 12 ==> name_sig(lower_stage_name(n)) == 12009710907,
        n == 13 ==> name_sig(lower_stage_name(n)) == 12010111509,
        n == 14 ==> name_sig(lower_stage_name(n)) == 11711110208,
        n == 15 ==> name_sig(lower_stage_name(n)) == 11210111509,
        n == 16 ==> name_sig(lower_stage_name(n)) == 12010511507,
        n == 17 ==> name_sig(lower_stage_name(n)) == 11609911108,
        n == 18 ==> name_sig(lower_stage_name(n)) == 10310510108,
        n == 19 ==> name_sig(lower_stage_name(n)) == 11011111008,
        n == 20 ==> name_sig(lower_stage_name(n)) == 10111911606,
        n == 21 ==> name_sig(lower_stage_name(n)) == 9910110008,
        n == 22 ==> name_sig(lower_stage_name(n)) == 10111911610,
{
    reveal_strlit("One"); reveal_strlit("one");
    reveal_strlit("Two"); reveal_strlit("two");
    reveal_strlit("Singles"); reveal_strlit("singles");
    reveal_strlit("Minimus"); reveal_strlit("minimus");
    reveal_strlit("Doubles"); reveal_strlit("doubles");
    reveal_strlit("Minor"); reveal_strlit("minor");
    reveal_strlit("Triples"); reveal_strlit("triples");
    reveal_strlit("Major"); reveal_strlit("major");
    reveal_strlit("Caters"); reveal_strlit("caters");
    reveal_strlit("Royal"); reveal_strlit("royal");
    reveal_strlit("Cinques"); reveal_strlit("cinques");
    reveal_strlit("Maximus"); reveal_strlit("maximus");
    reveal_strlit("Sextuples"); reveal_strlit("sextuples");
    reveal_strlit("Fourteen"); reveal_strlit("fourteen");
    reveal_strlit("Septuples"); reveal_strlit("septuples");
    reveal_strlit("Sixteen"); reveal_strlit("sixteen");
    reveal_strlit("Octuples"); reveal_strlit("octuples");
    reveal_strlit("Eighteen"); reveal_strlit("eighteen");
    reveal_strlit("Nonuples"); reveal_strlit("nonuples");
    reveal_strlit("Twenty"); reveal_strlit("twenty");
    reveal_strlit("Decuples"); reveal_strlit("decuples");
    reveal_strlit("Twenty-two"); reveal_strlit("twenty-two");
}
pub proof fn lemma_stage_of(n: int)
    requires 1 <= n <= 22
    ensures stage_of(lower_stage_name(n)) == Some(Stage(n as usize))
{
    lemma_stage_names(n);
    let m = choose|m: int| 1 <= m <= 22 && #[trigger] lower_stage_name(m) == lower_stage_name(n);
    lemma_stage_names(m);
}
impl VfShow for Stage {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(stage_text(*self)) }
    fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { self.vf_display(f) }
}
impl VfShow for IncompatibleStages {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { None }
    fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { self.vf_display(f) }
}
@fn stage::Stage::name
    ensures self.0 > 22 || self.0 == 0 ==> res is None, 1 <= self.0 <= 22 ==> res is Some && res->0@ == stage_name(self.0 as int)
@fn stage::Stage::from_lower_case_name
    ensures res == stage_of(name@)
@hint start
    proof {
        lemma_stage_of(1); lemma_stage_of(2); lemma_stage_of(3); lemma_stage_of(4); lemma_stage_of(5); lemma_stage_of(6); lemma_stage_of(7); lemma_stage_of(8); lemma_stage_of(9); lemma_stage_of(10); lemma_stage_of(11); lemma_stage_of(12); lemma_stage_of(13); lemma_stage_of(14); lemma_stage_of(15); lemma_stage_of(16); lemma_stage_of(17); lemma_stage_of(18); lemma_stage_of(19); lemma_stage_of(20); lemma_stage_of(21); lemma_stage_of(22);
        if stage_of(name@) is Some { let n = choose|n: int| 1 <= n <= 22 && #[trigger] lower_stage_name(n) == name@; assert(1 <= n <= 22 && lower_stage_name(n) == name@); }
    }
@fn stage::<Stage as Display>::fmt => vf_display
    ensures shows(*old(f), *final(f), res, stage_text(*self))
@hint start
    proof { lemma_app(); }
@fn stage::<Stage as Debug>::fmt => vf_debug
    requires self.0 > 0
    ensures quiet(*old(f), *final(f), res)
@hint start
    proof { lemma_app(); }
@fn stage::<ZeroStageError as Display>::fmt => vf_display
    ensures quiet(*old(f), *final(f), res)
@fn stage::<IncompatibleStages as Display>::fmt => vf_display
    ensures quiet(*old(f), *final(f), res)
@hint start
    proof { lemma_app(); }
