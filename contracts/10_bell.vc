@mod bell
pub open spec fn bell_names() -> Seq<char> {
    seq!['1','2','3','4','5','6','7','8','9','0','E','T','A','B','C','D','F','G','H','J','K','L','M','N','P','Q','R','S','U','V','W','Y','Z']
}
pub open spec fn name_index(c: char) -> int { choose|i: int| 0 <= i < 33 && #[trigger] bell_names()[i] == c }
/// The bell named by a character
pub open spec fn bell_of(c: char) -> Option<Bell> {
    if exists|i: int| 0 <= i < 33 && #[trigger] bell_names()[i] == c { Some(Bell { index: name_index(c) as usize }) } else { None }
}
pub proof fn lemma_names_distinct()
    ensures bell_names().len() == 33, forall|i: int, j: int| 0 <= i < 33 && 0 <= j < 33 && bell_names()[i] == bell_names()[j] ==> i == j
{ }
pub open spec fn bells_in(s: Seq<char>) -> Seq<Bell> { opt_map(s, |c: char| bell_of(c)) }
pub open spec fn bell_cmp(a: Bell, b: Bell) -> core::cmp::Ordering { if a.index < b.index { core::cmp::Ordering::Less } else if a.index == b.index { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
#[verifier::external]
impl core::fmt::Debug for Bell { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl PartialOrd for Bell { #[verifier::external_body] fn partial_cmp(&self, o: &Bell) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Ord for Bell { #[verifier::external_body] fn cmp(&self, o: &Bell) -> core::cmp::Ordering { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Bell { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(bell_cmp(*self, *o)) } }
impl vstd::std_specs::cmp::OrdSpecImpl for Bell { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { bell_cmp(*self, *o) } }
impl vstd::std_specs::ops::AddSpecImpl<usize> for Bell {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, r: usize) -> bool { self.index + r <= usize::MAX }
    open spec fn add_spec(self, r: usize) -> Bell { Bell { index: (self.index + r) as usize } }
}
impl vstd::std_specs::ops::SubSpecImpl<usize> for Bell {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, r: usize) -> bool { self.index >= r }
    open spec fn sub_spec(self, r: usize) -> Bell { Bell { index: (self.index - r) as usize } }
}
@fn bell::Bell::from_name
    ensures res == bell_of(c)
@closure 0 |x: char| -> (r: bool) ensures r == (x == c)
@hint start
    proof { reveal_strlit("1234567890ETABCDFGHJKLMNPQRSUVWYZ"); assert(BELL_NAMES@ =~= bell_names()); lemma_names_distinct(); }
@fn bell::Bell::from_index
    ensures res.index == index
@fn bell::Bell::from_number
    ensures number == 0 ==> res is None, number > 0 ==> res == Some(Bell { index: (number - 1) as usize })
@fn bell::Bell::tenor
    requires stage.0 > 0
    ensures res.index == stage.0 - 1
@fn bell::Bell::to_char
    ensures self.index < 33 ==> res == Some(bell_names()[self.index as int]), self.index >= 33 ==> res is None
@closure 0 |x: &u8| -> (r: char) ensures r == *x as char
@hint start
    proof { reveal_strlit("1234567890ETABCDFGHJKLMNPQRSUVWYZ"); assert(BELL_NAMES@ =~= bell_names()); }
@fn bell::Bell::index
    ensures res == self.index
@fn bell::Bell::number
    requires self.index < usize::MAX
    ensures res == self.index + 1
@fn bell::<Bell as std::ops::Add<usize>>::add
@fn bell::<Bell as std::ops::AddAssign<usize>>::add_assign => vf_add_assign
    requires old(self).index + rhs <= usize::MAX
    ensures final(self).index == old(self).index + rhs
@fn bell::<Bell as std::ops::Sub<usize>>::sub
@fn bell::<Bell as std::ops::SubAssign<usize>>::sub_assign => vf_sub_assign
    requires old(self).index >= rhs
    ensures final(self).index == old(self).index - rhs
@mod bell
/// The text displayed for a bell
pub open spec fn bell_text(b: Bell) -> Seq<char> { if b.index < 33 { seq![bell_names()[b.index as int]] } else { seq!['<'] + dec(b.index + 1) + seq!['>'] } }
impl VfShow for Bell {
    open spec fn show_ok(&self) -> bool { self.index < usize::MAX }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(bell_text(*self)) }
    fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { self.vf_display(f) }
}
/// A displayed bell with a name is read back as itself
pub proof fn lemma_bell_back(b: Bell)
    requires b.index < 33
    ensures bell_text(b).len() == 1, bell_of(bell_text(b)[0]) == Some(b)
{ lemma_names_distinct(); assert(bell_names()[b.index as int] == bell_text(b)[0]); }
@fn bell::Bell::name
    requires self.index < usize::MAX
    ensures res@ == bell_text(self)
@hint start
    proof { reveal_strlit("<"); reveal_strlit(">"); assert("<"@ =~= seq!['<']); assert(">"@ =~= seq!['>']); assert(Seq::<char>::empty() + seq!['<'] =~= seq!['<']); }
@fn bell::<Bell as Display>::fmt => vf_display
    requires self.index < usize::MAX
    ensures shows(*old(f), *final(f), res, bell_text(*self))
@fn bell::<Bell as Debug>::fmt => vf_debug
    requires self.index < usize::MAX
    ensures quiet(*old(f), *final(f), res)
@hint start
    proof { lemma_app(); }
