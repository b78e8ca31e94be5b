@-- Serialisation of bells and stages.  `serde` itself is modelled in the shim: a deserializer holds a
@-- value and hands it to the visitor through one of the visit methods that value fits.
@mod bell
use crate::vf::{DeError as Error, Visitor, Deserializer, Serializer, Data};
use crate::vf::VfStr;
/// The bell read from a value
pub open spec fn bell_read(d: Data) -> Option<Bell> {
    match d {
        Data::Int(v) => if v > 0 { Some(Bell { index: (v - 1) as usize }) } else { None },
        Data::Char(c) => bell_of(c),
        Data::Text(s) => if s.len() == 1 { bell_of(s[0]) } else { None },
        Data::Other => None,
    }
}
/// Writing a bell as its number, and reading that number, gives the bell again
pub proof fn lemma_bell_serde(b: Bell)
    requires b.index < usize::MAX
    ensures bell_read(Data::Int(b.index + 1)) == Some(b)
{ }
impl Visitor for BellVisitor {
    type Value = Bell;
    open spec fn reads(&self, d: Data) -> Option<Bell> { bell_read(d) }
    fn visit_i8<E: crate::vf::DeError>(self, v: i8) -> (res: Result<Bell, E>) { self.vf_visit_i8(v) }
    fn visit_u8<E: crate::vf::DeError>(self, v: u8) -> (res: Result<Bell, E>) { self.vf_visit_u8(v) }
    fn visit_i16<E: crate::vf::DeError>(self, v: i16) -> (res: Result<Bell, E>) { self.vf_visit_i16(v) }
    fn visit_u16<E: crate::vf::DeError>(self, v: u16) -> (res: Result<Bell, E>) { self.vf_visit_u16(v) }
    fn visit_i32<E: crate::vf::DeError>(self, v: i32) -> (res: Result<Bell, E>) { self.vf_visit_i32(v) }
    fn visit_u32<E: crate::vf::DeError>(self, v: u32) -> (res: Result<Bell, E>) { self.vf_visit_u32(v) }
    fn visit_i64<E: crate::vf::DeError>(self, v: i64) -> (res: Result<Bell, E>) { self.vf_visit_i64(v) }
    fn visit_u64<E: crate::vf::DeError>(self, v: u64) -> (res: Result<Bell, E>) { self.vf_visit_u64(v) }
    fn visit_char<E: crate::vf::DeError>(self, v: char) -> (res: Result<Bell, E>) { self.vf_visit_char(v) }
    fn visit_str<E: crate::vf::DeError>(self, v: &str) -> (res: Result<Bell, E>) { self.vf_visit_str(v) }
}
/// No bell name takes more than a byte
pub proof fn lemma_names_ascii()
    ensures forall|c: char| #[trigger] bell_of(c) is Some ==> crate::vf::char_len(c) == 1
{ assert forall|c: char| #[trigger] bell_of(c) is Some implies crate::vf::char_len(c) == 1 by { let i = choose|i: int| 0 <= i < 33 && #[trigger] bell_names()[i] == c; assert(bell_names()[i] == c); } }
@fn bell::<BellVisitor as Visitor>::expecting => vf_expecting
    ensures crate::vf::quiet(*old(formatter), *final(formatter), res)
@fn bell::<BellVisitor as Visitor>::visit_i8 => vf_visit_i8
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_u8 => vf_visit_u8
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_i16 => vf_visit_i16
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_u16 => vf_visit_u16
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_i32 => vf_visit_i32
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_u32 => vf_visit_u32
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_i64 => vf_visit_i64
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_u64 => vf_visit_u64
    ensures crate::vf::read_as(bell_read(Data::Int(v as int)), res)
@fn bell::<BellVisitor as Visitor>::visit_char => vf_visit_char
    ensures crate::vf::read_as(bell_read(Data::Char(v)), res)
@fn bell::<BellVisitor as Visitor>::visit_str => vf_visit_str
    ensures crate::vf::read_as(bell_read(Data::Text(v@)), res)
@hint start
    proof { crate::vf::lemma_one_byte(v@); lemma_names_ascii(); }
@fn bell::try_parse_bell
    ensures crate::vf::read_as(bell_read(Data::Int(val as int)), res)
@fn bell::<Bell as Deserialize>::deserialize => vf_deserialize
    ensures crate::vf::read_as(bell_read(deserializer.data()), res)
@fn bell::<Bell as Serialize>::serialize => vf_serialize
    requires self.index < usize::MAX
    ensures serializer.wrote(Data::Int(self.index + 1), res)
@mod stage
use crate::vf::{DeError as Error, Visitor, Deserializer, Serializer, Data};
use crate::vf::VfStr;
/// The stage read from a value
pub open spec fn stage_read(d: Data) -> Option<Stage> {
    match d {
        Data::Int(v) => if v > 0 { Some(Stage(v as usize)) } else { None },
        Data::Char(c) => stage_of(crate::vf::lowercase(seq![c])),
        Data::Text(s) => stage_of(crate::vf::lowercase(s)),
        Data::Other => None,
    }
}
/// Writing a stage as its number, and reading that number, gives the stage again
pub proof fn lemma_stage_serde(s: Stage)
    requires s.0 > 0
    ensures stage_read(Data::Int(s.0 as int)) == Some(s)
{ }
/// Reading a name is not case sensitive
pub proof fn lemma_stage_case(n: int, t: Seq<char>)
    requires 1 <= n <= 22, t.len() == stage_name(n).len(), forall|i: int| 0 <= i < t.len() ==> lower(#[trigger] t[i]) == lower_stage_name(n)[i], crate::vf::ascii(t)
    ensures stage_read(Data::Text(t)) == Some(Stage(n as usize))
{
    lemma_stage_names(n); lemma_stage_of(n);
    crate::vf::lemma_lowercase(t);
    assert(crate::vf::lowercase(t) =~= lower_stage_name(n));
}
impl Visitor for StageVisitor {
    type Value = Stage;
    open spec fn reads(&self, d: Data) -> Option<Stage> { stage_read(d) }
    fn visit_i8<E: crate::vf::DeError>(self, v: i8) -> (res: Result<Stage, E>) { self.vf_visit_i8(v) }
    fn visit_u8<E: crate::vf::DeError>(self, v: u8) -> (res: Result<Stage, E>) { self.vf_visit_u8(v) }
    fn visit_i16<E: crate::vf::DeError>(self, v: i16) -> (res: Result<Stage, E>) { self.vf_visit_i16(v) }
    fn visit_u16<E: crate::vf::DeError>(self, v: u16) -> (res: Result<Stage, E>) { self.vf_visit_u16(v) }
    fn visit_i32<E: crate::vf::DeError>(self, v: i32) -> (res: Result<Stage, E>) { self.vf_visit_i32(v) }
    fn visit_u32<E: crate::vf::DeError>(self, v: u32) -> (res: Result<Stage, E>) { self.vf_visit_u32(v) }
    fn visit_i64<E: crate::vf::DeError>(self, v: i64) -> (res: Result<Stage, E>) { self.vf_visit_i64(v) }
    fn visit_u64<E: crate::vf::DeError>(self, v: u64) -> (res: Result<Stage, E>) { self.vf_visit_u64(v) }
    fn visit_str<E: crate::vf::DeError>(self, v: &str) -> (res: Result<Stage, E>) { self.vf_visit_str(v) }
    /// serde's own: the character as a string
    #[verifier::external_body] fn visit_char<E: crate::vf::DeError>(self, v: char) -> (res: Result<Stage, E>) { unimplemented!() }
}
@fn stage::<StageVisitor as Visitor>::expecting => vf_expecting
    ensures crate::vf::quiet(*old(formatter), *final(formatter), res)
@fn stage::<StageVisitor as Visitor>::visit_i8 => vf_visit_i8
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_u8 => vf_visit_u8
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_i16 => vf_visit_i16
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_u16 => vf_visit_u16
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_i32 => vf_visit_i32
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_u32 => vf_visit_u32
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_i64 => vf_visit_i64
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_u64 => vf_visit_u64
    ensures crate::vf::read_as(stage_read(Data::Int(v as int)), res)
@fn stage::<StageVisitor as Visitor>::visit_str => vf_visit_str
    ensures crate::vf::read_as(stage_read(Data::Text(v@)), res)
@fn stage::try_parse_stage
    ensures crate::vf::read_as(stage_read(Data::Int(val as int)), res)
@fn stage::<Stage as Deserialize>::deserialize => vf_deserialize
    ensures crate::vf::read_as(stage_read(deserializer.data()), res)
@fn stage::<Stage as Serialize>::serialize => vf_serialize
    ensures serializer.wrote(Data::Int(self.0 as int), res)
