//! Serialised bells and stages (C28)
use crate::gen::*;
use crate::p_bell::STAGE_NAMES;
use crate::{ck_eq, Cx, R};
use bellframe::{Bell, Stage};
use serde::de::value::{Error, *};
use serde::de::{Deserialize, IntoDeserializer};

/// Reads a number through every integer type it fits, as a bell or stage
fn ints<T: for<'a> Deserialize<'a>>(v: i128, num: fn(T) -> usize) -> Vec<(&'static str, Option<usize>)> {
    let mut r = vec![];
    macro_rules! each { ($($t:ident $d:ident),*) => { $( if let Ok(x) = <$t>::try_from(v) {
        let d: $d<Error> = x.into_deserializer();
        r.push((stringify!($t), T::deserialize(d).ok().map(num)));
    } )* } }
    each!(i8 I8Deserializer, u8 U8Deserializer, i16 I16Deserializer, u16 U16Deserializer, i32 I32Deserializer, u32 U32Deserializer, i64 I64Deserializer, u64 U64Deserializer);
    r.push(("JSON", serde_json::from_str::<T>(&v.to_string()).ok().map(num)));
    r.push(("JSON value", serde_json::from_str::<serde_json::Value>(&v.to_string()).ok().and_then(|v| serde_json::from_value::<T>(v).ok()).map(num)));
    r
}

fn strs<T: for<'a> Deserialize<'a>>(s: &str, num: fn(T) -> usize) -> Vec<(&'static str, Option<usize>)> {
    let d: StrDeserializer<Error> = s.into_deserializer();
    let o: StringDeserializer<Error> = s.to_string().into_deserializer();
    let mut r = vec![("str", T::deserialize(d).ok().map(num)), ("String", T::deserialize(o).ok().map(num)), ("borrowed str", T::deserialize(BorrowedStrDeserializer::<Error>::new(s)).ok().map(num))];
    if s.chars().count() == 1 {
        let d: CharDeserializer<Error> = s.chars().next().unwrap().into_deserializer();
        r.push(("char", T::deserialize(d).ok().map(num)));
    }
    r
}

fn others<T: for<'a> Deserialize<'a>>(num: fn(T) -> usize) -> Vec<(&'static str, Option<usize>)> {
    let mut r = vec![];
    macro_rules! each { ($($n:expr, $d:expr);*) => { $( let d = $d; r.push(($n, T::deserialize(d).ok().map(num))); )* } }
    each!("bool", { let d: BoolDeserializer<Error> = true.into_deserializer(); d }; "f32", { let d: F32Deserializer<Error> = 2.0f32.into_deserializer(); d }; "f64", { let d: F64Deserializer<Error> = 3.0f64.into_deserializer(); d };
        "unit", UnitDeserializer::<Error>::new(); "bytes", BytesDeserializer::<Error>::new(b"1"); "a sequence", SeqDeserializer::<_, Error>::new(vec![1u64].into_iter()));
    for j in ["null", "true", "1.5", "[]", "[1]", "{}", "{\"a\":1}", "-", "", "1 2", "1e3", "\"1"] {
        r.push((j, serde_json::from_str::<T>(j).ok().map(num)));
    }
    r
}

/// Binary formats: one whose data says what it is (`tagged`, with integers as narrow as they can be), and one whose data doesn't
#[derive(Clone, Copy)]
struct Bin { tagged: bool, readable: bool }
const BINS: [Bin; 4] = [Bin { tagged: false, readable: false }, Bin { tagged: false, readable: true }, Bin { tagged: true, readable: false }, Bin { tagged: true, readable: true }];
type Bytes_ = Result<Vec<u8>, Error>;
type No = serde::ser::Impossible<Vec<u8>, Error>;
fn no<T>() -> Result<T, Error> { Err(serde::ser::Error::custom("not a number, character or text")) }
impl Bin {
    fn put(self, tag: u8, b: &[u8]) -> Bytes_ { Ok(if self.tagged { std::iter::once(tag).chain(b.iter().cloned()).collect() } else { b.to_vec() }) }
}
impl serde::Serializer for Bin {
    type Ok = Vec<u8>; type Error = Error;
    type SerializeSeq = No; type SerializeTuple = No; type SerializeTupleStruct = No; type SerializeTupleVariant = No; type SerializeMap = No; type SerializeStruct = No; type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool { self.readable }
    fn serialize_bool(self, v: bool) -> Bytes_ { self.put(0, &[v as u8]) }
    fn serialize_i8(self, v: i8) -> Bytes_ { self.put(1, &v.to_le_bytes()) }
    fn serialize_i16(self, v: i16) -> Bytes_ { self.put(2, &v.to_le_bytes()) }
    fn serialize_i32(self, v: i32) -> Bytes_ { self.put(3, &v.to_le_bytes()) }
    fn serialize_i64(self, v: i64) -> Bytes_ { self.put(4, &v.to_le_bytes()) }
    fn serialize_u8(self, v: u8) -> Bytes_ { self.put(5, &v.to_le_bytes()) }
    fn serialize_u16(self, v: u16) -> Bytes_ { if self.tagged && v <= u8::MAX as u16 { return self.serialize_u8(v as u8); } self.put(6, &v.to_le_bytes()) }
    fn serialize_u32(self, v: u32) -> Bytes_ { if self.tagged && v <= u16::MAX as u32 { return self.serialize_u16(v as u16); } self.put(7, &v.to_le_bytes()) }
    fn serialize_u64(self, v: u64) -> Bytes_ { if self.tagged && v <= u32::MAX as u64 { return self.serialize_u32(v as u32); } self.put(8, &v.to_le_bytes()) }
    fn serialize_f32(self, v: f32) -> Bytes_ { self.put(9, &v.to_le_bytes()) }
    fn serialize_f64(self, v: f64) -> Bytes_ { self.put(10, &v.to_le_bytes()) }
    fn serialize_char(self, v: char) -> Bytes_ { self.put(11, &(v as u32).to_le_bytes()) }
    fn serialize_str(self, v: &str) -> Bytes_ { self.put(12, v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> Bytes_ { self.put(13, v) }
    fn serialize_none(self) -> Bytes_ { no() }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Bytes_ { no() }
    fn serialize_unit(self) -> Bytes_ { no() }
    fn serialize_unit_struct(self, _: &'static str) -> Bytes_ { no() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Bytes_ { no() }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Bytes_ { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Bytes_ { no() }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Error> { no() }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> { no() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { no() }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Error> { no() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { no() }
}
struct BinD<'a>(Bin, &'a [u8]);
impl<'a> BinD<'a> {
    /// The data as a value of the kind `tag`
    fn get<V: serde::de::Visitor<'a>>(self, tag: u8, v: V) -> Result<V::Value, Error> {
        let (tag, b) = if self.0.tagged { (self.1[0], &self.1[1..]) } else { (tag, self.1) };
        macro_rules! num { ($t:ty, $f:ident) => { match b.try_into() { Ok(x) => v.$f(<$t>::from_le_bytes(x)), Err(_) => no() } } }
        match tag {
            0 => v.visit_bool(b == [1]),
            1 => num!(i8, visit_i8), 2 => num!(i16, visit_i16), 3 => num!(i32, visit_i32), 4 => num!(i64, visit_i64),
            5 => num!(u8, visit_u8), 6 => num!(u16, visit_u16), 7 => num!(u32, visit_u32), 8 => num!(u64, visit_u64),
            9 => num!(f32, visit_f32), 10 => num!(f64, visit_f64),
            11 => match b.try_into().ok().map(u32::from_le_bytes).and_then(char::from_u32) { Some(c) => v.visit_char(c), None => no() },
            12 => match std::str::from_utf8(b) { Ok(s) => v.visit_str(s), Err(_) => no() },
            13 => v.visit_bytes(b),
            _ => no(),
        }
    }
}
macro_rules! reads { ($($f:ident $t:expr),*) => { $( fn $f<V: serde::de::Visitor<'a>>(self, v: V) -> Result<V::Value, Error> { self.get($t, v) } )* } }
impl<'a> serde::Deserializer<'a> for BinD<'a> {
    type Error = Error;
    fn is_human_readable(&self) -> bool { self.0.readable }
    // without tags there's no telling what the data is
    reads!(deserialize_any 99, deserialize_bool 0, deserialize_i8 1, deserialize_i16 2, deserialize_i32 3, deserialize_i64 4, deserialize_u8 5, deserialize_u16 6, deserialize_u32 7, deserialize_u64 8,
        deserialize_f32 9, deserialize_f64 10, deserialize_char 11, deserialize_str 12, deserialize_string 12, deserialize_bytes 13, deserialize_byte_buf 13,
        deserialize_option 99, deserialize_unit 99, deserialize_seq 99, deserialize_map 99, deserialize_identifier 99, deserialize_ignored_any 99);
    fn deserialize_unit_struct<V: serde::de::Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { self.get(99, v) }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: serde::de::Visitor<'a>>(self, _: usize, v: V) -> Result<V::Value, Error> { self.get(99, v) }
    fn deserialize_tuple_struct<V: serde::de::Visitor<'a>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> { self.get(99, v) }
    fn deserialize_struct<V: serde::de::Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.get(99, v) }
    fn deserialize_enum<V: serde::de::Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.get(99, v) }
}
fn binary<T: serde::Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(x: T) -> R {
    for f in BINS {
        let what = format!("a binary format (its data says what it is: {}, it's called human readable: {})", f.tagged, f.readable);
        let b = x.serialize(f).map_err(|e| format!("not written in {}: {}", what, e))?;
        let y = T::deserialize(BinD(f, &b)).map_err(|e| format!("{:?} is written as {:?} in {}, and not read back: {}", x, b, what, e))?;
        ck_eq!(y, x, "read back from {:?}, in {}", b, what);
    }
    Ok(())
}

fn same(got: Vec<(&'static str, Option<usize>)>, want: Option<usize>) -> R {
    for (n, g) in got { ck_eq!(g, want, "read as {}", n); }
    Ok(())
}

pub fn c28(cx: &mut Cx) {
    fn bn(b: Bell) -> usize { b.number() }
    fn sn(s: Stage) -> usize { s.num_bells() }
    let mut vs: Vec<i128> = (-300..3000).collect();
    for s in 1..65 { for d in [0i128, 1, 2, -1] { vs.push((1i128 << s) + d); vs.push(-(1i128 << s) + d); } }
    for _ in 0..cx.reps(2000) { let s = cx.rng.below(64); let v = (cx.rng.next() >> s) as i128; vs.push(v); vs.push(-v); }
    for v in vs {
        let want = if v > 0 && v <= u64::MAX as i128 { Some(v as usize) } else { None };
        cx.case(true, || format!("reading {} as a bell", v), || same(ints::<Bell>(v, bn), want));
        cx.case(true, || format!("reading {} as a stage", v), || same(ints::<Stage>(v, sn), want));
        if let Some(n) = want {
            cx.case(true, || format!("writing and reading bell {}", n), || {
                let b = Bell::from_index(n - 1);
                let t = serde_json::to_string(&b).map_err(|e| e.to_string())?;
                ck_eq!(t, n.to_string(), "serialised bell");
                ck_eq!(serde_json::from_str::<Bell>(&t).map_err(|e| e.to_string())?, b, "bell from JSON");
                let v = serde_json::to_value(&b).map_err(|e| e.to_string())?;
                ck_eq!(serde_json::from_value::<Bell>(v).map_err(|e| e.to_string())?, b, "bell from a JSON value");
                binary(b)
            });
            cx.case(true, || format!("writing and reading stage {}", n), || {
                let b = Stage::new(n);
                let t = serde_json::to_string(&b).map_err(|e| e.to_string())?;
                ck_eq!(t, n.to_string(), "serialised stage");
                ck_eq!(serde_json::from_str::<Stage>(&t).map_err(|e| e.to_string())?, b, "stage from JSON");
                let v = serde_json::to_value(&b).map_err(|e| e.to_string())?;
                ck_eq!(serde_json::from_value::<Stage>(v).map_err(|e| e.to_string())?, b, "stage from a JSON value");
                binary(b)
            });
        }
    }
    cx.case(true, || "reading other data as a bell".into(), || {
        for (n, g) in others::<Bell>(bn) { ck_eq!(g, None, "read from {}", n); }
        Ok(())
    });
    cx.case(true, || "reading other data as a stage".into(), || {
        for (n, g) in others::<Stage>(sn) { ck_eq!(g, None, "read from {}", n); }
        Ok(())
    });
    let mut texts: Vec<String> = STAGE_NAMES.iter().flat_map(|s| vec![s.to_string(), s.to_lowercase(), s.to_uppercase(), format!("{} ", s), format!(" {}", s)]).collect();
    texts.extend(["", "bells", "1 bells", "23 bells", "12", "3", "İ", "ß", "ſingles", "K", "é", "I", "X", "x", "O", "o", "<34>", "0", "-1"].iter().map(|s| s.to_string()));
    for u in 0..=0x10FFFFu32 {
        if !cx.thorough && u > 0x300 && u % 977 != 0 { continue; }
        if let Some(c) = char::from_u32(u) { texts.push(c.to_string()); }
    }
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz-ABCET1290 é".chars().collect();
    for _ in 0..cx.reps(3000) {
        texts.push(if cx.rng.chance(1, 3) { text(&mut cx.rng, 6, &alpha) } else {
            let mut t: Vec<char> = STAGE_NAMES[cx.rng.below(22)].chars().map(|c| if cx.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            let i = cx.rng.below(t.len());
            match cx.rng.below(8) { 0 => { t.remove(i); } 1 => t[i] = *cx.rng.pick(&alpha), 2 => t.insert(i, *cx.rng.pick(&alpha)), _ => {} }
            t.into_iter().collect()
        });
    }
    for _ in 0..cx.reps(200) { let b = cx.rng.below(33); let e = text(&mut cx.rng, 60, &alpha); texts.push(format!("{}{}", &NAMES[b..=b], e)); let s = *cx.rng.pick(&STAGE_NAMES); texts.push(format!("{}{}", s, e)); texts.push(format!("{}{}", e, s)); }
    for t in texts {
        let mut cs = t.chars();
        let bell = match (cs.next(), cs.next()) { (Some(c), None) => name_index(c).map(|i| i + 1), _ => None };
        let stage = STAGE_NAMES.iter().position(|s| s.to_lowercase() == t.to_lowercase()).map(|i| i + 1);
        cx.case(true, || format!("reading {:?} as a bell", t), || same(strs::<Bell>(&t, bn), bell));
        cx.case(true, || format!("reading {:?} as a stage", t), || same(strs::<Stage>(&t, sn), stage));
    }
}
