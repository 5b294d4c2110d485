//! Serialising and deserialising trees, in a small data format that keeps exactly what serde hands over.
use crate::model::*;
use crate::sym::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::fmt;
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeSeq, SerializeStruct, Serializer};
use serde::Deserialize;
use tree_iterators_rs::prelude::*;

/// What was serialised.
pub enum Val { U32(u32), Opt(Option<Box<Val>>), Seq(Vec<Val>), Struct(&'static str, Vec<(&'static str, Val)>) }
#[derive(Debug)]
pub struct Bad;
impl fmt::Display for Bad { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl core::error::Error for Bad {}
impl ser::Error for Bad { fn custom<T: fmt::Display>(_: T) -> Self { Bad } }
impl de::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Self { Bad }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Bad }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Bad }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Bad }
}

/// The writer of the format.
#[derive(Clone, Copy)]
struct W { readable: bool }
struct Items { w: W, v: Vec<Val> }
struct Fields { w: W, name: &'static str, len: usize, v: Vec<(&'static str, Val)> }
impl SerializeSeq for Items {
    type Ok = Val;
    type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Bad> { self.v.push(t.serialize(self.w)?); Ok(()) }
    fn end(self) -> Result<Val, Bad> { Ok(Val::Seq(self.v)) }
}
impl SerializeStruct for Fields {
    type Ok = Val;
    type Error = Bad;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), Bad> { self.v.push((k, t.serialize(self.w)?)); Ok(()) }
    fn end(self) -> Result<Val, Bad> { if self.v.len() == self.len { Ok(Val::Struct(self.name, self.v)) } else { Err(Bad) } }
}
macro_rules! refuse { ($($f:ident($($a:ty),*))*) => { $( fn $f(self, $(_: $a),*) -> Result<Val, Bad> { Err(Bad) } )* } }
impl Serializer for W {
    type Ok = Val;
    type Error = Bad;
    type SerializeSeq = Items;
    type SerializeStruct = Fields;
    type SerializeTuple = Impossible<Val, Bad>;
    type SerializeTupleStruct = Impossible<Val, Bad>;
    type SerializeTupleVariant = Impossible<Val, Bad>;
    type SerializeMap = Impossible<Val, Bad>;
    type SerializeStructVariant = Impossible<Val, Bad>;
    fn is_human_readable(&self) -> bool { self.readable }
    fn serialize_u32(self, v: u32) -> Result<Val, Bad> { Ok(Val::U32(v)) }
    fn serialize_none(self) -> Result<Val, Bad> { Ok(Val::Opt(None)) }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<Val, Bad> { Ok(Val::Opt(Some(Box::new(t.serialize(self)?)))) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items, Bad> { Ok(Items { w: self, v: Vec::new() }) }
    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Fields, Bad> { Ok(Fields { w: self, name, len, v: Vec::new() }) }
    refuse! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) serialize_unit() serialize_unit_struct(&'static str) serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Bad> { Err(Bad) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> { Err(Bad) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> { Err(Bad) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> { Err(Bad) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> { Err(Bad) }
}

/// The reader; how it keeps structs, and whether it tells lengths.
#[derive(Clone, Copy)]
struct R { fields: u8, hint: bool, readable: bool }
const NAMED: u8 = 0;
const REVERSED: u8 = 1;
const NUMBERED: u8 = 2;
const POSITIONAL: u8 = 3;
struct De { r: R, v: Val }
struct SeqIn { r: R, it: alloc::vec::IntoIter<Val> }
impl<'de> SeqAccess<'de> for SeqIn {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        match self.it.next() { Some(v) => s.deserialize(De { r: self.r, v }).map(Some), None => Ok(None) }
    }
    fn size_hint(&self) -> Option<usize> { if self.r.hint { Some(self.it.len()) } else { None } }
}
struct MapIn { r: R, it: alloc::vec::IntoIter<(&'static str, Val)>, n: u64, fields: &'static [&'static str], next: Option<Val> }
impl<'de> MapAccess<'de> for MapIn {
    type Error = Bad;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        match self.it.next() {
            Some((k, v)) => {
                self.next = Some(v);
                if self.r.fields == NUMBERED {
                    let n = self.n;
                    self.n += 1;
                    let d: de::value::U64Deserializer<Bad> = n.into_deserializer();
                    return s.deserialize(d).map(Some);
                }
                let _ = self.fields;
                let d: de::value::StrDeserializer<Bad> = k.into_deserializer();
                s.deserialize(d).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Bad> {
        match self.next.take() { Some(v) => s.deserialize(De { r: self.r, v }), None => Err(Bad) }
    }
    fn size_hint(&self) -> Option<usize> { if self.r.hint { Some(self.it.len()) } else { None } }
}
impl<'de> Deserializer<'de> for De {
    type Error = Bad;
    fn is_human_readable(&self) -> bool { self.r.readable }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.v {
            Val::U32(x) => v.visit_u32(x),
            Val::Opt(None) => v.visit_none(),
            Val::Opt(Some(x)) => v.visit_some(De { r: self.r, v: *x }),
            Val::Seq(x) => v.visit_seq(SeqIn { r: self.r, it: x.into_iter() }),
            Val::Struct(..) => Err(Bad),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        match self.v {
            Val::Struct(n, x) => {
                if n != name { return Err(Bad); }
                if self.r.fields == POSITIONAL {
                    let mut o = Vec::new();
                    for (_, e) in x { o.push(e); }
                    return v.visit_seq(SeqIn { r: self.r, it: o.into_iter() });
                }
                let mut x = x;
                if self.r.fields == REVERSED { x.reverse(); }
                v.visit_map(MapIn { r: self.r, it: x.into_iter(), n: 0, fields, next: None })
            }
            _ => Err(Bad),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any }
}

/// The serialised form is a struct per node with its public fields, in order.
trait Form { fn form(v: &Val, o: &mut Vec<u64>) -> bool; }
impl Form for Tree<u32> {
    fn form(v: &Val, o: &mut Vec<u64>) -> bool {
        match v {
            Val::Struct("Tree", f) if f.len() == 2 && f[0].0 == "value" && f[1].0 == "children" => match (&f[0].1, &f[1].1) {
                (Val::U32(x), Val::Seq(c)) => { o.push(*x as u64); o.push(c.len() as u64); let mut ok = true; for c in c { ok &= Self::form(c, o); } ok }
                _ => false,
            },
            _ => false,
        }
    }
}
impl Form for BinaryTree<u32> {
    fn form(v: &Val, o: &mut Vec<u64>) -> bool {
        match v {
            Val::Struct("BinaryTree", f) if f.len() == 3 && f[0].0 == "value" && f[1].0 == "left" && f[2].0 == "right" => match (&f[0].1, &f[1].1, &f[2].1) {
                (Val::U32(x), Val::Opt(l), Val::Opt(r)) => {
                    o.push(*x as u64);
                    let mut ok = true;
                    for c in [l, r] { o.push(c.is_some() as u64); if let Some(c) = c { ok &= Self::form(c, o); } }
                    ok
                }
                _ => false,
            },
            _ => false,
        }
    }
}
fn flat_n(m: &M, o: &mut Vec<u64>) { o.push(m.v as u64); o.push(m.ch.len() as u64); for c in &m.ch { flat_n(&c.1, o); } }
fn flat_b(m: &M, o: &mut Vec<u64>) { o.push(m.v as u64); for s in 0..2 { let c = m.ch.iter().find(|c| c.0 == s); o.push(c.is_some() as u64); if let Some(c) = c { flat_b(&c.1, o); } } }

macro_rules! run { ($rt:ident $miss:ident $any:ident $big:ident $mk:ident $bin:literal $ty:ident $flat:ident) => {
    pub fn $rt() {
        leak_check(true);
        let m = $big();
        let want = m.enc($bin);
        let t: $ty<u32> = $mk::<u32>(&m);
        let readable = choice(2) == 1;
        let v = match t.serialize(W { readable }) { Ok(v) => v, Err(_) => { chk!(false); return; } };
        let mut f = Vec::new();
        let mut w = Vec::new();
        chk!(<$ty<u32> as Form>::form(&v, &mut f));
        $flat(&m, &mut w);
        same(&f, &w, line!());
        let fields = choice(4) as u8;
        let hint = choice(2) == 1;
        match $ty::<u32>::deserialize(De { r: R { fields, hint, readable }, v }) {
            Ok(r) => { same(&enc(&r), &want, line!()); chk!(r == t); }
            Err(_) => chk!(false),
        }
        same(&enc(&t), &want, line!());
        // boxed values are written and read like the values they hold
        let b = $mk::<Box<u32>>(&m);
        match b.serialize(W { readable }).and_then(|v| $ty::<Box<u32>>::deserialize(De { r: R { fields, hint, readable }, v })) {
            Ok(r) => same(&enc(&r), &want, line!()),
            Err(_) => chk!(false),
        }
        cover(1 + fields as u32);
    }
    /// Input in which a node lacks a field it needs, or has one twice, is refused and leaves nothing behind.
    pub fn $miss() {
        leak_check(true);
        let m = $any(param(2));
        let t: $ty<u32> = $mk::<u32>(&m);
        let mut v = match t.serialize(W { readable: true }) { Ok(v) => v, Err(_) => { chk!(false); return; } };
        let twice = choice(2) == 1;
        let mut left = m.clone();
        let fine = match damage(&mut v, &mut left, $bin, twice) { Some(b) => b, None => return };
        let fields = if choice(2) == 1 { NAMED } else { REVERSED };
        let r = $ty::<u32>::deserialize(De { r: R { fields, hint: true, readable: true }, v });
        if fine {
            // a side that is not mentioned is a side without a child
            match r { Ok(r) => same(&enc(&r), &left.enc($bin), line!()), Err(_) => chk!(false) }
            cover(3);
            return;
        }
        chk!(r.is_err());
        cover(1 + twice as u32);
    }
} }
/// Removes or doubles one field of one node of the serialised tree, picked freely. Some(true): a missing child of
/// a binary node, taken out of the model as well.
fn damage(v: &mut Val, m: &mut M, bin: bool, twice: bool) -> Option<bool> {
    if let Val::Struct(_, f) = v {
        if choice(2) == 1 {
            let k = choice(f.len());
            if !twice {
                f.remove(k);
                m.ch.retain(|c| c.0 + 1 != k);
                return Some(bin && k > 0);
            }
            let (name, again) = match &f[k] {
                (n, Val::U32(_)) => (*n, Val::U32(v32())),
                (n, Val::Opt(_)) => (*n, Val::Opt(None)),
                (n, _) => (*n, Val::Seq(Vec::new())),
            };
            f.push((name, again));
            return Some(false);
        }
        for (name, v) in f.iter_mut() {
            match v {
                Val::Seq(c) => for (i, v) in c.iter_mut().enumerate() { let r = damage(v, &mut m.ch[i].1, bin, twice); if r.is_some() { return r; } },
                Val::Opt(Some(v)) => {
                    let side = (*name == "right") as usize;
                    for c in m.ch.iter_mut() { if c.0 == side { let r = damage(v, &mut c.1, bin, twice); if r.is_some() { return r; } } }
                }
                _ => {}
            }
        }
    }
    None
}
run!(c22_n c22_bad_n any_n shape_n mk_n false Tree flat_n);
run!(c22_b c22_bad_b any_b shape_b mk_b true BinaryTree flat_b);
entries!(c22_n, c22_b, c22_bad_n, c22_bad_b);
