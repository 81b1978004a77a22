//! A small self-describing token format for serde, in two flavours: structs as maps (like JSON) or as sequences (like
//! bincode).  Used for the round-trip property and for deserialising a FiniteAboveNegOneF64.
use super::*;
use core::fmt::Display;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor, value::F64Deserializer, value::U64Deserializer, value::I64Deserializer, value::F32Deserializer};
use serde::ser::{self, Serialize};
extern crate alloc;
use alloc::vec::Vec;

#[derive(Debug)]
pub struct E;
impl Display for E {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl core::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: Display>(_: T) -> Self {
        E
    }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        E
    }
    fn missing_field(_: &'static str) -> Self {
        E
    }
    fn duplicate_field(_: &'static str) -> Self {
        E
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_de(x: f64) {
    seefan(FiniteAboveNegOneF64::deserialize(F64Deserializer::<E>::new(x)).ok())
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_de_u64(x: u64) {
    match FiniteAboveNegOneF64::deserialize(U64Deserializer::<E>::new(x)) {
        Ok(v) => {
            outi(20, 1);
            out(5, v.get())
        }
        Err(_) => outi(20, 0),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_de_i64(x: i64) {
    match FiniteAboveNegOneF64::deserialize(I64Deserializer::<E>::new(x)) {
        Ok(v) => {
            outi(20, 1);
            out(5, v.get())
        }
        Err(_) => outi(20, 0),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_de_f32(x: f32) {
    seefan(FiniteAboveNegOneF64::deserialize(F32Deserializer::<E>::new(x)).ok())
}

#[derive(Clone, Copy)]
enum Tok {
    F(f64),
    U(u64),
    Open,
    Close,
    Name(&'static str),
}

struct W {
    t: Vec<Tok>,
    map: bool,
}
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.t.push(Tok::U(v as u64)); Ok(()) })* }
}
impl<'a> ser::Serializer for &'a mut W {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), E>;
    ints! {serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64}
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.t.push(Tok::F(v as f64));
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        self.t.push(Tok::F(v));
        Ok(())
    }
    fn serialize_char(self, _: char) -> Result<(), E> {
        Err(E)
    }
    fn serialize_str(self, _: &str) -> Result<(), E> {
        Err(E)
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), E> {
        Err(E)
    }
    fn serialize_none(self) -> Result<(), E> {
        Err(E)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        Err(E)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, E> {
        self.t.push(Tok::Open);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        self.t.push(Tok::Open);
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        self.t.push(Tok::Open);
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<ser::Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        self.t.push(Tok::Open);
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), E>, E> {
        Err(E)
    }
    fn collect_str<T: ?Sized + Display>(self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn is_human_readable(&self) -> bool {
        self.map
    }
}
impl ser::SerializeSeq for &mut W {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.t.push(Tok::Close);
        Ok(())
    }
}
impl ser::SerializeTuple for &mut W {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.t.push(Tok::Close);
        Ok(())
    }
}
impl ser::SerializeTupleStruct for &mut W {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.t.push(Tok::Close);
        Ok(())
    }
}
impl ser::SerializeStruct for &mut W {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        if self.map {
            self.t.push(Tok::Name(k));
        }
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.t.push(Tok::Close);
        Ok(())
    }
}

struct Rd<'a> {
    t: &'a [Tok],
    p: usize,
    map: bool,
}
impl Rd<'_> {
    fn next(&mut self) -> Result<Tok, E> {
        let r = self.t.get(self.p).copied().ok_or(E);
        self.p += 1;
        r
    }
}
struct Acc<'r, 'a>(&'r mut Rd<'a>);
impl<'de> SeqAccess<'de> for Acc<'_, '_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if let Some(Tok::Close) = self.0.t.get(self.0.p) {
            return Ok(None);
        }
        s.deserialize(&mut *self.0).map(Some)
    }
}
struct Key(&'static str);
impl<'de> Deserializer<'de> for Key {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_borrowed_str(self.0)
    }
    serde::forward_to_deserialize_any! {bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any}
}
impl<'de> MapAccess<'de> for Acc<'_, '_> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        match self.0.t.get(self.0.p) {
            Some(&Tok::Name(k)) => {
                self.0.p += 1;
                s.deserialize(Key(k)).map(Some)
            }
            _ => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, E> {
        s.deserialize(&mut *self.0)
    }
}
impl<'de> Deserializer<'de> for &mut Rd<'_> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.next()? {
            Tok::F(x) => v.visit_f64(x),
            Tok::U(x) => v.visit_u64(x),
            Tok::Open => {
                let r = v.visit_seq(Acc(self))?;
                match self.next()? {
                    Tok::Close => Ok(r),
                    _ => Err(E),
                }
            }
            _ => Err(E),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        match self.next()? {
            Tok::Open => {
                let r = if self.map { v.visit_map(Acc(self))? } else { v.visit_seq(Acc(self))? };
                match self.next()? {
                    Tok::Close => Ok(r),
                    _ => Err(E),
                }
            }
            _ => Err(E),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.map
    }
    serde::forward_to_deserialize_any! {bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct seq tuple tuple_struct map enum identifier ignored_any}
}

fn round<T: Serialize + for<'d> Deserialize<'d>>(v: &T, map: bool) -> Option<T> {
    let mut w = W { t: Vec::with_capacity(64), map };
    v.serialize(&mut w).ok()?;
    let mut r = Rd { t: &w.t, p: 0, map };
    T::deserialize(&mut r).ok()
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ser_fan(x: f64, map: u64) {
    if let Some(v) = FiniteAboveNegOneF64::new(x) {
        outi(46, 1);
        seefan(round(&v, map != 0))
    }
}
macro_rules! ser_comp {
    ($T:ident, $name:ident) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: u32, map: u64) {
            let r = $T::new(nz32(n));
            match round(&r, map != 0) {
                Some(q) => {
                    outi(20, 1);
                    outi(31, q.degree().get() as u64);
                    outi(32, (q == r) as u64)
                }
                None => outi(20, 0),
            }
        }
    };
}
ser_comp!(Trapezoid, h_ser_trap);
ser_comp!(Midpoint, h_ser_mid);
ser_comp!(Simpson, h_ser_simp);
macro_rules! ser_gauss {
    ($T:ident, $name:ident, |$q:ident| $more:expr) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: usize, al: f64, be: f64, hv: u64, map: u64) {
            let mut r = $T::mk(n, al, be);
            if hv != 0 {
                havoc(&mut r, n);
            }
            match round(&r, map != 0) {
                Some($q) => {
                    outi(20, 1);
                    outi(31, $q.degree() as u64);
                    $more;
                    for &(x, w) in &$q {
                        out(1, x);
                        out(2, w);
                    }
                    for &(x, w) in &r {
                        out(11, x);
                        out(12, w);
                    }
                    outi(32, ($q == r) as u64)
                }
                None => outi(20, 0),
            }
        }
    };
}
ser_gauss!(GaussLegendre, h_ser_leg, |q| ());
ser_gauss!(GaussChebyshevFirstKind, h_ser_che1, |q| ());
ser_gauss!(GaussChebyshevSecondKind, h_ser_che2, |q| ());
ser_gauss!(GaussHermite, h_ser_her, |q| ());
ser_gauss!(GaussLaguerre, h_ser_lag, |q| out(3, q.alpha().get()));
ser_gauss!(GaussJacobi, h_ser_jac, |q| {
    out(3, q.alpha().get());
    out(4, q.beta().get())
});
