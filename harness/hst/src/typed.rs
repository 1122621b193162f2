//! C22: typed data.
use crate::util::*;
use rt::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sourisdb::serde_json;
use sourisdb::store::Store;
use sourisdb::types::{imaginary::Imaginary, integer::Integer};
use std::collections::BTreeMap;

fn survives<T: Serialize + DeserializeOwned>(t: &T, same: impl Fn(&T, &T) -> bool) {
    let Ok(b) = Store::to_bytes(t) else {
        check(false, "can be stored");
        return;
    };
    match Store::from_bytes::<T>(&b) {
        Ok(u) => {
            check(same(t, &u), "same data after reading back");
            cover("read back");
        }
        Err(_) => check(false, "reads back"),
    }
    observe(&b);
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Shape {
    Unit,
    New(u8),
    Pair(bool, i8),
    Named { x: u8 },
}
fn shape() -> Shape {
    match choice(4) {
        0 => Shape::Unit,
        1 => Shape::New(any()),
        2 => Shape::Pair(any(), any()),
        _ => Shape::Named { x: any() },
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Numbers {
    a: u64,
    b: i64,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Small {
    a: u8,
    b: Option<bool>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Deep {
    s: String,
    l: Vec<Small>,
    t: (u8, bool),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Wrap(u8);

#[no_mangle]
pub extern "C" fn c22_scalars() {
    match choice(8) {
        0 => survives(&any::<bool>(), |a, b| a == b),
        1 => survives(&any::<u16>(), |a, b| a == b),
        2 => survives(&any::<i16>(), |a, b| a == b),
        3 => survives(&any::<char>(), |a, b| a == b),
        4 => survives(&(), |_, _| true),
        5 => survives(&ascii(choice(2) as usize), |a, b| a == b),
        6 => survives(&Unit, |a, b| a == b),
        _ => survives(&Wrap(any()), |a, b| a == b),
    }
}
/// Wide integers, a free window of two bytes anywhere.
#[no_mangle]
pub extern "C" fn c22_wide() {
    let x = (any::<u16>() as u64) << (16 * choice(4));
    match choice(4) {
        0 => survives(&x, |a, b| a == b),
        1 => survives(&(x as i64), |a, b| a == b),
        2 => survives(&(x as u32), |a, b| a == b),
        _ => survives(&!(x as i64), |a, b| a == b),
    }
}
#[no_mangle]
pub extern "C" fn c22_floats() {
    const F: [f64; 9] = [0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, f64::MAX, 1e16, 0.1];
    let f = F[choice(9) as usize];
    match choice(3) {
        0 => survives(&f, |a, b| a.to_bits() == b.to_bits()),
        1 => {
            let f = f as f32;
            assume(f.is_finite());
            survives(&f, |a, b| a.to_bits() == b.to_bits())
        }
        _ => survives(&vec![f], |a, b| a[0].to_bits() == b[0].to_bits()),
    }
}
#[no_mangle]
pub extern "C" fn c22_enum() {
    survives(&shape(), |a, b| a == b)
}
#[no_mangle]
pub extern "C" fn c22_option() {
    let o: Option<u8> = if any() { Some(any()) } else { None };
    match choice(2) {
        0 => survives(&o, |a, b| a == b),
        _ => survives(&vec![o, None], |a, b| a == b),
    }
}
#[no_mangle]
pub extern "C" fn c22_struct() {
    let b = match choice(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    };
    match choice(3) {
        0 => survives(&Small { a: any(), b }, |a, b| a == b),
        1 => survives(&Numbers { a: any::<u8>() as u64, b: [i64::MIN, -1, 300][choice(3) as usize] }, |a, b| a == b),
        _ => {
            let l = (0..choice(3)).map(|i| Small { a: i as u8, b }).collect();
            survives(&Deep { s: ["", "a", "l"][choice(3) as usize].into(), l, t: (any(), true) }, |a, b| a == b)
        }
    }
}
#[no_mangle]
pub extern "C" fn c22_collections() {
    match choice(4) {
        0 => survives(&bytes(choice(4) as usize), |a, b| a == b),
        1 => survives(&(0..choice(3)).map(|_| ["a", "", "bb"][choice(3) as usize].to_string()).collect::<Vec<_>>(), |a, b| a == b),
        2 => {
            let m: BTreeMap<String, u8> = (0..choice(3)).map(|i| (["k", ""][i as usize].to_string(), any())).collect();
            survives(&m, |a, b| a == b)
        }
        _ => survives(&vec![vec![any::<u8>()], vec![], vec![1, 2]], |a, b| a == b),
    }
}
#[no_mangle]
pub extern "C" fn c22_nested_enums() {
    survives(&vec![shape(), Shape::Unit], |a, b| a == b)
}

// ---- the crate's own serialisable types -------------------------------------------
fn through_json<T: Serialize + DeserializeOwned>(t: &T, same: impl Fn(&T, &T) -> bool) {
    match serde_json::to_value(t) {
        Ok(j) => match serde_json::from_value::<T>(j) {
            Ok(u) => {
                check(same(t, &u), "same data after reading back");
                cover("read back");
            }
            Err(_) => check(false, "reads back"),
        },
        Err(_) => cover("refused"),
    }
}
#[no_mangle]
pub extern "C" fn c22_integer() {
    let i: Integer = match choice(4) {
        0 => any::<u64>().into(),
        1 => any::<i64>().into(),
        2 => any::<u128>().into(),
        _ => any::<i128>().into(),
    };
    let n = value_of(i).unwrap();
    if fits::<u64>(n) | fits::<i64>(n) {
        check(serde_json::to_value(i).is_ok(), "can be written");
    }
    through_json(&i, |a, b| value_of(*a).unwrap().same(value_of(*b).unwrap()));
}
#[no_mangle]
pub extern "C" fn c22_imaginary() {
    let f = |x: f64| {
        assume(x.is_finite());
        x
    };
    let i = if choice(2) == 0 {
        Imaginary::CartesianForm { real: any::<u64>().into(), imaginary: any::<i64>().into() }
    } else {
        Imaginary::PolarForm { modulus: f(any()), argument: f(any()) }
    };
    check(serde_json::to_value(&i).is_ok(), "can be written");
    through_json(&i, crate::gen::same_imaginary);
}
/// Data of one shape read as another.
#[no_mangle]
pub extern "C" fn c22_mismatch() {
    fn read<T: DeserializeOwned>(b: &[u8], possible: bool) {
        let r = Store::from_bytes::<T>(b);
        if !possible {
            check(r.is_err(), "another shape is refused");
            cover("refused");
        }
    }
    let k = choice(6);
    let b = match k {
        0 => Store::to_bytes(&Small { a: any(), b: None }),
        1 => Store::to_bytes(&vec![1u8, 2]),
        2 => Store::to_bytes(&"a"),
        3 => Store::to_bytes(&true),
        4 => Store::to_bytes(&300u16),
        _ => Store::to_bytes(&Shape::New(1)),
    };
    let Ok(b) = b else {
        check(false, "can be stored");
        return;
    };
    read::<Small>(&b, k == 0);
    read::<Vec<u8>>(&b, k == 1);
    read::<String>(&b, k == 2);
    read::<bool>(&b, k == 3);
    read::<u16>(&b, k == 4);
    read::<u8>(&b, false);
    read::<Shape>(&b, k == 5);
    // sequences may stand for structures
    read::<Numbers>(&b, k == 1);
    read::<(bool, bool)>(&b, false);
}
/// Any bytes at all.
#[no_mangle]
pub extern "C" fn c22_garbage() {
    let mut b = b"SOURISDB\0".to_vec();
    b.extend(bytes(choice(4) as usize));
    for i in 9..b.len() {
        assume((b[i] & 0xf0 != 0xc0) & (b[i] & 0xf0 != 0x70));
        assume(b[i] != 0x23);
    }
    if Store::from_bytes::<Small>(&b).is_err() {
        cover("refused");
    }
    if Store::from_bytes::<Option<Vec<Shape>>>(&b).is_err() {
        cover("refused");
    }
}

// ---- formats which keep 128 bits --------------------------------------------------
/// Takes only one integer, of any width.
struct Taker;
#[derive(Debug)]
struct Other;
impl std::fmt::Display for Other {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("not an integer")
    }
}
impl std::error::Error for Other {}
impl serde::ser::Error for Other {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Other
    }
}
macro_rules! taker {
    ($($f:ident $t:ty),*; $($g:ident $u:ty),*) => {
        impl serde::Serializer for Taker {
            type Ok = Num;
            type Error = Other;
            type SerializeSeq = serde::ser::Impossible<Num, Other>;
            type SerializeTuple = serde::ser::Impossible<Num, Other>;
            type SerializeTupleStruct = serde::ser::Impossible<Num, Other>;
            type SerializeTupleVariant = serde::ser::Impossible<Num, Other>;
            type SerializeMap = serde::ser::Impossible<Num, Other>;
            type SerializeStruct = serde::ser::Impossible<Num, Other>;
            type SerializeStructVariant = serde::ser::Impossible<Num, Other>;
            $(fn $f(self, v: $t) -> Result<Num, Other> { Ok(v.num()) })*
            $(fn $g(self, _: $u) -> Result<Num, Other> { Err(Other) })*
            fn serialize_none(self) -> Result<Num, Other> { Err(Other) }
            fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Num, Other> { Err(Other) }
            fn serialize_unit(self) -> Result<Num, Other> { Err(Other) }
            fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Num, Other> { Err(Other) }
            fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Num, Other> { v.serialize(self) }
            fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Num, Other> { Err(Other) }
            fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Other> { Err(Other) }
            fn serialize_tuple(self, _: usize) -> Result<Self::SerializeSeq, Other> { Err(Other) }
            fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Other> { Err(Other) }
            fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Other> { Err(Other) }
            fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeSeq, Other> { Err(Other) }
            fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Other> { Err(Other) }
            fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Other> { Err(Other) }
        }
    };
}
taker!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128,
    serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128;
    serialize_bool bool, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8],
    serialize_unit_struct &'static str);
/// A format may hand an integer over in any width.
#[no_mangle]
pub extern "C" fn c22_widths() {
    use serde::de::value::*;
    use serde::de::IntoDeserializer;
    fn given<T: Machine + for<'de> IntoDeserializer<'de, Error>>(x: T) {
        match Integer::deserialize(x.into_deserializer()) {
            Ok(i) => {
                check(value_of(i).is_some_and(|v| v.same(x.num())), "the integer which was given");
                match i.serialize(Taker) {
                    Ok(n) => check(n.same(x.num()), "the integer is handed over"),
                    Err(_) => check(false, "can be handed over"),
                }
                cover("read back");
            }
            Err(_) => check(false, "an integer of any width is taken"),
        }
    }
    match choice(10) {
        0 => given(any::<u8>()),
        1 => given(any::<u16>()),
        2 => given(any::<u32>()),
        3 => given(any::<u64>()),
        4 => given(any::<u128>()),
        5 => given(any::<i8>()),
        6 => given(any::<i16>()),
        7 => given(any::<i32>()),
        8 => given(any::<i64>()),
        _ => given(any::<i128>()),
    }
}
