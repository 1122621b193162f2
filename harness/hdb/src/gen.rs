//! Generators of values and an exact comparison of them.
use rt::*;
use sourisdb::chrono::{NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use sourisdb::chrono_tz::{Tz, TZ_VARIANTS};
use sourisdb::hashbrown::HashMap;
use sourisdb::serde_json::{Map as JMap, Number, Value as J};
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary, integer::Integer};
use sourisdb::values::Value;
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn integer() -> Integer {
    match choice(6) {
        0 => any::<u8>().into(),
        1 => any::<u64>().into(),
        2 => any::<u128>().into(),
        3 => any::<i8>().into(),
        4 => any::<i64>().into(),
        _ => any::<i128>().into(),
    }
}
pub fn imaginary() -> Imaginary {
    if choice(2) == 0 {
        Imaginary::CartesianForm { real: integer(), imaginary: integer() }
    } else {
        Imaginary::PolarForm { modulus: any(), argument: any() }
    }
}
/// Any point in time chrono can hold, leap seconds included.
pub fn timestamp() -> NaiveDateTime {
    let year: i32 = any();
    let (month, day): (u8, u8) = (any(), any());
    let (secs, nanos): (u32, u32) = (any(), any());
    assume((year >= -262_143) & (year <= 262_142));
    stamp(year, month.into(), day.into(), secs, nanos)
}
pub fn stamp(year: i32, month: u32, day: u32, secs: u32, nanos: u32) -> NaiveDateTime {
    let date = NaiveDate::from_ymd_opt(year, month, day);
    assume(date.is_some());
    assume((secs < 86_400) & (nanos < 2_000_000_000));
    // a leap second may follow any second
    let time = NaiveTime::from_num_seconds_from_midnight_opt(secs, 0).and_then(|t| t.with_nanosecond(nanos));
    assume(time.is_some());
    NaiveDateTime::new(date.unwrap(), time.unwrap())
}
pub fn timezone() -> Tz {
    TZ_VARIANTS[choice(TZ_VARIANTS.len() as u32) as usize]
}
/// A JSON scalar or a small container of scalars.
pub fn json(depth: u32) -> J {
    match choice(if depth > 0 { 8 } else { 6 }) {
        0 => J::Null,
        1 => J::Bool(any()),
        2 => J::Number(Number::from(any::<u8>())),
        3 => J::Number(Number::from(any::<i8>())),
        4 => {
            const F: [f64; 5] = [0.5, -0.0, 1e300, 5e-324, 123_456.789];
            J::Number(Number::from_f64(F[choice(5) as usize]).unwrap())
        }
        5 => J::String(ascii(choice(2) as usize)),
        6 => J::Array((0..choice(3)).map(|_| json(depth - 1)).collect()),
        _ => {
            let mut m = JMap::new();
            for i in 0..choice(3) {
                m.insert(["k", ""][i as usize].into(), json(depth - 1));
            }
            J::Object(m)
        }
    }
}
/// A value of the kind with the given type code which contains no other value.
pub fn leaf(kind: u32) -> Value {
    match kind {
        0 => Value::Character(any()),
        1 => Value::String(chars(choice(3) as usize)),
        2 => Value::Binary(BinaryData(bytes(choice(4) as usize))),
        3 => Value::Boolean(any()),
        4 => Value::Integer(integer()),
        5 => Value::Imaginary(imaginary()),
        6 => Value::Timestamp(timestamp()),
        7 => Value::JSON(json(1)),
        8 => Value::Map(HashMap::new()),
        9 => Value::Null(()),
        10 => Value::DoubleFloat(any()),
        11 => Value::Array(vec![]),
        12 => Value::Timezone(timezone()),
        13 => Value::Ipv4Addr(Ipv4Addr::from(any::<u32>())),
        14 => Value::Ipv6Addr(Ipv6Addr::from(any::<u128>())),
        _ => Value::SingleFloat(any()),
    }
}
/// A value of any kind whose content costs few paths.
pub fn small() -> Value {
    match choice(16) {
        0 => Value::Character('q'),
        1 => Value::String(ascii(1)),
        2 => Value::Binary(BinaryData(bytes(1))),
        3 => Value::Boolean(any()),
        4 => Value::Integer(any::<u8>().into()),
        5 => Value::Imaginary(Imaginary::PolarForm { modulus: any(), argument: any() }),
        6 => Value::Timestamp(stamp(2024, 2, 29, 86_399, 999_999_999)),
        7 => Value::JSON(J::Bool(any())),
        8 => Value::Map(HashMap::new()),
        9 => Value::Null(()),
        10 => Value::DoubleFloat(any()),
        11 => Value::Array(vec![]),
        12 => Value::Timezone(Tz::Europe__London),
        13 => Value::Ipv4Addr(Ipv4Addr::from(any::<u32>())),
        14 => Value::Ipv6Addr(Ipv6Addr::from(any::<u128>())),
        _ => Value::SingleFloat(any()),
    }
}

/// The same value, floats compared by their bits (NaN payloads included).
pub fn identical(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::DoubleFloat(x), Value::DoubleFloat(y)) => x.to_bits() == y.to_bits(),
        (Value::SingleFloat(x), Value::SingleFloat(y)) => x.to_bits() == y.to_bits(),
        (Value::Imaginary(x), Value::Imaginary(y)) => same_imaginary(x, y),
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| identical(a, b))
        }
        (Value::Map(x), Value::Map(y)) => {
            x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| identical(a, b)))
        }
        (Value::String(x), Value::String(y)) => crate::util::same_bytes(x.as_bytes(), y.as_bytes()),
        (Value::Binary(x), Value::Binary(y)) => crate::util::same_bytes(&x.0, &y.0),
        (Value::Timestamp(x), Value::Timestamp(y)) => {
            // field by field: chrono's own equality is that of its representation
            x == y && x.time().nanosecond() == y.time().nanosecond()
        }
        (Value::Character(x), Value::Character(y)) => x == y,
        (Value::Boolean(x), Value::Boolean(y)) => x == y,
        (Value::Integer(x), Value::Integer(y)) => same_integer(*x, *y),
        (Value::JSON(x), Value::JSON(y)) => x == y,
        (Value::Null(()), Value::Null(())) => true,
        (Value::Timezone(x), Value::Timezone(y)) => x == y,
        (Value::Ipv4Addr(x), Value::Ipv4Addr(y)) => x.octets() == y.octets(),
        (Value::Ipv6Addr(x), Value::Ipv6Addr(y)) => u128::from(*x) == u128::from(*y),
        _ => false,
    }
}
pub fn same_imaginary(a: &Imaginary, b: &Imaginary) -> bool {
    match (a, b) {
        (
            Imaginary::CartesianForm { real: a, imaginary: b },
            Imaginary::CartesianForm { real: c, imaginary: d },
        ) => same_integer(*a, *c) & same_integer(*b, *d),
        (
            Imaginary::PolarForm { modulus: a, argument: b },
            Imaginary::PolarForm { modulus: c, argument: d },
        ) => (a.to_bits() == c.to_bits()) & (b.to_bits() == d.to_bits()),
        _ => false,
    }
}
pub fn same_integer(a: Integer, b: Integer) -> bool {
    match (crate::util::value_of(a), crate::util::value_of(b)) {
        (Some(x), Some(y)) => x.same(y),
        _ => false,
    }
}
