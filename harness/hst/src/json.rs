//! C14, C15: JSON.
use crate::gen::*;
use crate::util::*;
use rt::*;
use sourisdb::chrono::NaiveDateTime;
use sourisdb::chrono_tz::{Tz, TZ_VARIANTS};
use sourisdb::hashbrown::HashMap;
use sourisdb::serde_json::{self, json as j, Map as JMap, Number, Value as J};
use sourisdb::store::Store;
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary, integer::Integer};
use sourisdb::values::Value;
use std::net::{Ipv4Addr, Ipv6Addr};

// ---- C14 ------------------------------------------------------------------------
fn returns(v: Value) {
    let w = v.clone();
    let Some(j) = v.convert_to_json(true) else {
        check(false, "JSON can carry this");
        return;
    };
    match Value::convert_from_json(j) {
        Ok(x) => {
            check(identical(&w, &x), "same value after importing");
            cover("returned");
        }
        Err(_) => check(false, "what was exported can be imported"),
    }
}
fn refused(v: Value) {
    check(v.convert_to_json(true).is_none(), "what JSON cannot carry is refused");
    cover("refused");
}
fn json_integer() -> Integer {
    match choice(4) {
        0 => any::<u8>().into(),
        1 => any::<u64>().into(),
        2 => any::<i64>().into(),
        _ => any::<i16>().into(),
    }
}
fn finite() -> f64 {
    let f: f64 = any();
    assume(f.is_finite());
    f
}
fn carried(kind: u32) -> Value {
    match kind {
        0 => Value::Null(()),
        1 => Value::Boolean(any()),
        2 => Value::Integer(json_integer()),
        3 => Value::DoubleFloat(finite()),
        4 => Value::String(chars(choice(3) as usize)),
        5 => Value::Imaginary(Imaginary::CartesianForm { real: json_integer(), imaginary: json_integer() }),
        6 => Value::Imaginary(Imaginary::PolarForm { modulus: finite(), argument: finite() }),
        7 => Value::Timezone(TZ_VARIANTS[choice(TZ_VARIANTS.len() as u32) as usize]),
        8 => Value::Binary(BinaryData(bytes(choice(5) as usize))),
        9 => Value::Ipv4Addr(Ipv4Addr::from(any::<u32>())),
        10 => Value::Ipv6Addr(Ipv6Addr::from(any::<u128>())),
        11 => Value::Array(vec![]),
        _ => Value::Map(HashMap::new()),
    }
}
/// One of each kind JSON can carry, cheaply.
fn carried_small() -> Value {
    match choice(13) {
        2 => Value::Integer(any::<u8>().into()),
        4 => Value::String(ascii(1)),
        5 => Value::Imaginary(Imaginary::CartesianForm { real: any::<u64>().into(), imaginary: any::<u8>().into() }),
        7 => Value::Timezone(Tz::Europe__London),
        8 => Value::Binary(BinaryData(bytes(1))),
        11 => Value::Timestamp(stamp(2024, 2, 29, 86_399, 5)),
        k => carried(k),
    }
}
#[no_mangle]
pub extern "C" fn c14_leaf() {
    let k = choice(13);
    if k != 7 {
        returns(carried(k))
    }
}
#[no_mangle]
pub extern "C" fn c14_zone() {
    returns(carried(7))
}
#[no_mangle]
pub extern "C" fn c14_nested() {
    let v = carried_small();
    returns(match choice(5) {
        0 => Value::Array(vec![v]),
        1 => Value::Array(vec![v, carried_small()]),
        2 => Value::Map([(ascii(1), v)].into_iter().collect()),
        3 => Value::Map([("a".to_string(), v), ("b".to_string(), Value::Null(()))].into_iter().collect()),
        _ => Value::Map([("real".to_string(), Value::Array(vec![Value::Map([("bytes".to_string(), v)].into_iter().collect())]))].into_iter().collect()),
    })
}
/// Maps whose keys are those the annotations use, without their marker.
#[no_mangle]
pub extern "C" fn c14_keys() {
    const K: [&str; 8] = ["real", "imaginary", "modulus", "argument", "timestamp", "timezone", "bytes", "octets"];
    let mut m = HashMap::new();
    for _ in 0..2 {
        m.insert(K[choice(8) as usize].to_string(), carried_small_plain());
    }
    returns(Value::Map(m))
}
fn carried_small_plain() -> Value {
    match choice(4) {
        0 => Value::Integer(any::<u8>().into()),
        1 => Value::String("UTC".into()),
        2 => Value::Array(vec![Value::Integer(any::<u8>().into())]),
        _ => Value::DoubleFloat(finite()),
    }
}
/// Every field of a timestamp in turn, and fractions of every length.
#[no_mangle]
pub extern "C" fn c14_timestamp_date() {
    let t = match choice(3) {
        0 => stamp([-262_143, -10_000, -9999, -1, 0, 1, 999, 1000, 9999, 10_000, 99_999, 262_142][choice(12) as usize], 2, 28, 0, 0),
        1 => stamp(2023, any::<u8>().into(), 28, 0, 0),
        _ => stamp(2024, 2, any::<u8>().into(), 43_200, 1),
    };
    returns(Value::Timestamp(t))
}
fn time(h: u32, m: u32, s: u32, n: u32) -> NaiveDateTime {
    stamp(2024, 2, 29, h * 3600 + m * 60 + s, n)
}
#[no_mangle]
pub extern "C" fn c14_timestamp_time() {
    let b: u8 = any();
    let b = b as u32;
    assume(b < 60);
    let t = match choice(4) {
        0 => {
            assume(b < 24);
            time(b, 0, 0, 0)
        }
        1 => time(12, b, 30, 0),
        2 => time(23, 59, b, 0),
        _ => {
            const N: [u32; 12] = [1, 9, 10, 999, 1_000, 1_001, 999_999, 1_000_000, 120_000_000, 999_000_000, 999_999_999, 1_500_000_000];
            let n = N[choice(12) as usize];
            // the text of a leap second only names a time when it follows second 59
            time(23, 59, 59, n)
        }
    };
    returns(Value::Timestamp(t))
}
#[no_mangle]
pub extern "C" fn c14_refused() {
    let big: u128 = any();
    let low: i128 = any();
    let f: f64 = any();
    assume(big > u64::MAX as u128);
    assume(low < i64::MIN as i128);
    assume(!f.is_finite());
    let i: Integer = if choice(2) == 0 { big.into() } else { low.into() };
    let bad = match choice(6) {
        0 => Value::Integer(i),
        1 => Value::DoubleFloat(f),
        2 => Value::SingleFloat({
            let g: f32 = any();
            assume(!g.is_finite());
            g
        }),
        3 => Value::Imaginary(Imaginary::CartesianForm { real: i, imaginary: any::<u8>().into() }),
        4 => Value::Imaginary(Imaginary::CartesianForm { real: any::<i8>().into(), imaginary: i }),
        _ => Value::Imaginary(if choice(2) == 0 {
            Imaginary::PolarForm { modulus: f, argument: finite() }
        } else {
            Imaginary::PolarForm { modulus: finite(), argument: f }
        }),
    };
    refused(match choice(4) {
        0 => bad,
        1 => Value::Array(vec![Value::Null(()), bad]),
        2 => Value::Map([("k".to_string(), bad)].into_iter().collect()),
        _ => Value::Array(vec![Value::Map([("k".to_string(), Value::Array(vec![bad, Value::Null(())]))].into_iter().collect())]),
    });
}
/// Stores, objects at the top or not, and through text.
#[no_mangle]
pub extern "C" fn c14_store() {
    let s = match choice(4) {
        0 => Store::default(),
        1 => Store::new([(ascii(1), carried_small())]),
        2 => Store::new([("a".to_string(), carried_small()), ("JSON".to_string(), Value::Boolean(any()))]),
        _ => Store::new([("JSON".to_string(), match choice(3) {
            0 => Value::Array(vec![carried_small()]),
            1 => Value::Integer(any::<u64>().into()),
            _ => Value::String(ascii(1)),
        })]),
    };
    let t = s.clone();
    let Some(j) = s.to_json(true) else {
        check(false, "JSON can carry this");
        return;
    };
    match Store::from_json(j) {
        Ok(x) => {
            check(crate::store::same(&t, &x), "same store after importing");
            cover("returned");
        }
        Err(_) => check(false, "what was exported can be imported"),
    }
}
#[no_mangle]
pub extern "C" fn c14_store_refused() {
    let f: f32 = any();
    assume(!f.is_finite());
    let s = Store::new([(["a", "JSON"][choice(2) as usize].to_string(), Value::SingleFloat(f))]);
    check(s.to_json(any()).is_none(), "what JSON cannot carry is refused");
}
#[no_mangle]
pub extern "C" fn c14_text() {
    let v = match choice(8) {
        0 => Value::Integer(any::<u8>().into()),
        1 => Value::Integer([i64::MIN, -1, i64::MAX][choice(3) as usize].into()),
        2 => Value::Integer(u64::MAX.into()),
        3 => Value::DoubleFloat([0.5, -0.0, 1.0, 1e21, 123_456.75][choice(5) as usize]),
        4 => Value::String(ascii(1)),
        5 => Value::Binary(BinaryData(vec![any(), 0])),
        6 => Value::Ipv4Addr(Ipv4Addr::new(any(), 0, 255, 1)),
        _ => Value::Timestamp(stamp(1, 12, 31, 1, 1_000)),
    };
    let s = Store::new([("k".to_string(), v)]);
    let t = s.clone();
    let text = s.to_json(true).map(|j| j.to_string()).unwrap_or_default();
    match Store::from_json_bytes(text.as_bytes()) {
        Ok(x) => {
            check(crate::store::same(&t, &x), "same store after importing");
            cover("returned");
        }
        Err(_) => check(false, "what was exported can be imported"),
    }
}

// ---- C15 ------------------------------------------------------------------------
/// Same document, floats by their bits, and numbers of the same sort.
fn same_json(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Null, J::Null) => true,
        (J::Bool(x), J::Bool(y)) => x == y,
        (J::Number(x), J::Number(y)) => {
            if x.is_f64() || y.is_f64() {
                x.is_f64() && y.is_f64() && x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits()
            } else {
                (x.as_u64() == y.as_u64()) & (x.as_i64() == y.as_i64())
            }
        }
        (J::String(x), J::String(y)) => same_bytes(x.as_bytes(), y.as_bytes()),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_json(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| same_json(a, b))),
        _ => false,
    }
}
fn reproduced(d: J) {
    let e = d.clone();
    match Store::from_json(d) {
        Ok(s) => match s.to_json(false) {
            Some(x) => {
                check(same_json(&x, &e), "same document after exporting");
                cover("reproduced");
            }
            None => check(false, "what was imported can be exported"),
        },
        Err(_) => check(false, "a plain document can be imported"),
    }
}
fn scalar() -> J {
    match choice(6) {
        0 => J::Null,
        1 => J::Bool(any()),
        2 => J::Number(Number::from(any::<u64>())),
        3 => J::Number(Number::from(any::<i64>())),
        4 => J::Number(Number::from_f64(finite()).unwrap()),
        _ => J::String(chars(choice(3) as usize)),
    }
}
fn object(l: Vec<(String, J)>) -> J {
    J::Object(l.into_iter().collect::<JMap<_, _>>())
}
#[no_mangle]
pub extern "C" fn c15_scalar() {
    reproduced(scalar())
}
#[no_mangle]
pub extern "C" fn c15_array() {
    reproduced(J::Array((0..choice(4)).map(|_| scalar_small()).collect()))
}
fn scalar_small() -> J {
    match choice(5) {
        0 => J::Null,
        1 => J::Number(Number::from(any::<u64>())),
        2 => J::Number(Number::from_f64(finite()).unwrap()),
        3 => J::String(ascii(1)),
        _ => J::Array(vec![]),
    }
}
#[no_mangle]
pub extern "C" fn c15_object() {
    let mut l = vec![];
    for _ in 0..choice(3) {
        l.push((ascii(choice(3) as usize), scalar_small()));
    }
    reproduced(object(l))
}
#[no_mangle]
pub extern "C" fn c15_nested() {
    let d = scalar();
    reproduced(match choice(5) {
        0 => object(vec![("a".into(), J::Array(vec![d, j!({"b": []})]))]),
        1 => object(vec![("a".into(), object(vec![(ascii(1), d)])), ("".into(), j!({}))]),
        2 => J::Array(vec![object(vec![(chars(1), d)]), J::Null]),
        3 => J::Array(vec![J::Array(vec![J::Array(vec![d])])]),
        _ => object(vec![("JSON".into(), d), ("b".into(), J::Null)]),
    })
}
/// The reserved key where it wraps nothing.
#[no_mangle]
pub extern "C" fn c15_reserved() {
    let d = scalar_small();
    reproduced(match choice(4) {
        0 => object(vec![("a".into(), object(vec![("JSON".into(), d)]))]),
        1 => J::Array(vec![object(vec![("JSON".into(), d)])]),
        2 => object(vec![("JSON".into(), d), (ascii(1), J::Bool(true))]),
        _ => object(vec![(ascii(4), d)].into_iter().filter(|(k, _)| k != "JSON").collect()),
    })
}
/// Keys the annotations use, without the marker, and the marker as plain data.
#[no_mangle]
pub extern "C" fn c15_lookalikes() {
    let d = match choice(5) {
        0 => j!({"real": any::<u8>(), "imaginary": any::<u8>()}),
        1 => j!({"timestamp": "2024-01-01 00:00:00"}),
        2 => j!({"octets": [any::<u8>(), 2, 3, 4]}),
        3 => j!({"bytes": [any::<u8>()]}),
        _ => j!({"timezone": "UTC", "modulus": 0.5}),
    };
    reproduced(if choice(2) == 0 { d } else { J::Array(vec![d]) })
}
/// Every text of a few bytes which is a document at all.
fn text(n: u32) {
    let t = bytes(1 + choice(n) as usize);
    let Ok(d) = serde_json::from_slice::<J>(&t) else {
        check(Store::from_json_bytes(&t).is_err(), "no document, no store");
        cover("no document");
        return;
    };
    match Store::from_json_bytes(&t) {
        Ok(s) => {
            let x = s.to_json(false);
            check(x.is_some_and(|x| same_json(&x, &d)), "same document after exporting");
            cover("reproduced");
        }
        Err(_) => check(false, "a plain document can be imported"),
    }
}
#[no_mangle]
pub extern "C" fn c15_text() {
    text(3)
}
#[no_mangle]
pub extern "C" fn c15t_text() {
    text(4)
}
