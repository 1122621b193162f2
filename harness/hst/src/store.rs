//! C12 (and the stores' part of C24): stores.
use crate::gen::*;
use crate::util::*;
use rt::*;
use sourisdb::chrono_tz::Tz;
use sourisdb::hashbrown::HashMap;
use sourisdb::serde_json::{json as j, Value as J};
use sourisdb::store::{Store, StoreSerError};
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary};
use sourisdb::values::{Value, ValueTy};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn same(a: &Store, b: &Store) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| identical(v, w)))
}
fn survives(s: Store) {
    let e = s.ser();
    check(e.len() > 8 && e[..8] == *b"SOURISDB", "starts with the magic bytes");
    match Store::deser(&e) {
        Ok(t) => {
            check(same(&s, &t), "same store after reading back");
            cover("read back");
        }
        Err(_) => check(false, "reads back"),
    }
    observe(&e);
}
fn store(l: Vec<(&str, Value)>) -> Store {
    Store::new(l.into_iter().map(|(k, v)| (k.to_string(), v)))
}
#[no_mangle]
pub extern "C" fn c12_empty() {
    survives(if choice(2) == 0 { Store::default() } else { Store::new([]) });
}
/// Each kind under no, a short or any one-character key.
#[no_mangle]
pub extern "C" fn c12_one() {
    let v = tiny();
    let s = match choice(3) {
        0 => store(vec![("", v)]),
        1 => store(vec![("k", v)]),
        _ => Store::new([(chars(1), Value::Boolean(true))]),
    };
    survives(s)
}
/// No text at all: no tree is stored.
#[no_mangle]
pub extern "C" fn c12_no_text() {
    let v = match choice(4) {
        0 => Value::Array(vec![small_plain(), Value::Null(())]),
        1 => Value::Binary(BinaryData(bytes(choice(3) as usize))),
        2 => Value::Map([(String::new(), small_plain())].into_iter().collect()),
        _ => small_plain(),
    };
    survives(store(vec![("", v)]))
}
/// A value of any kind with at most one free byte: whole stores are compressed,
/// and each free byte may or may not be equal to each other byte.
fn tiny() -> Value {
    let x: u8 = any();
    match choice(16) {
        0 => Value::Character(['q', '\u{10ffff}'][choice(2) as usize]),
        1 => Value::String(ascii(1)),
        2 => Value::Binary(BinaryData(vec![x, x, 1])),
        3 => Value::Boolean(any()),
        4 => Value::Integer((-(x as i16)).into()),
        5 => Value::Imaginary(Imaginary::CartesianForm { real: x.into(), imaginary: (-1i8).into() }),
        6 => Value::Timestamp(stamp(-2024, 2, 28, 86_399, 999_999_999)),
        7 => Value::JSON([J::Bool(true), j!([1, "a"])][choice(2) as usize].clone()),
        8 => Value::Map(HashMap::new()),
        9 => Value::Null(()),
        10 => Value::DoubleFloat([0.0, -0.0, f64::NAN, 1.5e-300][choice(4) as usize]),
        11 => Value::Array(vec![]),
        12 => Value::Timezone(Tz::Europe__London),
        13 => Value::Ipv4Addr(Ipv4Addr::new(127, x, 0, 1)),
        14 => Value::Ipv6Addr(Ipv6Addr::from(x as u128)),
        _ => Value::SingleFloat([f32::MIN_POSITIVE, f32::INFINITY][choice(2) as usize]),
    }
}
fn small_plain() -> Value {
    match choice(4) {
        0 => Value::Null(()),
        1 => Value::Integer(any::<u8>().into()),
        2 => Value::Boolean(any()),
        _ => Value::Character(['\u{7f}', '\u{fffd}'][choice(2) as usize]),
    }
}
/// Text everywhere it can be, over a small alphabet so that trees of one, two
/// and three symbols occur, and text of any one character.
#[no_mangle]
pub extern "C" fn c12_text() {
    let a = ["", "a", "aa", "ab", "ba"];
    let t = || a[choice(5) as usize].to_string();
    let s = match choice(6) {
        0 => Store::new([(t(), Value::String(t()))]),
        1 => Store::new([(t(), Value::Null(())), (t(), Value::String(t()))]),
        2 => Store::new([(t(), Value::Array(vec![Value::String(t()), Value::Character('z')]))]),
        3 => Store::new([(t(), Value::Map([(t(), Value::String(t()))].into_iter().collect()))]),
        4 => Store::new([(t(), Value::JSON(J::String(t())))]),
        _ => Store::new([("a".into(), Value::String(chars(1)))]),
    };
    survives(s)
}
/// Time zones and JSON bring their own characters.
#[no_mangle]
pub extern "C" fn c12_zone_json() {
    let v = match choice(4) {
        0 => Value::Timezone(Tz::UTC),
        1 => Value::Timezone(Tz::America__Argentina__ComodRivadavia),
        2 => Value::JSON(j!({"a": [1, null, true], "b": "\u{e9}\""})),
        _ => Value::JSON(J::Null),
    };
    let s = match choice(3) {
        0 => store(vec![("", v)]),
        1 => store(vec![("zone", v), ("b", Value::Integer(any::<u8>().into()))]),
        _ => store(vec![("x", Value::Array(vec![v, Value::Map([("\u{10ffff}".to_string(), Value::Null(()))].into_iter().collect())]))]),
    };
    survives(s)
}
/// The number of entries around each change of its encoding.
#[no_mangle]
pub extern "C" fn c12_sizes() {
    let n = choice(12) as usize;
    let x: u8 = any();
    survives(Store::new((0..n).map(|i| (format!("{i}"), if i == 0 { Value::Integer(x.into()) } else { Value::Null(()) }))))
}
#[no_mangle]
pub extern "C" fn c12_nested() {
    let v = tiny();
    let v = match choice(4) {
        0 => Value::Array(vec![v]),
        1 => Value::Map([("k".to_string(), v)].into_iter().collect()),
        2 => Value::Array(vec![Value::Array(vec![]), Value::Map(HashMap::new()), v]),
        _ => Value::Map([("b".to_string(), Value::Array(vec![v]))].into_iter().collect()),
    };
    survives(store(vec![("k", v)]))
}
#[no_mangle]
pub extern "C" fn c12_two() {
    let v = tiny();
    survives(Store::new([(ascii(1), v), (String::new(), Value::Boolean(true))]))
}
#[no_mangle]
pub extern "C" fn c12_two_keys() {
    let k = [chars(1), "a".to_string()];
    survives(Store::new([(k[0].clone(), Value::Null(())), (k[1].clone(), Value::Boolean(true))]))
}
/// Large stores, without anything free.
#[no_mangle]
pub extern "C" fn c12_many() {
    let n = [100, 238, 239, 240, 255, 256, 300][choice(7) as usize];
    let kind = choice(4);
    survives(Store::new((0..n).map(|i| {
        let v = match kind {
            0 => Value::Null(()),
            1 => Value::Integer((i as i64 * 1_000_003 - 7).into()),
            2 => Value::String(format!("value number {i}")),
            _ => Value::Boolean(i % 3 == 0),
        };
        (format!("{i}"), v)
    })))
}
#[no_mangle]
pub extern "C" fn c12_long() {
    let n = [238, 239, 240, 255, 256, 300, 1000, 66_000][choice(8) as usize];
    let kind = [0, 1, 2, 3, 5][choice(5) as usize];
    assume(n < 2000 || kind < 2);
    let b = filling(kind, n);
    let v = match choice(3) {
        0 => Value::String(if kind == 5 { b.iter().map(|b| char::from_u32(*b as u32 + 0x3b1).unwrap()).collect() } else { String::from_utf8(b).unwrap() }),
        1 => Value::Binary(BinaryData(b)),
        _ if n < 2000 && kind < 5 => return survives(store(vec![(std::str::from_utf8(&b).unwrap(), Value::Null(()))])),
        _ => return,
    };
    survives(store(vec![("k", v)]))
}
fn filling(kind: u32, n: usize) -> Vec<u8> {
    let mut seed = 777u32;
    let mut next = || {
        seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
        (seed >> 24) as u8
    };
    (0..n)
        .map(|i| match kind {
            0 => b'a',
            1 => b"ab"[i % 2],
            2 => b"the quick brown fox jumps over the lazy dog "[i % 44],
            3 => b' ' + next() % 90,
            _ => (i / 300) as u8,
        })
        .collect()
}
#[no_mangle]
pub extern "C" fn c12t_two_values() {
    let (v, w) = (tiny(), tiny());
    survives(store(vec![("a", v), ("ab", w)]))
}

// ---- C24: a store is a map ------------------------------------------------------
#[no_mangle]
pub extern "C" fn c24_store_map() {
    let mut model: Vec<(String, u8)> = vec![];
    let put = |m: &mut Vec<(String, u8)>, k: &str, v: u8| -> Option<u8> {
        for e in m.iter_mut() {
            if e.0 == k {
                return Some(std::mem::replace(&mut e.1, v));
            }
        }
        m.push((k.to_string(), v));
        None
    };
    let key = || if choice(2) == 0 { ascii(1) } else { String::new() };
    let (k1, k2) = (key(), key());
    let mut s = Store::new([(k1.clone(), Value::from(1u8)), (k2.clone(), Value::from(2u8))]);
    put(&mut model, &k1, 1);
    put(&mut model, &k2, 2);
    for i in 3..3 + choice(4) as u8 {
        let k = key();
        match choice(3) {
            0 => {
                let was = s.insert(k.clone(), Value::from(i));
                check(was == put(&mut model, &k, i).map(Value::from), "what was replaced");
            }
            1 => {
                let was = s.remove(&k);
                let p = model.iter().position(|e| e.0 == k);
                check(was == p.map(|p| Value::from(model.remove(p).1)), "what was removed");
            }
            _ => {
                let is = s.get(&k).cloned();
                check(is == model.iter().find(|e| e.0 == k).map(|e| Value::from(e.1)), "what is stored");
            }
        }
    }
    check(s.len() == model.len(), "as many entries as were left");
    for (k, v) in &model {
        check(s.get(k) == Some(&Value::from(*v)), "every entry left is there");
    }
    cover("content");
}
#[no_mangle]
pub extern "C" fn c24_store_try_from() {
    let k = choice(16);
    let v = if k == 8 {
        Value::Map([(ascii(1), Value::Boolean(any()))].into_iter().collect())
    } else {
        leaf_small(k)
    };
    let w = v.clone();
    match Store::try_from(v) {
        Ok(s) => {
            cover("content");
            check(k == 8 && identical(&Value::Map((*s).clone()), &w), "the map given")
        }
        Err(e) => {
            cover("refused");
            check(k != 8, "maps are stores");
            let ty = ValueTy::try_from(k as u8).ok().unwrap();
            check(matches!(e, StoreSerError::ExpectedMap(t) if t == ty), "says what was found");
        }
    }
}
fn leaf_small(k: u32) -> Value {
    match k {
        6 => Value::Timestamp(stamp(2024, 1, 1, 0, 0)),
        7 => Value::JSON(J::Null),
        12 => Value::Timezone(Tz::UTC),
        _ => leaf(k),
    }
}
