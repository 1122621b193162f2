//! C10, C13, C21, C24: values.
use crate::gen::*;
use crate::util::*;
use rt::*;
use sourisdb::hashbrown::HashMap;
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary, integer::*};
use sourisdb::utilities::{cursor::Cursor, huffman::Huffman};
use sourisdb::values::Value;

// ---- C10 ----------------------------------------------------------------------
fn survives_with(v: &Value, h: Option<&Huffman<char>>, tail: usize) {
    let enc = v.ser(h);
    let mut all = enc.clone();
    all.extend(bytes(tail));
    let mut c = Cursor::new(&all);
    match Value::deser(&mut c, h) {
        Ok(w) => {
            check(identical(v, &w), "same value after reading back");
            check(c.pos() == enc.len(), "consumes exactly its encoding");
            cover("read back");
        }
        Err(_) => check(false, "reads back"),
    }
    for n in 0..enc.len() {
        if n > 24 && n + 24 < enc.len() {
            continue;
        }
        check(Value::deser(&mut Cursor::new(&enc[..n].to_vec()), h).is_err(), "prefix refused");
    }
    observe(&enc);
}
fn survives(v: Value) {
    survives_with(&v, None, 1)
}
/// A tree which knows some characters.
fn tree() -> Huffman<char> {
    Huffman::new_str("aab\u{e9}{}\":1").ok().unwrap()
}
macro_rules! c10 { ($($n:ident $k:literal),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() {
        let v = leaf($k);
        survives(v)
    }
)* } }
c10!(c10_character 0, c10_string 1, c10_binary 2, c10_boolean 3, c10_integer 4, c10_imaginary 5,
     c10_timestamp 6, c10_json 7, c10_map_empty 8, c10_null 9, c10_double 10, c10_array_empty 11,
     c10_timezone 12, c10_ipv4 13, c10_ipv6 14, c10_single 15);

/// Each kind inside an array, inside a map and doubly nested.
#[no_mangle]
pub extern "C" fn c10_nested() {
    let inner = small();
    let side = Value::Boolean(any());
    let v = match choice(5) {
        0 => Value::Array(vec![inner, side]),
        1 => Value::Array(vec![side, Value::Array(vec![inner])]),
        2 => Value::Map([("k".to_string(), inner), (String::new(), side)].into_iter().collect()),
        3 => Value::Map([("k".to_string(), Value::Array(vec![inner, side]))].into_iter().collect()),
        _ => Value::Array(vec![Value::Map([("k".to_string(), inner)].into_iter().collect()), side]),
    };
    survives(v)
}
/// Two children of any two kinds: neither eats into the other.
#[no_mangle]
pub extern "C" fn c10_pair() {
    let (a, b) = (small(), small());
    survives(Value::Array(vec![a, b]))
}
/// Keys which are free, and may coincide.
#[no_mangle]
pub extern "C" fn c10_keys() {
    let mut m = HashMap::new();
    m.insert(chars(1), Value::Integer(any::<u8>().into()));
    m.insert(ascii(choice(3) as usize), Value::Null(()));
    survives(Value::Map(m))
}
/// The lengths around each change of the way lengths are written.
#[no_mangle]
pub extern "C" fn c10_lengths() {
    let n = [0, 1, 5, 6, 7, 8, 9, 15, 16, 239, 240, 256][choice(12) as usize];
    let x: u8 = any();
    let v = match choice(3) {
        0 => Value::Array((0..n).map(|i| if i == n / 2 { Value::Integer(x.into()) } else { Value::Null(()) }).collect()),
        1 => {
            if n > 20 {
                return;
            }
            Value::Map((0..n).map(|i| (format!("{i}"), Value::Integer(x.into()))).collect())
        }
        _ => {
            let mut s = "s".repeat(n);
            s.push(char::from(x & 127));
            Value::String(s)
        }
    };
    survives(v)
}
/// Longer ones, without anything free.
#[no_mangle]
pub extern "C" fn c10_long() {
    let n = [238, 239, 240, 255, 256, 257, 300, 65535, 65536][choice(9) as usize];
    let text = |n: usize| String::from_utf8(crate::codecs::filling(2, n)).unwrap();
    let v = match choice(6) {
        0 => Value::String(text(n)),
        1 => Value::String("\u{e9}".repeat(n / 2) + "x"),
        2 => Value::Binary(BinaryData(crate::codecs::filling(if n > 1000 { 1 } else { 6 }, n))),
        3 if n < 1000 => Value::Map((0..n).map(|i| (format!("{i}"), Value::Integer(i.into()))).collect()),
        4 if n < 1000 => Value::Map([(text(n), Value::Null(()))].into_iter().collect()),
        5 => Value::Array((0..if n > 1000 { 1000 } else { n }).map(|i| Value::Integer((i as i64 - 128).into())).collect()),
        _ => return,
    };
    survives(v)
}
/// Values within values, up to some depth.
#[no_mangle]
pub extern "C" fn c10_deep() {
    let mut v = Value::Integer(any::<u8>().into());
    let how = choice(3);
    for i in 0..[3, 10, 40, 100][choice(4) as usize] {
        v = if how == 0 || how == 2 && i % 2 == 0 {
            Value::Array(vec![v])
        } else {
            Value::Map([("k".to_string(), v)].into_iter().collect())
        };
    }
    survives(v)
}
/// Strings, keys, JSON and time zones with a shared tree, whether or not it
/// knows their characters.
#[no_mangle]
pub extern "C" fn c10_tree() {
    let h = tree();
    let v = match choice(6) {
        0 => Value::String(chars(choice(2) as usize)),
        1 => {
            let a = ['a', 'b', '\u{e9}', '1', 'z', '\u{10ffff}'];
            Value::String((0..choice(4)).map(|_| a[choice(6) as usize]).collect())
        }
        2 => Value::Map([(ascii(1), Value::String(ascii(1)))].into_iter().collect()),
        3 => Value::JSON(sourisdb::serde_json::Value::from(vec![any::<u8>() & 1])),
        4 => Value::Timezone(sourisdb::chrono_tz::TZ_VARIANTS[choice(8) as usize]),
        _ => Value::Array(vec![small(), Value::String("ab".into()), Value::String("az".into())]),
    };
    survives_with(&v, Some(&h), 1)
}
/// A tree built from the very text, single-character trees included.
#[no_mangle]
pub extern "C" fn c10_own_tree() {
    let mut s = chars(1);
    for _ in 0..choice(3) {
        if any() {
            s.push(any());
        } else {
            let c = s.chars().next().unwrap();
            s.push(c);
        }
    }
    let h = Huffman::new_str(&s).ok().unwrap();
    survives_with(&Value::String(s), Some(&h), 1)
}
#[no_mangle]
pub extern "C" fn c10t_triple() {
    let (a, b, c) = (small(), small(), small());
    survives(Value::Array(vec![a, Value::Map([("k".to_string(), b)].into_iter().collect()), c]))
}
#[no_mangle]
pub extern "C" fn c10t_tree_pair() {
    let h = tree();
    let (a, b) = (small(), small());
    survives_with(&Value::Array(vec![a, b]), Some(&h), 1)
}
#[no_mangle]
pub extern "C" fn c10t_strings() {
    survives(Value::String(chars(4)));
}
#[no_mangle]
pub extern "C" fn c10t_json() {
    survives(Value::JSON(json(2)));
}

// ---- C21 ----------------------------------------------------------------------
#[no_mangle]
pub extern "C" fn c21_round() {
    let i = imaginary();
    let (code, enc) = i.ser();
    check(code < 16, "form code fits its four bits");
    let mut all = enc.clone();
    all.extend(bytes(2));
    let mut c = Cursor::new(&all);
    match Imaginary::deser(code, &mut c) {
        Ok(j) => {
            check(same_imaginary(&i, &j), "same number");
            check(c.pos() == enc.len(), "consumes exactly its encoding");
            cover("read back");
        }
        Err(_) => check(false, "reads back"),
    }
    for n in 0..enc.len() {
        check(Imaginary::deser(code, &mut Cursor::new(&enc[..n].to_vec())).is_err(), "prefix refused");
    }
    observe(&[code]);
}
/// Every form code with every pair of encoded integers or floats.
#[no_mangle]
pub extern "C" fn c21_codes() {
    use SignedState::{SignedNegative as N, SignedPositive as P, Unsigned as U};
    const FORMS: [(SignedState, SignedState); 9] =
        [(U, U), (U, P), (P, U), (U, N), (N, U), (P, P), (P, N), (N, P), (N, N)];
    let code: u8 = any();
    assume(code < 16);
    let mut all = vec![];
    let mut parts = vec![];
    for _ in 0..2 {
        let n = [0u8, 1, 2, 16][choice(4) as usize];
        let mut p = vec![if n == 0 { any::<u8>() } else { 239 + n }];
        if n == 0 {
            assume(p[0] < 240);
        } else {
            p.extend(bytes(n as usize));
        }
        all.extend(&p);
        parts.push(p);
    }
    let used = all.len();
    all.extend(bytes(16));
    let mut c = Cursor::new(&all);
    match Imaginary::deser(code, &mut c) {
        Err(_) => {
            let mut bad = code > 9;
            if !bad && code > 0 {
                let (r, i) = FORMS[concretize(code as u64) as usize - 1];
                bad = Integer::deser(r, &mut Cursor::new(&parts[0])).is_err()
                    || Integer::deser(i, &mut Cursor::new(&parts[1])).is_err();
            }
            check(bad, "known forms of known integers are read");
            cover("refused");
        }
        Ok(Imaginary::PolarForm { modulus, argument }) => {
            check(code == 0, "form");
            let m = u64::from_le_bytes(all[..8].try_into().unwrap());
            let a = u64::from_le_bytes(all[8..16].try_into().unwrap());
            check((modulus.to_bits() == m) & (argument.to_bits() == a), "floats");
            check(c.pos() == 16, "position");
            cover("polar");
        }
        Ok(Imaginary::CartesianForm { real, imaginary }) => {
            check((code > 0) & (code < 10), "unknown forms are refused");
            check(c.pos() == used, "position");
            let (r, i) = FORMS[concretize(code as u64) as usize - 1];
            let want = |s, p: &Vec<u8>| Integer::deser(s, &mut Cursor::new(p)).ok();
            check(want(r, &parts[0]).is_some_and(|x| same_integer(x, real)), "real part");
            check(want(i, &parts[1]).is_some_and(|x| same_integer(x, imaginary)), "imaginary part");
            cover("cartesian");
        }
    }
}

// ---- C13 ----------------------------------------------------------------------
fn pair(a: &Value, b: &Value, same_kind: bool) {
    let eq = a == b;
    check((b == a) == eq, "symmetric");
    if eq {
        check(same_kind, "different kinds are different");
        check(same_bytes(&rec(a), &rec(b)), "equal values hash alike");
        cover("equal");
    } else {
        cover("different");
    }
}
fn kind_pair(k: u32) {
    let (a, b) = (leaf(k), leaf(k));
    pair(&a, &b, true);
}
macro_rules! c13 { ($($n:ident $k:literal),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() {
        kind_pair($k)
    }
)* } }
c13!(c13_character 0, c13_string 1, c13_binary 2, c13_boolean 3, c13_integer 4,
     c13_null 9, c13_double 10, c13_ipv4 13, c13_ipv6 14, c13_single 15);
/// Integers which denote the same number but came from different places.
#[no_mangle]
pub extern "C" fn c13_integer_sources() {
    let a = Value::Integer(crate::ints::any_integer().0);
    let b = Value::Integer(crate::ints::any_integer().0);
    pair(&a, &b, true);
}
fn a_part() -> Integer {
    match choice(3) {
        0 => any::<u8>().into(),
        1 => any::<i8>().into(),
        _ => {
            let b = any::<u8>();
            Integer::deser(SignedState::SignedPositive, &mut Cursor::new(&vec![241u8, b, 0])).ok().unwrap()
        }
    }
}
fn an_imaginary() -> Imaginary {
    if choice(2) == 0 {
        Imaginary::CartesianForm { real: a_part(), imaginary: a_part() }
    } else {
        Imaginary::PolarForm { modulus: any(), argument: any() }
    }
}
#[no_mangle]
pub extern "C" fn c13_imaginary() {
    let (a, b) = (an_imaginary(), an_imaginary());
    pair(&Value::Imaginary(a), &Value::Imaginary(b), true);
    if a == b {
        check(same_bytes(&rec(&a), &rec(&b)), "equal numbers hash alike");
    }
}
#[no_mangle]
pub extern "C" fn c13_timestamp() {
    let n = |y| stamp(y, 1 + (any::<u8>() & 7) as u32, 1 + (any::<u8>() & 15) as u32, any(), any());
    let (a, b) = (n(2024), n(2024));
    pair(&Value::Timestamp(a), &Value::Timestamp(b), true);
}
#[no_mangle]
pub extern "C" fn c13_timezone() {
    use sourisdb::chrono_tz::TZ_VARIANTS;
    let a = TZ_VARIANTS[choice(TZ_VARIANTS.len() as u32) as usize];
    let b = if choice(2) == 0 { a } else { TZ_VARIANTS[choice(3) as usize] };
    pair(&Value::Timezone(a), &Value::Timezone(b), true);
}
#[no_mangle]
pub extern "C" fn c13_json() {
    use sourisdb::serde_json::{Number, Value as J};
    let one = || match choice(7) {
        0 => J::Null,
        1 => J::Bool(any()),
        2 => J::Number(Number::from(any::<u64>())),
        3 => J::Number(Number::from(any::<i64>())),
        4 => {
            let f: f64 = any();
            assume(f.is_finite());
            J::Number(Number::from_f64(f).unwrap())
        }
        5 => J::String(ascii(1)),
        _ => J::Array(vec![J::Number(Number::from_f64([0.0, -0.0, 1.0][choice(3) as usize]).unwrap())]),
    };
    let (a, b) = (one(), one());
    pair(&Value::JSON(a), &Value::JSON(b), true);
}
/// A map is its entries, in whatever order and however it came by them.
#[no_mangle]
pub extern "C" fn c13_maps() {
    let keys: Vec<String> = (0..3).map(|_| ascii(1)).collect();
    let vals: Vec<u8> = bytes(3);
    let build = |order: [usize; 3], room: usize| {
        let mut m = HashMap::with_capacity(room);
        for i in order {
            m.insert(keys[i].clone(), Value::Integer(vals[i].into()));
        }
        m
    };
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choice(6) as usize];
    let a = build([0, 1, 2], 0);
    let mut b = build(order, [0, 30][choice(2) as usize]);
    match choice(3) {
        0 => {}
        1 => {
            b.insert("later".into(), Value::Null(()));
            b.remove("later");
        }
        _ => {
            b.remove(&keys[0]);
        }
    }
    // oracle: the same set of entries
    let within = |x: &HashMap<String, Value>, y: &HashMap<String, Value>| {
        x.iter().all(|(k, v)| {
            y.iter().any(|(l, w)| {
                same_bytes(k.as_bytes(), l.as_bytes()) && v.as_int().is_some() && identical(v, w)
            })
        })
    };
    let same = within(&a, &b) && within(&b, &a);
    let (a, b) = (Value::Map(a), Value::Map(b));
    check((a == b) == same, "equal exactly when the entries are");
    pair(&a, &b, true);
}
#[no_mangle]
pub extern "C" fn c13_arrays() {
    let mk = || {
        let n = choice(3);
        Value::Array((0..n).map(|_| if any() { Value::DoubleFloat(any()) } else { Value::Boolean(any()) }).collect())
    };
    let (a, b) = (mk(), mk());
    pair(&a, &b, true);
}
/// Values of two kinds are never equal; every value equals itself (and its
/// clone), unless it holds a NaN.
#[no_mangle]
pub extern "C" fn c13_kinds() {
    let (a, b) = (small(), small());
    let same = std::mem::discriminant(&a) == std::mem::discriminant(&b);
    pair(&a, &b, same);
    let nan = match &a {
        Value::DoubleFloat(f) => f.is_nan(),
        Value::SingleFloat(f) => f.is_nan(),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => modulus.is_nan() | argument.is_nan(),
        _ => false,
    };
    let c = a.clone();
    check((a == c) != nan, "reflexive");
    check(nan || same_bytes(&rec(&a), &rec(&c)), "hash of a clone");
}
#[no_mangle]
pub extern "C" fn c13_transitive() {
    let k = [4, 10, 15, 5][choice(4) as usize];
    let one = || match k {
        4 => Value::Integer(a_part()),
        5 => Value::Imaginary(Imaginary::PolarForm { modulus: any(), argument: 0.0 }),
        k => leaf(k),
    };
    let (a, b, c) = (one(), one(), one());
    if a == b && b == c {
        check(a == c, "transitive");
        cover("equal");
    } else {
        cover("different");
    }
}

// ---- C24 ----------------------------------------------------------------------
use sourisdb::values::{ValueSerError, ValueTy};
fn code_of(v: &Value) -> u8 {
    v.ser(None)[0] >> 4
}
macro_rules! one {
    ($v:ident, $k:ident, $code:literal, $variant:ident, $t:ty, $is:ident, $as:ident, $asm:ident, $to:ident, $new:ident) => {{
        let mine = $k == $code;
        check($v.$is() == mine, "is");
        check($v.$as().is_some() == mine, "as");
        let mut m = $v.clone();
        check(m.$asm().is_some() == mine, "as_mut");
        check(identical(&m, &$v), "asking changes nothing");
        match $v.clone().$to() {
            None => check(!mine, "to"),
            Some(x) => {
                check(mine, "to only for its kind");
                check(identical(&Value::$variant(x.clone()), &$v), "content extracted");
                check(identical(&Value::$new(x), &$v), "constructor");
            }
        }
        match <$t>::try_from($v.clone()) {
            Ok(x) => {
                check(mine, "converts only from its kind");
                check(identical(&Value::$variant(x), &$v), "content converted");
                cover("content");
            }
            Err(ValueSerError::UnexpectedValueType { found, expected }) => {
                check(!mine, "converts from its kind");
                check(found == ValueTy::try_from($k as u8).ok().unwrap(), "kind found");
                check(expected == ValueTy::$variant, "kind expected");
                cover("refused");
            }
            Err(_) => check(false, "kind of error"),
        }
    }};
}
fn accessors(v: Value, k: u32) {
    use sourisdb::chrono::NaiveDateTime;
    use sourisdb::chrono_tz::Tz;
    use sourisdb::serde_json::Value as J;
    use std::net::{Ipv4Addr, Ipv6Addr};
    match choice(16) {
        0 => one!(v, k, 0, Character, char, is_char, as_char, as_mut_char, to_char, char),
        1 => one!(v, k, 1, String, String, is_str, as_str, as_mut_str, to_str, str),
        2 => one!(v, k, 2, Binary, BinaryData, is_binary, as_binary, as_mut_binary, to_binary, binary),
        3 => one!(v, k, 3, Boolean, bool, is_bool, as_bool, as_mut_bool, to_bool, bool),
        4 => one!(v, k, 4, Integer, Integer, is_int, as_int, as_mut_int, to_int, int),
        5 => one!(v, k, 5, Imaginary, Imaginary, is_imaginary, as_imaginary, as_mut_imaginary, to_imaginary, imaginary),
        6 => one!(v, k, 6, Timestamp, NaiveDateTime, is_timestamp, as_timestamp, as_mut_timestamp, to_timestamp, timestamp),
        7 => one!(v, k, 7, JSON, J, is_json, as_json, as_mut_json, to_json, json),
        8 => {
            type M = HashMap<String, Value>;
            one!(v, k, 8, Map, M, is_map, as_map, as_mut_map, to_map, map)
        }
        9 => {
            type U = ();
            one!(v, k, 9, Null, U, is_null, as_null, as_mut_null, to_null, null)
        }
        10 => one!(v, k, 10, DoubleFloat, f64, is_double_float, as_double_float, as_mut_double_float, to_double_float, double_float),
        11 => {
            type A = Vec<Value>;
            one!(v, k, 11, Array, A, is_array, as_array, as_mut_array, to_array, array)
        }
        12 => one!(v, k, 12, Timezone, Tz, is_tz, as_tz, as_mut_tz, to_tz, tz),
        13 => one!(v, k, 13, Ipv4Addr, Ipv4Addr, is_ipv4, as_ipv4, as_mut_ipv4, to_ipv4, ipv4),
        14 => one!(v, k, 14, Ipv6Addr, Ipv6Addr, is_ipv6, as_ipv6, as_mut_ipv6, to_ipv6, ipv6),
        _ => one!(v, k, 15, SingleFloat, f32, is_single_float, as_single_float, as_mut_single_float, to_single_float, single_float),
    }
}
fn kind_code(v: &Value) -> u32 {
    match v {
        Value::Character(_) => 0,
        Value::String(_) => 1,
        Value::Binary(_) => 2,
        Value::Boolean(_) => 3,
        Value::Integer(_) => 4,
        Value::Imaginary(_) => 5,
        Value::Timestamp(_) => 6,
        Value::JSON(_) => 7,
        Value::Map(_) => 8,
        Value::Null(()) => 9,
        Value::DoubleFloat(_) => 10,
        Value::Array(_) => 11,
        Value::Timezone(_) => 12,
        Value::Ipv4Addr(_) => 13,
        Value::Ipv6Addr(_) => 14,
        Value::SingleFloat(_) => 15,
    }
}
#[no_mangle]
pub extern "C" fn c24_accessors() {
    let v = small();
    let k = kind_code(&v);
    check(code_of(&v) as u32 == k, "type code");
    accessors(v, k)
}
/// Changing the content in place.
#[no_mangle]
pub extern "C" fn c24_in_place() {
    let mut v = small();
    let x: u8 = any();
    let y: u64 = any();
    match choice(4) {
        0 => match v.as_mut_int() {
            Some(i) => {
                *i = x.into();
                check(identical(&v, &Value::Integer(x.into())), "integer written");
                cover("content");
            }
            None => check(!matches!(v, Value::Integer(_)), "as_mut"),
        },
        1 => match v.as_mut_double_float() {
            Some(f) => {
                *f = f64::from_bits(y);
                check(identical(&v, &Value::DoubleFloat(f64::from_bits(y))), "float written");
                cover("content");
            }
            None => check(!matches!(v, Value::DoubleFloat(_)), "as_mut"),
        },
        2 => match v.as_mut_array() {
            Some(a) => {
                a.push(Value::Integer(x.into()));
                check(identical(&v, &Value::Array(vec![Value::Integer(x.into())])), "element added");
                cover("content");
            }
            None => check(!matches!(v, Value::Array(_)), "as_mut"),
        },
        _ => match v.as_mut_str() {
            Some(s) => {
                let mut t = s.clone();
                s.push('x');
                t.push('x');
                check(identical(&v, &Value::String(t)), "text added");
                cover("content");
            }
            None => check(!matches!(v, Value::String(_)), "as_mut"),
        },
    }
}
/// Machine integers into values and back out.
fn through<S, T>(s: S)
where
    S: Machine,
    T: Machine + TryFrom<Value>,
    Value: From<S>,
{
    let v = Value::from(s);
    let n = s.num();
    check(v.as_int().and_then(|i| crate::util::value_of(*i)).is_some_and(|x| x.same(n)), "integer stored");
    match T::try_from(v) {
        Ok(t) => {
            check(t.num().same(n), "integer kept");
            check(fits::<T>(n), "accepted only what fits");
            cover("content");
        }
        Err(_) => {
            check(!fits::<T>(n), "refused only what does not fit");
            cover("refused");
        }
    }
}
#[no_mangle]
pub extern "C" fn c24_integers() {
    macro_rules! s {
        ($s:ty) => {{
            let s: $s = any();
            macro_rules! t { ($t:ty) => { through::<$s, $t>(s) } }
            any_machine!(t)
        }};
    }
    any_machine!(s)
}
/// A value which is no integer converts to no machine integer.
#[no_mangle]
pub extern "C" fn c24_not_integers() {
    let v = small();
    let k = kind_code(&v);
    if k == 4 {
        return;
    }
    macro_rules! t {
        ($t:ty) => {
            match <$t>::try_from(v.clone()) {
                Err(ValueSerError::UnexpectedValueType { found, .. }) => {
                    check(found == ValueTy::try_from(k as u8).ok().unwrap(), "kind found");
                    cover("refused");
                }
                _ => check(false, "only integers convert"),
            }
        };
    }
    any_machine!(t)
}
/// The type codes.
#[no_mangle]
pub extern "C" fn c24_codes() {
    let b: u8 = any();
    match ValueTy::try_from(b) {
        Ok(t) => {
            check(b < 16, "sixteen codes");
            check(u8::from(t) == b, "code of the kind of the code");
            cover("content");
        }
        Err(e) => {
            check(b > 15, "sixteen codes");
            check(matches!(e, ValueSerError::InvalidType(c) if c == b), "code found");
            cover("refused");
        }
    }
}
