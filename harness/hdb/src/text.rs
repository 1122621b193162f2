//! C27: the text of values.
use crate::gen::*;
use crate::util::*;
use rt::*;
use sourisdb::chrono::NaiveDateTime;
use sourisdb::chrono_tz::Tz;
use sourisdb::hashbrown::HashMap;
use sourisdb::serde_json::Value as J;
use sourisdb::store::Store;
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary, integer::Integer};
use sourisdb::values::Value;
use std::net::{Ipv4Addr, Ipv6Addr};

fn is(text: &str, want: &str, what: &'static str) {
    check(same_bytes(text.as_bytes(), want.as_bytes()), what)
}
/// What a literal between quotes stands for.
fn unquote(text: &str, quote: char) -> Option<Vec<char>> {
    let mut s = text.strip_prefix(quote)?.strip_suffix(quote)?.chars();
    let mut out = Vec::new();
    while let Some(c) = s.next() {
        if c == quote {
            return None;
        }
        out.push(if c != '\\' {
            c
        } else {
            match s.next()? {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '0' => '\0',
                'u' => {
                    if s.next()? != '{' {
                        return None;
                    }
                    let mut n = 0;
                    loop {
                        match s.next()? {
                            '}' => break char::from_u32(n)?,
                            d => n = (n << 4) | d.to_digit(16)?,
                        }
                    }
                }
                c @ ('\\' | '\'' | '"') => c,
                _ => return None,
            }
        });
    }
    Some(out)
}
#[no_mangle]
pub extern "C" fn c27_character() {
    let c = match choice(2) {
        0 => any::<u8>() as char,
        _ => ['\u{301}', '\u{200b}', '\u{20ac}', '\u{fffd}', '\u{ffff}', '\u{1f600}', '\u{e0001}', char::MAX][choice(8) as usize],
    };
    let t = Value::Character(c).to_string();
    check(unquote(&t, '\'').is_some_and(|v| v.len() == 1 && v[0] == c), "the character between quotes");
    cover("quoted");
}
#[no_mangle]
pub extern "C" fn c27_string() {
    let s = match choice(3) {
        0 => String::new(),
        1 => ascii(1) + ["", "\u{301}", "\u{1f600}\u{e9}", "\u{7f}'\u{200b}", "\u{e0001}"][choice(5) as usize],
        _ => ascii(2),
    };
    let t = Value::String(s.clone()).to_string();
    let want: Vec<char> = s.chars().collect();
    check(unquote(&t, '"').is_some_and(|v| v == want), "the characters between quotes");
    cover("quoted");
}
fn hex(b: &[u8]) -> String {
    let mut want = String::from("[");
    for (i, b) in b.iter().enumerate() {
        want += if i == 0 { "0x" } else { ", 0x" };
        for d in [b >> 4, b & 15] {
            if d > 0 || want.ends_with(|c: char| c != 'x') {
                want.push((if d < 10 { b'0' + d } else { b'A' + d - 10 }) as char);
            }
        }
        if *b == 0 {
            want.push('0');
        }
    }
    want + "]"
}
#[no_mangle]
pub extern "C" fn c27_binary() {
    let b = bytes(choice(4) as usize);
    is(&Value::Binary(BinaryData(b.clone())).to_string(), &hex(&b), "each byte in hexadecimal");
}
#[no_mangle]
pub extern "C" fn c27_plain() {
    let b: bool = any();
    is(&Value::Boolean(b).to_string(), if b { "true" } else { "false" }, "truth");
    is(&Value::Null(()).to_string(), "null", "nothing");
}
fn digits(neg: bool, mut n: u128) -> String {
    let mut d = Vec::new();
    loop {
        d.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    if neg {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}
fn number() -> (Integer, String) {
    match choice(5) {
        0 => {
            let n: u8 = any();
            (n.into(), digits(false, n.into()))
        }
        1 => {
            let n: i8 = any();
            (n.into(), digits(n < 0, n.unsigned_abs().into()))
        }
        2 => {
            let n = [-1, i32::MIN, i32::MAX, 0][choice(4) as usize];
            (n.into(), digits(n < 0, n.unsigned_abs().into()))
        }
        3 => {
            let n = [i128::MIN, i128::MAX, i64::MIN as i128, -256][choice(4) as usize];
            (n.into(), digits(n < 0, n.unsigned_abs()))
        }
        _ => {
            let n = [u128::MAX, 1 << 127, u64::MAX as u128, 240][choice(4) as usize];
            (n.into(), digits(false, n))
        }
    }
}
#[no_mangle]
pub extern "C" fn c27_integer() {
    let (n, want) = number();
    is(&Value::Integer(n).to_string(), &want, "its digits");
}
#[no_mangle]
pub extern "C" fn c27_cartesian() {
    let ((real, r), (imaginary, i)) = (number(), number());
    let t = Value::Imaginary(Imaginary::CartesianForm { real, imaginary }).to_string();
    let sign = if i.starts_with('-') { "" } else { "+" };
    is(&t, &[&r, sign, &i, "i"].concat(), "both parts, each with its sign");
}
fn float() -> f64 {
    const F: [f64; 16] = [
        0.0, -0.0, 1.0, -1.5, 0.1, 1e21, 1e-7, 123_456.789, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e15,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
    ];
    F[choice(16) as usize]
}
fn reads(t: &str, f: f64) -> bool {
    t.parse::<f64>().is_ok_and(|g| g.to_bits() == f.to_bits())
}
#[no_mangle]
pub extern "C" fn c27_polar() {
    let (modulus, argument) = (float(), float());
    let t = Value::Imaginary(Imaginary::PolarForm { modulus, argument }).to_string();
    let parts = t.strip_suffix("i)").and_then(|t| t.split_once(" e^("));
    check(parts.is_some_and(|(m, a)| reads(m, modulus) && reads(a, argument)), "both parts");
}
#[no_mangle]
pub extern "C" fn c27_double() {
    let f = float();
    check(reads(&Value::DoubleFloat(f).to_string(), f), "reads back");
}
#[no_mangle]
pub extern "C" fn c27_single() {
    const F: [f32; 10] =
        [0.0, -0.0, 0.1, 1e21, 1e-7, 1e-45, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, 16_777_217.0];
    let f = F[choice(10) as usize];
    let t = Value::SingleFloat(f).to_string();
    check(t.parse::<f32>().is_ok_and(|g| g.to_bits() == f.to_bits()), "reads back");
}
#[no_mangle]
pub extern "C" fn c27_timestamp() {
    let (secs, nanos) = match choice(3) {
        0 => ([0, 1, 3_599, 3_600, 45_296, 86_399][choice(6) as usize], 0),
        1 => (86_399, [1, 999, 1_000, 123_456_000, 500_000_000, 999_999_999, 1_000_000_000, 1_999_999_999][choice(8) as usize]),
        _ => (0, [1_000, 1_000_000][choice(2) as usize]),
    };
    let year = [2024, -1, 9_999, 10_000, 0, -262_143, 262_142][choice(7) as usize];
    let (month, day) = [(1, 1), (2, 28), (12, 31)][choice(3) as usize];
    let n = stamp(year, month, day, secs, nanos);
    let t = Value::Timestamp(n).to_string();

    let back = NaiveDateTime::parse_from_str(&t, "%Y-%m-%d %H:%M:%S%.f");
    check(back.is_ok_and(|m| m == n), "reads back");
}
#[no_mangle]
pub extern "C" fn c27_timezone() {
    let z = timezone();
    let t = Value::Timezone(z).to_string();
    check(t.parse::<Tz>().is_ok_and(|y| y == z), "reads back");
}
#[no_mangle]
pub extern "C" fn c27_json() {
    let j = json(1);
    let t = Value::JSON(j.clone()).to_string();
    check(sourisdb::serde_json::from_str::<J>(&t).is_ok_and(|k| k == j), "reads back");
}
#[no_mangle]
pub extern "C" fn c27_ipv4() {
    let a: [u8; 4] = any::<u32>().to_be_bytes();
    let want = [0, 1, 2, 3].map(|i| digits(false, a[i].into())).join(".");
    is(&Value::Ipv4Addr(Ipv4Addr::from(a)).to_string(), &want, "its four numbers");
}
#[no_mangle]
pub extern "C" fn c27_ipv6() {
    let mut a = [0u16; 8];
    match choice(3) {
        0 => a[choice(8) as usize] = any(),
        1 => a = [0x2001, 0xdb8, 0, 0, 0, 0, 0xff, any()],
        _ => a = [1, 2, 3, 4, 5, 6, 7, 0xffff],
    }
    let t = Value::Ipv6Addr(Ipv6Addr::from(a)).to_string();
    check(t.parse::<Ipv6Addr>().is_ok_and(|b| b.segments() == a), "reads back");
}
/// The text of a list is made of the texts of what is in it.
#[no_mangle]
pub extern "C" fn c27_array() {
    let v: Vec<Value> = (0..choice(4)).map(|_| plain()).collect();
    let want = v.iter().map(Value::to_string).collect::<Vec<_>>().join(", ");
    is(&Value::Array(v).to_string(), &["[", &want, "]"].concat(), "each in turn");
}
fn plain() -> Value {
    match choice(5) {
        0 => Value::Boolean(any()),
        1 => Value::Null(()),
        2 => Value::Integer((any::<u8>() % 10).into()),
        3 => Value::Array(vec![Value::Boolean(any())]),
        _ => Value::Binary(BinaryData(vec![])),
    }
}
/// Nobody reads it at a terminal.
#[no_mangle]
pub extern "C" fn isatty(_: i32) -> i32 {
    0
}
/// The text of a map shows each key beside the value under it.
#[no_mangle]
pub extern "C" fn c27_map() {
    let n = choice(4) as usize;
    let keys = ["alpha", "b", "a key"];
    let m: HashMap<String, Value> = (0..n).map(|i| (keys[i].to_string(), plain())).collect();
    let t = if choice(2) == 0 { Value::Map(m.clone()).to_string() } else { Store::new(m.clone()).to_string() };
    for k in &keys[..n] {
        let v = m[*k].to_string();
        let row = t.lines().filter(|l| l.contains(k) && l.contains(&v)).count();
        check(row == 1, "a row for each key");
    }
    cover("table");
}
