//! C23: the bytes written are the documented ones, and documented bytes are read
//! as what they denote. Reader and writer here are written from the format alone.
use crate::gen::*;
use crate::util::*;
use rt::*;
use sourisdb::chrono::{Datelike, Timelike};
use sourisdb::chrono_tz::Tz;
use sourisdb::hashbrown::HashMap;
use sourisdb::serde_json::{json as j, Value as J};
use sourisdb::store::Store;
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary, integer::Integer};
use sourisdb::utilities::{cursor::Cursor, huffman::Huffman};
use sourisdb::values::{Value, ValueTy};
use std::net::{Ipv4Addr, Ipv6Addr};

// ---- the format, written -----------------------------------------------------------
pub struct W(pub Vec<u8>);
impl W {
    /// One byte up to 239, otherwise 239 plus the number of little-endian bytes.
    fn uint(&mut self, x: u128) {
        self.bytes_of(x, (128 - x.leading_zeros()).div_ceil(8));
    }
    fn bytes_of(&mut self, x: u128, n: u32) {
        if n <= 1 && x as u8 <= 239 {
            self.0.push(x as u8);
        } else {
            let n = concretize(n as u64) as usize;
            self.0.push(239 + n as u8);
            self.0.extend(&x.to_le_bytes()[..n]);
        }
    }
    /// Two's complement without its leading 0xff bytes, but at least one byte.
    fn negative(&mut self, x: i128) {
        self.bytes_of(x as u128, (128 - x.leading_ones()).div_ceil(8).max(1));
    }
    fn num(&mut self, n: Num) {
        if n.neg {
            self.negative(n.low as i128);
        } else {
            self.uint(n.low);
        }
    }
    fn text(&mut self, t: Option<&T>, s: &str) {
        match t {
            Some(t) if s.chars().all(|c| t.path(c).is_some()) => {
                self.0.push(0x11);
                let mut bits = vec![];
                for c in s.chars() {
                    bits.extend(t.path(c).unwrap());
                }
                self.bits(&bits);
            }
            _ => {
                self.0.push(0x10);
                self.uint(s.len() as u128);
                self.0.extend(s.as_bytes());
            }
        }
    }
    fn bits(&mut self, b: &[bool]) {
        self.uint(b.len() as u128);
        let at = self.0.len();
        self.0.resize(at + b.len().div_ceil(8), 0);
        for (i, b) in b.iter().enumerate() {
            self.0[at + i / 8] |= (*b as u8) << (i % 8);
        }
    }
    fn tree(&mut self, t: &T) {
        match t {
            T::L(c) => self.uint(*c as u128 + 1),
            T::B(l, r) => {
                self.0.push(0);
                self.tree(l);
                self.tree(r);
            }
        }
    }
    /// One of the four forms of binary data.
    fn binary(&mut self, form: u32, b: &[u8]) {
        match form {
            0 => {
                self.uint(b.len() as u128);
                self.0.extend(b);
            }
            1 => {
                // runs of one: as valid as longer ones
                self.uint(2 * b.len() as u128);
                for b in b {
                    self.0.extend([1, *b]);
                }
            }
            2 => {
                self.uint(b.len() as u128);
                if !b.is_empty() {
                    let mut l = vec![];
                    if b.len() < 15 {
                        l.push((b.len() as u8) << 4);
                    } else {
                        l.extend([0xf0, b.len() as u8 - 15]);
                    }
                    l.extend(b);
                    self.uint(l.len() as u128);
                    self.0.extend(l);
                }
            }
            _ => match b {
                [] => self.0.push(0),
                [x] => self.0.extend([1, 1, *x]),
                _ => {
                    // a tree which lists the bytes one by one: 1, 01, 001, ..
                    if b.iter().all(|x| *x == b[0]) {
                        self.0.push(1);
                        self.uint(b.len() as u128);
                        self.0.push(b[0]);
                        return;
                    }
                    let mut l: Vec<u8> = vec![];
                    for x in b {
                        if !l.contains(x) {
                            l.push(*x);
                        }
                    }
                    self.0.push(2);
                    let mut bits = vec![];
                    for (i, x) in l.iter().enumerate() {
                        if i + 1 < l.len() {
                            self.0.push(0);
                        }
                        self.0.extend([1, *x]);
                    }
                    for x in b {
                        let i = l.iter().position(|y| y == x).unwrap();
                        bits.extend(std::iter::repeat(false).take(i));
                        if i + 1 < l.len() {
                            bits.push(true);
                        }
                    }
                    self.bits(&bits);
                }
            },
        }
    }
    fn len(&mut self, code: u8, n: usize, long: bool) {
        if n < 7 && !long {
            self.0.push(code << 4 | (n as u8) << 1);
        } else {
            self.0.push(code << 4 | 1);
            self.uint(n as u128);
        }
    }
    /// `form`: the form of binary data, `state`: the sign state of non-negative
    /// numbers, `long`: lengths are written as integers.
    fn value(&mut self, v: &Value, t: Option<&T>, o: &Opt) {
        match v {
            Value::Character(c) => {
                self.0.push(0x00);
                self.uint(*c as u128);
            }
            Value::String(s) => self.text(t, s),
            Value::Binary(b) => {
                self.0.push(0x20 | o.form as u8);
                self.binary(o.form, &b.0);
            }
            Value::Boolean(b) => self.0.push(0x30 | *b as u8),
            Value::Integer(i) => {
                let n = value_of(*i).unwrap();
                self.0.push(0x40 | state(n, o.state));
                self.num(n);
            }
            Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => {
                let (a, b) = (value_of(*real).unwrap(), value_of(*imaginary).unwrap());
                self.0.push(0x50 | pair(state(a, o.state), state(b, o.state2)));
                self.num(a);
                self.num(b);
            }
            Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => {
                self.0.push(0x50);
                self.0.extend(modulus.to_bits().to_le_bytes());
                self.0.extend(argument.to_bits().to_le_bytes());
            }
            Value::Timestamp(x) => {
                let y = (x.date().year() as i64).num();
                self.0.push(0x60 | state(y, 1));
                self.num(y);
                for n in [x.date().month(), x.date().day(), x.time().hour(), x.time().minute(), x.time().second(), x.time().nanosecond()] {
                    self.uint(n as u128);
                }
            }
            Value::JSON(x) => {
                self.0.push(0x70);
                self.text(t, &x.to_string());
            }
            Value::Map(m) => {
                self.len(8, m.len(), o.long);
                for (k, v) in m {
                    self.text(t, k);
                    self.value(v, t, o);
                }
            }
            Value::Null(()) => self.0.push(0x90),
            Value::DoubleFloat(f) => {
                self.0.push(0xa0);
                self.0.extend(f.to_bits().to_le_bytes());
            }
            Value::Array(l) => {
                self.len(11, l.len(), o.long);
                for v in l {
                    self.value(v, t, o);
                }
            }
            Value::Timezone(z) => {
                self.0.push(0xc0);
                self.text(t, z.name());
            }
            Value::Ipv4Addr(a) => {
                self.0.push(0xd0);
                self.0.extend(a.octets());
            }
            Value::Ipv6Addr(a) => {
                self.0.push(0xe0);
                for s in a.segments() {
                    self.0.extend([s as u8, (s >> 8) as u8]);
                }
            }
            Value::SingleFloat(f) => {
                self.0.push(0xf0);
                self.0.extend(f.to_bits().to_le_bytes());
            }
        }
    }
}
#[derive(Default)]
struct Opt {
    form: u32,
    state: u8,
    state2: u8,
    long: bool,
}
fn state(n: Num, s: u8) -> u8 {
    if n.neg {
        2
    } else {
        s
    }
}
fn pair(a: u8, b: u8) -> u8 {
    match (a, b) {
        (0, 0) => 1,
        (0, 1) => 2,
        (1, 0) => 3,
        (0, 2) => 4,
        (2, 0) => 5,
        (1, 1) => 6,
        (1, 2) => 7,
        (2, 1) => 8,
        _ => 9,
    }
}
/// A text-compression tree: the left side of a branch is a set bit.
enum T {
    L(char),
    B(Box<T>, Box<T>),
}
impl T {
    fn path(&self, c: char) -> Option<Vec<bool>> {
        match self {
            T::L(x) => (*x == c).then(|| vec![true]),
            T::B(..) => self.below(c),
        }
    }
    fn below(&self, c: char) -> Option<Vec<bool>> {
        match self {
            T::L(x) => (*x == c).then(Vec::new),
            T::B(l, r) => [(true, l), (false, r)].into_iter().find_map(|(b, n)| {
                n.below(c).map(|mut p| {
                    p.insert(0, b);
                    p
                })
            }),
        }
    }
}
fn b(l: T, r: T) -> T {
    T::B(Box::new(l), Box::new(r))
}

// ---- the format, read --------------------------------------------------------------
struct R<'a>(&'a [u8], usize);
impl R<'_> {
    fn byte(&mut self) -> Option<u8> {
        self.1 += 1;
        self.0.get(self.1 - 1).copied()
    }
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        self.1 += n;
        self.0.get(self.1 - n..self.1)
    }
    fn size(&mut self) -> Option<usize> {
        let x = concretize(self.byte()? as u64) as usize;
        if x <= 239 {
            return Some(x);
        }
        let mut v = 0;
        for (i, b) in self.take(x - 239)?.iter().enumerate() {
            v |= (*b as u128) << (8 * i);
        }
        usize::try_from(v).ok().map(|x| concretize(x as u64) as usize)
    }
    fn bits(&mut self) -> Option<Vec<bool>> {
        let n = self.size()?;
        let l = self.take(n.div_ceil(8))?;
        Some((0..n).map(|i| l[i / 8] >> (i % 8) & 1 == 1).collect())
    }
    fn tree(&mut self) -> Option<T> {
        let b = concretize(self.byte()? as u64);
        if b == 0 {
            let l = self.tree()?;
            return Some(T::B(Box::new(l), Box::new(self.tree()?)));
        }
        self.1 -= 1;
        char::from_u32(self.size()? as u32 - 1).map(T::L)
    }
    fn text(&mut self, t: Option<&T>) -> Option<String> {
        match self.byte()? {
            0x10 => {
                let n = self.size()?;
                String::from_utf8(self.take(n)?.to_vec()).ok()
            }
            0x11 => {
                let bits = self.bits()?;
                let root = t?;
                let mut s = String::new();
                if let T::L(c) = root {
                    return Some(bits.iter().map(|_| *c).collect());
                }
                let mut n = root;
                for b in bits {
                    if let T::B(l, r) = n {
                        n = if b { l } else { r };
                    }
                    if let T::L(c) = n {
                        s.push(*c);
                        n = root;
                    }
                }
                std::ptr::eq(n, root).then_some(s)
            }
            _ => None,
        }
    }
    fn bytes_tree(&mut self, at: Vec<bool>, l: &mut Vec<(Vec<bool>, u8)>) -> Option<()> {
        match self.byte()? {
            0 => {
                for b in [true, false] {
                    let mut p = at.clone();
                    p.push(b);
                    self.bytes_tree(p, l)?;
                }
            }
            1 => {
                let x = self.byte()?;
                l.push((at, x));
            }
            _ => return None,
        }
        Some(())
    }
    fn binary(&mut self, form: u8) -> Option<Vec<u8>> {
        match form {
            0 => {
                let n = self.size()?;
                self.take(n).map(<[u8]>::to_vec)
            }
            1 => {
                let n = self.size()?;
                let mut o = vec![];
                for p in self.take(n)?.chunks(2) {
                    for _ in 0..concretize(p[0] as u64) {
                        o.push(p[1]);
                    }
                }
                Some(o)
            }
            2 => {
                let n = self.size()?;
                if n == 0 {
                    return Some(vec![]);
                }
                let m = self.size()?;
                let l = self.take(m)?;
                // harnesses write literals only
                let at = if n < 15 { 1 } else { 2 + (n - 15) / 255 };
                (l.len() == at + n && l[0] == (n.min(15) as u8) << 4).then(|| l[at..].to_vec())
            }
            3 => match self.byte()? {
                0 => Some(vec![]),
                1 => {
                    let n = self.size()?;
                    let x = self.byte()?;
                    Some(vec![x; n])
                }
                2 => {
                    let mut l = vec![];
                    self.bytes_tree(vec![], &mut l)?;
                    let bits = self.bits()?;
                    let mut o = vec![];
                    let mut at = 0;
                    while at < bits.len() {
                        let (p, x) = l.iter().find(|(p, _)| bits[at..].starts_with(p))?;
                        o.push(*x);
                        at += p.len();
                    }
                    Some(o)
                }
                _ => None,
            },
            _ => None,
        }
    }
    /// Reads what must be `v`.
    fn is(&mut self, v: &Value, t: Option<&T>, sign: u8) -> bool {
        match v {
            Value::Binary(x) => {
                let Some(h) = self.byte() else { return false };
                let h = concretize(h as u64) as u8;
                h >> 4 == 2 && self.binary(h & 15).is_some_and(|y| same_bytes(&y, &x.0))
            }
            Value::String(s) => self.text(t).is_some_and(|x| same_bytes(x.as_bytes(), s.as_bytes())),
            Value::JSON(x) => self.byte() == Some(0x70) && self.text(t).is_some_and(|y| y == x.to_string()),
            Value::Timezone(x) => self.byte() == Some(0xc0) && self.text(t).is_some_and(|y| y == x.name()),
            Value::Array(l) => self.length(11, l.len()) && l.iter().all(|v| self.is(v, t, sign)),
            Value::Map(m) => {
                let mut seen: Vec<String> = vec![];
                self.length(8, m.len())
                    && (0..m.len()).all(|_| {
                        let Some(k) = self.text(t) else { return false };
                        if seen.contains(&k) {
                            return false;
                        }
                        let r = m.get(&k).is_some_and(|v| self.is(v, t, sign));
                        seen.push(k);
                        r
                    })
            }
            _ => {
                let mut w = W(vec![]);
                w.value(v, t, &Opt { state: sign, state2: sign, ..Opt::default() });
                self.take(w.0.len()).is_some_and(|x| same_bytes(x, &w.0))
            }
        }
    }
    fn length(&mut self, code: u8, n: usize) -> bool {
        let mut w = W(vec![]);
        w.len(code, n, false);
        self.take(w.0.len()).is_some_and(|x| *x == w.0)
    }
}
/// `sign`: what is recorded of non-negative numbers (0 from an unsigned type, 1
/// from a signed one).
fn written(v: Value, sign: u8) {
    let e = v.ser(None);
    let mut r = R(&e, 0);
    check(r.is(&v, None, sign) & (r.1 == e.len()), "the documented bytes are written");
    cover("written");
    observe(&e);
}
fn read(v: Value, t: Option<&T>, o: Opt) {
    let mut w = W(vec![]);
    w.value(&v, t, &o);
    let n = w.0.len();
    w.0.push(any());
    let h = t.map(huffman);
    let mut c = Cursor::new(&w.0);
    match Value::deser(&mut c, h.as_ref()) {
        Ok(x) => {
            check(identical(&x, &v) & (c.pos() == n), "documented bytes are read as what they denote");
            cover("read");
        }
        Err(_) => check(false, "documented bytes can be read"),
    }
}
fn huffman(t: &T) -> Huffman<char> {
    let mut w = W(vec![]);
    w.tree(t);
    let h = Huffman::<char>::deser(&mut Cursor::new(&w.0));
    check(h.is_ok(), "documented trees can be read");
    h.ok().unwrap()
}
macro_rules! c23 { ($($n:ident $m:ident $k:literal),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() {
        written(leaf($k), 0)
    }
    #[no_mangle]
    pub extern "C" fn $m() {
        read(leaf($k), None, Opt { form: choice(4), state: choice(2) as u8, state2: choice(2) as u8, long: false })
    }
)* } }
c23!(c23_character c23_r_character 0, c23_string c23_r_string 1, c23_binary c23_r_binary 2, c23_boolean c23_r_boolean 3,
     c23_json c23_r_json 7, c23_map_empty c23_r_map_empty 8, c23_null c23_r_null 9, c23_double c23_r_double 10,
     c23_array_empty c23_r_array_empty 11, c23_timezone c23_r_timezone 12, c23_ipv4 c23_r_ipv4 13, c23_ipv6 c23_r_ipv6 14,
     c23_single c23_r_single 15);
#[no_mangle]
pub extern "C" fn c23_timestamp() {
    written(Value::Timestamp(timestamp()), 0)
}
#[no_mangle]
pub extern "C" fn c23_r_timestamp() {
    read(Value::Timestamp(timestamp()), None, Opt::default())
}
fn unsigned() -> Integer {
    match choice(3) {
        0 => any::<u8>().into(),
        1 => any::<u64>().into(),
        _ => any::<u128>().into(),
    }
}
fn signed() -> Integer {
    match choice(3) {
        0 => any::<i8>().into(),
        1 => any::<i64>().into(),
        _ => any::<i128>().into(),
    }
}
#[no_mangle]
pub extern "C" fn c23_integer() {
    if choice(2) == 0 {
        written(Value::Integer(unsigned()), 0)
    } else {
        written(Value::Integer(signed()), 1)
    }
}
#[no_mangle]
pub extern "C" fn c23_r_integer() {
    let i = if choice(2) == 0 { unsigned() } else { signed() };
    let state = choice(2) as u8;
    // a signed number has at most 127 bits
    let n = value_of(i).unwrap();
    assume((state == 0) | n.neg | (n.low <= i128::MAX as u128));
    read(Value::Integer(i), None, Opt { state, ..Opt::default() })
}
fn part(s: bool) -> Integer {
    match (s, choice(2)) {
        (false, 0) => any::<u8>().into(),
        (false, _) => any::<u64>().into(),
        (true, 0) => any::<i8>().into(),
        (true, _) => any::<i64>().into(),
    }
}
#[no_mangle]
pub extern "C" fn c23_cartesian() {
    let (s, t) = (choice(2) == 1, choice(2) == 1);
    let (a, b) = (part(s), part(t));
    let v = Imaginary::CartesianForm { real: a, imaginary: b };
    let e = Value::Imaginary(v.clone()).ser(None);
    let mut w = W(vec![]);
    w.value(&Value::Imaginary(v), None, &Opt { state: s as u8, state2: t as u8, ..Opt::default() });
    check(same_bytes(&e, &w.0), "the documented bytes are written");
}
#[no_mangle]
pub extern "C" fn c23_r_cartesian() {
    let v = Imaginary::CartesianForm { real: part(choice(2) == 1), imaginary: part(choice(2) == 1) };
    read(Value::Imaginary(v), None, Opt { state: choice(2) as u8, state2: choice(2) as u8, ..Opt::default() })
}
#[no_mangle]
pub extern "C" fn c23_polar() {
    let v = Value::Imaginary(Imaginary::PolarForm { modulus: any(), argument: any() });
    written(v.clone(), 0);
    read(v, None, Opt::default())
}
fn nested() -> Value {
    let v = small();
    let w = Value::Boolean(any());
    match choice(5) {
        0 => Value::Array(vec![v, w]),
        1 => Value::Array(vec![Value::Array(vec![v])]),
        2 => Value::Map([("k".to_string(), v), ("".to_string(), w)].into_iter().collect()),
        3 => Value::Map([(chars(1), v)].into_iter().collect()),
        _ => Value::Array(vec![Value::Map([("k".to_string(), Value::Array(vec![]))].into_iter().collect()), v]),
    }
}
#[no_mangle]
pub extern "C" fn c23_nested() {
    written(nested(), 0)
}
#[no_mangle]
pub extern "C" fn c23_r_nested() {
    read(nested(), None, Opt { long: choice(2) == 1, form: 3, ..Opt::default() })
}
fn sized(n: usize) -> Value {
    let x: u8 = any();
    match choice(4) {
        0 => Value::Array(vec![Value::Integer(x.into()); n]),
        1 => Value::String("s".repeat(n)),
        2 => Value::Binary(BinaryData(vec![x; n])),
        _ => {
            assume(n < 20);
            Value::Map((0..n).map(|i| (format!("{i}"), Value::Integer(x.into()))).collect())
        }
    }
}
const SIZES: [usize; 10] = [1, 6, 7, 8, 15, 16, 239, 240, 255, 256];
#[no_mangle]
pub extern "C" fn c23_lengths() {
    written(sized(SIZES[choice(10) as usize]), 0)
}
#[no_mangle]
pub extern "C" fn c23_r_lengths() {
    let n = [0, 1, 6, 7, 8, 15, 16, 30][choice(8) as usize];
    read(sized(n), None, Opt { long: choice(2) == 1, form: choice(4), ..Opt::default() })
}
/// The codes of the kinds, both ways.
#[no_mangle]
pub extern "C" fn c23_codes() {
    let all = [
        ValueTy::Character, ValueTy::String, ValueTy::Binary, ValueTy::Boolean, ValueTy::Integer, ValueTy::Imaginary,
        ValueTy::Timestamp, ValueTy::JSON, ValueTy::Map, ValueTy::Null, ValueTy::DoubleFloat, ValueTy::Array,
        ValueTy::Timezone, ValueTy::Ipv4Addr, ValueTy::Ipv6Addr, ValueTy::SingleFloat,
    ];
    let i = choice(16) as usize;
    check(u8::from(all[i]) == i as u8, "code of the kind");
    check(ValueTy::try_from(i as u8).is_ok_and(|t| t == all[i]), "kind of the code");
}
/// A tree over some characters, in any of a few shapes.
fn tree() -> T {
    let l = T::L;
    match choice(5) {
        0 => l('a'),
        1 => b(l('a'), l('b')),
        2 => b(b(l('z'), l('a')), l('\u{ef}')),
        3 => b(l('\u{10ffff}'), b(l('\0'), b(l('b'), l('a')))),
        _ => b(b(l('a'), l('U')), b(l('C'), l('T'))),
    }
}
fn texts() -> Value {
    const A: [char; 8] = ['a', 'b', 'z', '\u{ef}', '\u{ee}', '\0', '\u{10ffff}', 'U'];
    let s: String = (0..choice(3)).map(|_| A[choice(8) as usize]).collect();
    match choice(6) {
        0 => Value::String(s),
        1 => Value::String(s + "aaaaaaaaa"),
        2 => Value::Map([(s, Value::String("a".into()))].into_iter().collect()),
        3 => Value::JSON(J::String(s)),
        4 => Value::Timezone(Tz::UTC),
        _ => Value::Array(vec![Value::String(s), Value::Boolean(any())]),
    }
}
#[no_mangle]
pub extern "C" fn c23_tree() {
    let (t, v) = (tree(), texts());
    let h = huffman(&t);
    let e = v.ser(Some(&h));
    let mut r = R(&e, 0);
    check(r.is(&v, Some(&t), 0) & (r.1 == e.len()), "the documented bytes are written");
    let mut w = W(vec![]);
    w.tree(&t);
    check(h.ser() == w.0, "the documented tree is written");
}
#[no_mangle]
pub extern "C" fn c23_r_tree() {
    let (t, v) = (tree(), texts());
    read(v, Some(&t), Opt::default())
}
/// Every character as a leaf.
#[no_mangle]
pub extern "C" fn c23_leaves() {
    let c: char = any();
    let t = if choice(2) == 0 { T::L(c) } else { b(T::L('a'), T::L(c)) };
    let mut w = W(vec![]);
    w.tree(&t);
    let mut cur = Cursor::new(&w.0);
    match Huffman::<char>::deser(&mut cur) {
        Ok(h) => {
            check(same_bytes(&h.ser(), &w.0) & (cur.pos() == w.0.len()), "the documented tree is written");
            cover("read");
        }
        Err(_) => check(false, "documented trees can be read"),
    }
}
fn entries() -> Vec<(String, Value)> {
    let x: u8 = any();
    let v = match choice(6) {
        0 => Value::Integer(x.into()),
        1 => Value::Binary(BinaryData(vec![x])),
        2 => Value::String("ab".into()),
        3 => Value::JSON(j!({"a": []})),
        4 => Value::Timezone(Tz::UTC),
        _ => Value::Array(vec![Value::Null(())]),
    };
    match choice(4) {
        0 => vec![],
        1 => vec![("".into(), v)],
        2 => vec![("ba".into(), v)],
        _ => vec![("a".into(), v), ("b".into(), Value::Boolean(true))],
    }
}
#[no_mangle]
pub extern "C" fn c23_store() {
    let l = entries();
    let s = Store::new(l.clone());
    let e = s.ser();
    check(e.len() > 9 && e[..8] == *b"SOURISDB", "the documented magic bytes");
    let mut r = R(&e, 9);
    let body = r.binary(e[8] & 0x7f);
    check(body.is_some() & (r.1 == e.len()), "the documented body");
    let body = body.unwrap();
    let mut r = R(&body, 0);
    let t = if e[8] & 0x80 != 0 {
        let t = r.tree();
        check(t.is_some(), "the documented tree");
        t
    } else {
        None
    };
    let v = Value::Map(l.into_iter().collect::<HashMap<_, _>>());
    check(r.is(&v, t.as_ref(), 0) & (r.1 == body.len()), "the documented map");
    cover("written");
}
#[no_mangle]
pub extern "C" fn c23_r_store() {
    let l = entries();
    let v = Value::Map(l.iter().cloned().collect());
    let (t, form) = (choice(6), choice(4));
    let t = (t < 5).then(|| match t {
        0 => T::L('q'),
        1 => b(T::L('a'), T::L('b')),
        2 => b(T::L('\u{ffff}'), b(T::L('b'), T::L('a'))),
        3 => b(b(T::L('U'), T::L('T')), b(T::L('C'), T::L('a'))),
        _ => b(b(b(T::L('['), T::L(']')), b(T::L('{'), T::L('}'))), b(b(T::L('"'), T::L(':')), b(T::L('a'), T::L('b')))),
    });
    let mut w = W(vec![]);
    if let Some(t) = &t {
        w.tree(t);
    }
    w.value(&v, t.as_ref(), &Opt { form: 0, long: choice(2) == 1, ..Opt::default() });
    let mut s = W(b"SOURISDB".to_vec());
    s.0.push((t.is_some() as u8) << 7 | form as u8);
    s.binary(form, &w.0);
    match Store::deser(&s.0) {
        Ok(s) => {
            check(identical(&Value::Map((*s).clone()), &v), "documented bytes are read as what they denote");
            cover("read");
        }
        Err(_) => check(false, "documented bytes can be read"),
    }
}
/// Bytes recorded from the published format, one value of each kind.
#[no_mangle]
pub extern "C" fn c23_recorded() {
    let l: [(&[u8], Value); 12] = [
        (&[0x00, 242, 0x96, 0xf5, 0x01], Value::Character('\u{1f596}')),
        (&[0x31], Value::Boolean(true)),
        (&[0x41, 1], Value::from(1i32)),
        (&[0x42, 240, 0xff], Value::from(-1i32)),
        (&[0x42, 239], Value::from(-17i64)),
        (&[0x40, 241, 0x2c, 0x01], Value::from(300u16)),
        (&[0x40, 240, 240], Value::from(240u8)),
        (&[0xd0, 127, 0, 0, 1], Value::Ipv4Addr(Ipv4Addr::LOCALHOST)),
        (&[0xe0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0], Value::Ipv6Addr(Ipv6Addr::LOCALHOST)),
        (&[0x10, 2, 0xc3, 0xa9], Value::String("\u{e9}".into())),
        (&[0xc0, 0x10, 3, 0x55, 0x54, 0x43], Value::Timezone(Tz::UTC)),
        (&[0xb6, 0x31, 0x41, 1, 0x00, 242, 0x96, 0xf5, 0x01],
            Value::Array(vec![Value::Boolean(true), Value::from(1i32), Value::Character('\u{1f596}')])),
    ];
    let i = choice(12) as usize;
    let (b, v) = &l[i];
    check(v.ser(None) == *b, "the recorded bytes are written");
    check(Value::deser(&mut Cursor::new(b), None).is_ok_and(|x| identical(&x, v)), "recorded bytes can be read");
}
