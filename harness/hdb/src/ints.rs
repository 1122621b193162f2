//! C01 - C05: the integer type.
use crate::util::*;
use rt::*;
use sourisdb::types::integer::*;
use sourisdb::utilities::cursor::Cursor;
use std::str::FromStr;

// ---- C01 ----------------------------------------------------------------------
fn convert<S, T>(s: S)
where
    S: Machine,
    Integer: From<S>,
    T: Machine + TryFrom<Integer>,
{
    let i = Integer::from(s);
    let n = s.num();
    match T::try_from(i) {
        Ok(t) => {
            cover("converted");
            check(t.num().same(n), "value kept");
            check(fits::<T>(n), "accepted only what fits");
            observe(&[1]);
        }
        Err(_) => {
            cover("refused");
            check(!fits::<T>(n), "refused only what does not fit");
            observe(&[0]);
        }
    }
}
fn c01<S>()
where
    S: Machine,
    Integer: From<S>,
{
    let s: S = any();
    macro_rules! t { ($t:ty) => { convert::<S, $t>(s) } }
    any_machine!(t)
}
macro_rules! c01 { ($($n:ident $t:ty),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() { c01::<$t>() }
)* } }
c01!(c01_u8 u8, c01_u16 u16, c01_u32 u32, c01_u64 u64, c01_u128 u128, c01_usize usize,
     c01_i8 i8, c01_i16 i16, c01_i32 i32, c01_i64 i64, c01_i128 i128, c01_isize isize);

/// The named constructors agree with the conversions.
#[no_mangle]
pub extern "C" fn c01_named() {
    macro_rules! t {
        ($t:ident) => {{
            let x: $t = any();
            let a = Integer::$t(x);
            check($t::try_from(a).ok() == Some(x), "named constructor keeps the value");
            check(a.is_negative() == x.num().neg, "is_negative");
            check(a.is_positive() == !x.num().neg, "is_positive");
        }};
    }
    any_machine!(t)
}

/// Integers which arrive from bytes convert exactly as well.
#[no_mangle]
pub extern "C" fn c01_wire() {
    let Some((i, n)) = from_wire(true) else { return };
    macro_rules! t {
        ($t:ty) => {
            match <$t>::try_from(i) {
                Ok(t) => {
                    check(t.num().same(n), "value kept");
                    check(fits::<$t>(n), "accepted only what fits");
                }
                Err(_) => check(!fits::<$t>(n), "refused only what does not fit"),
            }
        };
    }
    any_machine!(t)
}

/// Any encoding of an integer and the number it denotes.
fn from_wire(observed: bool) -> Option<(Integer, Num)> {
    let ss = match choice(3) {
        0 => SignedState::Unsigned,
        1 => SignedState::SignedPositive,
        _ => SignedState::SignedNegative,
    };
    let neg = ss == SignedState::SignedNegative;
    let len = choice(18);
    let (raw, data): (u128, Vec<u8>) = if len == 17 {
        let b: u8 = any();
        assume(b < 240);
        (b as u128, vec![b])
    } else {
        let mut v = vec![239 + len as u8];
        let d = bytes(len as usize);
        let mut raw = 0u128;
        for i in 0..len as usize {
            raw |= (d[i] as u128) << (8 * i);
        }
        v.extend_from_slice(&d);
        if len == 0 {
            return None; // 239 itself: the one-byte form
        }
        (raw, v)
    };
    let used = if len == 17 { 1 } else { len };
    let n = if neg {
        let ext = if used == 16 { raw } else { raw | (u128::MAX << (8 * used)) };
        Num { neg: true, low: ext }
    } else {
        Num { neg: false, low: raw }
    };
    let valid = if neg {
        (n.low as i128) < 0
    } else {
        (ss == SignedState::Unsigned) | (n.low < 1 << 127)
    };
    match Integer::deser(ss, &mut Cursor::new(&data)) {
        Ok(i) => {
            assume(valid);
            if observed {
                observe(&[1]);
            }
            Some((i, n))
        }
        Err(_) => None,
    }
}

// ---- C02 ----------------------------------------------------------------------
pub fn any_integer() -> (Integer, Num) {
    match choice(13) {
        12 => match from_wire(false) {
            Some(x) => x,
            None => {
                assume(false);
                (Integer::from(0u8), Num::of(false, 0))
            }
        },
        k => {
            macro_rules! t {
                ($t:ty) => {{
                    let x: $t = any();
                    (Integer::from(x), x.num())
                }};
            }
            match k {
                0 => t!(u8),
                1 => t!(u16),
                2 => t!(u32),
                3 => t!(u64),
                4 => t!(u128),
                5 => t!(usize),
                6 => t!(i8),
                7 => t!(i16),
                8 => t!(i32),
                9 => t!(i64),
                10 => t!(i128),
                _ => t!(isize),
            }
        }
    }
}
fn agree((a, x): (Integer, Num), (b, y): (Integer, Num)) {
    let eq = a == b;
    check(eq == x.same(y), "equality is numeric");
    check((b == a) == eq, "equality is symmetric");
    if eq {
        cover("equal");
        check(same_bytes(&rec(&a), &rec(&b)), "equal integers hash equally");
    } else {
        cover("different");
    }
    observe(&[eq as u8]);
}
macro_rules! c02 { ($($n:ident $t:ty),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() {
        let x: $t = any();
        agree((Integer::from(x), x.num()), any_integer())
    }
)* } }
c02!(c02_u8 u8, c02_u64 u64, c02_u128 u128, c02_i8 i8, c02_i64 i64, c02_i128 i128,
     c02t_u16 u16, c02t_u32 u32, c02t_usize usize, c02t_i16 i16, c02t_i32 i32, c02t_isize isize);

/// Integers read from bytes against those built from the widest types.
#[no_mangle]
pub extern "C" fn c02_wire() {
    let Some(a) = from_wire(false) else { return };
    if choice(2) == 0 {
        let x: u128 = any();
        agree(a, (Integer::from(x), x.num()))
    } else {
        let x: i128 = any();
        agree(a, (Integer::from(x), x.num()))
    }
}
#[no_mangle]
pub extern "C" fn c02t_wire_wire() {
    let (Some(a), Some(b)) = (from_wire(false), from_wire(false)) else { return };
    agree(a, b)
}
/// Integers from text and from JSON numbers.
#[no_mangle]
pub extern "C" fn c02_text() {
    let (i, n) = match choice(4) {
        0 => {
            let k = 1 + choice(2) as usize;
            let s = ascii(k);
            let mut m = 0u128;
            for b in s.bytes() {
                assume((b >= b'0') & (b <= b'9'));
                m = m * 10 + (b - b'0') as u128;
            }
            (Integer::from_str(&s).ok(), Num::of(false, m))
        }
        1 => {
            let d = ascii(2);
            let mut m = 0u128;
            for b in d.bytes() {
                assume((b >= b'0') & (b <= b'9'));
                m = m * 10 + (b - b'0') as u128;
            }
            let s = format!("-{d}");
            (Integer::from_str(&s).ok(), Num::of(m != 0, m))
        }
        2 => {
            let x: u64 = any();
            (Integer::from_json(&sourisdb::serde_json::Number::from(x)), x.num())
        }
        _ => {
            let x: i64 = any();
            (Integer::from_json(&sourisdb::serde_json::Number::from(x)), x.num())
        }
    };
    let Some(i) = i else {
        return check(false, "a number is accepted");
    };
    if choice(2) == 0 {
        let x: u64 = any();
        agree((i, n), (Integer::from(x), x.num()))
    } else {
        let x: i64 = any();
        agree((i, n), (Integer::from(x), x.num()))
    }
}

// ---- C03 ----------------------------------------------------------------------
fn mag_bytes(m: u128) -> usize {
    let mut n = 0;
    for i in 0..16 {
        if (m >> (8 * i)) as u8 != 0 {
            n = i + 1;
        }
    }
    n
}
fn wire<T>()
where
    T: Machine + TryFrom<Integer>,
    Integer: From<T>,
{
    let x: T = any();
    let n = x.num();
    let i = Integer::from(x);
    let (ss, data) = i.ser();
    observe(&data);
    observe(&[u8::from(ss)]);
    check(!data.is_empty(), "something is written");
    let small = !n.neg & (n.low < 240);
    check(!small | (data.len() == 1), "small numbers take one byte");
    check(data.len() <= 1 + mag_bytes(n.mag()), "compact");
    let mut all = data.clone();
    all.extend_from_slice(&bytes(2));
    let mut c = Cursor::new(&all);
    match Integer::deser(ss, &mut c) {
        Ok(j) => {
            cover("read back");
            check(c.pos() == data.len(), "reads exactly what was written");
            match T::try_from(j) {
                Ok(y) => check(y.num().same(n), "same number"),
                Err(_) => check(false, "same number"),
            }
            check(j == i, "equal integer");
        }
        Err(_) => check(false, "read back"),
    }
    // every strict prefix is refused
    let k = choice(17) as usize;
    if k < data.len() {
        let p = &data[..k];
        let mut c = Cursor::new(&p);
        check(Integer::deser(ss, &mut c).is_err(), "a strict prefix is refused");
    }
}
macro_rules! c03 { ($($n:ident $t:ty),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() { wire::<$t>() }
)* } }
c03!(c03_u8 u8, c03_u16 u16, c03_u32 u32, c03_u64 u64, c03_u128 u128, c03_usize usize,
     c03_i8 i8, c03_i16 i16, c03_i32 i32, c03_i64 i64, c03_i128 i128, c03_isize isize);

/// Re-encoding what was read from any bytes denotes the same number again.
#[no_mangle]
pub extern "C" fn c03_wire() {
    let Some((i, n)) = from_wire(false) else { return };
    let (ss, data) = i.ser();
    let small = !n.neg & (n.low < 240);
    check(!small | (data.len() == 1), "small numbers take one byte");
    check(data.len() <= 1 + mag_bytes(n.mag()), "compact");
    let mut c = Cursor::new(&data);
    match Integer::deser(ss, &mut c) {
        Ok(j) => {
            check(c.is_finished(), "reads exactly what was written");
            match value_of(j) {
                Some(m) => check(m.same(n), "same number"),
                None => check(false, "same number"),
            }
        }
        Err(_) => check(false, "read back"),
    }
}

// ---- C04 ----------------------------------------------------------------------
/// The number a decimal text denotes: an optional sign and at least one digit.
fn denotes(s: &[u8]) -> Option<Num> {
    let (neg, d) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() {
        return None;
    }
    let mut m = 0u128;
    let mut ok = true;
    for b in d {
        ok &= (*b >= b'0') & (*b <= b'9');
        let (t, o1) = m.overflowing_mul(10);
        let (t, o2) = t.overflowing_add((*b).wrapping_sub(b'0') as u128);
        ok &= !o1 & !o2;
        m = t;
    }
    if !ok {
        return None;
    }
    let n = Num::of(neg & (m != 0), m);
    if neg && m > 1 << 127 {
        return None;
    }
    Some(n)
}
fn parse(s: &str) {
    let want = denotes(s.as_bytes());
    match (Integer::from_str(s), want) {
        (Ok(i), Some(n)) => {
            cover("parsed");
            match value_of(i) {
                Some(m) => check(m.same(n), "the number the text denotes"),
                None => check(false, "the number the text denotes"),
            }
        }
        (Ok(_), None) => check(false, "malformed or out-of-range text is refused"),
        (Err(_), Some(_)) => check(false, "well-formed text is accepted"),
        (Err(_), None) => cover("refused"),
    }
}
#[no_mangle]
pub extern "C" fn c04_parse_any() {
    let n = choice(4) as usize;
    parse(&ascii(n))
}
#[no_mangle]
pub extern "C" fn c04t_parse_any() {
    parse(&ascii(4 + choice(2) as usize))
}
#[no_mangle]
pub extern "C" fn c04_parse_unicode() {
    let n = 1 + choice(2) as usize;
    parse(&chars(n))
}
/// The edges of the range: the last digits of the widest numbers are free.
#[no_mangle]
pub extern "C" fn c04_parse_edges() {
    let heads = [
        "34028236692093846346337460743176821145",   // u128::MAX / 10
        "3402823669209384634633746074317682114",    // / 100
        "-17014118346046923173168730371588410572",  // i128::MIN / 10
        "-1701411834604692317316873037158841057",   // / 100
        "17014118346046923173168730371588410572",   // i128::MAX / 10
        "1844674407370955161",                      // u64::MAX / 10
        "-922337203685477580",                      // i64::MIN / 10
        "000000000000000000000000000000000000000000",
        "-0000000000000000000000000000000000000000000",
    ];
    let h = heads[choice(heads.len() as u32) as usize];
    let k = 1 + choice(2) as usize;
    let t = ascii(k);
    let mut s = String::from(h);
    s.push_str(&t);
    parse(&s)
}
/// The text of an integer is the decimal text of the number (as the standard
/// library writes machine integers).
fn shown<T: Machine + std::fmt::Display>(x: T)
where
    Integer: From<T>,
{
    let n = x.num();
    concretize(n.neg as u64);
    let s = Integer::from(x).to_string();
    observe(s.as_bytes());
    let want = if n.neg { (n.low as i128).to_string() } else { n.low.to_string() };
    check(same_bytes(s.as_bytes(), want.as_bytes()), "the displayed text is the number in decimal");
}
macro_rules! show { ($($n:ident $t:ty),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() { shown::<$t>(any()) }
)* } }
show!(c04_display_u8 u8, c04_display_u16 u16, c04_display_u32 u32, c04_display_u64 u64, 
      c04_display_i8 i8, c04_display_i16 i16, c04_display_i32 i32, c04_display_i64 i64);
/// The displayed text parses back to an equal integer.
fn back<T: Machine + std::fmt::Display>(x: T)
where
    Integer: From<T>,
{
    let i = Integer::from(x);
    match Integer::from_str(&i.to_string()) {
        Ok(j) => check(j == i, "the displayed text parses back"),
        Err(_) => check(false, "the displayed text parses back"),
    }
}
#[no_mangle]
pub extern "C" fn c04_display_back() {
    match choice(2) {
        0 => back::<u8>(any()),
        _ => back::<i8>(any()),
    }
}
#[no_mangle]
pub extern "C" fn c04t_display_back() {
    match choice(2) {
        0 => back::<u16>(any()),
        _ => back::<i16>(any()),
    }
}
/// Windows of 16 numbers at the edges of the signed types: the text alone.
#[no_mangle]
pub extern "C" fn c04_display_ends() {
    let d: u8 = any();
    assume(d < 16);
    macro_rules! t {
        ($t:ty, $base:expr) => {{
            let base: $t = $base;
            shown(base.wrapping_add(d as $t))
        }};
    }
    match choice(8) {
        0 => t!(u128, u128::MAX - 15),
        1 => t!(i128, i128::MIN),
        2 => t!(i128, i128::MAX - 15),
        3 => t!(i64, i64::MAX - 15),
        4 => t!(i64, i64::MIN),
        5 => t!(i64, -8),
        6 => t!(u128, u64::MAX as u128 - 7),
        _ => t!(i128, i64::MIN as i128 - 8),
    }
}
/// Windows of 16 numbers at the edges of every width.
#[no_mangle]
pub extern "C" fn c04_display_edges() {
    let d: u8 = any();
    assume(d < 16);
    macro_rules! t {
        ($t:ty, $base:expr) => {{
            let base: $t = $base;
            back(base.wrapping_add(d as $t))
        }};
    }
    match choice(8) {
        0 => t!(u128, u128::MAX - 7),
        1 => t!(i128, i128::MIN),
        2 => t!(i128, i128::MAX - 15),
        3 => t!(u64, u64::MAX - 15),
        4 => t!(i64, i64::MIN),
        5 => t!(i64, -8),
        6 => t!(u128, u64::MAX as u128 - 7),
        _ => t!(i128, i64::MIN as i128 - 8),
    }
}

fn arith<A, B>(a: A, b: B, ops: &[u32])
where
    A: Machine,
    B: Machine,
    Integer: From<A> + From<B>,
{
    let (x, y) = (a.num(), b.num());
    concretize(x.neg as u64 * 2 + y.neg as u64);
    let (i, j) = (Integer::from(a), Integer::from(b));
    let op = ops[choice(ops.len() as u32) as usize];
    if !A::SIGNED && !B::SIGNED {
        let (p, q) = (x.low, y.low);
        let want = match op {
            0 => p.checked_add(q),
            1 => p.checked_sub(q),
            2 => p.checked_mul(q),
            _ => p.checked_div(q),
        };
        let Some(w) = want else { return };
        concretize(w.num().neg as u64);
        let r = run(op, i, j);
        match value_of(r) {
            Some(n) => check(n.same(w.num()), "exact result"),
            None => check(false, "exact result"),
        }
    } else {
        assume(fits::<i128>(x) & fits::<i128>(y));
        let (p, q) = (signed(x), signed(y));
        let want = match op {
            0 => p.checked_add(q),
            1 => p.checked_sub(q),
            2 => p.checked_mul(q),
            _ => p.checked_div(q),
        };
        let Some(w) = want else { return };
        concretize(w.num().neg as u64);
        let r = run(op, i, j);
        match value_of(r) {
            Some(n) => check(n.same(w.num()), "exact result"),
            None => check(false, "exact result"),
        }
    }
    cover("computed");
}
/// Any signed number, its sign and how many of its bytes matter decided first.
fn shaped<T: Machine>() -> i128 {
    let neg = choice(2) == 1;
    let n = choice(T::BITS / 8 + 1) as usize;
    let fill = if neg { 255 } else { 0 };
    let mut b = [fill; 16];
    for i in 0..n {
        b[i] = any();
    }
    if n > 0 {
        assume(b[n - 1] != fill);
    }
    if n == T::BITS as usize / 8 {
        assume((b[n - 1] >= 128) == neg);
    }
    i128::from_le_bytes(b)
}
/// Products and quotients of wide signed numbers: the result equals the integer
/// made from the exact one (that these are exact is C01's matter).
fn arith_wide<A: Machine, B: Machine>(ops: &[u32])
where
    Integer: From<A> + From<B>,
    A: TryFrom<i128>,
    B: TryFrom<i128>,
{
    let (p, q) = (shaped::<A>(), shaped::<B>());
    let (Ok(a), Ok(b)) = (A::try_from(p), B::try_from(q)) else { return };
    let op = ops[choice(ops.len() as u32) as usize];
    let want = match op {
        0 => p.checked_add(q),
        1 => p.checked_sub(q),
        2 => p.checked_mul(q),
        _ => p.checked_div(q),
    };
    let Some(w) = want else { return };
    concretize((w < 0) as u64);
    check(run(op, Integer::from(a), Integer::from(b)) == Integer::from(w), "exact result");
    cover("computed");
}
macro_rules! wide { ($($n:ident $a:ty, $b:ty, $o:expr);*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() { arith_wide::<$a, $b>($o) }
)* } }
wide!(c04_wide_i32_i32 i32, i32, AQ; c04_wide_i64_i64 i64, i64, AQ; c04_wide_i128_i128 i128, i128, LIN;
      c04t_wide_i32_i32 i32, i32, ALL; c04t_wide_i64_i64 i64, i64, ALL; c04t_wide_i128_i128 i128, i128, ALL);

/// Any number multiplied with, divided by or dividing a fixed one.
#[no_mangle]
pub extern "C" fn c04_by_fixed() {
    const SIGNED: [i128; 12] = [
        1, -1, 2, -2, 10, -255, 256, 65_537, i64::MAX as i128, i64::MIN as i128, i128::MAX, i128::MIN,
    ];
    const UNSIGNED: [u128; 8] = [1, 2, 10, 255, 65_536, u64::MAX as u128, 1 << 127, u128::MAX];
    let op = 2 + choice(2);
    if choice(2) == 0 {
        let q = UNSIGNED[choice(8) as usize];
        let p: u128 = any();
        let (p, q) = if op == 3 && choice(2) == 1 && q > u64::MAX as u128 { (q, p & 0xffff) } else { (p, q) };
        let want = if op == 2 { p.checked_mul(q) } else { p.checked_div(q) };
        let Some(w) = want else { return };
        check(run(op, Integer::from(p), Integer::from(q)) == Integer::from(w), "exact result");
    } else {
        let q = SIGNED[choice(12) as usize];
        let p = shaped::<i128>();
        let want = if op == 2 { p.checked_mul(q) } else { p.checked_div(q) };
        let Some(w) = want else { return };
        concretize((w < 0) as u64);
        check(run(op, Integer::from(p), Integer::from(q)) == Integer::from(w), "exact result");
    }
    cover("computed");
}
fn signed(n: Num) -> i128 {
    n.low as i128
}
fn run(op: u32, i: Integer, j: Integer) -> Integer {
    match op {
        0 => i + j,
        1 => i - j,
        2 => i * j,
        _ => i / j,
    }
}
const ALL: &[u32] = &[0, 1, 2, 3];
const LIN: &[u32] = &[0, 1];
const AQ: &[u32] = &[0, 1, 3];

macro_rules! arith { ($($n:ident $a:ty, $b:ty, $o:expr);*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() { arith::<$a, $b>(any(), any(), $o) }
)* } }
arith!(c04_arith_u8_u8 u8, u8, ALL; c04_arith_i8_i8 i8, i8, ALL; c04_arith_u8_i8 u8, i8, ALL;
       c04_arith_i8_u8 i8, u8, ALL; c04_arith_i16_i16 i16, i16, ALL; c04_arith_u16_i16 u16, i16, ALL;
       c04_arith_u32_u32 u32, u32, ALL; c04_arith_u64_u64 u64, u64, ALL; c04_arith_i32_i32 i32, i32, LIN;
       c04_arith_u64_i16 u64, i16, LIN; c04_arith_u128_u128 u128, u128, LIN; c04_arith_u64_u16 u64, u16, ALL;
       c04t_arith_i64_i64 i64, i64, LIN; c04t_arith_i128_i128 i128, i128, LIN;
       c04t_arith_u128_i128 u128, i128, LIN; c04t_arith_u64_i16 u64, i16, ALL; c04t_arith_i16_u32 i16, u32, ALL;
       c04t_arith_u128_u128 u128, u128, ALL);

// ---- C05 ----------------------------------------------------------------------
/// What an IEEE float with `man` mantissa bits denotes: whether it is within the
/// tolerance of an integer, and that integer.
fn float_value(neg: bool, exp: i32, m: u64, man: i32) -> Option<Num> {
    // value = m * 2^exp, tolerance 2^-man
    let mag = if exp >= 0 {
        if exp >= 128 {
            if m != 0 {
                return None;
            }
            0
        } else {
            let v = (m as u128) << exp;
            if v >> exp != m as u128 {
                return None;
            }
            v
        }
    } else {
        let s = -exp; // fraction bits
        let (int, frac) = if s >= 64 { (0, m) } else { (m >> s, m & ((1u64 << s) - 1)) };
        // frac * 2^-s <= 2^-man  <=>  frac <= 2^(s - man)
        let lim = s - man;
        let ok = if lim < 0 {
            frac == 0
        } else if lim >= 64 {
            true
        } else {
            frac <= 1u64 << lim
        };
        if !ok {
            return None;
        }
        int as u128
    };
    if neg && mag > 1 << 127 {
        return None;
    }
    Some(Num::of(neg & (mag != 0), mag))
}
fn judged(r: Result<Integer, FloatToIntegerConversionError>, want: Option<Num>) {
    match (r, want) {
        (Ok(i), Some(n)) => {
            cover("converted");
            match value_of(i) {
                Some(m) => check(m.same(n), "the number the float denotes"),
                None => check(false, "the number the float denotes"),
            }
        }
        (Err(_), None) => cover("refused"),
        (Ok(_), None) => check(false, "only integers in range are accepted"),
        (Err(_), Some(_)) => check(false, "integers in range are accepted"),
    }
}
fn f64_case(e: u64) {
    let bits: u64 = any::<u64>() & !(0x7ff << 52) | e << 52;
    let m = bits & ((1 << 52) - 1);
    let neg = bits >> 63 == 1;
    let want = match e {
        0x7ff => None,
        0 => float_value(neg, -1074, m, 52),
        _ => float_value(neg, e as i32 - 1075, m | 1 << 52, 52),
    };
    judged(Integer::try_from(f64::from_bits(bits)), want)
}
fn f32_case(e: u32) {
    let bits: u32 = any::<u32>() & !(0xff << 23) | e << 23;
    let m = bits & ((1 << 23) - 1);
    let neg = bits >> 31 == 1;
    let want = match e {
        0xff => None,
        0 => float_value(neg, -149, m as u64, 23),
        _ => float_value(neg, e as i32 - 150, (m | 1 << 23) as u64, 23),
    };
    judged(Integer::try_from(f32::from_bits(bits)), want)
}
/// Every exponent of a double, its sign and mantissa being free.
#[no_mangle]
pub extern "C" fn c05_f64_a() {
    f64_case(choice(512) as u64)
}
#[no_mangle]
pub extern "C" fn c05_f64_b() {
    f64_case(512 + choice(512) as u64)
}
#[no_mangle]
pub extern "C" fn c05_f64_c() {
    f64_case(1024 + choice(512) as u64)
}
#[no_mangle]
pub extern "C" fn c05_f64_d() {
    f64_case(1536 + choice(512) as u64)
}
#[no_mangle]
pub extern "C" fn c05_f32() {
    f32_case(choice(256))
}
/// Converting an integer of at most 53 (24) bits to a float and back is exact.
#[no_mangle]
pub extern "C" fn c05_back() {
    if choice(2) == 0 {
        let x: i64 = any();
        assume((x >= -(1 << 53)) & (x <= 1 << 53));
        let f = f64::from(Integer::from(x));
        check(f == x as f64, "exact double");
    } else {
        let x: i32 = any();
        assume((x >= -(1 << 24)) & (x <= 1 << 24));
        let f = f32::from(Integer::from(x));
        check(f == x as f32, "exact single");
    }
}
