//! C06: a bit string behaves as the list of bits put into it.
use crate::util::*;
use rt::*;
use sourisdb::utilities::bits::Bits;
use sourisdb::utilities::cursor::Cursor;

fn free_bits(n: usize) -> Vec<bool> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(any::<bool>());
    }
    v
}
fn same(a: &[bool], b: &[bool]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn pack(m: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; m.len().div_ceil(8)];
    for (i, b) in m.iter().enumerate() {
        v[i / 8] |= (*b as u8) << (i % 8);
    }
    v
}
/// Everything a reader can see of `b`, against the list `m` (not the text).
fn agree(b: &Bits, m: &[bool]) {
    check(b.len() == m.len(), "length");
    check(b.is_empty() == m.is_empty(), "emptiness");
    let mut ok = true;
    for i in 0..m.len() {
        ok &= b[i] == m[i];
    }
    check(ok, "indexed bits");
    check(same_bytes(&b.get_proper_bytes(), &pack(m)), "bytes");
    let v: Vec<bool> = b.clone().into();
    check(same(&v, m), "boolean list");
    observe(&b.get_proper_bytes());
}
fn step(b: &mut Bits, m: &mut Vec<bool>, most: u32) {
    match choice(5) {
        0 => {
            let x: bool = any();
            b.push(x);
            m.push(x);
        }
        1 => {
            let got = b.pop();
            match m.pop() {
                None => check(got.is_none(), "pop of nothing"),
                Some(x) => check(got.is_some() && got.unwrap() == x, "popped bit"),
            }
        }
        2 => {
            let xs = free_bits(choice(most) as usize);
            b.push_many(Bits::from(&xs));
            m.extend(&xs);
        }
        3 => {
            b.clear();
            m.clear();
        }
        _ => {
            let x: bool = any();
            let n = b.push_into_new(x);
            agree(b, m);
            *b = n;
            m.push(x);
        }
    }
}
fn history(n: usize, steps: usize, most: u32) {
    let mut m = free_bits(n);
    let mut b = Bits::from(&m);
    for _ in 0..steps {
        step(&mut b, &mut m, most);
    }
    agree(&b, &m);
    cover("history");
}
#[no_mangle]
pub extern "C" fn c06_history() {
    history(choice(18) as usize, 3, 3)
}
#[no_mangle]
pub extern "C" fn c06_history_long() {
    history(choice(10) as usize, 5, 2)
}
#[no_mangle]
pub extern "C" fn c06t_history() {
    history(choice(34) as usize, 4, 10)
}
/// Pops down from a whole number of bytes, past the start.
#[no_mangle]
pub extern "C" fn c06_drain() {
    let bytes = bytes(choice(4) as usize);
    let mut b = Bits::from_binary(bytes.clone());
    let mut m = vec![];
    for i in 0..bytes.len() * 8 {
        m.push(bytes[i / 8] >> (i % 8) & 1 == 1);
    }
    agree(&b, &m);
    let down = choice(26) as usize;
    for _ in 0..down {
        let got = b.pop();
        match m.pop() {
            None => check(got.is_none(), "pop of nothing"),
            Some(x) => check(got.is_some() && got.unwrap() == x, "popped bit"),
        }
    }
    agree(&b, &m);
    let x: bool = any();
    b.push(x);
    m.push(x);
    agree(&b, &m);
    cover("history");
}
/// Every way to make one from a list, and back.
#[no_mangle]
pub extern "C" fn c06_sources() {
    let m = free_bits(choice(20) as usize);
    let cut = choice(3) as usize * m.len() / 2;
    let b: Bits = match choice(4) {
        0 => Bits::from(&m),
        1 => m.iter().copied().collect(),
        2 => [Bits::from(&m[..cut]), Bits::from(&m[cut..])].into_iter().collect(),
        _ => {
            let mut b = Bits::default();
            for x in &m {
                b.push(*x);
            }
            b
        }
    };
    agree(&b, &m);
    check(b == Bits::from(&m), "equal to the same list");
    let v: Vec<bool> = b.into_iter().collect();
    check(same(&v, &m), "iteration");
    cover("history");
}
/// Equality is equality of the lists, and equal ones hash alike.
#[no_mangle]
pub extern "C" fn c06_equal() {
    let a = free_bits(choice(19) as usize);
    let n = match choice(3) {
        0 => a.len(),
        1 => a.len() + 1,
        _ => a.len() + 8,
    };
    let c = free_bits(n);
    let x = Bits::from(&a);
    // the second one has had more bits, since removed
    let mut y = Bits::from(&c);
    for _ in 0..choice(3) {
        y.push(any());
        y.push(any());
        y.pop();
        y.pop();
    }
    let eq = x == y;
    check(eq == same(&a, &c), "equality");
    check((y == x) == eq, "symmetric");
    if eq {
        check(rec(&x) == rec(&y), "equal ones hash alike");
        cover("equal");
    } else {
        cover("different");
    }
}
fn round(m: &[bool], x: Bits, tail: usize) {
    let enc = x.ser();
    let mut all = enc.clone();
    all.extend(bytes(tail));
    let mut c = Cursor::new(&all);
    match Bits::deser(&mut c) {
        Ok(y) => {
            check(c.pos() == enc.len(), "position");
            check(y == x, "equal after reading back");
            agree(&y, m);
            // and it is a live bit string, not only an equal one
            let mut z = y;
            let mut m = m.to_vec();
            let e: bool = any();
            z.push(e);
            m.push(e);
            agree(&z, &m);
            cover("read back");
        }
        Err(_) => check(false, "reads back"),
    }
    for n in 0..enc.len() {
        check(Bits::deser(&mut Cursor::new(&enc[..n].to_vec())).is_err(), "prefix refused");
    }
}
#[no_mangle]
pub extern "C" fn c06_ser() {
    let m = free_bits(choice(26) as usize);
    let x = Bits::from(&m);
    round(&m, x, 2)
}
/// Lengths on both sides of the one byte length code (240 bits).
#[no_mangle]
pub extern "C" fn c06_ser_long() {
    let n = 236 + choice(6) as usize;
    let mut m = vec![];
    for i in 0..n {
        m.push(if i % 40 == 7 || i > n - 4 { any::<bool>() } else { i % 3 == 0 });
    }
    let x = Bits::from(&m);
    round(&m, x, 1)
}
/// Encodings from elsewhere: the unused bits of the last byte may be anything.
#[no_mangle]
pub extern "C" fn c06_foreign() {
    let n = choice(20) as usize;
    let body = bytes(n.div_ceil(8));
    let mut enc = vec![n as u8];
    enc.extend(&body);
    let mut m = vec![];
    for i in 0..n {
        m.push(body[i / 8] >> (i % 8) & 1 == 1);
    }
    match Bits::deser(&mut Cursor::new(&enc)) {
        Ok(mut y) => {
            agree(&y, &m);
            check(y == Bits::from(&m), "equal to the same list");
            for _ in 0..2 {
                let x: bool = any();
                y.push(x);
                m.push(x);
            }
            agree(&y, &m);
            cover("read back");
        }
        Err(_) => check(false, "reads back"),
    }
}
fn text(n: usize) {
    let m = free_bits(n);
    let s = Bits::from(&m).to_string();
    check(s.len() == n, "text length");
    let mut ok = true;
    for (i, c) in s.bytes().enumerate() {
        ok &= c == b'0' + m[i] as u8;
    }
    check(ok, "text");
    observe(s.as_bytes());
    cover("text");
}
#[no_mangle]
pub extern "C" fn c06_text() {
    text(choice(10) as usize)
}
#[no_mangle]
pub extern "C" fn c06t_text() {
    text(10 + choice(3) as usize)
}
