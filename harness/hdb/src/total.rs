//! C11: decoding untrusted bytes always returns.
use crate::gen::*;
use rt::*;
use sourisdb::store::Store;
use sourisdb::types::binary::*;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::*;
use sourisdb::utilities::{bits::Bits, cursor::Cursor, huffman::Huffman};
use sourisdb::values::Value;

/// Memory asked for at once while decoding `n` bytes.
fn modest(n: usize) {
    check(alloc_max() <= 16384 + 4096 * n, "memory in proportion to the input");
    check(alloc_total() <= 65536 + 65536 * n, "memory in proportion to the input");
}
fn outcome<T, E>(r: Result<T, E>, n: usize) {
    modest(n);
    match r {
        Ok(_) => cover("decoded"),
        Err(_) => cover("refused"),
    }
}
/// Any claim of the form "all the same byte, this many times" can ask for any
/// amount of memory; only `c11_run_form` makes it.
fn not_a_run(b: &[u8]) {
    if !b.is_empty() {
        assume(b[0] != 1);
    }
}
fn each_size(most: u32) -> Vec<u8> {
    let n = choice(most + 1) as usize;
    let v = bytes(n);
    alloc_reset();
    v
}
#[no_mangle]
pub extern "C" fn c11_integer() {
    let v = each_size(18);
    let s = [SignedState::Unsigned, SignedState::SignedPositive, SignedState::SignedNegative][choice(3) as usize];
    let r = Integer::deser(s, &mut Cursor::new(&v));
    if let Ok(i) = &r {
        // what was decoded can be used
        check(crate::util::value_of(*i).is_some(), "a decoded integer is a number");
        let (_, again) = i.ser();
        check(again.len() <= 17, "a decoded integer encodes");
    }
    outcome(r, v.len())
}
#[no_mangle]
pub extern "C" fn c11_imaginary() {
    let v = each_size(4);
    let code: u8 = any();
    outcome(Imaginary::deser(code, &mut Cursor::new(&v)), v.len())
}
#[no_mangle]
pub extern "C" fn c11_bits() {
    let v = each_size(6);
    let r = Bits::deser(&mut Cursor::new(&v));
    if let Ok(b) = &r {
        check(b.len() <= v.len() * 8, "no more bits than bytes given");
        let l: Vec<bool> = b.clone().into();
        check(l.len() == b.len(), "a decoded bit string is a list of bits");
    }
    outcome(r, v.len())
}
fn tree_u8(most: u32) {
    let v = each_size(most);
    let mut c = Cursor::new(&v);
    let r = Huffman::<u8>::deser(&mut c);
    if let Ok(h) = &r {
        if let Ok(b) = Bits::deser(&mut c) {
            let _ = h.decode(b);
        }
        let _ = h.encode([0u8, 1].into_iter());
        let _ = h.ser();
    }
    outcome(r, v.len())
}
fn tree_char(most: u32) {
    let v = each_size(most);
    let mut c = Cursor::new(&v);
    let r = Huffman::<char>::deser(&mut c);
    if let Ok(h) = &r {
        if let Ok(b) = Bits::deser(&mut c) {
            let _ = h.decode_string(b);
        }
        let _ = h.encode_string("a");
        let _ = h.ser();
    }
    outcome(r, v.len())
}
#[no_mangle]
pub extern "C" fn c11_tree_bytes() {
    tree_u8(6)
}
#[no_mangle]
pub extern "C" fn c11_tree_chars() {
    tree_char(5)
}
#[no_mangle]
pub extern "C" fn c11t_tree_bytes() {
    tree_u8(9)
}
#[no_mangle]
pub extern "C" fn c11t_tree_chars() {
    tree_char(6)
}
/// Trees nested as deeply as the bytes allow.
#[no_mangle]
pub extern "C" fn c11_tree_deep() {
    let n = [200, 254, 255, 256, 257, 4000, 60_000][choice(7) as usize];
    let mut v = vec![0u8; n];
    v.extend(bytes(2));
    alloc_reset();
    if choice(2) == 0 {
        outcome(Huffman::<u8>::deser(&mut Cursor::new(&v)), v.len())
    } else {
        outcome(Huffman::<char>::deser(&mut Cursor::new(&v)), v.len())
    }
}
#[no_mangle]
pub extern "C" fn c11_binary_plain() {
    let v = each_size(8);
    outcome(BinaryData::deser(BinaryCompression::Nothing, &mut Cursor::new(&v)), v.len())
}
#[no_mangle]
pub extern "C" fn c11_binary_runs() {
    let v = each_size(5);
    // the counts cost one path each
    for i in [3] {
        if let Some(b) = v.get(i) {
            assume((*b < 3) | (*b > 253));
        }
    }
    outcome(BinaryData::deser(BinaryCompression::RunLengthEncoding, &mut Cursor::new(&v)), v.len())
}
#[no_mangle]
pub extern "C" fn c11_binary_lz() {
    let v = each_size(4);
    outcome(BinaryData::deser(BinaryCompression::LempelZiv, &mut Cursor::new(&v)), v.len())
}
#[no_mangle]
pub extern "C" fn c11t_binary_lz() {
    let v = each_size(5);
    outcome(BinaryData::deser(BinaryCompression::LempelZiv, &mut Cursor::new(&v)), v.len())
}
#[no_mangle]
pub extern "C" fn c11_binary_huffman() {
    let v = each_size(6);
    not_a_run(&v);
    outcome(BinaryData::deser(BinaryCompression::Huffman, &mut Cursor::new(&v)), v.len())
}
/// The claimed lengths of compressed data, with little data behind them.
#[no_mangle]
pub extern "C" fn c11_binary_claims() {
    let n = choice(9) as u8;
    let mut v = vec![239 + n];
    if n == 0 {
        v[0] = any();
        assume(v[0] < 240);
    }
    v.extend(bytes(n as usize));
    let m = choice(3) as usize;
    v.extend([vec![3u8], vec![240, 2], vec![247, 1, 0, 0, 0, 0, 0, 0, 0]][m].clone());
    v.extend(bytes(2));
    alloc_reset();
    let how = [BinaryCompression::Nothing, BinaryCompression::RunLengthEncoding, BinaryCompression::LempelZiv];
    let how = how[choice(3) as usize];
    if matches!(how, BinaryCompression::RunLengthEncoding) {
        assume(v[v.len() - 1] < 3);
        assume(v[v.len() - 2] < 3);
        assume(v[0] < 4 || v[0] >= 240);
    }
    outcome(BinaryData::deser(how, &mut Cursor::new(&v)), v.len())
}
#[no_mangle]
pub extern "C" fn c11_run_form() {
    let mut v = vec![1u8, 247];
    let n = bytes(8);
    assume((n[7] != 0) | (n[6] != 0));
    v.extend(n);
    v.push(0);
    alloc_reset();
    outcome(BinaryData::deser(BinaryCompression::Huffman, &mut Cursor::new(&v)), v.len())
}

// ---- values -------------------------------------------------------------------
fn value_bytes(v: &[u8], h: Option<&Huffman<char>>) {
    let mut c = Cursor::new(&v);
    let r = Value::deser(&mut c, h);
    if let Ok(x) = &r {
        // whatever was decoded can be encoded
        let again = x.ser(h);
        check(!again.is_empty(), "a decoded value encodes");
    }
    outcome(r, v.len())
}
/// Binary data compressed with Huffman as a run, anywhere; names of time zones
/// (looked up through a keyed hash) only where they are given.
fn no_runs_in_binary(v: &[u8]) {
    for i in 0..v.len().saturating_sub(1) {
        assume(!((v[i] == 0x23) & (v[i + 1] == 1)));
    }
    for i in 0..v.len().saturating_sub(3) {
        assume(!((v[i] & 0xf0 == 0xc0) & (v[i + 1] & 0xf0 == 0x10) & (v[i + 2] != 0)));
    }
}
fn of_kind(k: u8, most: u32) {
    let mut v = vec![k << 4 | (any::<u8>() & 15)];
    v.extend(bytes(choice(most + 1) as usize));
    no_runs_in_binary(&v);
    alloc_reset();
    value_bytes(&v, None)
}
macro_rules! c11 { ($($n:ident $k:literal $m:literal),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() {
        of_kind($k, $m)
    }
)* } }
c11!(c11_v_character 0 6, c11_v_string 1 5, c11_v_binary 2 2, c11_v_boolean 3 1, c11_v_integer 4 17,
     c11_v_imaginary 5 4, c11_v_timestamp 6 5, c11_v_json 7 3, c11_v_map 8 4, c11_v_null 9 1,
     c11_v_double 10 8, c11_v_array 11 3, c11_v_timezone 12 3, c11_v_ipv4 13 4, c11_v_ipv6 14 16, c11_v_single 15 4,
     c11t_v_timezone 12 4, c11t_v_map 8 5, c11t_v_array 11 4, c11t_v_binary 2 3, c11t_v_timestamp 6 8, c11t_v_json 7 4);

/// Timestamps with every field, whatever its value.
#[no_mangle]
pub extern "C" fn c11_stamp_fields() {
    let mut v = vec![0x60 | (any::<u8>() & 3)];
    match choice(3) {
        0 => v.extend([239 + 4, any(), any(), any(), any()]),
        1 => v.extend([239 + 2, any(), any()]),
        _ => v.push(any()),
    }
    v.extend(bytes(5));
    for b in &v[v.len() - 5..] {
        assume((*b < 3) | (*b > 58) & (*b < 61) | (*b == 23) | (*b == 24) | (*b > 237));
    }
    v.extend([239 + 4, any(), any(), any(), any()]);
    alloc_reset();
    value_bytes(&v, None)
}
/// Names of time zones, known, unknown and not even text.
#[no_mangle]
pub extern "C" fn c11_zone_names() {
    let n: &[u8] = match choice(8) {
        0 => b"UTC",
        1 => b"utc",
        2 => b"Europe/Londo",
        3 => b"Europe/London\0",
        4 => &[0xff, 0xfe],
        5 => b"",
        6 => &[0xc3, 0xa9],
        _ => b"America/Argentina/ComodRivadavia",
    };
    let mut v = vec![0xc0 | (any::<u8>() & 15), 0x10, n.len() as u8];
    v.extend(n);
    alloc_reset();
    value_bytes(&v, None)
}
/// Lengths of strings, arrays and maps which nothing follows.
#[no_mangle]
pub extern "C" fn c11_lengths() {
    let k = [0x10, 0x81, 0xb1, 0x11, 0x20][choice(5) as usize];
    let n = 1 + choice(8) as u8;
    let mut v = vec![k, 239 + n];
    v.extend(bytes(n as usize));
    v.extend([0x90, 0x90]);
    alloc_reset();
    let h = Huffman::new_str("aab").ok().unwrap();
    alloc_reset();
    value_bytes(&v, Some(&h))
}
#[no_mangle]
pub extern "C" fn c11_v_tree() {
    let h = Huffman::new_str("aabc").ok().unwrap();
    let mut v = vec![[0x11, 0x71, 0xc1, 0x84, 0xb4][choice(5) as usize]];
    v.extend(bytes(choice(3) as usize));
    no_runs_in_binary(&v);
    alloc_reset();
    value_bytes(&v, Some(&h))
}
/// A one-character tree: any bits decode, none can stall.
#[no_mangle]
pub extern "C" fn c11_lone_tree() {
    let h = Huffman::new_str("a").ok().unwrap();
    let mut v = vec![0x11];
    v.extend(bytes(choice(4) as usize));
    alloc_reset();
    value_bytes(&v, Some(&h))
}
/// Nested containers: shallow enough for any stack.
#[no_mangle]
pub extern "C" fn c11_nested() {
    let n = [1, 50, 200][choice(3) as usize];
    let mut v = vec![];
    for i in 0..n {
        match i % 3 {
            0 => v.push(0xb2),
            1 => v.extend([0x82, 0x10, 0]),
            _ => v.extend([0xb1, 1]),
        }
    }
    let k: u8 = any();
    assume(k != 0x23);
    v.push(k);
    alloc_reset();
    value_bytes(&v, None)
}
/// One byte of a valid encoding replaced by any other, or cut short there.
#[no_mangle]
pub extern "C" fn c11_mutated() {
    let v = match choice(2) {
        0 => Value::Array(vec![Value::String("a".into()), Value::Null(())]),
        _ => Value::Map([("k".to_string(), Value::Array(vec![Value::Integer(300u16.into())]))].into_iter().collect()),
    };
    let mut e = v.ser(None);
    let at = choice(e.len() as u32) as usize;
    e[at] = any();
    if choice(2) == 1 {
        e.truncate(at + 1);
    }
    no_runs_in_binary(&e);
    alloc_reset();
    value_bytes(&e, None)
}

// ---- stores -------------------------------------------------------------------
fn store_bytes(v: &[u8]) {
    let r = Store::deser(v);
    if let Ok(s) = &r {
        let again = s.ser();
        check(again.len() > 8, "a decoded store encodes");
    }
    outcome(r, v.len())
}
#[no_mangle]
pub extern "C" fn c11_store_head() {
    let v = each_size(11);
    if v.len() > 9 {
        assume(v[9] < 4 || v[9] > 236);
    }
    if v.len() > 10 {
        assume(v[10] < 4 || v[10] > 236);
    }
    if v.len() > 9 {
        assume(!((v[8] & 127 == 3) & (v[9] == 1)));
    }
    store_bytes(&v)
}
fn store_body(most: u32) {
    let mut v = b"SOURISDB".to_vec();
    v.push([0u8, 0x80, 2, 0x82, 0x83, 3][choice(6) as usize]);
    v.extend(bytes(choice(most + 1) as usize));
    if v[8] & 3 == 3 && v.len() > 9 {
        assume(v[9] != 1);
    }
    no_runs_in_binary(&v);
    alloc_reset();
    store_bytes(&v)
}
#[no_mangle]
pub extern "C" fn c11_store_body() {
    store_body(3)
}
#[no_mangle]
pub extern "C" fn c11t_store_body() {
    store_body(4)
}
#[no_mangle]
pub extern "C" fn c11_store_mutated() {
    let s = Store::new([("k".to_string(), Value::String("kkab".into())), ("b".to_string(), Value::Boolean(true))]);
    let mut e = s.ser();
    let at = 8 + choice(e.len() as u32 - 8) as usize;
    e[at] = any();
    if at == 8 || e[8] & 3 == 3 {
        assume(!((e[8] & 127 == 3) & (e[9] == 1)));
    }
    no_runs_in_binary(&e);
    alloc_reset();
    store_bytes(&e)
}
#[no_mangle]
pub extern "C" fn c11_json_text() {
    let v = each_size(3);
    let r = Store::from_json_bytes(&v);
    outcome(r, v.len())
}
/// Containers nested so deeply that dropping them needs more stack than there is.
#[no_mangle]
pub extern "C" fn c11_deep_drop() {
    let mut v = vec![0xb2; 150_000];
    v.push(0x90);
    alloc_reset();
    let r = Value::deser(&mut Cursor::new(&v), None);
    outcome(r, v.len())
}
