//! C08 and C09: the Huffman coder and the binary compressions.
use crate::util::*;
use rt::*;
use sourisdb::types::binary::{huffman::*, lz::*, rle::*, BinaryCompression, BinaryData};
use sourisdb::types::integer::Integer;
use sourisdb::utilities::{bits::Bits, cursor::Cursor, huffman::Huffman};

// ---- C08 ----------------------------------------------------------------------
fn same_chars(a: &[char], b: &[char]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i] == b[i];
        }
    }
    ok
}
fn free_chars(n: usize) -> Vec<char> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(any::<char>());
    }
    v
}
fn to_string(v: &[char]) -> String {
    v.iter().collect()
}
/// Sequences of `n` symbols and up to `most` different ones among them.
fn pattern<T: Copy>(n: usize, most: usize, mut fresh: impl FnMut() -> T) -> Vec<T> {
    let mut alphabet: Vec<T> = vec![];
    let mut v = vec![];
    for _ in 0..n {
        let k = choice((alphabet.len() + 1).min(most) as u32) as usize;
        if k == alphabet.len() {
            alphabet.push(fresh());
        }
        v.push(alphabet[k]);
    }
    v
}
fn lossless_bytes(v: &[u8]) {
    match Huffman::new_and_encode(v.iter().copied()) {
        Err(_) => check(v.is_empty(), "a tree for every sequence"),
        Ok((h, bits)) => {
            check(!v.is_empty(), "no tree for nothing");
            let again = h.encode(v.iter().copied());
            check(again.is_ok_and(|b| b == bits), "encoding is repeatable");
            match h.decode(bits.clone()) {
                Ok(w) => check(same_bytes(v, &w), "decodes to the sequence"),
                Err(_) => check(false, "decodes"),
            }
            // the serialised tree and bits
            let mut all = h.ser();
            let tree = all.len();
            all.extend(bits.ser());
            all.push(any());
            let mut c = Cursor::new(&all);
            match Huffman::<u8>::deser(&mut c) {
                Err(_) => check(false, "tree reads back"),
                Ok(g) => {
                    check(c.pos() == tree, "tree consumed exactly");
                    check(g.encode(v.iter().copied()).is_ok_and(|b| b == bits), "same encoding");
                    match g.decode(Bits::deser(&mut c).unwrap()) {
                        Ok(w) => check(same_bytes(v, &w), "same decoding"),
                        Err(_) => check(false, "decodes"),
                    }
                    cover("lossless");
                }
            }
            observe(&bits.ser());
        }
    }
}
fn lossless_chars(v: &[char], other: char) {
    let s = to_string(v);
    match Huffman::new_str(&s) {
        Err(_) => check(v.is_empty(), "a tree for every text"),
        Ok(h) => {
            check(!v.is_empty(), "no tree for nothing");
            let Ok(bits) = h.encode_string(&s) else {
                return check(false, "encodes its own text");
            };
            match h.decode_string(bits.clone()) {
                Ok(w) => check(same_bytes(s.as_bytes(), w.as_bytes()), "decodes to the text"),
                Err(_) => check(false, "decodes"),
            }
            let mut all = h.ser();
            let tree = all.len();
            all.push(any());
            let mut c = Cursor::new(&all);
            match Huffman::<char>::deser(&mut c) {
                Err(_) => check(false, "tree reads back"),
                Ok(g) => {
                    check(c.pos() == tree, "tree consumed exactly");
                    check(g.encode_string(&s).is_ok_and(|b| b == bits), "same encoding");
                    match g.decode_string(bits) {
                        Ok(w) => check(same_bytes(s.as_bytes(), w.as_bytes()), "same decoding"),
                        Err(_) => check(false, "decodes"),
                    }
                    cover("lossless");
                    // a text with one more character
                    let mut t = s.clone();
                    t.push(other);
                    let mut known = false;
                    for c in v {
                        known |= *c == other;
                    }
                    match (h.encode_string(&t), g.encode_string(&t)) {
                        (Ok(x), Ok(y)) => {
                            check(known, "unknown characters are refused");
                            check(x == y, "same encoding");
                            let back = h.decode_string(x).is_ok_and(|w| same_bytes(w.as_bytes(), t.as_bytes()));
                            check(back, "decodes to the text");
                        }
                        (Err(_), Err(_)) => {
                            check(!known, "known characters are encoded");
                            cover("refused");
                        }
                        _ => check(false, "same refusal"),
                    }
                }
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn c08_bytes() {
    lossless_bytes(&bytes(choice(5) as usize))
}
#[no_mangle]
pub extern "C" fn c08_pattern() {
    let n = 5 + choice(2) as usize;
    lossless_bytes(&pattern(n, 3, any))
}
#[no_mangle]
pub extern "C" fn c08t_bytes() {
    lossless_bytes(&bytes(5))
}
#[no_mangle]
pub extern "C" fn c08t_pattern() {
    lossless_bytes(&pattern(8, 3, any))
}
/// Deep trees: the frequencies are those of the Fibonacci numbers.
#[no_mangle]
pub extern "C" fn c08_deep() {
    let mut v = vec![];
    let (mut a, mut b) = (1, 1);
    for _ in 0..2 + choice(6) {
        let x: u8 = any();
        for y in &v {
            assume(*y != x);
        }
        for _ in 0..a {
            v.push(x);
        }
        (a, b) = (b, a + b);
    }
    lossless_bytes(&v)
}
#[no_mangle]
pub extern "C" fn c08_chars() {
    lossless_chars(&free_chars(choice(3) as usize), any())
}
#[no_mangle]
pub extern "C" fn c08t_chars() {
    lossless_chars(&free_chars(3), any())
}
/// Trees far deeper than any text of such lengths has, read from bytes: a
/// symbol hangs off each level, to either side.
#[no_mangle]
pub extern "C" fn c08_skewed() {
    let n = [5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255][choice(18) as usize];
    let side = choice(3);
    let left = |i: usize| if side == 2 { i % 2 == 0 } else { side == 0 };
    let wide = choice(2) == 1;
    let sym = |i: usize| if wide { char::from_u32(0x4e00 + i as u32).unwrap() } else { char::from(i as u8) };
    let leaf = |i: usize, b: &mut Vec<u8>| {
        if wide {
            b.extend(Integer::u32(sym(i) as u32 + 1).ser().1)
        } else {
            b.extend([1, i as u8])
        }
    };
    // level i: its symbol on one side, the rest of the tree on the other
    let mut b = vec![];
    for i in 0..n {
        b.push(0);
        if left(i) {
            leaf(i, &mut b)
        }
    }
    leaf(n, &mut b);
    for i in (0..n).rev() {
        if !left(i) {
            leaf(i, &mut b)
        }
    }
    let k = [0, 1, n / 2, n - 1, n];
    let k = [k[choice(5) as usize], k[choice(5) as usize]];
    // left is a one
    let mut path = vec![];
    for k in k {
        for i in 0..k.min(n - 1) {
            path.push(!left(i));
        }
        path.push(left(k.min(n - 1)) == (k < n));
    }
    let want = Bits::from(&path);
    let text: String = k.iter().map(|i| sym(*i)).collect();
    let mut c = Cursor::new(&b);
    if wide {
        let Ok(h) = Huffman::<char>::deser(&mut c) else {
            return check(false, "reads back");
        };
        check(h.ser() == b, "same tree");
        check(h.encode_string(&text).is_ok_and(|e| e == want), "the path to each symbol");
        check(h.decode_string(want).is_ok_and(|t| t == text), "decodes to the text");
    } else {
        let Ok(h) = Huffman::<u8>::deser(&mut c) else {
            return check(false, "reads back");
        };
        let v = [k[0] as u8, k[1] as u8];
        check(h.ser() == b, "same tree");
        check(h.encode(v.iter().copied()).is_ok_and(|e| e == want), "the path to each symbol");
        check(h.decode(want).is_ok_and(|w| w == v), "decodes to the bytes");
    }
    cover("lossless");
}
/// As c08_deep, with more levels and fixed symbols.
#[no_mangle]
pub extern "C" fn c08_deeper() {
    let n = [9, 10, 12, 17][choice(4) as usize];
    let mut v = vec![];
    let (mut a, mut b) = (1, 1);
    for i in 0..n {
        v.extend(std::iter::repeat_n(i as u8 * 7, a));
        (a, b) = (b, a + b);
    }
    if choice(2) == 0 {
        lossless_bytes(&v)
    } else {
        let c: Vec<char> = v.iter().map(|b| char::from_u32(0x80 + *b as u32).unwrap()).collect();
        lossless_chars(&c, 'a')
    }
}
/// Every byte there is, and texts with many different characters.
#[no_mangle]
pub extern "C" fn c08_many() {
    let n = [200, 255, 256, 300, 700][choice(5) as usize];
    let v = filling([2, 3, 4, 6][choice(4) as usize], n);
    if choice(2) == 0 {
        lossless_bytes(&v)
    } else {
        let c: Vec<char> = v.iter().map(|b| char::from_u32(0x80 + 3 * *b as u32).unwrap()).collect();
        lossless_chars(&c, 'a')
    }
}
/// Characters from the whole range, in patterns.
#[no_mangle]
pub extern "C" fn c08_char_pattern() {
    const C: [char; 6] = ['\0', 'a', '\u{ee}', '\u{ff}', '\u{ffff}', '\u{10ffff}'];
    let n = 3 + choice(3) as usize;
    lossless_chars(&pattern(n, 3, || C[choice(6) as usize]), 'a')
}
/// The preset tree for English.
#[no_mangle]
pub extern "C" fn c08_english() {
    let h = Huffman::new_with_english_frequencies();
    let bytes = h.ser();
    let mut c = Cursor::new(&bytes);
    let Ok(g) = Huffman::<char>::deser(&mut c) else {
        return check(false, "tree reads back");
    };
    check(c.pos() == bytes.len(), "tree consumed exactly");
    let s = ascii(1);
    let k = s.as_bytes()[0];
    match (h.encode_string(&s), g.encode_string(&s)) {
        (Ok(x), Ok(y)) => {
            check(x == y, "same encoding");
            check(h.decode_string(x.clone()).is_ok_and(|w| w == s), "decodes to the text");
            check(g.decode_string(x).is_ok_and(|w| w == s), "decodes to the text");
            cover("lossless");
        }
        (Err(_), Err(_)) => {
            check(k < b' ' || k == 127 || !k.is_ascii_alphanumeric(), "letters, digits and space are known");
            cover("refused");
        }
        _ => check(false, "same refusal"),
    }
}
/// Bits which are not an encoding: refused, or a re-encoding gives them back.
#[no_mangle]
pub extern "C" fn c08_any_bits() {
    let v = pattern(6, 4, any::<u8>);
    let h = Huffman::new(v.iter().copied()).ok().unwrap();
    let mut m = vec![];
    for _ in 0..choice(5) {
        m.push(any::<bool>());
    }
    let b = Bits::from(&m);
    match h.decode(b.clone()) {
        Ok(w) => {
            let mut same = true;
            for x in &v {
                same &= *x == v[0];
            }
            check(same || h.encode(w.iter().copied()).is_ok_and(|x| x == b), "decoded bits are the encoding of the result");
            cover("decoded");
        }
        Err(_) => cover("not an encoding"),
    }
}

/// Contents of several kinds, of so many bytes.
pub fn filling(kind: u32, n: usize) -> Vec<u8> {
    let mut seed = 777u32;
    let mut next = || {
        seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
        (seed >> 24) as u8
    };
    (0..n)
        .map(|i| match kind {
            0 => b'a',
            1 => b"ab"[i % 2],
            2 => b"the quick brown fox jumps over the lazy dog "[i % 44],
            3 => b' ' + next() % 90,
            4 => i as u8,
            5 => (i / 300) as u8,
            _ => next(),
        })
        .collect()
}

// ---- C09 ----------------------------------------------------------------------
fn back<E>(v: &[u8], enc: &[u8], f: impl Fn(&mut Cursor<u8>) -> Result<Vec<u8>, E>) {
    let mut all = enc.to_vec();
    all.push(any());
    let mut c = Cursor::new(&all);
    match f(&mut c) {
        Ok(w) => {
            check(same_bytes(v, &w), "decodes to the same bytes");
            check(c.pos() == enc.len(), "consumes exactly its encoding");
            cover("lossless");
        }
        Err(_) => check(false, "decodes"),
    }
    for n in 0..enc.len() {
        if n > 8 && n + 8 < enc.len() {
            continue;
        }
        let p = enc[..n].to_vec();
        check(f(&mut Cursor::new(&p)).is_err(), "prefix refused");
    }
}
fn vanilla(v: &[u8]) -> usize {
    Integer::usize(v.len()).ser().1.len() + v.len()
}
fn codec(v: &[u8], which: u32) {
    match which {
        0 => back(v, &rle(v), un_rle),
        1 => back(v, &lz(v), un_lz),
        2 => back(v, &huffman(v), un_huffman),
        _ => {
            let d = BinaryData(v.to_vec());
            let (how, enc) = d.ser();
            check(enc.len() <= vanilla(v), "no longer than the plain encoding");
            check(enc.len() <= rle(v).len(), "no longer than run lengths");
            check(enc.len() <= lz(v).len(), "no longer than lempel ziv");
            check(enc.len() <= huffman(v).len(), "no longer than huffman");
            match how {
                BinaryCompression::Nothing => cover("plain chosen"),
                BinaryCompression::RunLengthEncoding => cover("run lengths chosen"),
                BinaryCompression::LempelZiv => cover("lempel ziv chosen"),
                BinaryCompression::Huffman => cover("huffman chosen"),
            }
            let code = u8::from(how);
            let again = BinaryCompression::try_from(code);
            check(again.is_ok(), "the compression's code is known");
            back(v, &enc, |c| BinaryData::deser(BinaryCompression::try_from(code).unwrap(), c).map(|d| d.0));
            // the plain encoding is readable too, whichever was chosen
            let mut plain = Integer::usize(v.len()).ser().1;
            plain.extend(v);
            back(v, &plain, |c| BinaryData::deser(BinaryCompression::Nothing, c).map(|d| d.0));
        }
    }
}
#[no_mangle]
pub extern "C" fn c09_rle() {
    codec(&bytes(choice(8) as usize), 0)
}
#[no_mangle]
pub extern "C" fn c09_lz() {
    codec(&bytes(choice(13) as usize), 1)
}
#[no_mangle]
pub extern "C" fn c09_huffman() {
    codec(&bytes(choice(5) as usize), 2)
}
#[no_mangle]
pub extern "C" fn c09_chosen() {
    codec(&bytes(choice(5) as usize), 3)
}
/// Runs on both sides of the longest run a byte can count.
#[no_mangle]
pub extern "C" fn c09_runs() {
    let mut v = bytes(choice(2) as usize);
    let x: u8 = any();
    let n = [3, 119, 254, 255, 256, 510][choice(6) as usize];
    v.extend(std::iter::repeat_n(x, n));
    v.extend(bytes(choice(2) as usize));
    codec(&v, [0, 2][choice(2) as usize])
}
/// Long inputs: lengths which take two and three bytes, every byte value.
#[no_mangle]
pub extern "C" fn c09_long() {
    let n = [239, 240, 255, 256, 257, 300, 1000][choice(7) as usize];
    codec(&filling(choice(7), n), choice(4))
}
#[no_mangle]
pub extern "C" fn c09_very_long() {
    let n = [65535, 65536, 65600][choice(3) as usize];
    let kind = [0, 1, 5][choice(3) as usize];
    let c = choice(4);
    assume(kind < 5 || c < 2); // many symbols: the bit-by-bit codecs take too long
    codec(&filling(kind, n), c)
}
/// The choice between the compressions, for runs.
#[no_mangle]
pub extern "C" fn c09_runs_chosen() {
    let x = [0u8, 1, 97, 255][choice(4) as usize];
    let n = [3, 5, 17, 119, 254, 255, 256, 511][choice(8) as usize];
    let mut v = vec![x; n];
    v.extend(bytes(choice(2) as usize));
    codec(&v, 3)
}
/// Inputs long enough for matches, made of a few different bytes.
#[no_mangle]
pub extern "C" fn c09_matches() {
    let a = [0u8, 255, b'x'];
    let unit = 1 + choice(3) as usize;
    let mut v: Vec<u8> = vec![];
    for i in 0..unit {
        v.push(a[(choice(3) as usize + i) % 3]);
    }
    let len = 14 + 3 * choice(4) as usize;
    while v.len() < len {
        v.push(v[v.len() - unit]);
    }
    v.extend(bytes(choice(3) as usize));
    codec(&v, [1, 3][choice(2) as usize])
}
