//! C31: Huffman codes are as short as they can be.
use rt::*;
use sourisdb::utilities::huffman::Huffman;

/// How often each symbol occurs.
fn counts<T: Copy + PartialEq>(v: &[T]) -> Vec<(T, usize)> {
    let mut c: Vec<(T, usize)> = vec![];
    for x in v {
        let mut new = true;
        for e in &mut c {
            if e.0 == *x {
                e.1 += 1;
                new = false;
                break;
            }
        }
        if new {
            c.push((*x, 1));
        }
    }
    c
}
/// The fewest bits any code without common beginnings takes: each merge of the two rarest adds their weight.
fn fewest(mut w: Vec<usize>) -> usize {
    if w.len() == 1 {
        return w[0];
    }
    let mut bits = 0;
    while w.len() > 1 {
        w.sort_unstable_by(|a, b| b.cmp(a));
        let x = w.pop().unwrap_or(0) + w.pop().unwrap_or(0);
        bits += x;
        w.push(x);
    }
    bits
}
fn shortest<T: Copy + Eq + std::hash::Hash>(v: &[T]) {
    let Ok((h, bits)) = Huffman::new_and_encode(v.iter().copied()) else {
        return check(v.is_empty(), "a tree for every sequence");
    };
    let c = counts(v);
    check(bits.len() == fewest(c.iter().map(|e| e.1).collect()), "as short as it can be");
    let mut lengths = vec![];
    for (x, n) in &c {
        match h.encode([*x].into_iter()) {
            Ok(b) => lengths.push((b.len(), *n)),
            Err(_) => check(false, "a code for every symbol"),
        }
    }
    for a in &lengths {
        check(a.0 > 0, "at least one bit");
        for b in &lengths {
            check(a.1 <= b.1 || a.0 <= b.0, "the more frequent, the shorter");
        }
    }
    cover("shortest");
}
#[no_mangle]
pub extern "C" fn c31_bytes() {
    shortest(&bytes(1 + choice(7) as usize));
}
#[no_mangle]
pub extern "C" fn c31_characters() {
    let n = 1 + choice(6);
    let mut v: Vec<char> = vec![];
    for _ in 0..n {
        v.push(any());
    }
    shortest(&v);
}
fn of_counts(symbols: u32, most: u32) {
    let mut v: Vec<u8> = vec![];
    for i in 0..symbols {
        let n = choice(most + 1);
        for _ in 0..n {
            v.push(b'a' + i as u8);
        }
    }
    assume(!v.is_empty());
    shortest(&v);
}
#[no_mangle]
pub extern "C" fn c31_four_symbols() {
    of_counts(4, 8)
}
#[no_mangle]
pub extern "C" fn c31_five_symbols() {
    of_counts(5, 5)
}
#[no_mangle]
pub extern "C" fn c31t_six_symbols() {
    of_counts(6, 6)
}
#[no_mangle]
pub extern "C" fn c31t_bytes() {
    shortest(&bytes(9));
}
/// Weights as in the worst case, and all alike.
#[no_mangle]
pub extern "C" fn c31_many_symbols() {
    let skewed = choice(2) == 1;
    let n = 2 + choice(9) as usize;
    let mut v: Vec<u8> = vec![];
    let (mut a, mut b) = (1, 1);
    for i in 0..n {
        for _ in 0..if skewed { a } else { 1 } {
            v.push(i as u8);
        }
        (a, b) = (b, a + b);
    }
    if !skewed {
        let x: u8 = any();
        v.push(x);
    }
    shortest(&v);
}
/// Of the codes made for English, those of common letters are the shorter ones.
#[no_mangle]
pub extern "C" fn c31_english() {
    let h = Huffman::new_with_english_frequencies();
    let len = |x: char| h.encode([x].into_iter()).map_or(0, |b| b.len());
    let (x, y): (char, char) = (any(), any());
    let (common, rare) = (" etanios", "zqjxk{}@&");
    assume(common.contains(x) && rare.contains(y));
    let (a, b) = (len(x), len(y));
    if a > 0 && b > 0 {
        check(a < b, "common letters have shorter codes");
        cover("english");
    }
    check(a > 0, "a code for every common letter");
}
/// Counts around those at which numbers get another byte.
#[no_mangle]
pub extern "C" fn c31_large_counts() {
    let mut v: Vec<u8> = vec![];
    for i in 0..4 {
        let n = [1, 100, 200, 255, 256, 257, 511][choice(7) as usize];
        for _ in 0..n {
            v.push(i as u8);
        }
    }
    shortest(&v);
}
#[no_mangle]
pub extern "C" fn c31_larger_counts() {
    let mut v: Vec<u8> = vec![];
    for i in 0..3 {
        let n = [1, 40000, 65537][choice(3) as usize];
        for _ in 0..n {
            v.push(i as u8);
        }
    }
    shortest(&v);
}
