//! C07: a cursor is an ideal position within its data.
use rt::*;
use sourisdb::utilities::cursor::Cursor;
use std::io::{Seek, SeekFrom};

/// `s` is exactly `d[from..from + n]`, the very same items.
fn is_slice<T>(s: &[T], d: &[T], from: usize, n: usize) -> bool {
    s.len() == n && (n == 0 || s.as_ptr() as usize == d.as_ptr() as usize + from * std::mem::size_of::<T>())
}
fn state<T>(c: &Cursor<T>, d: &[T], p: usize) {
    check(c.pos() == p, "position");
    check(p <= d.len(), "position within the data");
    check(c.items_remaining() == d.len() - p, "items remaining");
    check(c.is_finished() == (p == d.len()), "finished");
    check(is_slice(c.peek_remaining(), d, p, d.len() - p), "peek remaining");
    check(is_slice(c.as_ref(), d, p, d.len() - p), "as_ref");
}
fn exact<const N: usize>(c: &mut Cursor<u32>, d: &[u32], p: &mut usize, take: bool) {
    let got = if take { c.read_exact::<N>() } else { c.peek_exact::<N>() };
    match got {
        Some(s) => {
            check(is_slice(&s[..], d, *p, N) && N <= d.len() - *p, "items of an exact read");
            if take {
                *p += N;
            }
            cover("moved");
        }
        None => {
            check(N > d.len() - *p || (N == 0 && *p == d.len()), "refused only past the end");
            cover("refused");
        }
    }
}
fn step(c: &mut Cursor<u32>, d: &[u32], p: &mut usize) {
    let left = d.len() - *p;
    match choice(11) {
        0 => {
            let n: usize = any();
            let ok = c.move_forwards(n);
            check(ok == (n <= left), "forwards");
            if ok {
                *p += n;
            }
        }
        1 => {
            let n: usize = any();
            let ok = c.move_backwards(n);
            check(ok == (n <= *p), "backwards");
            if ok {
                *p -= n;
            }
        }
        2 => {
            let n: usize = any();
            match c.read(n) {
                Some(s) => {
                    check(n <= left && is_slice(s, d, *p, n), "items read");
                    *p += n;
                    cover("moved");
                }
                None => {
                    check(n > left || (n == 0 && left == 0), "refused only past the end");
                    cover("refused");
                }
            }
        }
        3 => {
            let n: usize = any();
            match c.peek(n) {
                Some(s) => check(n <= left && is_slice(s, d, *p, n), "items peeked"),
                None => check(n > left || (n == 0 && left == 0), "refused only past the end"),
            }
        }
        4 => {
            let take = any();
            match choice(4) {
                0 => exact::<0>(c, d, p, take),
                1 => exact::<1>(c, d, p, take),
                2 => exact::<3>(c, d, p, take),
                _ => exact::<{ 1 << 40 }>(c, d, p, take),
            }
        }
        5 => {
            let s = c.read_remaining();
            check(is_slice(s, d, *p, left), "remaining items");
            *p = d.len();
        }
        6 => {
            let n: usize = any();
            c.set_pos(n);
            *p = n.min(d.len());
        }
        7 => match c.next() {
            Some(x) => {
                check(left > 0 && std::ptr::eq(x, d.as_ptr().wrapping_add(*p)), "next item");
                *p += 1;
            }
            None => check(left == 0, "end only at the end"),
        },
        k => {
            let (base, off, from) = match k {
                8 => {
                    let o: u64 = any();
                    (0i128, o as i128, SeekFrom::Start(o))
                }
                9 => {
                    let o: i64 = any();
                    (*p as i128, o as i128, SeekFrom::Current(o))
                }
                _ => {
                    let o: i64 = any();
                    (d.len() as i128, o as i128, SeekFrom::End(o))
                }
            };
            let t = base + off;
            match c.seek(from) {
                Ok(n) => {
                    check(t >= 0 && t <= d.len() as i128, "seek inside the data");
                    check(n as i128 == t, "seek result");
                    *p = t as usize;
                    cover("sought");
                }
                Err(_) => {
                    check(t < 0 || t > d.len() as i128, "seek refused only outside the data");
                    cover("seek refused");
                }
            }
        }
    }
}
fn history(most: u32, steps: usize) {
    let n = choice(most) as usize;
    let mut d = Vec::with_capacity(n);
    for _ in 0..n {
        d.push(any::<u32>());
    }
    let mut c = Cursor::new(&d);
    let mut p = 0;
    state(&c, &d, 0);
    if n > 0 {
        p = any();
        c.set_pos(p);
        p = p.min(n);
    }
    for _ in 0..steps {
        step(&mut c, &d, &mut p);
        state(&c, &d, p);
    }
    observe(&[c.pos() as u8]);
}
#[no_mangle]
pub extern "C" fn c07_one() {
    history(6, 1)
}
#[no_mangle]
pub extern "C" fn c07_two() {
    history(4, 2)
}
#[no_mangle]
pub extern "C" fn c07t_two() {
    history(9, 2)
}
#[no_mangle]
pub extern "C" fn c07t_three() {
    history(3, 3)
}
/// Items of no size and huge slices of them: the position is still exact.
#[no_mangle]
pub extern "C" fn c07_vast() {
    let n: usize = any();
    let d: &'static [()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
    let mut c = Cursor::new(&d);
    let at: usize = any();
    c.set_pos(at);
    let mut p = at.min(n);
    let k: usize = any();
    match choice(4) {
        0 => match c.read(k) {
            Some(s) => {
                check(k <= n - p && s.len() == k, "items read");
                p += k;
                cover("moved");
            }
            None => check(k > n - p || (k == 0 && p == n), "refused only past the end"),
        },
        1 => {
            let ok = c.move_forwards(k);
            check(ok == (k <= n - p), "forwards");
            if ok {
                p += k;
            }
        }
        2 => {
            let o: i64 = any();
            let t = p as i128 + o as i128;
            match c.seek(SeekFrom::Current(o)) {
                Ok(_) => {
                    check(t >= 0 && t <= n as i128, "seek inside the data");
                    p = t as usize;
                }
                Err(_) => check(t < 0 || t > n as i128, "seek refused only outside the data"),
            }
        }
        _ => {
            let o: i64 = any();
            let t = n as i128 + o as i128;
            match c.seek(SeekFrom::End(o)) {
                Ok(_) => {
                    check(t >= 0 && t <= n as i128, "seek inside the data");
                    p = t as usize;
                }
                // offsets are signed: an end beyond them cannot be reached exactly
                Err(_) => check(t < 0 || t > n as i128, "seek refused only outside the data"),
            }
        }
    }
    check(c.pos() == p, "position");
    check(c.items_remaining() == n - p, "items remaining");
}
