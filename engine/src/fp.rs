//! Floating point: concrete evaluation and bit-level symbolic encodings.
use crate::expr::*;

pub fn fbin(op: Op, w: u16, x: u128, y: u128) -> u128 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op {
            Op::FAdd => a + b,
            Op::FSub => a - b,
            Op::FMul => a * b,
            _ => a / b,
        })
        .to_bits() as u128
    } else {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        (match op {
            Op::FAdd => a + b,
            Op::FSub => a - b,
            Op::FMul => a * b,
            _ => a / b,
        })
        .to_bits() as u128
    }
}
pub fn fun(op: Op, w: u16, x: u128) -> u128 {
    macro_rules! go {
        ($a:expr) => {
            match op {
                Op::FSqrt => $a.sqrt(),
                Op::FFloor => $a.floor(),
                Op::FCeil => $a.ceil(),
                Op::FTrunc => $a.trunc(),
                _ => $a.round_ties_even(),
            }
            .to_bits() as u128
        };
    }
    if w == 32 {
        let a = f32::from_bits(x as u32);
        go!(a)
    } else {
        let a = f64::from_bits(x as u64);
        go!(a)
    }
}
pub fn fcvt(op: Op, aw: u16, w: u16, x: u128) -> u128 {
    match op {
        Op::FCvt => {
            if aw == 32 {
                (f32::from_bits(x as u32) as f64).to_bits() as u128
            } else {
                (f64::from_bits(x as u64) as f32).to_bits() as u128
            }
        }
        Op::FFromU => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FFromS => {
            let s = sext(x, aw);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        Op::FToU => {
            let v = if aw == 32 { f32::from_bits(x as u32) as u128 } else { f64::from_bits(x as u64) as u128 };
            v.min(mask(w))
        }
        _ => {
            let v = if aw == 32 { f32::from_bits(x as u32) as i128 } else { f64::from_bits(x as u64) as i128 };
            let hi = (mask(w) >> 1) as i128;
            let lo = -hi - 1;
            (v.clamp(lo, hi) as u128) & mask(w)
        }
    }
}
/// Rebuild a unary floating-point node (used by substitution).
pub fn mk_fun(p: &mut Pool, op: Op, a: E, w: u16) -> E {
    if let Some(v) = p.cval(a) {
        let aw = p.w(a);
        let r = match op {
            Op::FCvt | Op::FFromU | Op::FFromS | Op::FToU | Op::FToS => fcvt(op, aw, w, v),
            _ => fun(op, w, v),
        };
        return p.konst(w, r);
    }
    p.un(op, a, w)
}

struct F {
    w: u16,
    mant: u16,
    bias: u128,
}
fn fmtof(w: u16) -> F {
    if w == 32 {
        F { w, mant: 23, bias: 127 }
    } else {
        F { w, mant: 52, bias: 1023 }
    }
}
fn abs(p: &mut Pool, x: E, w: u16) -> E {
    let l = p.extract(x, 0, w - 1);
    p.zext(l, w)
}
pub fn is_nan(p: &mut Pool, x: E) -> E {
    let w = p.w(x);
    let f = fmtof(w);
    let a = abs(p, x, w);
    let inf = p.konst(w, (mask(w - 1) >> f.mant) << f.mant);
    p.bin(Op::Ult, inf, a)
}
/// ordered less-than on bit patterns
fn lt(p: &mut Pool, x: E, y: E, or_eq: bool) -> E {
    let w = p.w(x);
    let sx = p.extract(x, w - 1, 1);
    let sy = p.extract(y, w - 1, 1);
    let ax = p.extract(x, 0, w - 1);
    let ay = p.extract(y, 0, w - 1);
    let o = if or_eq { Op::Ule } else { Op::Ult };
    let pos = p.bin(o, ax, ay);
    let neg = p.bin(o, ay, ax);
    let zx = p.eqc(ax, 0);
    let zy = p.eqc(ay, 0);
    let bz = p.and(zx, zy);
    let t = p.tru();
    let fl = p.fls();
    let a = p.ite(sy, neg, t); // x negative
    let b = p.ite(sy, fl, pos); // x positive
    let a2 = p.ite(sx, a, b);
    // signs differ: x<0<y true unless both zero; both zero: equal
    let eq = p.konst(1, or_eq as u128);
    let r = p.ite(bz, eq, a2);
    let n1 = is_nan(p, x);
    let n2 = is_nan(p, y);
    let n = p.or(n1, n2);
    let nn = p.not(n);
    p.and(r, nn)
}
fn feq(p: &mut Pool, x: E, y: E) -> E {
    let w = p.w(x);
    let e = p.eq(x, y);
    let ax = p.extract(x, 0, w - 1);
    let ay = p.extract(y, 0, w - 1);
    let zx = p.eqc(ax, 0);
    let zy = p.eqc(ay, 0);
    let bz = p.and(zx, zy);
    let r = p.or(e, bz);
    let n1 = is_nan(p, x);
    let n2 = is_nan(p, y);
    let n = p.or(n1, n2);
    let nn = p.not(n);
    p.and(r, nn)
}
/// LLVM fcmp predicates 0..15
pub fn fcmp(p: &mut Pool, pred: u8, x: E, y: E) -> E {
    let n1 = is_nan(p, x);
    let n2 = is_nan(p, y);
    let un = p.or(n1, n2);
    let base = match pred & 7 {
        0 => p.fls(),
        1 => feq(p, x, y),
        2 => lt(p, y, x, false),
        3 => lt(p, y, x, true),
        4 => lt(p, x, y, false),
        5 => lt(p, x, y, true),
        6 => {
            let e = feq(p, x, y);
            let ne = p.not(e);
            let o = p.not(un);
            p.and(ne, o)
        }
        _ => p.not(un), // ord
    };
    if pred & 8 != 0 {
        // unordered variants: 8=uno, 9=ueq, ... 15=true
        if pred == 15 {
            return p.tru();
        }
        p.or(un, base)
    } else {
        base
    }
}
pub fn fcmp_c(pred: u8, w: u16, x: u128, y: u128) -> bool {
    let (a, b) = if w == 32 {
        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
    } else {
        (f64::from_bits(x as u64), f64::from_bits(y as u64))
    };
    let un = a.is_nan() || b.is_nan();
    let base = match pred & 7 {
        0 => false,
        1 => a == b,
        2 => a > b,
        3 => a >= b,
        4 => a < b,
        5 => a <= b,
        6 => a != b && !un,
        _ => !un,
    };
    if pred & 8 != 0 {
        pred == 15 || un || base
    } else {
        base
    }
}
/// trunc / floor / ceil on the bit pattern, without FP theory
pub fn round(p: &mut Pool, op: Op, x: E) -> E {
    let w = p.w(x);
    let f = fmtof(w);
    let ew = w - 1 - f.mant;
    let ex = p.extract(x, f.mant, ew);
    let s = p.extract(x, w - 1, 1);
    let mag = p.extract(x, 0, w - 1);
    let mag = p.zext(mag, w);
    let bias = p.konst(ew, f.bias);
    let small = p.bin(Op::Ult, ex, bias); // |x| < 1
    let lim = p.konst(ew, f.bias + f.mant as u128);
    let big = p.bin(Op::Ule, lim, ex); // already integral / inf / nan
    // sh = mant - (ex - bias): number of fractional bits
    let exw = p.zext(ex, w);
    let tot = p.konst(w, f.bias + f.mant as u128);
    let sh = p.bin(Op::Sub, tot, exw);
    let one = p.konst(w, 1);
    let t = p.bin(Op::Shl, one, sh);
    let fm = p.bin(Op::Sub, t, one); // mask of fractional bits
    let nfm = p.not(fm);
    let tr = p.bin(Op::And, mag, nfm);
    let up0 = p.bin(Op::Add, mag, fm);
    let up = p.bin(Op::And, up0, nfm);
    let z = p.konst(w, 0);
    let onef = p.konst(w, f.bias << f.mant);
    let nz = p.eqc(mag, 0);
    let up_small = p.ite(nz, z, onef);
    let m_tr = {
        let a = p.ite(small, z, tr);
        p.ite(big, mag, a)
    };
    let m_up = {
        let a = p.ite(small, up_small, up);
        p.ite(big, mag, a)
    };
    let m = match op {
        Op::FTrunc => m_tr,
        Op::FFloor => p.ite(s, m_up, m_tr),
        _ => p.ite(s, m_tr, m_up),
    };
    let lo = p.extract(m, 0, w - 1);
    p.concat(s, lo)
}
/// Truncating conversion of the magnitude to an unsigned `tw`-bit integer plus
/// a flag "magnitude does not fit in tw bits" (also set for inf/nan).
pub fn to_int_mag(p: &mut Pool, x: E, tw: u16) -> (E, E) {
    let w = p.w(x);
    let f = fmtof(w);
    let ew = w - 1 - f.mant;
    let ex = p.extract(x, f.mant, ew);
    let frac = p.extract(x, 0, f.mant);
    let one = p.konst(1, 1);
    let m = p.concat(one, frac); // mant+1 bits
    let ww = tw.max(f.mant + 1);
    let m = p.zext(m, ww);
    let bias = p.konst(ew, f.bias);
    let small = p.bin(Op::Ult, ex, bias);
    let big_at = f.bias + tw as u128;
    let over = if big_at >= (1u128 << ew) {
        let allones = p.konst(ew, mask(ew));
        p.eq(ex, allones)
    } else {
        let k = p.konst(ew, big_at);
        p.bin(Op::Ule, k, ex)
    };
    let exw = p.zext(ex, ww.max(ew));
    debug_assert!(ww >= ew);
    let c = p.konst(ww, f.bias + f.mant as u128);
    let rs = p.bin(Op::Sub, c, exw);
    let ls = p.bin(Op::Sub, exw, c);
    let r = p.bin(Op::LShr, m, rs);
    let l = p.bin(Op::Shl, m, ls);
    let cond = p.bin(Op::Ule, exw, c);
    let v = p.ite(cond, r, l);
    let z = p.konst(ww, 0);
    let v = p.ite(small, z, v);
    let v = p.extract(v, 0, tw);
    let _ = f.w;
    (v, over)
}
pub fn to_int_sat(p: &mut Pool, x: E, tw: u16, signed: bool) -> E {
    let w = p.w(x);
    let s = p.extract(x, w - 1, 1);
    let nan = is_nan(p, x);
    let (v, over) = to_int_mag(p, x, tw);
    let z = p.konst(tw, 0);
    let r = if !signed {
        let mx = p.konst(tw, mask(tw));
        let a = p.ite(over, mx, v);
        p.ite(s, z, a)
    } else {
        let mx = p.konst(tw, mask(tw) >> 1);
        let mn = p.konst(tw, 1u128 << (tw - 1));
        let top = p.extract(v, tw - 1, 1);
        let o = p.or(over, top);
        let pos = p.ite(o, mx, v);
        let ng = p.bin(Op::Sub, z, v);
        let neg = p.ite(o, mn, ng);
        p.ite(s, neg, pos)
    };
    p.ite(nan, z, r)
}
pub fn to_int(p: &mut Pool, x: E, tw: u16, signed: bool) -> E {
    to_int_sat(p, x, tw, signed)
}
