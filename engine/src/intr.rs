//! LLVM intrinsics and the handful of libc functions the harnesses reach.
use crate::exec::*;
use crate::expr::*;
use crate::fp;
use crate::llvm::*;
use crate::mem::*;
use std::rc::Rc;

type R<T> = Result<T, Stop>;

/// Allocation sizes the input can push above this are reported as disproportionate.
pub const SYM_ALLOC_LIMIT: u64 = 1 << 24;
/// Symbolic sizes above this are not enumerated.
const ENUM_LIMIT: u64 = 1 << 16;

fn c(v: &Val) -> Option<u128> {
    match v {
        Val::C(c) => Some(*c),
        Val::U => Some(0),
        _ => None,
    }
}

/// One scalar (per-lane) unary/binary/ternary intrinsic.
fn scalar(g: &mut Engine, base: &str, w: u16, a: &[Val]) -> R<Option<Val>> {
    let two = |g: &mut Engine, pred: u8| -> Val {
        let k = g.cmp2(pred, w, &a[0], &a[1]);
        match c(&k) {
            Some(k) => a[if k != 0 { 0 } else { 1 }].clone(),
            None => {
                let k = g.e(&k, 1);
                let (x, y) = (g.e(&a[0], w), g.e(&a[1], w));
                let r = g.p.ite(k, x, y);
                g.nrm(r)
            }
        }
    };
    Ok(Some(match base {
        "umax" => two(g, 35),
        "umin" => two(g, 37),
        "smax" => two(g, 39),
        "smin" => two(g, 41),
        "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
            let (r, o) = ovf(g, &base[..4], w, &a[0], &a[1]);
            let mx = match base {
                "uadd.sat" => g.p.konst(w, mask(w)),
                "usub.sat" => g.p.konst(w, 0),
                _ => {
                    let x = g.e(&a[0], w);
                    let z = g.p.konst(w, 0);
                    let neg = g.p.bin(Op::Slt, x, z);
                    let lo = g.p.konst(w, 1u128 << (w - 1));
                    let hi = g.p.konst(w, mask(w) >> 1);
                    g.p.ite(neg, lo, hi)
                }
            };
            let r = g.e(&r, w);
            let o = g.e(&o, 1);
            let x = g.p.ite(o, mx, r);
            g.nrm(x)
        }
        "abs" => {
            let x = g.e(&a[0], w);
            let z = g.p.konst(w, 0);
            let neg = g.p.bin(Op::Slt, x, z);
            let m = g.p.bin(Op::Sub, z, x);
            let r = g.p.ite(neg, m, x);
            g.nrm(r)
        }
        "ctlz" | "cttz" => {
            let x = g.e(&a[0], w);
            let mut r = g.p.konst(w, w as u128);
            for i in 0..w {
                // later iterations take precedence
                let bit = if base == "ctlz" { i } else { w - 1 - i };
                let n = if base == "ctlz" { w - 1 - i } else { w - 1 - i };
                let b = g.p.extract(x, bit, 1);
                let k = g.p.konst(w, n as u128);
                r = g.p.ite(b, k, r);
            }
            g.nrm(r)
        }
        "ctpop" => {
            let x = g.e(&a[0], w);
            let mut r = g.p.konst(w, 0);
            for i in 0..w {
                let b = g.p.extract(x, i, 1);
                let b = g.p.zext(b, w);
                r = g.p.bin(Op::Add, r, b);
            }
            g.nrm(r)
        }
        "bswap" => {
            let x = g.e(&a[0], w);
            let n = w / 8;
            let mut r = g.p.extract(x, 0, 8);
            for i in 1..n {
                let b = g.p.extract(x, i * 8, 8);
                r = g.p.concat(r, b);
            }
            g.nrm(r)
        }
        "bitreverse" => {
            let x = g.e(&a[0], w);
            let mut r = g.p.extract(x, 0, 1);
            for i in 1..w {
                let b = g.p.extract(x, i, 1);
                r = g.p.concat(r, b);
            }
            g.nrm(r)
        }
        "fshl" | "fshr" => {
            let (x, y, s) = (g.e(&a[0], w), g.e(&a[1], w), g.e(&a[2], w));
            let k = g.p.konst(w, w as u128);
            let s = if w.is_power_of_two() {
                let m = g.p.konst(w, w as u128 - 1);
                g.p.bin(Op::And, s, m)
            } else {
                g.p.bin(Op::URem, s, k)
            };
            let i = g.p.bin(Op::Sub, k, s);
            // shift amounts of w yield 0, as needed
            let (l, r) = if base == "fshl" {
                (g.p.bin(Op::Shl, x, s), g.p.bin(Op::LShr, y, i))
            } else {
                (g.p.bin(Op::Shl, x, i), g.p.bin(Op::LShr, y, s))
            };
            let r = g.p.bin(Op::Or, l, r);
            g.nrm(r)
        }
        "fabs" => {
            let m = Val::C(mask(w) >> 1);
            g.bin2(Op::And, w, &a[0], &m)
        }
        "copysign" => {
            let m = Val::C(mask(w) >> 1);
            let s = Val::C(1u128 << (w - 1));
            let x = g.bin2(Op::And, w, &a[0], &m);
            let y = g.bin2(Op::And, w, &a[1], &s);
            g.bin2(Op::Or, w, &x, &y)
        }
        "floor" | "ceil" | "trunc" | "sqrt" | "roundeven" | "rint" => {
            let op = match base {
                "floor" => Op::FFloor,
                "ceil" => Op::FCeil,
                "trunc" => Op::FTrunc,
                "sqrt" => Op::FSqrt,
                _ => Op::FRoundEven,
            };
            match c(&a[0]) {
                Some(v) => Val::C(fp::fun(op, w, v)),
                None => {
                    let x = g.e(&a[0], w);
                    let r = match op {
                        Op::FFloor | Op::FCeil | Op::FTrunc => fp::round(&mut g.p, op, x),
                        _ => fp::mk_fun(&mut g.p, op, x, w),
                    };
                    g.nrm(r)
                }
            }
        }
        "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
            let (x, y) = (g.e(&a[0], w), g.e(&a[1], w));
            let lt = fp::fcmp(&mut g.p, 4, x, y);
            let (p, q) = if base.starts_with("min") { (x, y) } else { (y, x) };
            let r = g.p.ite(lt, p, q);
            let nx = fp::is_nan(&mut g.p, x);
            let ny = fp::is_nan(&mut g.p, y);
            let r = g.p.ite(nx, y, r);
            let r = g.p.ite(ny, x, r);
            g.nrm(r)
        }
        _ => return Ok(None),
    }))
}

/// result and overflow flag; kind is uadd/usub/umul/sadd/ssub/smul
fn ovf(g: &mut Engine, kind: &str, w: u16, a: &Val, b: &Val) -> (Val, Val) {
    let x = g.e(a, w);
    let y = g.e(b, w);
    match kind {
        "uadd" => {
            let r = g.p.bin(Op::Add, x, y);
            let o = match (g.p.cval(x), g.p.cval(y)) {
                (_, Some(k)) => {
                    let m = g.p.konst(w, mask(w) - k);
                    g.p.bin(Op::Ult, m, x)
                }
                (Some(k), _) => {
                    let m = g.p.konst(w, mask(w) - k);
                    g.p.bin(Op::Ult, m, y)
                }
                _ => g.p.bin(Op::Ult, r, x),
            };
            (g.nrm(r), g.nrm(o))
        }
        "usub" => {
            let r = g.p.bin(Op::Sub, x, y);
            let o = g.p.bin(Op::Ult, x, y);
            (g.nrm(r), g.nrm(o))
        }
        "sadd" | "ssub" => {
            let op = if kind == "sadd" { Op::Add } else { Op::Sub };
            let r = g.p.bin(op, x, y);
            let sx = g.p.extract(x, w - 1, 1);
            let sy = g.p.extract(y, w - 1, 1);
            let sr = g.p.extract(r, w - 1, 1);
            let e = g.p.eq(sx, sy);
            let same = if kind == "sadd" { e } else { g.p.not(e) };
            let d = g.p.eq(sx, sr);
            let d = g.p.not(d);
            let o = g.p.and(same, d);
            (g.nrm(r), g.nrm(o))
        }
        "umul" => {
            let r = g.p.bin(Op::Mul, x, y);
            let (v, k) = match (g.p.cval(x), g.p.cval(y)) {
                (_, Some(k)) => (x, Some(k)),
                (Some(k), _) => (y, Some(k)),
                _ => (x, None),
            };
            let o = match k {
                Some(0) => g.p.fls(),
                Some(k) => {
                    let m = g.p.konst(w, mask(w) / k);
                    g.p.bin(Op::Ult, m, v)
                }
                None if w <= 128 && g.p.range(x).1.checked_mul(g.p.range(y).1).is_some_and(|h| h <= mask(w)) => g.p.fls(),
                None => {
                    let (x2, y2) = (g.p.zext(x, 2 * w), g.p.zext(y, 2 * w));
                    let f = g.p.bin(Op::Mul, x2, y2);
                    let h = g.p.extract(f, w, w);
                    let z = g.p.eqc(h, 0);
                    g.p.not(z)
                }
            };
            (g.nrm(r), g.nrm(o))
        }
        _ => {
            let r = g.p.bin(Op::Mul, x, y);
            let (v, k) = match (g.p.cval(x), g.p.cval(y)) {
                (_, Some(k)) => (x, Some(k)),
                (Some(k), _) => (y, Some(k)),
                _ => (x, None),
            };
            let mx = (mask(w) >> 1) as i128;
            let mn = -mx - 1;
            let o = match k.map(|k| sext(k, w)) {
                Some(0) | Some(1) => g.p.fls(),
                Some(-1) => g.p.eqc(v, 1u128 << (w - 1)),
                Some(k) => {
                    let (hi, lo) = if k > 0 { (mx / k, mn / k) } else { (mn / k, mx / k) };
                    let hi = g.p.konst(w, hi as u128 & mask(w));
                    let lo = g.p.konst(w, lo as u128 & mask(w));
                    let a = g.p.bin(Op::Slt, hi, v);
                    let b = g.p.bin(Op::Slt, v, lo);
                    g.p.or(a, b)
                }
                None if g.p.swidth(x) + g.p.swidth(y) <= w => g.p.fls(),
                None => {
                    let (x2, y2) = (g.p.sext(x, 2 * w), g.p.sext(y, 2 * w));
                    let f = g.p.bin(Op::Mul, x2, y2);
                    let lo = g.p.extract(f, 0, w);
                    let s = g.p.sext(lo, 2 * w);
                    let e = g.p.eq(s, f);
                    g.p.not(e)
                }
            };
            (g.nrm(r), g.nrm(o))
        }
    }
}

/// (base name without type suffix)
fn base_of(n: &str) -> &str {
    for (i, _) in n.match_indices('.') {
        let t = &n[i + 1..];
        let b = t.as_bytes();
        let isty = (b.len() >= 2 && (b[0] == b'i' || b[0] == b'f' || b[0] == b'p' || b[0] == b'v') && b[1].is_ascii_digit())
            || t == "p0";
        if isty {
            return &n[..i];
        }
    }
    n
}

pub fn intrinsic(g: &mut Engine, st: &mut State, n: &Rc<str>, args: &[Opnd], rty: TyId) -> R<Val> {
    let base = base_of(n);
    let (w, lanes) = g.tywn(rty);
    match base {
        "threadlocal.address" | "expect" | "expect.with.probability" | "launder.invariant.group" | "ssa.copy"
        | "arithmetic.fence" | "freeze" => return Ok(g.arg(st, args[0])),
        "ptrmask" => {
            let (a, b) = (g.arg(st, args[0]), g.arg(st, args[1]));
            return Ok(g.bin2(Op::And, 64, &a, &b));
        }
        "is.constant" => return Ok(Val::C(0)),
        "objectsize" => return Ok(Val::C(u64::MAX as u128)),
        "trap" | "ubsantrap" | "debugtrap" => {
            let s = g.stack(st);
            return g.violate(st, "abort", s);
        }
        "x86.sse2.pause" | "x86.xgetbv" => return Ok(Val::C(0)),
        "x86.sse2.pmovmskb.128" => {
            let v = g.arg(st, args[0]);
            let l = g.lanes2(&v, 16);
            let mut acc: Option<E> = None;
            for x in &l {
                let x = g.e(x, 8);
                let b = g.p.extract(x, 7, 1);
                acc = Some(match acc {
                    None => b,
                    Some(a) => g.p.concat(b, a),
                });
            }
            let r = g.p.zext(acc.unwrap(), w);
            return Ok(g.nrm(r));
        }
        "ucmp" | "scmp" => {
            // operand width is the second suffix
            let ow: u16 = n.rsplit(".i").next().and_then(|x| x.parse().ok()).unwrap_or(64);
            let (a, b) = (g.arg(st, args[0]), g.arg(st, args[1]));
            let lt = g.cmp2(if base == "ucmp" { 36 } else { 40 }, ow, &a, &b);
            let eq = g.cmp2(32, ow, &a, &b);
            let (lt, eq) = (g.e(&lt, 1), g.e(&eq, 1));
            let m1 = g.p.konst(w, mask(w));
            let z = g.p.konst(w, 0);
            let o = g.p.konst(w, 1);
            let r = g.p.ite(eq, z, o);
            let r = g.p.ite(lt, m1, r);
            return Ok(g.nrm(r));
        }
        "fptoui.sat" | "fptosi.sat" => {
            let a = g.arg(st, args[0]);
            let fw: u16 = if n.ends_with("f32") { 32 } else { 64 };
            let sgn = base == "fptosi.sat";
            return Ok(match c(&a) {
                Some(v) => Val::C(fp::fcvt(if sgn { Op::FToS } else { Op::FToU }, fw, w, v)),
                None => {
                    let e = g.e(&a, fw);
                    let r = fp::to_int_sat(&mut g.p, e, w, sgn);
                    g.nrm(r)
                }
            });
        }
        "fmuladd" | "fma" => {
            let (a, b, d) = (g.arg(st, args[0]), g.arg(st, args[1]), g.arg(st, args[2]));
            if base == "fma" {
                return match (c(&a), c(&b), c(&d)) {
                    (Some(a), Some(b), Some(d)) => Ok(Val::C(if w == 64 {
                        f64::from_bits(a as u64).mul_add(f64::from_bits(b as u64), f64::from_bits(d as u64)).to_bits() as u128
                    } else {
                        f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(d as u32)).to_bits() as u128
                    })),
                    _ => Err(Stop::Error("symbolic fma".into())),
                };
            }
            let m = g.bin2(Op::FMul, w, &a, &b);
            return Ok(g.bin2(Op::FAdd, w, &m, &d));
        }
        _ => {}
    }
    if let Some(k) = base.strip_suffix(".with.overflow") {
        let (a, b) = (g.arg(st, args[0]), g.arg(st, args[1]));
        let (r, o) = ovf(g, k, w, &a, &b);
        return Ok(Val::A(Rc::new(vec![r, o])));
    }
    if let Some(k) = base.strip_prefix("vector.reduce.") {
        let a = g.arg(st, args[0]);
        // operand lanes and width from the suffix .vNiW
        let suf = &n[base.len() + 1..];
        let mut it = suf[1..].split('i');
        let (ln, lw): (u32, u16) = match (it.next().and_then(|x| x.parse().ok()), it.next().and_then(|x| x.parse().ok())) {
            (Some(a), Some(b)) => (a, b),
            _ => return Err(Stop::Error(format!("intrinsic {n}"))),
        };
        let l = g.lanes2(&a, ln);
        let mut acc = l[0].clone();
        for x in &l[1..] {
            acc = match k {
                "add" => g.bin2(Op::Add, lw, &acc, x),
                "mul" => g.bin2(Op::Mul, lw, &acc, x),
                "and" => g.bin2(Op::And, lw, &acc, x),
                "or" => g.bin2(Op::Or, lw, &acc, x),
                "xor" => g.bin2(Op::Xor, lw, &acc, x),
                "umax" | "umin" | "smax" | "smin" => scalar(g, k, lw, &[acc, x.clone()])?.unwrap(),
                _ => return Err(Stop::Error(format!("intrinsic {n}"))),
            };
        }
        return Ok(acc);
    }
    let mut a = vec![];
    for o in args.iter() {
        a.push(g.arg(st, *o));
    }
    if lanes == 0 {
        if let Some(v) = scalar(g, base, w, &a)? {
            return Ok(v);
        }
    } else {
        let ls: Vec<Vec<Val>> = a
            .iter()
            .map(|v| match v {
                Val::A(_) => g.lanes2(v, lanes),
                v => vec![v.clone(); lanes as usize],
            })
            .collect();
        let mut out = vec![];
        let mut ok = true;
        for i in 0..lanes as usize {
            let x: Vec<Val> = ls.iter().map(|l| l[i].clone()).collect();
            match scalar(g, base, w, &x)? {
                Some(v) => out.push(v),
                None => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            return Ok(Val::A(Rc::new(out)));
        }
    }
    Err(Stop::Error(format!("intrinsic llvm.{n}")))
}

fn alloc_size(g: &mut Engine, st: &mut State, v: Val, sat: Option<u64>) -> R<u64> {
    let _ = sat;
    match c(&v) {
        Some(n) => {
            let n = n as u64;
            if n > 1 << 28 {
                let s = g.stack(st);
                return g.violate(st, "alloc", format!("allocation request of {n} bytes in {s}"));
            }
            Ok(n)
        }
        None => {
            let e = g.e(&v, 64);
            let k = g.p.konst(64, SYM_ALLOC_LIMIT as u128);
            let big = g.p.bin(Op::Ult, k, e);
            if g.dec(st, big)? {
                let s = g.stack(st);
                return g.violate(st, "alloc", format!("input-controlled allocation request above {SYM_ALLOC_LIMIT} bytes in {s}"));
            }
            let k = g.p.konst(64, ENUM_LIMIT as u128);
            let big = g.p.bin(Op::Ult, k, e);
            if g.dec(st, big)? {
                return Err(Stop::Error("symbolic allocation size above 64 KiB".into()));
            }
            Err(Stop::Enum(e))
        }
    }
}

fn free(g: &mut Engine, st: &mut State, p: u64) -> R<()> {
    if p == 0 {
        return Ok(());
    }
    let id = p >> 32;
    match st.mem.get(id) {
        Some(o) if o.kind == Kind::Heap && p == obj_base(id) => {
            st.mem.set(id, None);
            Ok(())
        }
        _ => {
            let s = g.stack(st);
            g.violate(st, "memory", format!("invalid free in {s}"))
        }
    }
}

pub fn external(g: &mut Engine, st: &mut State, name: &str, args: &[Opnd], _rty: TyId) -> R<Val> {
    match name {
        "malloc" | "__rust_alloc" | "__rust_alloc_zeroed" => {
            let v = g.arg(st, args[0]);
            let n = alloc_size(g, st, v, None)?;
            Ok(Val::C(g.do_malloc(st, n) as u128))
        }
        "calloc" => {
            let (a, b) = (g.arg(st, args[0]), g.arg(st, args[1]));
            let v = g.bin2(Op::Mul, 64, &a, &b);
            let n = alloc_size(g, st, v, None)?;
            Ok(Val::C(g.do_malloc(st, n) as u128))
        }
        "aligned_alloc" => {
            let v = g.arg(st, args[1]);
            let n = alloc_size(g, st, v, None)?;
            Ok(Val::C(g.do_malloc(st, n) as u128))
        }
        "posix_memalign" => {
            let v = g.arg(st, args[2]);
            let n = alloc_size(g, st, v, None)?;
            let p = g.argc(st, args[0])? as u64;
            let a = g.do_malloc(st, n);
            g.put(st, p, 8, &Val::C(a as u128))?;
            Ok(Val::C(0))
        }
        "realloc" => {
            let v = g.arg(st, args[1]);
            let p = g.argc(st, args[0])? as u64;
            let n = alloc_size(g, st, v, None)?;
            let q = g.do_malloc(st, n);
            if p != 0 {
                let old = match st.mem.get(p >> 32) {
                    Some(o) if o.kind == Kind::Heap && p == obj_base(p >> 32) => o.size,
                    _ => return g.violate(st, "memory", "invalid realloc".into()),
                };
                g.do_memcpy(st, q, p, old.min(n))?;
                free(g, st, p)?;
            }
            Ok(Val::C(q as u128))
        }
        "free" => {
            let p = g.argc(st, args[0])? as u64;
            free(g, st, p)?;
            Ok(Val::U)
        }
        "bcmp" | "memcmp" => {
            let n = g.argc(st, args[2])? as u64;
            if n == 0 {
                return Ok(Val::C(0));
            }
            let (a, b) = (g.argc(st, args[0])? as u64, g.argc(st, args[1])? as u64);
            g.loc(st, a, n, false)?;
            g.loc(st, b, n, false)?;
            if name == "bcmp" {
                let mut acc = g.p.tru();
                let mut i = 0;
                while i < n {
                    let mut k = 16u64;
                    while k > n - i {
                        k /= 2;
                    }
                    let x = g.wide(st, a + i, k as usize)?;
                    let y = g.wide(st, b + i, k as usize)?;
                    let q = g.cmp2(32, k as u16 * 8, &x, &y);
                    let q = g.e(&q, 1);
                    acc = g.p.and(acc, q);
                    i += k;
                }
                let ne = g.p.not(acc);
                let r = g.p.zext(ne, 32);
                return Ok(g.nrm(r));
            }
            let mut r = g.p.konst(32, 0);
            for i in (0..n).rev() {
                let x = g.byte(st, a + i)?;
                let y = g.byte(st, b + i)?;
                let (x, y) = (g.e(&x, 8), g.e(&y, 8));
                let eq = g.p.eq(x, y);
                let lt = g.p.bin(Op::Ult, x, y);
                let m1 = g.p.konst(32, 0xffff_ffff);
                let p1 = g.p.konst(32, 1);
                let d = g.p.ite(lt, m1, p1);
                r = g.p.ite(eq, r, d);
            }
            Ok(g.nrm(r))
        }
        "strlen" => {
            let a = g.argc(st, args[0])? as u64;
            let mut i = 0;
            loop {
                let v = g.byte(st, a + i)?;
                let x = g.e(&v, 8);
                let z = g.p.eqc(x, 0);
                if g.dec(st, z)? {
                    return Ok(Val::C(i as u128));
                }
                i += 1;
            }
        }
        "write" => g.argc(st, args[2]).map(Val::C),
        "getenv" => Ok(Val::C(0)),
        "getauxval" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "__cxa_thread_atexit_impl"
        | "sigaction" | "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Ok(Val::C(0)),
        "pthread_self" | "gettid" | "getpid" => Ok(Val::C(1)),
        "pthread_getspecific" => Ok(Val::C(0)),
        "sysconf" => Ok(Val::C(4096)),
        "__errno_location" => {
            if st.errno == 0 {
                st.errno = g.do_malloc(st, 8) as u64;
            }
            Ok(Val::C(st.errno as u128))
        }
        "getrandom" => g.argc(st, args[1]).map(Val::C),
        "syscall" => {
            // getrandom(buf, len, flags): zero bytes; futex: no waiting
            let nr = g.argc(st, args[0])?;
            match nr {
                318 => g.argc(st, args[2]).map(Val::C),
                202 => Ok(Val::C(0)),
                _ => Err(Stop::Error(format!("syscall {nr}"))),
            }
        }
        "clock_gettime" => {
            let p = g.argc(st, args[1])? as u64;
            g.put(st, p, 8, &Val::C(1_700_000_000))?;
            g.put(st, p + 8, 8, &Val::C(0))?;
            Ok(Val::C(0))
        }
        "exit" | "_exit" => Err(Stop::Done),
        _ => Err(Stop::Error(format!("external function {name}"))),
    }
}
