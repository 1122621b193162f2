//! Hash-consed bit-vector expressions with on-the-fly simplification,
//! known-bits and unsigned-interval information, and input-variable support.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a: high, b: low
    Extract, // a, offset b
    ZExt,
    SExt,
    // floating point on IEEE bit patterns (width 32/64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRoundEven,
    FCvt,    // between widths
    FFromU,  // int -> float, c unused
    FFromS,
    FToU, // float -> int (truncating; out of range unspecified)
    FToS,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy)]
struct Info {
    kz: u128,
    ko: u128,
    lo: u128,
    hi: u128,
    sup: u32,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    info: Vec<Info>,
    consts: Vec<u128>,
    cmap: FxMap<(u16, u128), E>,
    map: FxMap<Node, E>,
    sups: Vec<Rc<[u32]>>,
    supmap: HashMap<Rc<[u32]>, u32>,
    supjoin: FxMap<(u32, u32), u32>,
    pub var_w: Vec<u16>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold_bin(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (sx, sy) = (sext(x, w), sext(y, w));
            if sy == 0 {
                if sx < 0 {
                    1
                } else {
                    m
                }
            } else {
                (sx.wrapping_div(sy) as u128) & m
            }
        }
        Op::SRem => {
            let (sx, sy) = (sext(x, w), sext(y, w));
            if sy == 0 {
                x
            } else {
                (sx.wrapping_rem(sy) as u128) & m
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext(x, w);
            let sh = if y >= w as u128 { 127 } else { y as u32 };
            ((s >> sh) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => return Some(crate::fp::fbin(op, w, x, y)),
        _ => return None,
    })
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: Vec::new(),
            info: Vec::new(),
            consts: Vec::new(),
            cmap: Default::default(),
            map: Default::default(),
            sups: vec![],
            supmap: HashMap::new(),
            supjoin: Default::default(),
            var_w: vec![],
        };
        let empty: Rc<[u32]> = Rc::from(vec![]);
        p.sups.push(empty.clone());
        p.supmap.insert(empty, 0);
        p
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn support(&self, e: E) -> Rc<[u32]> {
        self.sups[self.info[e as usize].sup as usize].clone()
    }
    pub fn sup_id(&self, e: E) -> u32 {
        self.info[e as usize].sup
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        let i = &self.info[e as usize];
        (i.lo, i.hi)
    }
    pub fn known(&self, e: E) -> (u128, u128) {
        let i = &self.info[e as usize];
        (i.kz, i.ko)
    }
    pub fn trailing_zeros(&self, e: E) -> u32 {
        (!self.info[e as usize].kz).trailing_zeros()
    }
    fn sup_intern(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(v);
        if let Some(x) = self.supmap.get(&r) {
            return *x;
        }
        let id = self.sups.len() as u32;
        self.sups.push(r.clone());
        self.supmap.insert(r, id);
        id
    }
    fn sup_join(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(x) = self.supjoin.get(&k) {
            return *x;
        }
        let (sa, sb) = (self.sups[a as usize].clone(), self.sups[b as usize].clone());
        let mut v = Vec::with_capacity(sa.len() + sb.len());
        let (mut i, mut j) = (0, 0);
        while i < sa.len() || j < sb.len() {
            if j >= sb.len() || (i < sa.len() && sa[i] < sb[j]) {
                v.push(sa[i]);
                i += 1
            } else if i >= sa.len() || sb[j] < sa[i] {
                v.push(sb[j]);
                j += 1
            } else {
                v.push(sa[i]);
                i += 1;
                j += 1
            }
        }
        let id = self.sup_intern(v);
        self.supjoin.insert(k, id);
        id
    }

    /// Constant of width ≤ 128.
    pub fn konst(&mut self, w: u16, v: u128) -> E {
        if w > 128 {
            let lo = self.konst(128, v);
            let hi = self.konst_any(w - 128, 0);
            return self.concat_raw(hi, lo);
        }
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(w, v)) {
            return *e;
        }
        let id = self.nodes.len() as E;
        self.consts.push(v);
        self.nodes.push(Node { op: Op::Const, w, a: (self.consts.len() - 1) as u32, b: 0, c: 0 });
        self.info.push(Info { kz: !v & mask(w), ko: v, lo: v, hi: v, sup: 0 });
        self.cmap.insert((w, v), id);
        id
    }
    fn konst_any(&mut self, w: u16, v: u128) -> E {
        self.konst(w, v)
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.konst(1, 0)
    }
    pub fn var(&mut self, w: u16) -> (E, u32) {
        let id = self.var_w.len() as u32;
        self.var_w.push(w);
        let e = self.mk_var(id);
        (e, id)
    }
    pub fn mk_var(&mut self, id: u32) -> E {
        let w = self.var_w[id as usize];
        self.mk(Node { op: Op::Var, w, a: id, b: 0, c: 0 })
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let info = self.compute_info(&n);
        if n.w <= 128 && info.lo == info.hi && n.op != Op::Var {
            return self.konst(n.w, info.lo);
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, id);
        id
    }
    fn compute_info(&mut self, n: &Node) -> Info {
        let m = mask(n.w);
        let mut i = Info { kz: 0, ko: 0, lo: 0, hi: m, sup: 0 };
        use Op::*;
        let nops = match n.op {
            Const => 0,
            Var => {
                i.sup = self.sup_intern(vec![n.a]);
                0
            }
            Not | Extract | ZExt | SExt | FSqrt | FFloor | FCeil | FTrunc | FRoundEven | FCvt | FFromU | FFromS
            | FToU | FToS => 1,
            Ite => 3,
            _ => 2,
        };
        if nops >= 1 {
            i.sup = self.info[n.a as usize].sup;
        }
        if nops >= 2 {
            let s = self.info[n.b as usize].sup;
            i.sup = self.sup_join(i.sup, s);
        }
        if nops >= 3 {
            let s = self.info[n.c as usize].sup;
            i.sup = self.sup_join(i.sup, s);
        }
        if n.w > 128 {
            return i;
        }
        let ia = if nops >= 1 { self.info[n.a as usize] } else { i };
        let aw = if nops >= 1 { self.w(n.a) } else { 0 };
        if aw > 128 {
            if n.op == Extract {
                // no info
            }
            return i;
        }
        let ib = if nops >= 2 { self.info[n.b as usize] } else { i };
        match n.op {
            Not => {
                i.kz = ia.ko;
                i.ko = ia.kz;
                i.lo = !ia.hi & m;
                i.hi = !ia.lo & m;
            }
            And => {
                i.kz = ia.kz | ib.kz;
                i.ko = ia.ko & ib.ko;
                i.hi = ia.hi.min(ib.hi);
            }
            Or => {
                i.kz = ia.kz & ib.kz;
                i.ko = ia.ko | ib.ko;
                i.lo = ia.lo.max(ib.lo);
            }
            Xor => {
                i.kz = (ia.kz & ib.kz) | (ia.ko & ib.ko);
                i.ko = (ia.kz & ib.ko) | (ia.ko & ib.kz);
            }
            Add => {
                if let Some(h) = ia.hi.checked_add(ib.hi) {
                    if h <= m {
                        i.lo = ia.lo + ib.lo;
                        i.hi = h;
                    } else if ia.lo.checked_add(ib.lo).map_or(true, |l| l > m) {
                        i.lo = ia.lo.wrapping_add(ib.lo) & m;
                        i.hi = h & m;
                    }
                } else if n.w == 128 && ia.lo.checked_add(ib.lo).is_none() {
                    i.lo = ia.lo.wrapping_add(ib.lo);
                    i.hi = ia.hi.wrapping_add(ib.hi);
                }
                let tz = (!ia.kz).trailing_zeros().min((!ib.kz).trailing_zeros());
                i.kz |= if tz >= 128 { u128::MAX } else { (1u128 << tz) - 1 } & m;
            }
            Sub => {
                if ia.hi == 0 && ib.lo > 0 {
                    i.lo = ib.hi.wrapping_neg() & m;
                    i.hi = ib.lo.wrapping_neg() & m;
                }
                if ia.lo >= ib.hi {
                    i.lo = ia.lo - ib.hi;
                    i.hi = ia.hi - ib.lo;
                }
                let tz = (!ia.kz).trailing_zeros().min((!ib.kz).trailing_zeros());
                i.kz |= if tz >= 128 { u128::MAX } else { (1u128 << tz) - 1 } & m;
            }
            Mul => {
                if let Some(h) = ia.hi.checked_mul(ib.hi) {
                    if h <= m {
                        i.lo = ia.lo * ib.lo;
                        i.hi = h;
                    }
                }
                let tz = ((!ia.kz).trailing_zeros() + (!ib.kz).trailing_zeros()).min(128);
                i.kz |= if tz >= 128 { u128::MAX } else { (1u128 << tz) - 1 } & m;
            }
            UDiv => {
                if ib.lo > 0 {
                    i.lo = ia.lo / ib.hi;
                    i.hi = ia.hi / ib.lo;
                }
            }
            URem => {
                i.hi = ia.hi;
                if ib.lo > 0 {
                    i.hi = i.hi.min(ib.hi - 1);
                    if ia.hi < ib.lo {
                        i.lo = ia.lo;
                    }
                }
            }
            LShr => {
                i.hi = ia.hi;
                if ib.lo < 128 {
                    i.hi = ia.hi >> ib.lo;
                }
            }
            Shl => {
                let tz = (!ia.kz).trailing_zeros().min(n.w as u32) as u128;
                let t = (tz + ib.lo.min(128)).min(128);
                i.kz |= if t >= 128 { u128::MAX } else { (1u128 << t) - 1 } & m;
                if ib.hi < 128 && ia.hi.leading_zeros() as u128 >= ib.hi && (ia.hi << ib.hi) <= m {
                    i.hi = ia.hi << ib.hi;
                    i.lo = ia.lo << ib.lo;
                }
            }
            Eq => {
                if ia.hi < ib.lo || ib.hi < ia.lo || (ia.kz & ib.ko) != 0 || (ia.ko & ib.kz) != 0 {
                    i.hi = 0;
                }
            }
            Ult => {
                if ia.hi < ib.lo {
                    i.lo = 1
                } else if ia.lo >= ib.hi {
                    i.hi = 0
                }
            }
            Ule => {
                if ia.hi <= ib.lo {
                    i.lo = 1
                } else if ia.lo > ib.hi {
                    i.hi = 0
                }
            }
            Slt | Sle => {
                let sb = 1u128 << (aw - 1);
                // comparable if both sign-definite
                let sg = |x: &Info| {
                    if x.hi < sb {
                        Some(false)
                    } else if x.lo >= sb {
                        Some(true)
                    } else {
                        None
                    }
                };
                match (sg(&ia), sg(&ib)) {
                    (Some(true), Some(false)) => i.lo = 1,
                    (Some(false), Some(true)) => i.hi = 0,
                    (Some(x), Some(y)) if x == y => {
                        if n.op == Slt {
                            if ia.hi < ib.lo {
                                i.lo = 1
                            } else if ia.lo >= ib.hi {
                                i.hi = 0
                            }
                        } else if ia.hi <= ib.lo {
                            i.lo = 1
                        } else if ia.lo > ib.hi {
                            i.hi = 0
                        }
                    }
                    _ => {}
                }
            }
            Ite => {
                let ic = self.info[n.c as usize];
                i.kz = ib.kz & ic.kz;
                i.ko = ib.ko & ic.ko;
                i.lo = ib.lo.min(ic.lo);
                i.hi = ib.hi.max(ic.hi);
            }
            Concat => {
                let k = self.w(n.b);
                i.kz = (ia.kz << k) | ib.kz;
                i.ko = (ia.ko << k) | ib.ko;
                i.lo = (ia.lo << k) | ib.lo;
                i.hi = (ia.hi << k) | ib.hi;
            }
            Extract => {
                i.kz = (ia.kz >> n.b) & m;
                i.ko = (ia.ko >> n.b) & m;
                if (ia.hi >> n.b) <= m {
                    i.lo = ia.lo >> n.b;
                    i.hi = ia.hi >> n.b;
                }
            }
            ZExt => {
                i.kz = ia.kz | (m & !mask(aw));
                i.ko = ia.ko;
                i.lo = ia.lo;
                i.hi = ia.hi;
            }
            SExt => {
                let sb = 1u128 << (aw - 1);
                let ext = m & !mask(aw);
                i.kz = ia.kz;
                i.ko = ia.ko;
                if ia.kz & sb != 0 {
                    i.kz |= ext
                }
                if ia.ko & sb != 0 {
                    i.ko |= ext
                }
                if ia.hi < sb {
                    i.lo = ia.lo;
                    i.hi = ia.hi;
                } else if ia.lo >= sb {
                    i.lo = ia.lo | ext;
                    i.hi = ia.hi | ext;
                }
            }
            _ => {}
        }
        // refine each from the other
        i.lo = i.lo.max(i.ko);
        i.hi = i.hi.min(!i.kz & m);
        if i.lo <= i.hi {
            // common leading bits of lo and hi are known
            let d = i.lo ^ i.hi;
            let k = if d == 0 { 0 } else { 128 - d.leading_zeros() };
            let hm = if k >= 128 { 0 } else { u128::MAX << k } & m;
            i.ko |= i.lo & hm;
            i.kz |= !i.lo & hm;
        } else {
            // contradictory only if unreachable; drop the info
            i.lo = 0;
            i.hi = m;
            i.kz = 0;
            i.ko = 0;
        }
        if (i.kz | i.ko) & m == m {
            i.lo = i.ko;
            i.hi = i.ko;
        }
        i
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        let w = n.w;
        if let Some(v) = self.cval(a) {
            return self.konst(w, !v);
        }
        match n.op {
            Op::Not => return n.a,
            Op::Ult if w == 1 => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule if w == 1 => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt if w == 1 => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle if w == 1 => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        self.mk(Node { op: Op::Not, w, a, b: 0, c: 0 })
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn eqc(&mut self, a: E, v: u128) -> E {
        let w = self.w(a);
        let k = self.konst(w, v);
        self.bin(Op::Eq, a, k)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(v) = self.cval(a) {
            if w <= 128 {
                return self.konst(w, v);
            }
        }
        let n = self.n(a);
        // the magnitude of a negative number
        if n.op == Op::Sub && w <= 128 && self.cval(n.a) == Some(0) && self.range(n.b).0 > 0 {
            let ones = self.konst(w - aw, mask(w - aw));
            let t = self.concat(ones, n.b);
            let z = self.konst(w, 0);
            return self.bin(Op::Sub, z, t);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if w > 128 {
            let hi = self.konst_any(w - aw, 0);
            return self.concat_raw(hi, a);
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            if w <= 128 {
                return self.konst(w, crate::expr::sext(v, aw) as u128);
            }
        }
        let (kz, _) = self.known(a);
        if aw <= 128 && kz >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: E, off: u16, w: u16) -> E {
        let n = self.n(a);
        if off == 0 && w == n.w {
            return a;
        }
        debug_assert!(off + w <= n.w);
        if let Some(v) = self.cval(a) {
            return self.konst(w, v >> off);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, off + n.b as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if off >= lw {
                    return self.extract(n.a, off - lw, w);
                }
                if off + w <= lw {
                    return self.extract(n.b, off, w);
                }
                let hi = self.extract(n.a, 0, off + w - lw);
                let lo = self.extract(n.b, off, lw - off);
                return self.concat(hi, lo);
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                if off >= aw {
                    return self.konst(w, 0);
                }
                if off + w <= aw {
                    return self.extract(n.a, off, w);
                }
                let x = self.extract(n.a, off, aw - off);
                return self.zext(x, w);
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if off + w <= aw {
                    return self.extract(n.a, off, w);
                }
                if off < aw {
                    let x = self.extract(n.a, off, aw - off);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, aw - 1, 1);
                return self.sext(x, w);
            }
            Op::Not => {
                let x = self.extract(n.a, off, w);
                return self.not(x);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, off, w);
                let y = self.extract(n.b, off, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if off == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, off, w);
                    let y = self.extract(n.c, off, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Mul => {
                if let Some(q) = self.reciprocal(n.a, n.b, n.w, off) {
                    return self.resize(q, w);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: off as u32, c: 0 })
    }
    fn mk_mul(&mut self, a: E, b: E) -> E {
        if self.cval(a).is_some() || self.cval(b).is_some() {
            return self.bin(Op::Mul, a, b);
        }
        let w = self.w(a);
        self.mk(Node { op: Op::Mul, w, a: a.min(b), b: a.max(b), c: 0 })
    }
    /// A constant, also if it is wider than 128 bits.
    fn ucval(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        match n.op {
            Op::Const => self.cval(e),
            Op::Concat if self.w(n.b) <= 128 && self.ucval(n.a) == Some(0) => self.cval(n.b),
            Op::ZExt => self.cval(n.a),
            _ => None,
        }
    }
    /// A width at which the term, taken as signed, is still exact.
    pub fn swidth(&self, e: E) -> u16 {
        self.swidth_d(e, 5)
    }
    fn swidth_d(&self, e: E, d: u32) -> u16 {
        let n = self.n(e);
        let w = n.w;
        if d > 0 {
            let two = |s: &Self| (s.swidth_d(n.a, d - 1), s.swidth_d(n.b, d - 1));
            let r = match n.op {
                Op::Add | Op::Sub => {
                    let (x, y) = two(self);
                    x.max(y) + 1
                }
                Op::Mul => {
                    let (x, y) = two(self);
                    x + y
                }
                _ => w,
            };
            if r < w {
                return r;
            }
        }
        if n.op == Op::SExt {
            return self.w(n.a).min(w);
        }
        if n.op == Op::Ite {
            return if d == 0 { w } else { self.swidth_d(n.b, d - 1).max(self.swidth_d(n.c, d - 1)) };
        }
        if w > 128 {
            return w;
        }
        let (lo, hi) = self.range(e);
        let (kz, ko) = self.known(e);
        let sb = 1u128 << (w - 1);
        let m = mask(w);
        if hi < sb {
            return (128 - hi.leading_zeros()) as u16 + 1;
        }
        if lo >= sb {
            return (128 - (!lo & m).leading_zeros()) as u16 + 1;
        }
        if kz & sb != 0 {
            return (128 - (!kz & m).leading_zeros()) as u16 + 1;
        }
        if ko & sb != 0 {
            return (128 - (!ko & m).leading_zeros()) as u16 + 1;
        }
        if n.op == Op::Concat {
            // leading copies of one bit
            let h = self.n(n.a);
            if h.op == Op::SExt && self.w(h.a) == 1 {
                return self.w(n.b) + 1;
            }
        }
        w
    }
    /// The term without extensions and truncations which do not change its value.
    fn peel(&self, e: E) -> E {
        self.peel_mod(e, u16::MAX)
    }
    /// Likewise, keeping only its value modulo 2^w.
    fn peel_mod(&self, mut e: E, w: u16) -> E {
        loop {
            let n = self.n(e);
            match n.op {
                Op::ZExt => e = n.a,
                Op::Concat if self.ucval(n.a) == Some(0) => e = n.b,
                Op::Extract if n.b == 0 && n.w >= w => e = n.a,
                Op::Extract if n.b == 0 && self.w(n.a) <= 128 && self.range(n.a).1 <= mask(n.w) => e = n.a,
                _ => return e,
            }
        }
    }
    fn resize(&mut self, e: E, w: u16) -> E {
        if self.w(e) >= w {
            self.extract(e, 0, w)
        } else {
            self.zext(e, w)
        }
    }
    /// (a * b) >> s as a division by a constant, where it is one.
    fn reciprocal(&mut self, a: E, b: E, w: u16, s: u16) -> Option<E> {
        let (x, k) = match (self.ucval(b), self.ucval(a)) {
            (Some(k), _) => (self.peel(a), k),
            (_, Some(k)) => (self.peel(b), k),
            _ => return None,
        };
        if self.w(x) > 128 || k == 0 || k.is_power_of_two() || s == 0 || s >= 255 {
            return None;
        }
        let hi = self.range(x).1;
        if hi < 2 {
            return None;
        }
        // no overflow
        let top = mul_full(hi, k);
        if w < 256 && top.shr(w) != W(0, 0) {
            return None;
        }
        // d = ceil(2^s / k)
        let pow = W(0, 1).shl(s);
        let d = div_ceil(pow, k)?;
        let e = mul_full(d, k);
        let e = wide_bin(Op::Sub, 256, e, pow);
        if e.0 != 0 {
            return None;
        }
        let f = mul_full(e.1, hi);
        if (f.0, f.1) >= (pow.0, pow.1) {
            return None;
        }
        if d > hi {
            return Some(self.konst(1, 0));
        }
        let xw = self.w(x);
        let dk = self.konst(xw, d);
        Some(self.bin(Op::UDiv, x, dk))
    }
    /// x - (x / d) * d as a remainder; `y` is the product, `neg` whether it is added.
    fn remainder(&mut self, x: E, y: E, neg: bool) -> Option<E> {
        let w = self.w(x);
        let n = self.n(y);
        if n.op != Op::Mul || w > 128 {
            return None;
        }
        let k = self.cval(n.b)?;
        let k = if neg { k.wrapping_neg() & mask(w) } else { k };
        let q = self.n(self.peel_mod(n.a, w));
        if q.op != Op::UDiv || self.cval(q.b) != Some(k) || k == 0 {
            return None;
        }
        let (p, r) = (self.peel(q.a), self.peel_mod(x, w));
        if p != r {
            return None;
        }
        let pw = self.w(p);
        if pw < 128 && k > mask(pw) {
            return None;
        }
        let dk = self.konst(pw, k);
        let m = self.bin(Op::URem, p, dk);
        Some(self.resize(m, w))
    }
    fn concat_raw(&mut self, hi: E, lo: E) -> E {
        let w = self.w(hi) + self.w(lo);
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
                return self.konst(w, (x << lw) | y);
            }
            if self.cval(hi) == Some(0) {
                return self.zext(lo, w);
            }
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        // low parts of sums and products were rewritten into narrower ones
        if nh.op == Op::Extract && nl.op != Op::Extract && nh.b as u16 >= lw {
            let off = nh.b as u16 - lw;
            if matches!(self.n(nh.a).op, Op::Add | Op::Sub | Op::Mul) && self.extract(nh.a, off, lw) == lo {
                return self.extract(nh.a, off, w);
            }
        }
        // adjacent extracts of one expression
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw as u32 {
            return self.extract(nh.a, nl.b as u16, w);
        }
        // hi = extract(x, lw..) and lo = x itself truncated etc.
        if nh.op == Op::ZExt {
            // concat(zext(x), lo) = zext(concat(x, lo))
            let x = self.concat(nh.a, lo);
            if w <= 128 {
                return self.zext(x, w);
            }
        }
        if nl.op == Op::Concat {
            // re-associate to the left so adjacent extracts can meet
            let t = self.concat(hi, nl.a);
            return self.concat(t, nl.b);
        }
        if nh.op == Op::Concat {
            // concat(concat(p, q), lo): try to merge q and lo
            let nq = self.n(nh.b);
            if nq.op == Op::Extract && nl.op == Op::Extract && nq.a == nl.a && nq.b == nl.b + lw as u32 {
                let m = self.extract(nq.a, nl.b as u16, nq.w + lw);
                return self.concat(nh.a, m);
            }
            if let (Some(x), Some(y)) = (self.cval(nh.b), self.cval(lo)) {
                if nq.w + lw <= 128 {
                    let m = self.konst(nq.w + lw, (x << lw) | y);
                    return self.concat_raw(nh.a, m);
                }
            }
        }
        self.concat_raw(hi, lo)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let cmp = matches!(op, Eq | Ult | Ule | Slt | Sle);
        let rw = if cmp { 1 } else { w };
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
                if let Some(r) = fold_bin(op, w, x, y) {
                    return self.konst(rw, r);
                }
            }
        }
        let comm = matches!(op, And | Or | Xor | Add | Mul | Eq);
        if comm {
            let swap = if self.cval(a).is_some() {
                true
            } else if self.cval(b).is_some() {
                false
            } else {
                a > b
            };
            if swap {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let m = mask(w);
        let ca = if w <= 128 { self.cval(a) } else { None };
        let cb = if w <= 128 { self.cval(b) } else { None };
        let (na, nb) = (self.n(a), self.n(b));
        match op {
            And => {
                if a == b {
                    return a;
                }
                if (na.op == Not && na.a == b) || (nb.op == Not && nb.a == a) {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if na.op == And {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(And, na.a, kk);
                        }
                    }
                    if na.op == Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
                        let x = self.bin(And, na.b, b);
                        let y = self.bin(And, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    let (kz, _) = self.known(a);
                    // mask keeps every possibly-set bit
                    if (!kz & m) & !k == 0 {
                        return a;
                    }
                    if w > 1 {
                        // contiguous mask → extract / shift form
                        let tz = k.trailing_zeros() as u16;
                        let kk = k >> tz;
                        if kk & (kk + 1).min(u128::MAX) == 0 || kk == u128::MAX {
                            let width = 128 - kk.leading_zeros() as u16;
                            if width < w {
                                let x = self.extract(a, tz, width);
                                let x = if tz > 0 {
                                    let z = self.konst(tz, 0);
                                    self.concat(x, z)
                                } else {
                                    x
                                };
                                return self.zext(x, w);
                            }
                        }
                    }
                }
                if w > 1 && na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    let x = self.bin(And, na.a, nb.a);
                    return self.zext(x, w);
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if w <= 128 && ((na.op == Not && na.a == b) || (nb.op == Not && nb.a == a)) {
                    return self.konst(w, m);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w > 1 && w <= 128 {
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Or, na.a, nb.a);
                        return self.zext(x, w);
                    }
                    // disjoint: one has k low zero bits, the other fits in k bits
                    for (x, y) in [(a, b), (b, a)] {
                        let (kzx, _) = self.known(x);
                        let (kzy, _) = self.known(y);
                        let tz = ((!kzx) & m).trailing_zeros() as u16;
                        let top = (!kzy) & m;
                        let yw = 128 - top.leading_zeros() as u16;
                        if tz > 0 && tz < w && yw <= tz && yw > 0 {
                            let h = self.extract(x, tz, w - tz);
                            let l = self.extract(y, 0, tz);
                            return self.concat(h, l);
                        }
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                    if na.op == Xor {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Xor, na.a, kk);
                        }
                    }
                }
                if w == 1 {
                    if na.op == Not {
                        let x = self.bin(Xor, na.a, b);
                        return self.not(x);
                    }
                    if nb.op == Not {
                        let x = self.bin(Xor, a, nb.a);
                        return self.not(x);
                    }
                }
            }
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if nb.op == Mul {
                    if let Some(r) = self.remainder(a, b, true) {
                        return r;
                    }
                }
                if na.op == Mul {
                    if let Some(r) = self.remainder(b, a, true) {
                        return r;
                    }
                }
                if let Some(k) = cb {
                    if na.op == Add {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Add, na.a, kk);
                        }
                    }
                    if na.op == Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(Add, na.b, b);
                        let y = self.bin(Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else {
                    // hoist constants outward: (x+c)+y → (x+y)+c
                    if na.op == Add && self.cval(na.b).is_some() {
                        let t = self.bin(Add, na.a, b);
                        return self.bin(Add, t, na.b);
                    }
                    if nb.op == Add && self.cval(nb.b).is_some() {
                        let t = self.bin(Add, a, nb.a);
                        return self.bin(Add, t, nb.b);
                    }
                    if na.op == Sub && na.b == b {
                        return na.a;
                    }
                    if nb.op == Sub && nb.b == a {
                        return nb.a;
                    }
                }
            }
            Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if let Some(k) = cb {
                    let kk = self.konst(w, k.wrapping_neg());
                    return self.bin(Add, a, kk);
                }
                if nb.op == Mul {
                    if let Some(r) = self.remainder(a, b, false) {
                        return r;
                    }
                }
                if na.op == Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.cval(na.b).is_some() {
                        let t = self.bin(Sub, na.a, b);
                        return self.bin(Add, t, na.b);
                    }
                }
                if nb.op == Add {
                    if nb.a == a {
                        let z = self.konst(w, 0);
                        return self.bin(Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.konst(w, 0);
                        return self.bin(Sub, z, nb.a);
                    }
                    if let Some(k) = self.cval(nb.b) {
                        let t = self.bin(Sub, a, nb.a);
                        let kk = self.konst(w, k.wrapping_neg());
                        return self.bin(Add, t, kk);
                    }
                }
                // 0 - (0 - x)
                if ca == Some(0) && nb.op == Sub && self.cval(nb.a) == Some(0) {
                    return nb.b;
                }
            }
            Mul => {
                if w == 1 {
                    return self.bin(And, a, b);
                }
                for (x, y) in [(na, b), (nb, a)] {
                    if x.op == Sub && self.cval(x.a) == Some(0) {
                        let t = self.bin(Mul, x.b, y);
                        return self.bin(Sub, x.a, t);
                    }
                    if x.op == Ite && w <= 128 {
                        let unit = |v: Option<u128>| v.is_some_and(|v| v <= 1 || v == m);
                        if unit(self.cval(x.b)) && unit(self.cval(x.c)) {
                            let p = self.bin(Mul, x.b, y);
                            let q = self.bin(Mul, x.c, y);
                            return self.ite(x.a, p, q);
                        }
                    }
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m && w <= 128 {
                        let z = self.konst(w, 0);
                        return self.bin(Sub, z, a);
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Shl, a, s);
                    }
                } else if w <= 128 {
                    let need = (256 - self.range(a).1.leading_zeros() - self.range(b).1.leading_zeros()) as u16;
                    if need < w && need > 0 {
                        let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                        let q = self.mk_mul(x, y);
                        return self.zext(q, w);
                    }
                    let need = self.swidth(a) + self.swidth(b);
                    if need < w {
                        let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                        let q = self.mk_mul(x, y);
                        return self.sext(q, w);
                    }
                }
                if let Some(k) = cb {
                    if na.op == Mul {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.konst(w, k.wrapping_mul(k2));
                            return self.bin(Mul, na.a, kk);
                        }
                    }
                }
            }
            UDiv => {
                if cb.is_none() && w <= 128 {
                    // division by zero is undefined in the program, whatever the width
                    let need = (128 - self.range(a).1.leading_zeros()).max(128 - self.range(b).1.leading_zeros()).max(1) as u16;
                    if need < w {
                        let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                        let q = self.bin(UDiv, x, y);
                        return self.zext(q, w);
                    }
                }
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(LShr, a, s);
                    }
                    let (lo, hi) = self.range(a);
                    if k != 0 && w <= 128 {
                        let (ql, qh) = (lo / k, hi / k);
                        if ql == qh {
                            return self.konst(w, ql);
                        }
                        if qh - ql == 1 {
                            let t = self.konst(w, qh * k);
                            let c = self.bin(Ult, a, t);
                            let (x, y) = (self.konst(w, ql), self.konst(w, qh));
                            return self.ite(c, x, y);
                        }
                    }
                    if na.op == UDiv && w <= 128 {
                        if let Some(k1) = self.cval(na.b) {
                            return match k1.checked_mul(k) {
                                Some(kk) if kk <= m => {
                                    let kk = self.konst(w, kk);
                                    self.bin(UDiv, na.a, kk)
                                }
                                _ if k1 != 0 && k != 0 => self.konst(w, 0),
                                _ => self.mk(Node { op, w: rw, a, b, c: 0 }),
                            };
                        }
                    }
                    // narrow the division
                    let need = (128 - hi.leading_zeros()).max(128 - k.leading_zeros()).max(1) as u16;
                    if need < w && k != 0 {
                        let x = self.extract(a, 0, need);
                        let y = self.konst(need, k);
                        let q = self.bin(UDiv, x, y);
                        return self.zext(q, w);
                    }
                }
            }
            URem => {
                if cb.is_none() && w <= 128 {
                    let need = (128 - self.range(a).1.leading_zeros()).max(128 - self.range(b).1.leading_zeros()).max(1) as u16;
                    if need < w {
                        let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                        let q = self.bin(URem, x, y);
                        return self.zext(q, w);
                    }
                }
                if let Some(k) = cb {
                    if k == 1 {
                        return self.konst(w, 0);
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(And, a, s);
                    }
                    let (lo, hi) = self.range(a);
                    if k != 0 && hi < k {
                        return a;
                    }
                    if na.op == URem && k != 0 {
                        if self.cval(na.b).is_some_and(|c| c != 0 && c % k == 0) {
                            return self.bin(URem, na.a, b);
                        }
                    }
                    if k != 0 && w <= 128 && hi / k - lo / k <= 1 {
                        let q = self.bin(UDiv, a, b);
                        let t = self.bin(Mul, q, b);
                        return self.bin(Sub, a, t);
                    }
                    let need = (128 - hi.leading_zeros()).max(128 - k.leading_zeros()).max(1) as u16;
                    if need < w && k != 0 {
                        let x = self.extract(a, 0, need);
                        let y = self.konst(need, k);
                        let q = self.bin(URem, x, y);
                        return self.zext(q, w);
                    }
                }
            }
            SDiv | SRem => {
                let need = self.swidth(a).max(self.swidth(b)) + 1;
                if need < w {
                    let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                    let q = self.bin(op, x, y);
                    return self.sext(q, w);
                }
                if w <= 128 {
                    let (kza, _) = self.known(a);
                    let (kzb, _) = self.known(b);
                    let s = w - 1;
                    if kza >> s & 1 == 1 && kzb >> s & 1 == 1 {
                        return self.bin(if op == SDiv { UDiv } else { URem }, a, b);
                    }
                }
            }
            Shl => {
                if let Some(k) = self.ucval(b) {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, 0, w - k);
                    let z = self.konst(k, 0);
                    return self.concat(x, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            LShr => {
                if let Some(k) = self.ucval(b) {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            AShr => {
                if let Some(k) = self.cval(b) {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b {
                    return self.tru();
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(k) = cb {
                    match na.op {
                        ZExt => {
                            let aw = self.w(na.a);
                            if k > mask(aw) {
                                return self.fls();
                            }
                            return self.eqc(na.a, k);
                        }
                        SExt => {
                            let aw = self.w(na.a);
                            if crate::expr::sext(k & mask(aw), aw) as u128 & m != k {
                                return self.fls();
                            }
                            return self.eqc(na.a, k & mask(aw));
                        }
                        Concat => {
                            let lw = self.w(na.b);
                            let x = self.eqc(na.a, k >> lw);
                            if self.cval(x) == Some(0) {
                                return x;
                            }
                            let y = self.eqc(na.b, k & mask(lw));
                            return self.and(x, y);
                        }
                        Add => {
                            if let Some(k2) = self.cval(na.b) {
                                return self.eqc(na.a, k.wrapping_sub(k2) & m);
                            }
                        }
                        Sub => {
                            if k == 0 {
                                return self.eq(na.a, na.b);
                            }
                            if let Some(k2) = self.cval(na.a) {
                                return self.eqc(na.b, k2.wrapping_sub(k) & m);
                            }
                        }
                        Xor => {
                            if let Some(k2) = self.cval(na.b) {
                                return self.eqc(na.a, k ^ k2);
                            }
                            if k == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        Not => return self.eqc(na.a, !k & m),
                        UDiv if w <= 128 && self.cval(na.b).is_some_and(|c| c != 0) => {
                            let c = self.cval(na.b).unwrap();
                            let Some(lo) = k.checked_mul(c).filter(|x| *x <= m) else { return self.fls() };
                            let l = self.konst(w, lo);
                            let x = self.bin(Ule, l, na.a);
                            return match lo.checked_add(c).filter(|x| *x <= m) {
                                Some(hi) => {
                                    let h = self.konst(w, hi);
                                    let y = self.bin(Ult, na.a, h);
                                    self.and(x, y)
                                }
                                None => x,
                            };
                        }
                        Ite => {
                            let (x, y) = (self.cval(na.b), self.cval(na.c));
                            if x.is_some() || y.is_some() {
                                let ex = self.eqc(na.b, k);
                                let ey = self.eqc(na.c, k);
                                return self.ite(na.a, ex, ey);
                            }
                        }
                        Or if k == 0 => {
                            let x = self.eqc(na.a, 0);
                            let y = self.eqc(na.b, 0);
                            return self.and(x, y);
                        }
                        _ => {}
                    }
                } else {
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.eq(na.a, nb.a);
                    }
                    if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
                        return self.eq(na.a, nb.a);
                    }
                    if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.eq(na.a, nb.a);
                        let y = self.eq(na.b, nb.b);
                        return self.and(x, y);
                    }
                    if na.op == Add && nb.op == Add && na.b == nb.b {
                        return self.eq(na.a, nb.a);
                    }
                    if na.op == Not && nb.op == Not {
                        return self.eq(na.a, nb.a);
                    }
                }
            }
            Ult | Ule => {
                if a == b {
                    return self.konst(1, (op == Ule) as u128);
                }
                if w == 1 {
                    let nae = self.not(a);
                    return if op == Ult { self.and(nae, b) } else { self.or(nae, b) };
                }
                if let Some(k) = cb {
                    if op == Ult && k == 0 {
                        return self.fls();
                    }
                    if op == Ule && k == m {
                        return self.tru();
                    }
                    if op == Ult && k == 1 {
                        return self.eqc(a, 0);
                    }
                    if op == Ule && k == 0 {
                        return self.eqc(a, 0);
                    }
                    // x < m  ⇔ x != m
                    if op == Ult && k == m {
                        let t = self.eqc(a, m);
                        return self.not(t);
                    }
                }
                if let Some(k) = ca {
                    if op == Ult && k == m {
                        return self.fls();
                    }
                    if op == Ule && k == 0 {
                        return self.tru();
                    }
                    if op == Ult && k == 0 {
                        let t = self.eqc(b, 0);
                        return self.not(t);
                    }
                    if op == Ule && k == m {
                        return self.eqc(b, m);
                    }
                    if op == Ule && k == 1 {
                        let t = self.eqc(b, 0);
                        return self.not(t);
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if let (ZExt, Some(k)) = (na.op, cb) {
                    let aw = self.w(na.a);
                    if k <= mask(aw) {
                        let kk = self.konst(aw, k);
                        return self.bin(op, na.a, kk);
                    }
                }
                if let (ZExt, Some(k)) = (nb.op, ca) {
                    let bw = self.w(nb.a);
                    if k <= mask(bw) {
                        let kk = self.konst(bw, k);
                        return self.bin(op, kk, nb.a);
                    }
                }
                // quotients by constants: compare the dividend instead
                if let (UDiv, Some(k)) = (na.op, cb) {
                    if let Some(c) = self.cval(na.b).filter(|c| *c != 0 && w <= 128) {
                        // x/c < k  <=>  x < k*c ;  x/c <= k  <=>  x < (k+1)*c
                        let k1 = if op == Ult { Some(k) } else { k.checked_add(1) };
                        return match k1.and_then(|x| x.checked_mul(c)) {
                            Some(t) if t <= m => {
                                let t = self.konst(w, t);
                                self.bin(Ult, na.a, t)
                            }
                            _ => self.tru(),
                        };
                    }
                }
                if let (UDiv, Some(_)) = (nb.op, ca) {
                    if self.cval(nb.b).is_some_and(|c| c != 0) && w <= 128 {
                        // k < x/c  <=>  !(x/c <= k)
                        let o = self.bin(if op == Ult { Ule } else { Ult }, b, a);
                        return self.not(o);
                    }
                }
                if let (Ite, Some(_)) = (na.op, cb) {
                    if self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                // (concat hi lo) compared with constant with zero low part
                if let (Concat, Some(k)) = (na.op, cb) {
                    let lw = self.w(na.b);
                    if op == Ult && k & mask(lw) == 0 {
                        let kk = self.konst(w - lw, k >> lw);
                        return self.bin(Ult, na.a, kk);
                    }
                    if op == Ule && k & mask(lw) == mask(lw) {
                        let kk = self.konst(w - lw, k >> lw);
                        return self.bin(Ule, na.a, kk);
                    }
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.konst(1, (op == Sle) as u128);
                }
                if w == 1 {
                    let nb_ = self.not(b);
                    return if op == Slt { self.and(a, nb_) } else { self.or(a, nb_) };
                }
                let (kza, koa) = self.known(a);
                let (kzb, kob) = self.known(b);
                let s = w - 1;
                let sa = if kza >> s & 1 == 1 { Some(false) } else if koa >> s & 1 == 1 { Some(true) } else { None };
                let sb = if kzb >> s & 1 == 1 { Some(false) } else if kob >> s & 1 == 1 { Some(true) } else { None };
                match (sa, sb) {
                    (Some(x), Some(y)) if x == y => {
                        return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                    }
                    _ => {}
                }
                // sign test: x < 0 / x > -1
                if op == Slt && cb == Some(0) {
                    return self.extract(a, s, 1);
                }
                if op == Sle && cb == Some(m) {
                    return self.extract(a, s, 1);
                }
                if (op == Slt && ca == Some(m)) || (op == Sle && ca == Some(0)) {
                    let t = self.extract(b, s, 1);
                    return self.not(t);
                }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0 })
    }
    pub fn un(&mut self, op: Op, a: E, w: u16) -> E {
        self.mk(Node { op, w, a, b: 0, c: 0 })
    }

    /// Evaluate under an assignment of the variables (absent = 0).
    pub fn eval(&self, e: E, model: &Model, memo: &mut FxMap<E, W>) -> W {
        // iterative post-order to keep the native stack small
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            use Op::*;
            let ops: &[E] = match n.op {
                Const | Var => &[],
                Not | Extract | ZExt | SExt | FSqrt | FFloor | FCeil | FTrunc | FRoundEven | FCvt | FFromU
                | FFromS | FToU | FToS => &[n.a],
                Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for o in ops {
                if !memo.contains_key(o) {
                    stack.push(*o);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |o: E| memo[&o];
            let aw = if ops.is_empty() { 0 } else { self.w(n.a) };
            let r: W = match n.op {
                Const => W(0, self.consts[n.a as usize]),
                Var => W(0, model.get(n.a)),
                Ite => {
                    if g(n.a).1 != 0 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                Concat => g(n.a).shl(self.w(n.b)).or(g(n.b)),
                Extract => g(n.a).shr(n.b as u16).trunc(n.w),
                ZExt => g(n.a),
                SExt => {
                    if n.w <= 128 {
                        W(0, sext(g(n.a).1, aw) as u128 & mask(n.w))
                    } else {
                        let s = sext(g(n.a).1, aw);
                        W(if s < 0 { mask(n.w - 128) } else { 0 }, s as u128)
                    }
                }
                Not => {
                    let v = g(n.a);
                    W(!v.0, !v.1).trunc(n.w)
                }
                And => W(g(n.a).0 & g(n.b).0, g(n.a).1 & g(n.b).1),
                Or => W(g(n.a).0 | g(n.b).0, g(n.a).1 | g(n.b).1),
                Xor => W(g(n.a).0 ^ g(n.b).0, g(n.a).1 ^ g(n.b).1),
                Eq => W(0, (g(n.a) == g(n.b)) as u128),
                FSqrt | FFloor | FCeil | FTrunc | FRoundEven => W(0, crate::fp::fun(n.op, n.w, g(n.a).1)),
                FCvt | FFromU | FFromS | FToU | FToS => W(0, crate::fp::fcvt(n.op, aw, n.w, g(n.a).1)),
                op => {
                    if aw > 128 {
                        // wide arithmetic: add, sub, shifts, compares
                        wide_bin(op, aw, g(n.a), g(n.b))
                    } else {
                        W(0, fold_bin(op, aw, g(n.a).1, g(n.b).1).expect("eval op"))
                    }
                }
            };
            memo.insert(x, r);
            stack.pop();
        }
        memo[&e]
    }
    pub fn eval1(&self, e: E, model: &Model) -> u128 {
        if let Some(v) = self.cval(e) {
            return v;
        }
        let mut memo = FxMap::default();
        self.eval(e, model, &mut memo).1
    }

    /// Rewrite an expression under a substitution of sub-expressions.
    pub fn subst(&mut self, e: E, map: &FxMap<E, E>, memo: &mut FxMap<E, E>) -> E {
        if self.info[e as usize].sup == 0 {
            return e;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            if let Some(r) = map.get(&x) {
                memo.insert(x, *r);
                stack.pop();
                continue;
            }
            let n = self.n(x);
            use Op::*;
            let ops: &[E] = match n.op {
                Const | Var => &[],
                Not | Extract | ZExt | SExt | FSqrt | FFloor | FCeil | FTrunc | FRoundEven | FCvt | FFromU
                | FFromS | FToU | FToS => &[n.a],
                Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for o in ops {
                if !memo.contains_key(o) {
                    stack.push(*o);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r = if ops.iter().all(|o| memo[o] == *o) {
                x
            } else {
                let ga = memo[&n.a];
                match n.op {
                    Const | Var => x,
                    Not => self.not(ga),
                    Extract => self.extract(ga, n.b as u16, n.w),
                    ZExt => self.zext(ga, n.w),
                    SExt => self.sext(ga, n.w),
                    Ite => {
                        let (gb, gc) = (memo[&n.b], memo[&n.c]);
                        self.ite(ga, gb, gc)
                    }
                    Concat => {
                        let gb = memo[&n.b];
                        self.concat(ga, gb)
                    }
                    FSqrt | FFloor | FCeil | FTrunc | FRoundEven | FCvt | FFromU | FFromS | FToU | FToS => {
                        crate::fp::mk_fun(self, n.op, ga, n.w)
                    }
                    op => {
                        let gb = memo[&n.b];
                        self.bin(op, ga, gb)
                    }
                }
            };
            // the result itself may be a substituted term
            let r = *map.get(&r).unwrap_or(&r);
            memo.insert(x, r);
            stack.pop();
        }
        memo[&e]
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        use Op::*;
        if n.op == Const {
            return format!("{}", self.consts[n.a as usize]);
        }
        if n.op == Var {
            return format!("v{}:{}", n.a, n.w);
        }
        if depth == 0 {
            return "…".into();
        }
        match n.op {
            Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.b, n.w),
            ZExt | SExt | Not => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Ite => format!(
                "(ite {} {} {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            FSqrt | FFloor | FCeil | FTrunc | FRoundEven | FCvt | FFromU | FFromS | FToU | FToS => {
                format!("({:?} {})", n.op, self.show(n.a, depth - 1))
            }
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

/// (high, low) 256-bit value
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct W(pub u128, pub u128);
impl W {
    pub fn shl(self, k: u16) -> W {
        if k == 0 {
            self
        } else if k < 128 {
            W((self.0 << k) | (self.1 >> (128 - k)), self.1 << k)
        } else if k == 128 {
            W(self.1, 0)
        } else if k < 256 {
            W(self.1 << (k - 128), 0)
        } else {
            W(0, 0)
        }
    }
    pub fn shr(self, k: u16) -> W {
        if k == 0 {
            self
        } else if k < 128 {
            W(self.0 >> k, (self.1 >> k) | (self.0 << (128 - k)))
        } else if k == 128 {
            W(0, self.0)
        } else if k < 256 {
            W(0, self.0 >> (k - 128))
        } else {
            W(0, 0)
        }
    }
    pub fn or(self, o: W) -> W {
        W(self.0 | o.0, self.1 | o.1)
    }
    pub fn trunc(self, w: u16) -> W {
        if w <= 128 {
            W(0, self.1 & mask(w))
        } else {
            W(self.0 & mask(w - 128), self.1)
        }
    }
}
/// ceil(a / k) if it fits
fn div_ceil(a: W, k: u128) -> Option<u128> {
    let (mut q, mut r) = (W(0, 0), 0u128);
    for i in (0..256u16).rev() {
        let c = r >> 127;
        r = r << 1 | (a.shr(i).1 & 1);
        q = q.shl(1);
        if c == 1 || r >= k {
            r = r.wrapping_sub(k);
            q.1 |= 1;
        }
    }
    if q.0 != 0 {
        return None;
    }
    if r == 0 {
        Some(q.1)
    } else {
        q.1.checked_add(1)
    }
}
fn mul_full(a: u128, b: u128) -> W {
    const L: u128 = u64::MAX as u128;
    let (a1, a0, b1, b0) = (a >> 64, a & L, b >> 64, b & L);
    let ll = a0 * b0;
    let (m, c1) = (a1 * b0).overflowing_add(a0 * b1);
    let (lo, c2) = ll.overflowing_add(m << 64);
    W((a1 * b1).wrapping_add(m >> 64).wrapping_add((c1 as u128) << 64).wrapping_add(c2 as u128), lo)
}
fn wide_bin(op: Op, w: u16, a: W, b: W) -> W {
    match op {
        Op::Mul => {
            let f = mul_full(a.1, b.1);
            let h = f.0.wrapping_add(a.0.wrapping_mul(b.1)).wrapping_add(a.1.wrapping_mul(b.0));
            W(h, f.1).trunc(w)
        }
        Op::Add => {
            let (lo, c) = a.1.overflowing_add(b.1);
            W(a.0.wrapping_add(b.0).wrapping_add(c as u128), lo).trunc(w)
        }
        Op::Sub => {
            let (lo, c) = a.1.overflowing_sub(b.1);
            W(a.0.wrapping_sub(b.0).wrapping_sub(c as u128), lo).trunc(w)
        }
        Op::Shl => a.shl(b.1.min(512) as u16).trunc(w),
        Op::LShr => a.shr(b.1.min(512) as u16),
        Op::Ult => W(0, ((a.0, a.1) < (b.0, b.1)) as u128),
        Op::Ule => W(0, ((a.0, a.1) <= (b.0, b.1)) as u128),
        _ => panic!("wide op {op:?}"),
    }
}

#[derive(Clone, Default, Debug)]
pub struct Model(pub Vec<u128>);
impl Model {
    pub fn get(&self, v: u32) -> u128 {
        self.0.get(v as usize).copied().unwrap_or(0)
    }
    pub fn set(&mut self, v: u32, x: u128) {
        if self.0.len() <= v as usize {
            self.0.resize(v as usize + 1, 0);
        }
        self.0[v as usize] = x;
    }
}
