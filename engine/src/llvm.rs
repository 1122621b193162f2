//! Loads an LLVM module through the LLVM-C API of the Rust toolchain's own
//! libLLVM and lowers it to the compact form the interpreter runs.
use crate::dl::Lib;
use crate::dlapi;
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_double, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;

type P = *mut c_void;
dlapi!(Llvm {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(*const c_char, *mut P, *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext(P, P, *mut P, *mut *mut c_char) -> c_int;
    fn LLVMGetModuleDataLayout(P) -> P;
    fn LLVMGetFirstFunction(P) -> P;
    fn LLVMGetNextFunction(P) -> P;
    fn LLVMGetFirstGlobal(P) -> P;
    fn LLVMGetNextGlobal(P) -> P;
    fn LLVMGetFirstGlobalAlias(P) -> P;
    fn LLVMGetNextGlobalAlias(P) -> P;
    fn LLVMAliasGetAliasee(P) -> P;
    fn LLVMGetInitializer(P) -> P;
    fn LLVMIsGlobalConstant(P) -> c_int;
    fn LLVMGetAlignment(P) -> c_uint;
    fn LLVMIsDeclaration(P) -> c_int;
    fn LLVMGetValueName2(P, *mut usize) -> *const c_char;
    fn LLVMCountParams(P) -> c_uint;
    fn LLVMGetParam(P, c_uint) -> P;
    fn LLVMGetFirstBasicBlock(P) -> P;
    fn LLVMGetNextBasicBlock(P) -> P;
    fn LLVMGetFirstInstruction(P) -> P;
    fn LLVMGetNextInstruction(P) -> P;
    fn LLVMGetInstructionOpcode(P) -> c_int;
    fn LLVMGetNumOperands(P) -> c_int;
    fn LLVMGetOperand(P, c_uint) -> P;
    fn LLVMTypeOf(P) -> P;
    fn LLVMGlobalGetValueType(P) -> P;
    fn LLVMGetTypeKind(P) -> c_int;
    fn LLVMGetIntTypeWidth(P) -> c_uint;
    fn LLVMGetElementType(P) -> P;
    fn LLVMGetArrayLength2(P) -> u64;
    fn LLVMGetVectorSize(P) -> c_uint;
    fn LLVMCountStructElementTypes(P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(P, c_uint) -> P;
    fn LLVMABISizeOfType(P, P) -> u64;
    fn LLVMStoreSizeOfType(P, P) -> u64;
    fn LLVMABIAlignmentOfType(P, P) -> c_uint;
    fn LLVMOffsetOfElement(P, P, c_uint) -> u64;
    fn LLVMGetICmpPredicate(P) -> c_int;
    fn LLVMGetFCmpPredicate(P) -> c_int;
    fn LLVMGetNumIndices(P) -> c_uint;
    fn LLVMGetIndices(P) -> *const c_uint;
    fn LLVMGetAllocatedType(P) -> P;
    fn LLVMGetGEPSourceElementType(P) -> P;
    fn LLVMGetConstOpcode(P) -> c_int;
    fn LLVMIsAConstant(P) -> P;
    fn LLVMIsAConstantInt(P) -> P;
    fn LLVMIsAConstantFP(P) -> P;
    fn LLVMIsAConstantPointerNull(P) -> P;
    fn LLVMIsAConstantAggregateZero(P) -> P;
    fn LLVMIsAConstantDataSequential(P) -> P;
    fn LLVMIsAConstantArray(P) -> P;
    fn LLVMIsAConstantStruct(P) -> P;
    fn LLVMIsAConstantVector(P) -> P;
    fn LLVMIsAConstantExpr(P) -> P;
    fn LLVMIsAUndefValue(P) -> P;
    fn LLVMIsAPoisonValue(P) -> P;
    fn LLVMIsAGlobalVariable(P) -> P;
    fn LLVMIsAFunction(P) -> P;
    fn LLVMIsAGlobalAlias(P) -> P;
    fn LLVMIsAInlineAsm(P) -> P;
    fn LLVMGetInlineAsmAsmString(P, *mut usize) -> *const c_char;
    fn LLVMConstIntGetZExtValue(P) -> u64;
    fn LLVMConstRealGetDouble(P, *mut c_int) -> c_double;
    fn LLVMGetAggregateElement(P, c_uint) -> P;
    fn LLVMGetAsString(P, *mut usize) -> *const c_char;
    fn LLVMPrintValueToString(P) -> *mut c_char;
    fn LLVMDisposeMessage(*mut c_char);
    fn LLVMGetCalledValue(P) -> P;
    fn LLVMGetNumArgOperands(P) -> c_uint;
    fn LLVMGetNumSuccessors(P) -> c_uint;
    fn LLVMGetSuccessor(P, c_uint) -> P;
    fn LLVMGetCondition(P) -> P;
    fn LLVMGetSwitchCaseValue(P, c_uint) -> P;
    fn LLVMGetNormalDest(P) -> P;
    fn LLVMCountIncoming(P) -> c_uint;
    fn LLVMGetIncomingValue(P, c_uint) -> P;
    fn LLVMGetIncomingBlock(P, c_uint) -> P;
    fn LLVMGetNumMaskElements(P) -> c_uint;
    fn LLVMGetMaskValue(P, c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(P) -> c_int;
    fn LLVMGetVersion(*mut c_uint, *mut c_uint, *mut c_uint);
});

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(E),
    A(Rc<Vec<Val>>),
    U,
}

pub type TyId = u32;
#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(TyId, u64),
    Vec(TyId, u64),
    Struct(Vec<(TyId, u64)>),
    Other(c_int),
}
#[derive(Clone, Debug)]
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub store: u64,
    pub align: u32,
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    R(u32),
    K(u32),
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Intr(Rc<str>, Intr),
    P(Opnd),
    Asm(Rc<str>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memset,
    Nop,
    Assume,
    Other,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, w: u16, n: u32, a: Opnd, b: Opnd, dst: u32 },
    FNeg { w: u16, n: u32, a: Opnd, dst: u32 },
    ICmp { pred: u8, w: u16, n: u32, a: Opnd, b: Opnd, dst: u32 },
    FCmp { pred: u8, w: u16, n: u32, a: Opnd, b: Opnd, dst: u32 },
    Cast { op: u8, fw: u16, tw: u16, n: u32, a: Opnd, dst: u32 },
    BitCast { fty: TyId, tty: TyId, a: Opnd, dst: u32 },
    Select { c: Opnd, a: Opnd, b: Opnd, n: u32, ty: TyId, dst: u32 },
    Load { ty: TyId, p: Opnd, dst: u32 },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { base: Opnd, off: i64, idx: Box<[(Opnd, i64, u16)]>, dst: u32 },
    Alloca { size: u64, align: u32, cnt: Opnd, dst: u32 },
    Call { callee: Callee, args: Box<[Opnd]>, dst: Option<u32>, rty: TyId, normal: Option<u32> },
    ExtractValue { a: Opnd, idx: Box<[u32]>, dst: u32 },
    InsertValue { a: Opnd, v: Opnd, idx: Box<[u32]>, dst: u32, ty: TyId },
    ExtractElem { a: Opnd, i: Opnd, dst: u32 },
    InsertElem { a: Opnd, v: Opnd, i: Opnd, n: u32, dst: u32 },
    Shuffle { a: Opnd, b: Opnd, n: u32, mask: Box<[i32]>, dst: u32 },
    AtomicRmw { op: u8, p: Opnd, v: Opnd, ty: TyId, dst: u32 },
    CmpXchg { p: Opnd, c: Opnd, v: Opnd, ty: TyId, dst: u32 },
    Copy { a: Opnd, dst: u32 },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { v: Opnd, w: u16, def: u32, cases: Box<[(u128, u32)]> },
    Ret(Option<Opnd>),
    Unreachable,
    LandingPad { dst: u32 },
    Resume,
    Nop,
    Unsupported(Rc<str>),
}

pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opnd)>,
}
#[derive(Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Inst>,
}
pub struct Func {
    pub name: Rc<str>,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub align: u32,
    pub bytes: Vec<u8>,
    pub constant: bool,
    pub ext: bool,
}
pub struct Module {
    pub types: Vec<TyInfo>,
    pub funcs: Vec<Rc<Func>>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub consts: Vec<Val>,
    pub llvm: String,
}

pub const BASE: u64 = 0x1000;
pub const FN_ID: u64 = 0x7000_0000;
pub fn obj_base(id: u64) -> u64 {
    (id << 32) + BASE
}
pub fn fn_addr(i: u32) -> u64 {
    (FN_ID << 32) + (i as u64) * 16
}

struct Ld<'a> {
    l: Llvm,
    dl: P,
    tmap: HashMap<usize, TyId>,
    types: Vec<TyInfo>,
    gaddr: HashMap<usize, u64>,
    consts: Vec<Val>,
    kmap: HashMap<usize, u32>,
    pool: &'a mut Pool,
    fidx: HashMap<usize, u32>,
    names: HashMap<usize, String>,
}

fn name_of(l: &Llvm, v: P) -> String {
    unsafe {
        let mut n = 0usize;
        let p = (l.LLVMGetValueName2)(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}

impl<'a> Ld<'a> {
    fn ty(&mut self, t: P) -> TyId {
        if let Some(i) = self.tmap.get(&(t as usize)) {
            return *i;
        }
        unsafe {
            let k = (self.l.LLVMGetTypeKind)(t);
            let mut sized = true;
            let ty = match k {
                0 => {
                    sized = false;
                    Ty::Void
                }
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int((self.l.LLVMGetIntTypeWidth)(t) as u16),
                10 => {
                    let n = (self.l.LLVMCountStructElementTypes)(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let e = (self.l.LLVMStructGetTypeAtIndex)(t, i);
                        let ei = self.ty(e);
                        v.push((ei, (self.l.LLVMOffsetOfElement)(self.dl, t, i)));
                    }
                    Ty::Struct(v)
                }
                11 => {
                    let e = self.ty((self.l.LLVMGetElementType)(t));
                    Ty::Arr(e, (self.l.LLVMGetArrayLength2)(t))
                }
                12 => Ty::Ptr,
                13 => {
                    let e = self.ty((self.l.LLVMGetElementType)(t));
                    Ty::Vec(e, (self.l.LLVMGetVectorSize)(t) as u64)
                }
                x => {
                    sized = false;
                    Ty::Other(x)
                }
            };
            let (size, store, align) = if sized {
                (
                    (self.l.LLVMABISizeOfType)(self.dl, t),
                    (self.l.LLVMStoreSizeOfType)(self.dl, t),
                    (self.l.LLVMABIAlignmentOfType)(self.dl, t),
                )
            } else {
                (0, 0, 1)
            };
            let id = self.types.len() as TyId;
            self.types.push(TyInfo { ty, size, store, align });
            self.tmap.insert(t as usize, id);
            id
        }
    }
    fn width(&self, t: TyId) -> u16 {
        match self.types[t as usize].ty {
            Ty::Int(w) => w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    /// (scalar width, vector lanes or 0)
    fn wn(&self, t: TyId) -> (u16, u32) {
        match &self.types[t as usize].ty {
            Ty::Vec(e, n) => (self.width(*e), *n as u32),
            _ => (self.width(t), 0),
        }
    }
    fn zero(&self, t: TyId) -> Val {
        match &self.types[t as usize].ty {
            Ty::Arr(e, n) | Ty::Vec(e, n) => {
                let z = self.zero(*e);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(fs) => Val::A(Rc::new(fs.iter().map(|f| self.zero(f.0)).collect())),
            _ => Val::C(0),
        }
    }
    fn int_bits(&mut self, v: P, w: u16) -> Val {
        unsafe {
            if w <= 64 {
                return Val::C((self.l.LLVMConstIntGetZExtValue)(v) as u128 & mask(w));
            }
            let s = (self.l.LLVMPrintValueToString)(v);
            let t = CStr::from_ptr(s).to_string_lossy().into_owned();
            (self.l.LLVMDisposeMessage)(s);
            let lit = t.split_whitespace().last().unwrap_or("0").to_string();
            let (neg, digits) = match lit.strip_prefix('-') {
                Some(d) => (true, d),
                None => (false, lit.as_str()),
            };
            // 256-bit accumulate
            let mut acc = W(0, 0);
            for d in digits.bytes() {
                if !d.is_ascii_digit() {
                    break;
                }
                let x8 = acc.shl(3);
                let x2 = acc.shl(1);
                let (lo, c) = x8.1.overflowing_add(x2.1);
                let hi = x8.0.wrapping_add(x2.0).wrapping_add(c as u128);
                let (lo, c) = lo.overflowing_add((d - b'0') as u128);
                acc = W(hi.wrapping_add(c as u128), lo);
            }
            if neg {
                let (lo, c) = (!acc.1).overflowing_add(1);
                acc = W((!acc.0).wrapping_add(c as u128), lo);
            }
            let acc = acc.trunc(w);
            if w <= 128 {
                Val::C(acc.1)
            } else {
                let hi = self.pool.konst(w - 128, acc.0);
                let lo = self.pool.konst(128, acc.1);
                Val::E(self.pool.concat(hi, lo))
            }
        }
    }
    fn cval(&mut self, v: P) -> Val {
        unsafe {
            let t = self.ty((self.l.LLVMTypeOf)(v));
            if !(self.l.LLVMIsAConstantInt)(v).is_null() {
                let (w, n) = self.wn(t);
                if n > 0 {
                    // splat ConstantInt of vector type
                    let e = (self.l.LLVMGetAggregateElement)(v, 0);
                    let x = self.cval(e);
                    return Val::A(Rc::new(vec![x; n as usize]));
                }
                return self.int_bits(v, w);
            }
            if !(self.l.LLVMIsAConstantFP)(v).is_null() {
                let mut li: c_int = 0;
                let d = (self.l.LLVMConstRealGetDouble)(v, &mut li);
                return match self.types[t as usize].ty {
                    Ty::F32 => Val::C((d as f32).to_bits() as u128),
                    _ => Val::C(d.to_bits() as u128),
                };
            }
            if !(self.l.LLVMIsAConstantPointerNull)(v).is_null() {
                return Val::C(0);
            }
            if !(self.l.LLVMIsAUndefValue)(v).is_null() || !(self.l.LLVMIsAPoisonValue)(v).is_null() {
                return match &self.types[t as usize].ty {
                    Ty::Arr(_, n) | Ty::Vec(_, n) => Val::A(Rc::new(vec![Val::U; *n as usize])),
                    Ty::Struct(fs) => {
                        let fs = fs.clone();
                        Val::A(Rc::new(
                            fs.iter()
                                .map(|f| match self.types[f.0 as usize].ty {
                                    Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => self.zero(f.0),
                                    _ => Val::U,
                                })
                                .collect(),
                        ))
                    }
                    _ => Val::U,
                };
            }
            if !(self.l.LLVMIsAConstantAggregateZero)(v).is_null() {
                return self.zero(t);
            }
            if let Some(a) = self.gaddr.get(&(v as usize)) {
                return Val::C(*a as u128);
            }
            if !(self.l.LLVMIsAConstantDataSequential)(v).is_null()
                || !(self.l.LLVMIsAConstantArray)(v).is_null()
                || !(self.l.LLVMIsAConstantStruct)(v).is_null()
                || !(self.l.LLVMIsAConstantVector)(v).is_null()
            {
                let n = match &self.types[t as usize].ty {
                    Ty::Arr(_, n) | Ty::Vec(_, n) => *n,
                    Ty::Struct(f) => f.len() as u64,
                    _ => 0,
                };
                let mut out = Vec::with_capacity(n as usize);
                for i in 0..n {
                    let e = (self.l.LLVMGetAggregateElement)(v, i as c_uint);
                    out.push(self.cval(e));
                }
                return Val::A(Rc::new(out));
            }
            if !(self.l.LLVMIsAConstantExpr)(v).is_null() {
                let op = (self.l.LLVMGetConstOpcode)(v);
                let g = |s: &mut Self, i: u32| -> Val {
                    let o = (s.l.LLVMGetOperand)(v, i);
                    s.cval(o)
                };
                let u = |x: Val| match x {
                    Val::C(c) => c,
                    _ => 0,
                };
                let (w, _) = self.wn(t);
                match op {
                    29 => {
                        let base = u(g(self, 0));
                        let st = (self.l.LLVMGetGEPSourceElementType)(v);
                        let n = (self.l.LLVMGetNumOperands)(v) as u32;
                        let mut off: i64 = 0;
                        let mut cur = self.ty(st);
                        for i in 1..n {
                            let o = (self.l.LLVMGetOperand)(v, i);
                            let ot = self.ty((self.l.LLVMTypeOf)(o));
                            let ow = self.width(ot);
                            let k = sext(u(self.cval(o)), ow) as i64;
                            if i == 1 {
                                off += k * self.types[cur as usize].size as i64;
                            } else {
                                match self.types[cur as usize].ty.clone() {
                                    Ty::Struct(f) => {
                                        off += f[k as usize].1 as i64;
                                        cur = f[k as usize].0;
                                    }
                                    Ty::Arr(e, _) | Ty::Vec(e, _) => {
                                        off += k * self.types[e as usize].size as i64;
                                        cur = e;
                                    }
                                    _ => {}
                                }
                            }
                        }
                        return Val::C((base as u64).wrapping_add(off as u64) as u128);
                    }
                    39 | 40 | 41 | 60 | 69 => {
                        let x = u(g(self, 0));
                        return Val::C(x & mask(w));
                    }
                    30 => {
                        let x = u(g(self, 0));
                        return Val::C(x & mask(w));
                    }
                    8 | 10 | 25 => {
                        let (x, y) = (u(g(self, 0)), u(g(self, 1)));
                        let o = match op {
                            8 => Op::Add,
                            10 => Op::Sub,
                            _ => Op::Xor,
                        };
                        return Val::C(fold_bin(o, w, x, y).unwrap());
                    }
                    _ => {
                        eprintln!("engine: constant expression opcode {op} unsupported");
                        std::process::exit(3);
                    }
                }
            }
            let s = (self.l.LLVMPrintValueToString)(v);
            let t = CStr::from_ptr(s).to_string_lossy().into_owned();
            eprintln!("engine: unsupported constant {}", &t[..t.len().min(200)]);
            std::process::exit(3);
        }
    }
    fn init_bytes(&mut self, v: P, out: &mut [u8]) {
        unsafe {
            let lt = (self.l.LLVMTypeOf)(v);
            let t = self.ty(lt);
            if !(self.l.LLVMIsAConstantAggregateZero)(v).is_null()
                || !(self.l.LLVMIsAUndefValue)(v).is_null()
                || !(self.l.LLVMIsAPoisonValue)(v).is_null()
            {
                return;
            }
            if !(self.l.LLVMIsAConstantDataSequential)(v).is_null() {
                let mut n = 0usize;
                let p = (self.l.LLVMGetAsString)(v, &mut n);
                let n = n.min(out.len());
                out[..n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
                return;
            }
            match self.types[t as usize].ty.clone() {
                Ty::Arr(e, n) | Ty::Vec(e, n) => {
                    let sz = self.types[e as usize].size as usize;
                    for i in 0..n {
                        let x = (self.l.LLVMGetAggregateElement)(v, i as c_uint);
                        self.init_bytes(x, &mut out[i as usize * sz..]);
                    }
                }
                Ty::Struct(fs) => {
                    for (i, (_, off)) in fs.iter().enumerate() {
                        let x = (self.l.LLVMGetAggregateElement)(v, i as c_uint);
                        self.init_bytes(x, &mut out[*off as usize..]);
                    }
                }
                _ => {
                    let sz = self.types[t as usize].store as usize;
                    let x = self.cval(v);
                    match x {
                        Val::C(c) => {
                            let b = c.to_le_bytes();
                            out[..sz.min(16)].copy_from_slice(&b[..sz.min(16)]);
                        }
                        Val::U => {}
                        _ => {
                            eprintln!("engine: wide constant in initialiser");
                            std::process::exit(3)
                        }
                    }
                }
            }
        }
    }
    fn kconst(&mut self, v: P) -> Opnd {
        if let Some(i) = self.kmap.get(&(v as usize)) {
            return Opnd::K(*i);
        }
        let c = self.cval(v);
        let i = self.consts.len() as u32;
        self.consts.push(c);
        self.kmap.insert(v as usize, i);
        Opnd::K(i)
    }
    fn knum(&mut self, c: u128) -> Opnd {
        self.consts.push(Val::C(c));
        Opnd::K(self.consts.len() as u32 - 1)
    }

    fn func(&mut self, f: P) -> Func {
        unsafe {
            let name: Rc<str> = Rc::from(self.names[&(f as usize)].as_str());
            let np = (self.l.LLVMCountParams)(f);
            if (self.l.LLVMIsDeclaration)(f) != 0 {
                return Func { name, nparams: np, nregs: 0, blocks: vec![], decl: true };
            }
            let mut regs: HashMap<usize, u32> = HashMap::new();
            let mut nregs = 0u32;
            for i in 0..np {
                regs.insert((self.l.LLVMGetParam)(f, i) as usize, nregs);
                nregs += 1;
            }
            let mut bidx: HashMap<usize, u32> = HashMap::new();
            let mut bbs = vec![];
            let mut b = (self.l.LLVMGetFirstBasicBlock)(f);
            while !b.is_null() {
                bidx.insert(b as usize, bbs.len() as u32);
                bbs.push(b);
                let mut i = (self.l.LLVMGetFirstInstruction)(b);
                while !i.is_null() {
                    let t = self.ty((self.l.LLVMTypeOf)(i));
                    if !matches!(self.types[t as usize].ty, Ty::Void) {
                        regs.insert(i as usize, nregs);
                        nregs += 1;
                    }
                    i = (self.l.LLVMGetNextInstruction)(i);
                }
                b = (self.l.LLVMGetNextBasicBlock)(b);
            }
            let mut blocks = vec![];
            for b in bbs {
                let mut blk = Block::default();
                let mut i = (self.l.LLVMGetFirstInstruction)(b);
                while !i.is_null() {
                    self.inst(i, &regs, &bidx, &mut blk);
                    i = (self.l.LLVMGetNextInstruction)(i);
                }
                blocks.push(blk);
            }
            Func { name, nparams: np, nregs, blocks, decl: false }
        }
    }

    fn inst(&mut self, i: P, regs: &HashMap<usize, u32>, bidx: &HashMap<usize, u32>, blk: &mut Block) {
        unsafe {
            let op = (self.l.LLVMGetInstructionOpcode)(i);
            let rt = self.ty((self.l.LLVMTypeOf)(i));
            let dst = regs.get(&(i as usize)).copied().unwrap_or(u32::MAX);
            let opv = |s: &Self, k: u32| (s.l.LLVMGetOperand)(i, k);
            macro_rules! o {
                ($k:expr) => {{
                    let v = opv(self, $k);
                    self.opnd(v, regs)
                }};
            }
            macro_rules! tyof {
                ($k:expr) => {{
                    let v = opv(self, $k);
                    let t = (self.l.LLVMTypeOf)(v);
                    self.ty(t)
                }};
            }
            let bb = |b: P| bidx[&(b as usize)];
            let ins = match op {
                1 => {
                    if (self.l.LLVMGetNumOperands)(i) > 0 {
                        Inst::Ret(Some(o!(0)))
                    } else {
                        Inst::Ret(None)
                    }
                }
                3 => {
                    let n = (self.l.LLVMGetNumSuccessors)(i);
                    let v = o!(0);
                    let t = tyof!(0);
                    let w = self.width(t);
                    let mut cases = vec![];
                    for k in 1..n {
                        let c = (self.l.LLVMGetSwitchCaseValue)(i, k);
                        let Val::C(c) = self.cval(c) else { panic!() };
                        cases.push((c, bb((self.l.LLVMGetSuccessor)(i, k))));
                    }
                    Inst::Switch { v, w, def: bb((self.l.LLVMGetSuccessor)(i, 0)), cases: cases.into() }
                }
                7 => Inst::Unreachable,
                5 | 45 => {
                    let n = (self.l.LLVMGetNumArgOperands)(i);
                    let cv = (self.l.LLVMGetCalledValue)(i);
                    let mut callee = if !(self.l.LLVMIsAInlineAsm)(cv).is_null() {
                        let mut l = 0usize;
                        let p = (self.l.LLVMGetInlineAsmAsmString)(cv, &mut l);
                        Callee::Asm(Rc::from(
                            String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).as_ref(),
                        ))
                    } else if let Some(f) = self.fidx.get(&(cv as usize)) {
                        Callee::F(*f)
                    } else {
                        Callee::P(self.opnd(cv, regs))
                    };
                    let mut meta = false;
                    if let Callee::F(_) = callee {
                        let nm = &self.names[&(cv as usize)];
                        if let Some(x) = nm.strip_prefix("llvm.") {
                            let kind = if x.starts_with("memcpy") || x.starts_with("memmove") {
                                Intr::Memcpy
                            } else if x.starts_with("memset") {
                                Intr::Memset
                            } else if x.starts_with("lifetime")
                                || x.starts_with("dbg.")
                                || x.starts_with("experimental.noalias")
                                || x.starts_with("invariant")
                                || x.starts_with("donothing")
                                || x.starts_with("prefetch")
                                || x.starts_with("sideeffect")
                            {
                                meta = true;
                                Intr::Nop
                            } else if x.starts_with("assume") {
                                Intr::Assume
                            } else {
                                Intr::Other
                            };
                            // those which the harness defines are called as they would be
                            let own = match x {
                                "cos.f64" => "cos",
                                "sin.f64" => "sin",
                                "tan.f64" => "tan",
                                "atan.f64" => "atan",
                                "atan2.f64" => "atan2",
                                _ => "",
                            };
                            let own = self.names.iter().find(|e| e.1 == own && !own.is_empty()).and_then(|e| self.fidx.get(e.0));
                            callee = match own {
                                Some(f) => Callee::F(*f),
                                None => Callee::Intr(Rc::from(x), kind),
                            };
                        }
                    }
                    let mut args = vec![];
                    if !meta {
                        for k in 0..n {
                            let v = opv(self, k);
                            let t = self.ty((self.l.LLVMTypeOf)(v));
                            if let Ty::Other(_) = self.types[t as usize].ty {
                                let z = self.knum(0);
                                args.push(z);
                            } else {
                                args.push(self.opnd(v, regs));
                            }
                        }
                    }
                    let normal = if op == 5 { Some(bb((self.l.LLVMGetNormalDest)(i))) } else { None };
                    Inst::Call {
                        callee,
                        args: args.into(),
                        dst: if dst == u32::MAX { None } else { Some(dst) },
                        rty: rt,
                        normal,
                    }
                }
                8..=25 => {
                    let (w, n) = self.wn(rt);
                    let b = match op {
                        8 => Op::Add,
                        9 => Op::FAdd,
                        10 => Op::Sub,
                        11 => Op::FSub,
                        12 => Op::Mul,
                        13 => Op::FMul,
                        14 => Op::UDiv,
                        15 => Op::SDiv,
                        16 => Op::FDiv,
                        17 => Op::URem,
                        18 => Op::SRem,
                        20 => Op::Shl,
                        21 => Op::LShr,
                        22 => Op::AShr,
                        23 => Op::And,
                        24 => Op::Or,
                        25 => Op::Xor,
                        _ => Op::Not, // frem: unsupported below
                    };
                    if b == Op::Not {
                        Inst::Unsupported(Rc::from("frem"))
                    } else {
                        Inst::Bin { op: b, w, n, a: o!(0), b: o!(1), dst }
                    }
                }
                66 => {
                    let (w, n) = self.wn(rt);
                    Inst::FNeg { w, n, a: o!(0), dst }
                }
                26 => {
                    let t = (self.l.LLVMGetAllocatedType)(i);
                    let t = self.ty(t);
                    let al = (self.l.LLVMGetAlignment)(i);
                    Inst::Alloca { size: self.types[t as usize].size, align: al.max(1), cnt: o!(0), dst }
                }
                27 => Inst::Load { ty: rt, p: o!(0), dst },
                28 => Inst::Store { ty: tyof!(0), v: o!(0), p: o!(1) },
                29 => {
                    let st = (self.l.LLVMGetGEPSourceElementType)(i);
                    let n = (self.l.LLVMGetNumOperands)(i) as u32;
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = self.ty(st);
                    for k in 1..n {
                        let ov = opv(self, k);
                        let ot = self.ty((self.l.LLVMTypeOf)(ov));
                        let ow = self.width(ot);
                        let is_c = !(self.l.LLVMIsAConstantInt)(ov).is_null();
                        if k > 1 {
                            if let Ty::Struct(f) = self.types[cur as usize].ty.clone() {
                                let Val::C(c) = self.cval(ov) else { panic!() };
                                off += f[c as usize].1 as i64;
                                cur = f[c as usize].0;
                                continue;
                            }
                            match self.types[cur as usize].ty.clone() {
                                Ty::Arr(e, _) | Ty::Vec(e, _) => cur = e,
                                _ => {}
                            }
                        }
                        let sz = self.types[cur as usize].size as i64;
                        if is_c {
                            let Val::C(c) = self.cval(ov) else { panic!() };
                            off = off.wrapping_add((sext(c, ow) as i64).wrapping_mul(sz));
                        } else {
                            let x = self.opnd(ov, regs);
                            idx.push((x, sz, ow));
                        }
                    }
                    if let Ty::Vec(..) = self.types[rt as usize].ty {
                        Inst::Unsupported(Rc::from("vector gep"))
                    } else {
                        Inst::Gep { base: o!(0), off, idx: idx.into(), dst }
                    }
                }
                30..=40 | 60 | 69 => {
                    let ft = tyof!(0);
                    let (fw, n) = self.wn(ft);
                    let (tw, _) = self.wn(rt);
                    Inst::Cast { op: op as u8, fw, tw, n, a: o!(0), dst }
                }
                41 => Inst::BitCast { fty: tyof!(0), tty: rt, a: o!(0), dst },
                42 => {
                    let t = tyof!(0);
                    let (w, n) = self.wn(t);
                    Inst::ICmp { pred: (self.l.LLVMGetICmpPredicate)(i) as u8, w, n, a: o!(0), b: o!(1), dst }
                }
                43 => {
                    let t = tyof!(0);
                    let (w, n) = self.wn(t);
                    Inst::FCmp { pred: (self.l.LLVMGetFCmpPredicate)(i) as u8, w, n, a: o!(0), b: o!(1), dst }
                }
                44 => {
                    let n = (self.l.LLVMCountIncoming)(i);
                    let mut inc = vec![];
                    for k in 0..n {
                        let v = (self.l.LLVMGetIncomingValue)(i, k);
                        let b = (self.l.LLVMGetIncomingBlock)(i, k);
                        inc.push((bb(b), self.opnd(v, regs)));
                    }
                    blk.phis.push(Phi { dst, inc });
                    return;
                }
                46 => {
                    let ct = tyof!(0);
                    let n = match self.types[ct as usize].ty {
                        Ty::Vec(_, n) => n as u32,
                        _ => 0,
                    };
                    Inst::Select { c: o!(0), a: o!(1), b: o!(2), n, ty: rt, dst }
                }
                50 => Inst::ExtractElem { a: o!(0), i: o!(1), dst },
                51 => {
                    let (_, n) = self.wn(rt);
                    Inst::InsertElem { a: o!(0), v: o!(1), i: o!(2), n, dst }
                }
                52 => {
                    let t = tyof!(0);
                    let (_, n) = self.wn(t);
                    let m = (self.l.LLVMGetNumMaskElements)(i);
                    let mask: Vec<i32> = (0..m).map(|k| (self.l.LLVMGetMaskValue)(i, k)).collect();
                    Inst::Shuffle { a: o!(0), b: o!(1), n, mask: mask.into(), dst }
                }
                53 => {
                    let n = (self.l.LLVMGetNumIndices)(i) as usize;
                    let idx = std::slice::from_raw_parts((self.l.LLVMGetIndices)(i), n).to_vec();
                    Inst::ExtractValue { a: o!(0), idx: idx.into(), dst }
                }
                54 => {
                    let n = (self.l.LLVMGetNumIndices)(i) as usize;
                    let idx = std::slice::from_raw_parts((self.l.LLVMGetIndices)(i), n).to_vec();
                    Inst::InsertValue { a: o!(0), v: o!(1), idx: idx.into(), dst, ty: rt }
                }
                68 => Inst::Copy { a: o!(0), dst },
                55 => Inst::Nop,
                56 => Inst::CmpXchg { p: o!(0), c: o!(1), v: o!(2), ty: tyof!(1), dst },
                57 => Inst::AtomicRmw {
                    op: (self.l.LLVMGetAtomicRMWBinOp)(i) as u8,
                    p: o!(0),
                    v: o!(1),
                    ty: tyof!(1),
                    dst,
                },
                58 => Inst::Resume,
                59 => Inst::LandingPad { dst },
                _ => {
                    // branches carry different opcodes across LLVM versions
                    let ns = (self.l.LLVMGetNumSuccessors)(i);
                    if ns == 1 && (op == 2 || op > 66) {
                        Inst::Br(bb((self.l.LLVMGetSuccessor)(i, 0)))
                    } else if ns == 2 && (op == 2 || op > 66) {
                        let c = (self.l.LLVMGetCondition)(i);
                        let c = self.opnd(c, regs);
                        Inst::CondBr(c, bb((self.l.LLVMGetSuccessor)(i, 0)), bb((self.l.LLVMGetSuccessor)(i, 1)))
                    } else {
                        Inst::Unsupported(Rc::from(format!("opcode {op}")))
                    }
                }
            };
            blk.ins.push(ins);
        }
    }
    fn opnd(&mut self, v: P, regs: &HashMap<usize, u32>) -> Opnd {
        if let Some(r) = regs.get(&(v as usize)) {
            return Opnd::R(*r);
        }
        self.kconst(v)
    }
}

pub fn load(libs: &[String], path: &str, pool: &mut Pool) -> Module {
    unsafe {
        let lib = Lib::open(libs);
        let l = Llvm::load(&lib);
        let (mut a, mut b, mut c) = (0, 0, 0);
        (l.LLVMGetVersion)(&mut a, &mut b, &mut c);
        let llvm = format!("LLVM {a}.{b}.{c}");
        let ctx = (l.LLVMContextCreate)();
        let cp = CString::new(path).unwrap();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if (l.LLVMCreateMemoryBufferWithContentsOfFile)(cp.as_ptr(), &mut buf, &mut msg) != 0 {
            eprintln!("engine: cannot read {path}");
            std::process::exit(3);
        }
        let mut m: P = std::ptr::null_mut();
        if (l.LLVMParseIRInContext)(ctx, buf, &mut m, &mut msg) != 0 {
            eprintln!("engine: cannot parse {path}: {}", CStr::from_ptr(msg).to_string_lossy());
            std::process::exit(3);
        }
        let dl = (l.LLVMGetModuleDataLayout)(m);
        let mut ld = Ld {
            l,
            dl,
            tmap: HashMap::new(),
            types: vec![],
            gaddr: HashMap::new(),
            consts: vec![],
            kmap: HashMap::new(),
            pool,
            fidx: HashMap::new(),
            names: HashMap::new(),
        };
        let mut fvals = vec![];
        let mut f = (ld.l.LLVMGetFirstFunction)(m);
        while !f.is_null() {
            let i = fvals.len() as u32;
            ld.fidx.insert(f as usize, i);
            ld.gaddr.insert(f as usize, fn_addr(i));
            let n = name_of(&ld.l, f);
            ld.names.insert(f as usize, n);
            fvals.push(f);
            f = (ld.l.LLVMGetNextFunction)(f);
        }
        let mut gvals = vec![];
        let mut g = (ld.l.LLVMGetFirstGlobal)(m);
        while !g.is_null() {
            gvals.push(g);
            ld.gaddr.insert(g as usize, obj_base(gvals.len() as u64));
            g = (ld.l.LLVMGetNextGlobal)(g);
        }
        let mut al = (ld.l.LLVMGetFirstGlobalAlias)(m);
        let mut aliases = vec![];
        while !al.is_null() {
            aliases.push(al);
            al = (ld.l.LLVMGetNextGlobalAlias)(al);
        }
        for al in &aliases {
            let t = (ld.l.LLVMAliasGetAliasee)(*al);
            if let Some(f) = ld.fidx.get(&(t as usize)).copied() {
                ld.fidx.insert(*al as usize, f);
                let n = name_of(&ld.l, *al);
                ld.names.insert(*al as usize, n);
            }
            let v = ld.cval(t);
            if let Val::C(c) = v {
                ld.gaddr.insert(*al as usize, c as u64);
            }
        }
        let mut globals = vec![];
        for g in &gvals {
            let vt = (ld.l.LLVMGlobalGetValueType)(*g);
            let t = ld.ty(vt);
            let (size, al) = (ld.types[t as usize].size, ld.types[t as usize].align);
            let ga = (ld.l.LLVMGetAlignment)(*g);
            let mut bytes = vec![0u8; size as usize];
            let init = (ld.l.LLVMGetInitializer)(*g);
            if !init.is_null() {
                ld.init_bytes(init, &mut bytes);
            }
            globals.push(Global {
                name: name_of(&ld.l, *g),
                size,
                align: ga.max(al),
                bytes,
                constant: (ld.l.LLVMIsGlobalConstant)(*g) != 0,
                ext: init.is_null(),
            });
        }
        let mut funcs = vec![];
        let mut fn_by_name = HashMap::new();
        for (i, f) in fvals.iter().enumerate() {
            fn_by_name.insert(ld.names[&(*f as usize)].clone(), i as u32);
            let x = ld.func(*f);
            funcs.push(Rc::new(x));
        }
        Module { types: ld.types, funcs, fn_by_name, globals, consts: ld.consts, llvm }
    }
}
