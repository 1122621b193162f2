//! The symbolic interpreter.
use crate::expr::*;
use crate::fp;
use crate::llvm::*;
use crate::mem::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub enum Input {
    Var(E, u16),      // expression, bytes
    Choice(u32, u32), // value, domain
}

pub struct ModelM {
    m: Model,
    memo: RefCell<FxMap<E, W>>,
}

#[derive(Default)]
pub struct Subst {
    map: FxMap<E, E>,
    memo: RefCell<FxMap<E, E>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub cons: Rc<Vec<E>>,
    pub subst: Rc<Subst>,
    pub model: Rc<ModelM>,
    pub inputs: Rc<Vec<Input>>,
    pub obs: Rc<Vec<Vec<Val>>>,
    pub steps: u64,
    pub asserts: u32,
    pub symasserts: u32,
    pub covers: Rc<BTreeSet<String>>,
    /// Where the number of the last error is kept, once asked for.
    pub errno: u64,
    /// What is called if the program panics, where that is allowed.
    pub on_panic: Option<u32>,
}

pub enum Stop {
    /// both truth values of a condition are possible: explore both, re-executing
    Fork(E),
    /// every value of an expression: explore each, re-executing
    Enum(E),
    Dead,
    Done,
    Violation { kind: &'static str, id: String },
    Error(String),
}
type R<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct Totals {
    pub paths: u64,
    pub completed: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub symasserts: u64,
    pub unknowns: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
}

pub struct Cfg {
    pub max_steps: u64,
    pub deadline: Option<Instant>,
    pub max_samples: usize,
    pub max_enum: usize,
    pub max_depth: usize,
    pub stop_on_violation: usize,
    pub trace: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
    None,
    Ext,
    Panic,
    Abort,
    Sym,
}

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub cfg: Cfg,
    pub tot: Totals,
    pub out: Vec<String>,
    pub violations: BTreeMap<String, u32>,
    ticks: u32,
    pub samples: usize,
    pub pending: Vec<State>,
    pub fn_hit: Vec<u64>,
    sp: Vec<Sp>,
    vars: FxMap<(u32, u16), E>,
    gmem: Mem,
    pub par: crate::par::Par,
    pub prof: FxMap<(u32, u32), u64>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

#[inline]
fn asc(v: &Val) -> Option<u128> {
    match v {
        Val::C(c) => Some(*c),
        Val::U => Some(0),
        _ => None,
    }
}

impl Engine {
    pub fn new(m: Module, p: Pool, s: Solver, cfg: Cfg, par: crate::par::Par) -> Engine {
        let mut gmem = Mem::default();
        for (i, g) in m.globals.iter().enumerate() {
            let kind = if g.ext {
                Kind::Extern
            } else if g.constant {
                Kind::Const
            } else {
                Kind::Global
            };
            gmem.set(
                i as u64 + 1,
                Some(Rc::new(Obj { size: g.size, data: g.bytes.clone(), sym: None, kind })),
            );
        }
        gmem.next = m.globals.len() as u64 + 64;
        let sp = m
            .funcs
            .iter()
            .map(|f| {
                let n: &str = &f.name;
                if n.starts_with("sym_") {
                    Sp::Sym
                } else if n.contains("9panicking9panic_fmt")
                    || n.contains("panic_nounwind")
                    || n.contains("17begin_panic_handler")
                    || n.contains("13begin_unwind")
                    || n.contains("rust_begin_unwind")
                    || n.contains("9panicking15panic_with_hook")
                    || n.contains("9panicking20rust_panic_with_hook")
                {
                    Sp::Panic
                } else if n == "abort" || n.contains("7process5abort") || n.contains("14abort_internal") {
                    Sp::Abort
                } else if f.decl {
                    Sp::Ext
                } else {
                    Sp::None
                }
            })
            .collect();
        let nf = m.funcs.len();
        Engine {
            m,
            p,
            s,
            cfg,
            tot: Totals::default(),
            out: vec![],
            violations: BTreeMap::new(),
            samples: 0,
            ticks: 0,
            pending: vec![],
            fn_hit: vec![0; nf],
            sp,
            vars: Default::default(),
            gmem,
            par,
            prof: Default::default(),
        }
    }

    pub fn start(&mut self, name: &str) -> bool {
        let Some(fi) = self.m.fn_by_name.get(name).copied() else {
            return false;
        };
        let f = self.m.funcs[fi as usize].clone();
        if f.decl {
            return false;
        }
        let fr = Frame {
            regs: vec![Val::U; f.nregs as usize],
            f,
            fi,
            blk: 0,
            ip: 0,
            allocas: vec![],
            dst: None,
            normal: None,
        };
        self.fn_hit[fi as usize] += 1;
        self.pending.push(State {
            frames: vec![Rc::new(fr)],
            mem: self.gmem.clone(),
            cons: Rc::new(vec![]),
            subst: Rc::new(Subst::default()),
            model: Rc::new(ModelM { m: Model::default(), memo: Default::default() }),
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            steps: 0,
            asserts: 0,
            symasserts: 0,
            covers: Rc::new(BTreeSet::new()),
            errno: 0,
            on_panic: None,
        });
        true
    }

    fn incomplete(&mut self, why: String) {
        *self.tot.incomplete.entry(why).or_insert(0) += 1;
    }

    pub fn run(&mut self) {
        let mut tick = 0u32;
        loop {
            tick = tick.wrapping_add(1);
            if self.pending.len() >= 2 && tick % 4 == 0 {
                self.par_split();
            }
            let Some(mut st) = self.pending.pop() else { break };
            if let Some(d) = self.cfg.deadline {
                if Instant::now() > d {
                    self.incomplete("deadline reached with states pending".into());
                    break;
                }
            }
            if self.violations.len() >= self.cfg.stop_on_violation {
                self.incomplete("stopped after violations".into());
                break;
            }
            let steps0 = st.steps;
            let r = self.run_state(&mut st);
            self.tot.steps += st.steps - steps0;
            match r {
                Stop::Fork(c) => {
                    self.tot.forks += 1;
                    self.fork_bool(st, c);
                }
                Stop::Enum(e) => {
                    self.tot.forks += 1;
                    self.fork_enum(st, e);
                }
                Stop::Dead => {
                    self.tot.infeasible += 1;
                    self.tot.paths += 1;
                }
                Stop::Done => {
                    self.tot.paths += 1;
                    self.tot.completed += 1;
                    self.tot.asserts += st.asserts as u64;
                    self.tot.symasserts += st.symasserts as u64;
                    for c in st.covers.iter() {
                        *self.tot.covers.entry(c.clone()).or_insert(0) += 1;
                    }
                    // reservoir-like sampling: keep the first ones and then every 2^k-th
                    let k = self.tot.completed;
                    let keep = self.samples < self.cfg.max_samples / 2
                        || (k.is_power_of_two() || k % 97 == 0) && self.samples < self.cfg.max_samples;
                    if keep {
                        self.samples += 1;
                        let i = self.input_bytes(&st);
                        let o = self.obs_bytes(&st);
                        let line =
                            format!("{{\"kind\":\"path\",\"input\":\"{}\",\"obs\":\"{}\"}}", hex(&i), hex(&o));
                        self.out.push(line);
                    }
                }
                Stop::Violation { kind, id } => {
                    self.tot.paths += 1;
                    self.tot.asserts += st.asserts as u64;
                    self.tot.symasserts += st.symasserts as u64;
                    self.report(&st, kind, &id);
                }
                Stop::Error(e) => {
                    self.tot.paths += 1;
                    let w = self.stack(&st);
                    self.incomplete(format!("{e} in {w}"));
                }
            }
        }
        if !self.pending.is_empty() {
            self.tot.paths += self.pending.len() as u64;
            self.pending.clear();
        }
    }

    fn par_split(&mut self) {
        match self.par.try_fork() {
            crate::par::Role::None => {}
            crate::par::Role::Parent => {
                self.pending.remove(0);
            }
            crate::par::Role::Child => {
                let s = self.pending.remove(0);
                self.pending = vec![s];
                self.tot = Totals::default();
                self.out.clear();
                self.violations.clear();
                self.s.stats = Stats::default();
                for x in &mut self.fn_hit {
                    *x = 0;
                }
                self.cfg.max_samples = (self.cfg.max_samples / 4).max(2);
                self.samples = 0;
            }
        }
    }

    pub fn stack(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(6) {
            v.push(short(&f.f.name));
        }
        v.join(" < ")
    }

    fn report(&mut self, st: &State, kind: &str, id: &str) {
        let key = format!("{kind}:{id}");
        let n = self.violations.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 {
            return;
        }
        let i = self.input_bytes(st);
        let o = self.obs_bytes(st);
        let sk = self.stack(st);
        if self.cfg.trace {
            let c: Vec<String> = st.cons.iter().map(|c| self.p.show(*c, 8)).collect();
            eprintln!("engine: {kind} {id} path condition:\n  {}", c.join("\n  "));
        }
        let line = format!(
            "{{\"kind\":\"violation\",\"vk\":{},\"id\":{},\"input\":\"{}\",\"obs\":\"{}\",\"stack\":{}}}",
            json_str(kind),
            json_str(id),
            hex(&i),
            hex(&o),
            json_str(&sk)
        );
        self.out.push(line);
    }

    fn input_bytes(&self, st: &State) -> Vec<u8> {
        let mut o = vec![];
        for i in st.inputs.iter() {
            match i {
                Input::Var(e, n) => {
                    let v = self.ev(st, *e);
                    o.extend_from_slice(&v.to_le_bytes()[..*n as usize]);
                }
                Input::Choice(v, _) => o.extend_from_slice(&v.to_le_bytes()),
            }
        }
        o
    }
    fn obs_bytes(&self, st: &State) -> Vec<u8> {
        let mut o = vec![];
        for rec in st.obs.iter() {
            o.extend_from_slice(&(rec.len() as u32).to_le_bytes());
            for v in rec {
                o.push(match v {
                    Val::C(c) => *c as u8,
                    Val::E(e) => self.ev(st, *e) as u8,
                    _ => 0,
                });
            }
        }
        o
    }

    #[inline]
    fn ev(&self, st: &State, e: E) -> u128 {
        if let Some(c) = self.p.cval(e) {
            return c;
        }
        self.p.eval(e, &st.model.m, &mut st.model.memo.borrow_mut()).1
    }

    // ---- path condition ----------------------------------------------------
    fn learn(&mut self, map: &mut FxMap<E, E>, c: E, v: bool) {
        let k = self.p.konst(1, v as u128);
        if self.p.cval(c).is_some() {
            return;
        }
        map.insert(c, k);
        let nc = self.p.not(c);
        let nk = self.p.konst(1, !v as u128);
        map.insert(nc, nk);
        let n = self.p.n(c);
        match (n.op, v) {
            (Op::Eq, true) => {
                if self.p.cval(n.b).is_some() {
                    map.insert(n.a, n.b);
                    // x == k with x an extension or concatenation is normalised by the constructor
                    self.learn_part(map, n.a, n.b);
                }
            }
            (Op::Extract, _) => self.learn_part(map, c, k),
            (Op::And, true) | (Op::Or, false) => {
                self.learn(map, n.a, v);
                self.learn(map, n.b, v);
            }
            (Op::Not, _) => self.learn(map, n.a, !v),
            _ => {}
        }
    }
    /// Some bits of a variable are now known: write it as a concatenation.
    fn learn_part(&mut self, map: &mut FxMap<E, E>, part: E, k: E) {
        let n = self.p.n(part);
        if n.op != Op::Extract || self.p.n(n.a).op != Op::Var {
            return;
        }
        let (x, off, w) = (n.a, n.b as u16, n.w);
        let xw = self.p.w(x);
        let mut r = *map.get(&x).unwrap_or(&x);
        if self.p.cval(r).is_some() {
            return;
        }
        let lo = if off > 0 { Some(self.p.extract(r, 0, off)) } else { None };
        let hi = if off + w < xw { Some(self.p.extract(r, off + w, xw - off - w)) } else { None };
        r = k;
        if let Some(lo) = lo {
            r = self.p.concat(r, lo);
        }
        if let Some(hi) = hi {
            r = self.p.concat(hi, r);
        }
        map.insert(x, r);
    }
    fn assume_true(&mut self, st: &mut State, c: E, implied: bool) {
        let mut map = st.subst.map.clone();
        self.learn(&mut map, c, true);
        st.subst = Rc::new(Subst { map, memo: Default::default() });
        if !implied {
            let mut todo = vec![c];
            let cons = Rc::make_mut(&mut st.cons);
            while let Some(c) = todo.pop() {
                let n = self.p.n(c);
                if n.op == Op::And && n.w == 1 {
                    todo.push(n.a);
                    todo.push(n.b);
                } else if self.p.cval(c).is_none() {
                    cons.push(c);
                }
            }
        }
    }
    fn simp(&mut self, st: &State, e: E) -> E {
        if st.subst.map.is_empty() || self.p.sup_id(e) == 0 {
            return e;
        }
        let mut memo = st.subst.memo.borrow_mut();
        self.p.subst(e, &st.subst.map, &mut memo)
    }
    fn set_model(&self, st: &mut State, m: &[(u32, u128)]) {
        let mut md = st.model.m.clone();
        for (v, x) in m {
            md.set(*v, *x);
        }
        st.model = Rc::new(ModelM { m: md, memo: Default::default() });
    }

    /// Decide a condition on this path: Ok(b) if only b is possible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        let c = self.simp(st, c);
        if let Some(v) = self.p.cval(c) {
            return Ok(v != 0);
        }
        let v = self.ev(st, c) != 0;
        let other = if v { self.p.not(c) } else { c };
        match self.s.check(&self.p, &st.cons, &[other]) {
            Res::Unsat => {
                let k = if v { c } else { self.p.not(c) };
                self.assume_true(st, k, true);
                Ok(v)
            }
            Res::Sat(_) => Err(Stop::Fork(c)),
            Res::Unknown => {
                self.tot.unknowns += 1;
                self.incomplete(format!("solver timeout at a branch in {}", self.stack(st)));
                let k = if v { c } else { self.p.not(c) };
                self.assume_true(st, k, false);
                Ok(v)
            }
        }
    }
    fn fork_bool(&mut self, st: State, c: E) {
        let v = self.ev(&st, c) != 0;
        let nc = self.p.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        // decide() has just established satisfiability: this is a cache hit
        if let Res::Sat(m) = self.s.check(&self.p, &st.cons, &[other]) {
            let mut o = st.clone();
            self.set_model(&mut o, &m);
            self.assume_true(&mut o, other, false);
            self.pending.push(o);
        }
        let mut a = st;
        self.assume_true(&mut a, mine, false);
        self.pending.push(a);
    }
    fn fork_enum(&mut self, st: State, e: E) {
        let mut extra: Vec<E> = vec![];
        let mut n = 0;
        let v0 = self.ev(&st, e);
        let mut next = Some((v0, None));
        while let Some((v, m)) = next.take() {
            let eq = self.p.eqc(e, v);
            let mut s2 = st.clone();
            if let Some(m) = m {
                let m: Rc<Vec<(u32, u128)>> = m;
                self.set_model(&mut s2, &m);
            }
            self.assume_true(&mut s2, eq, false);
            // pin the expression itself: the equality may have been rewritten
            let k = self.p.konst(self.p.w(e), v);
            let mut map = s2.subst.map.clone();
            map.insert(e, k);
            s2.subst = Rc::new(Subst { map, memo: Default::default() });
            self.pending.push(s2);
            let ne = self.p.not(eq);
            extra.push(ne);
            n += 1;
            if n > self.cfg.max_enum {
                self.incomplete(format!("more than {} values enumerated in {}", self.cfg.max_enum, self.stack(&st)));
                return;
            }
            match self.s.check(&self.p, &st.cons, &extra) {
                Res::Sat(m) => {
                    let mut t = st.clone();
                    self.set_model(&mut t, &m);
                    let v = self.ev(&t, e);
                    next = Some((v, Some(m)));
                }
                Res::Unsat => {}
                Res::Unknown => {
                    self.tot.unknowns += 1;
                    self.incomplete(format!("solver timeout enumerating in {}", self.stack(&st)));
                }
            }
        }
    }

    // ---- values -------------------------------------------------------------
    #[inline]
    fn raw(&self, fr: &Frame, o: Opnd) -> Val {
        match o {
            Opnd::R(r) => fr.regs[r as usize].clone(),
            Opnd::K(k) => self.m.consts[k as usize].clone(),
        }
    }
    fn val(&mut self, st: &State, o: Opnd) -> Val {
        let v = match o {
            Opnd::R(r) => st.frames[st.frames.len() - 1].regs[r as usize].clone(),
            Opnd::K(k) => return self.m.consts[k as usize].clone(),
        };
        if let Val::E(e) = v {
            let e2 = self.simp(st, e);
            return self.norm(e2);
        }
        v
    }
    fn norm(&self, e: E) -> Val {
        match self.p.cval(e) {
            Some(c) => Val::C(c),
            None => Val::E(e),
        }
    }
    fn ex(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::E(e) => *e,
            Val::C(c) => self.p.konst(w, *c),
            _ => self.p.konst(w, 0),
        }
    }
    /// A concrete value for this operand, enumerating if needed.
    fn conc(&mut self, st: &State, o: Opnd) -> R<u128> {
        let v = self.val(st, o);
        self.conc_v(v)
    }
    fn conc_v(&mut self, v: Val) -> R<u128> {
        match v {
            Val::E(e) => Err(Stop::Enum(e)),
            v => Ok(asc(&v).unwrap_or(0)),
        }
    }
    fn set(&self, st: &mut State, dst: u32, v: Val) {
        let n = st.frames.len() - 1;
        Rc::make_mut(&mut st.frames[n]).regs[dst as usize] = v;
    }

    fn binv(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        if w <= 128 {
            if let (Some(x), Some(y)) = (asc(a), asc(b)) {
                return Val::C(fold_bin(op, w, x, y).unwrap());
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.p.bin(op, x, y);
        self.norm(r)
    }
    fn icmp(&mut self, pred: u8, w: u16, a: &Val, b: &Val) -> Val {
        // 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
        let (op, swap, neg) = match pred {
            32 => (Op::Eq, false, false),
            33 => (Op::Eq, false, true),
            34 => (Op::Ult, true, false),
            35 => (Op::Ule, true, false),
            36 => (Op::Ult, false, false),
            37 => (Op::Ule, false, false),
            38 => (Op::Slt, true, false),
            39 => (Op::Sle, true, false),
            40 => (Op::Slt, false, false),
            _ => (Op::Sle, false, false),
        };
        let (x, y) = if swap { (b, a) } else { (a, b) };
        let r = self.binv(op, w, x, y);
        if neg {
            match r {
                Val::C(c) => Val::C(c ^ 1),
                Val::E(e) => {
                    let n = self.p.not(e);
                    self.norm(n)
                }
                v => v,
            }
        } else {
            r
        }
    }
    fn lanes(&self, v: &Val, n: u32) -> Vec<Val> {
        match v {
            Val::A(x) => x.to_vec(),
            _ => vec![Val::C(0); n as usize],
        }
    }
    fn cast(&mut self, op: u8, fw: u16, tw: u16, v: &Val) -> R<Val> {
        if let (Some(c), true) = (asc(v), tw <= 128 && fw <= 128) {
            return Ok(Val::C(match op {
                30 | 31 | 39 | 40 | 60 | 69 => c & mask(tw),
                32 => sext(c, fw) as u128 & mask(tw),
                33 => fp::fcvt(Op::FToU, fw, tw, c),
                34 => fp::fcvt(Op::FToS, fw, tw, c),
                35 => fp::fcvt(Op::FFromU, fw, tw, c),
                36 => fp::fcvt(Op::FFromS, fw, tw, c),
                37 | 38 => fp::fcvt(Op::FCvt, fw, tw, c),
                _ => return Err(Stop::Error(format!("cast {op}"))),
            }));
        }
        let e = self.ex(v, fw);
        let r = match op {
            30 | 31 | 39 | 40 | 60 | 69 => {
                if tw < fw {
                    self.p.extract(e, 0, tw)
                } else {
                    self.p.zext(e, tw)
                }
            }
            32 => self.p.sext(e, tw),
            33 => fp::to_int(&mut self.p, e, tw, false),
            34 => fp::to_int(&mut self.p, e, tw, true),
            35 => fp::mk_fun(&mut self.p, Op::FFromU, e, tw),
            36 => fp::mk_fun(&mut self.p, Op::FFromS, e, tw),
            37 | 38 => fp::mk_fun(&mut self.p, Op::FCvt, e, tw),
            _ => return Err(Stop::Error(format!("cast {op}"))),
        };
        Ok(self.norm(r))
    }
    fn width(&self, t: TyId) -> u16 {
        match self.m.types[t as usize].ty {
            Ty::Int(w) => w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    fn flatten(&mut self, t: TyId, v: &Val) -> E {
        match self.m.types[t as usize].ty.clone() {
            Ty::Vec(e, n) => {
                let w = self.width(e);
                let l = self.lanes(v, n as u32);
                let mut acc = self.ex(&l[0], w);
                for x in &l[1..] {
                    let x = self.ex(x, w);
                    acc = self.p.concat(x, acc);
                }
                acc
            }
            _ => {
                let w = self.width(t);
                self.ex(v, w)
            }
        }
    }
    fn unflatten(&mut self, t: TyId, e: E) -> Val {
        match self.m.types[t as usize].ty.clone() {
            Ty::Vec(et, n) => {
                let w = self.width(et);
                let mut out = vec![];
                for i in 0..n {
                    let x = self.p.extract(e, i as u16 * w, w);
                    out.push(self.norm(x));
                }
                Val::A(Rc::new(out))
            }
            _ => self.norm(e),
        }
    }

    // ---- memory ---------------------------------------------------------------
    fn viol<T>(&self, st: &State, kind: &'static str, id: impl Into<String>) -> R<T> {
        let _ = st;
        Err(Stop::Violation { kind, id: id.into() })
    }
    /// Concrete access check: returns (object id, offset)
    fn locate(&self, st: &State, a: u64, n: u64, write: bool) -> R<(u64, usize)> {
        let id = a >> 32;
        let off = (a & 0xffff_ffff).wrapping_sub(BASE);
        match st.mem.get(id) {
            Some(o) => {
                if off > o.size || n > o.size - off {
                    return self.viol(st, "memory", format!("access of {n} bytes at offset {} of a {}-byte object", off as i64, o.size));
                }
                if o.kind == Kind::Extern {
                    return Err(Stop::Error(format!("access to external global {}", self.m.globals[id as usize - 1].name)));
                }
                if write && o.kind == Kind::Const {
                    return self.viol(st, "memory", "write to constant memory");
                }
                Ok((id, off as usize))
            }
            None => self.viol(st, "memory", format!("access to invalid or freed address {a:#x}")),
        }
    }
    fn read_obj(&mut self, o: &Obj, off: usize, nb: usize, w: u16) -> Val {
        if !o.has_sym(off, nb) {
            if nb <= 16 {
                let mut b = [0u8; 16];
                b[..nb].copy_from_slice(&o.data[off..off + nb]);
                return Val::C(u128::from_le_bytes(b) & mask(w));
            }
        }
        let byte = |p: &mut Pool, i: usize| -> E {
            if let Some(s) = &o.sym {
                let (e, k) = s[off + i];
                if e != NOSYM {
                    let ew = p.w(e);
                    if ew < 8 {
                        return p.zext(e, 8);
                    }
                    let lo = k as u16 * 8;
                    if lo + 8 > ew {
                        let x = p.extract(e, lo, ew - lo);
                        return p.zext(x, 8);
                    }
                    return p.extract(e, lo, 8);
                }
            }
            p.konst(8, o.data[off + i] as u128)
        };
        // whole value stored as one expression?
        if let Some(s) = &o.sym {
            let (e, k) = s[off];
            if e != NOSYM && k == 0 && self.p.w(e) == w && (0..nb).all(|i| s[off + i] == (e, i as u8)) {
                return Val::E(e);
            }
        }
        let mut acc = byte(&mut self.p, nb - 1);
        for i in (0..nb - 1).rev() {
            let b = byte(&mut self.p, i);
            acc = self.p.concat(acc, b);
        }
        if (nb * 8) as u16 > w {
            acc = self.p.extract(acc, 0, w);
        }
        self.norm(acc)
    }
    fn write_obj(&mut self, o: &mut Obj, off: usize, nb: usize, w: u16, v: &Val) {
        match v {
            Val::E(e) => {
                let e = *e;
                let _ = w;
                for i in 0..nb {
                    if (i as u16) * 8 < self.p.w(e) {
                        o.set_sym(off + i, e, i as u8);
                    } else {
                        o.clear_sym(off + i, 1);
                        o.data[off + i] = 0;
                    }
                }
            }
            v => {
                let c = asc(v).unwrap_or(0);
                o.clear_sym(off, nb);
                let b = c.to_le_bytes();
                if nb <= 16 {
                    o.data[off..off + nb].copy_from_slice(&b[..nb]);
                } else {
                    o.data[off..off + nb].fill(0);
                    o.data[off..off + 16].copy_from_slice(&b);
                }
            }
        }
    }
    /// Candidate accesses for a symbolic address inside one object:
    /// (object id, offset expression, candidate offsets)
    fn resolve(&mut self, st: &mut State, a: E, n: u64, write: bool, limit: usize) -> R<(u64, E, Vec<u64>)> {
        let v = self.ev(st, a) as u64;
        let (id, _) = self.locate(st, v, n, write)?;
        let size = st.mem.get(id).unwrap().size;
        let base = self.p.konst(64, obj_base(id) as u128);
        let off = self.p.bin(Op::Sub, a, base);
        let off = self.simp(st, off);
        let lim = self.p.konst(64, (size - n) as u128);
        let inb = self.p.bin(Op::Ule, off, lim);
        if !self.decide(st, inb)? {
            return Err(Stop::Error("out-of-bounds side".into()));
        }
        let (lo, hi) = self.p.range(off);
        let hi = hi.min((size - n) as u128) as u64;
        let lo = lo as u64;
        let (kz, ko) = self.p.known(off);
        let tz = self.p.trailing_zeros(off).min(16);
        let step = 1u64 << tz;
        let start = (lo + step - 1) / step * step;
        let mut c = vec![];
        let mut x = start;
        while x <= hi {
            if (x as u128) & kz == 0 && !(x as u128) & ko == 0 {
                c.push(x);
                if c.len() > limit {
                    return Err(Stop::Enum(a));
                }
            }
            x += step;
        }
        Ok((id, off, c))
    }
    fn load_sc(&mut self, st: &mut State, a: &Val, delta: u64, nb: usize, w: u16) -> R<Val> {
        if let Some(c) = asc(a) {
            let (id, off) = self.locate(st, (c as u64).wrapping_add(delta), nb as u64, false)?;
            let o = st.mem.get(id).unwrap().clone();
            let v = self.read_obj(&o, off, nb, w);
            return Ok(v);
        }
        let mut e = self.ex(a, 64);
        if delta != 0 {
            let d = self.p.konst(64, delta as u128);
            e = self.p.bin(Op::Add, e, d);
        }
        let e = self.simp(st, e);
        if let Some(c) = self.p.cval(e) {
            return self.load_sc(st, &Val::C(c), 0, nb, w);
        }
        let (id, off, cands) = self.resolve(st, e, nb as u64, false, 1024)?;
        let o = st.mem.get(id).unwrap().clone();
        let mut acc: Option<E> = None;
        for c in cands.iter().rev() {
            let v = self.read_obj(&o, *c as usize, nb, w);
            let v = self.ex(&v, w);
            acc = Some(match acc {
                None => v,
                Some(r) => {
                    if r == v {
                        r
                    } else {
                        let eq = self.p.eqc(off, *c as u128);
                        self.p.ite(eq, v, r)
                    }
                }
            });
        }
        match acc {
            Some(r) => Ok(self.norm(r)),
            None => Err(Stop::Dead),
        }
    }
    fn store_sc(&mut self, st: &mut State, a: &Val, delta: u64, nb: usize, w: u16, v: &Val) -> R<()> {
        if let Some(c) = asc(a) {
            let (id, off) = self.locate(st, (c as u64).wrapping_add(delta), nb as u64, true)?;
            let mut m = std::mem::take(&mut st.mem);
            let o = m.get_mut(id).unwrap();
            self.write_obj(o, off, nb, w, v);
            st.mem = m;
            return Ok(());
        }
        let mut e = self.ex(a, 64);
        if delta != 0 {
            let d = self.p.konst(64, delta as u128);
            e = self.p.bin(Op::Add, e, d);
        }
        let e = self.simp(st, e);
        if let Some(c) = self.p.cval(e) {
            return self.store_sc(st, &Val::C(c), 0, nb, w, v);
        }
        let (id, off, cands) = self.resolve(st, e, nb as u64, true, 64)?;
        let mut m = std::mem::take(&mut st.mem);
        let o = m.get_mut(id).unwrap();
        let nw = self.ex(v, w);
        // overlapping candidates must be written one after another on the old content
        let old = o.clone();
        let overlap = cands.windows(2).any(|p| p[1] - p[0] < nb as u64);
        if overlap {
            st.mem = m;
            return Err(Stop::Enum(e));
        }
        for c in cands {
            let ov = self.read_obj(&old, c as usize, nb, w);
            let ov = self.ex(&ov, w);
            let eq = self.p.eqc(off, c as u128);
            let x = self.p.ite(eq, nw, ov);
            let x = self.norm(x);
            self.write_obj(o, c as usize, nb, w, &x);
        }
        st.mem = m;
        Ok(())
    }
    fn load(&mut self, st: &mut State, t: TyId, a: &Val, delta: u64) -> R<Val> {
        match self.m.types[t as usize].ty.clone() {
            Ty::Struct(fs) => {
                let mut v = vec![];
                for (ft, off) in fs {
                    v.push(self.load(st, ft, a, delta + off)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(e, n) => {
                let sz = self.m.types[e as usize].size;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, e, a, delta + i * sz)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(e, n) => {
                let ew = self.width(e);
                if ew % 8 != 0 {
                    let tot = ew as u64 * n;
                    let nb = self.m.types[t as usize].store as usize;
                    let x = self.load_sc(st, a, delta, nb, tot as u16)?;
                    let x = self.ex(&x, tot as u16);
                    return Ok(self.unflatten(t, x));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_sc(st, a, delta + i * (ew as u64 / 8), ew as usize / 8, ew)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Void | Ty::Other(_) => Err(Stop::Error("load of unsupported type".into())),
            _ => {
                let nb = self.m.types[t as usize].store as usize;
                let w = self.width(t);
                self.load_sc(st, a, delta, nb, w)
            }
        }
    }
    fn store(&mut self, st: &mut State, t: TyId, a: &Val, delta: u64, v: &Val) -> R<()> {
        match self.m.types[t as usize].ty.clone() {
            Ty::Struct(fs) => {
                let l = self.lanes(v, fs.len() as u32);
                for (i, (ft, off)) in fs.iter().enumerate() {
                    self.store(st, *ft, a, delta + off, &l[i])?;
                }
                Ok(())
            }
            Ty::Arr(e, n) => {
                let sz = self.m.types[e as usize].size;
                let l = self.lanes(v, n as u32);
                for i in 0..n {
                    self.store(st, e, a, delta + i * sz, &l[i as usize])?;
                }
                Ok(())
            }
            Ty::Vec(e, n) => {
                let ew = self.width(e);
                if ew % 8 != 0 {
                    let x = self.flatten(t, v);
                    let nb = self.m.types[t as usize].store as usize;
                    let w = self.p.w(x);
                    let x = self.norm(x);
                    return self.store_sc(st, a, delta, nb, w, &x);
                }
                let l = self.lanes(v, n as u32);
                for i in 0..n {
                    self.store_sc(st, a, delta + i * (ew as u64 / 8), ew as usize / 8, ew, &l[i as usize])?;
                }
                Ok(())
            }
            Ty::Void | Ty::Other(_) => Err(Stop::Error("store of unsupported type".into())),
            _ => {
                let nb = self.m.types[t as usize].store as usize;
                let w = self.width(t);
                self.store_sc(st, a, delta, nb, w, v)
            }
        }
    }
    /// One byte as a value.
    fn byte_at(&mut self, st: &mut State, a: u64) -> R<Val> {
        self.load_sc(st, &Val::C(a as u128), 0, 1, 8)
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.locate(st, s, n, false)?;
        let (di, dof) = self.locate(st, d, n, true)?;
        let src = st.mem.get(si).unwrap().clone();
        let n = n as usize;
        let o = st.mem.get_mut(di).unwrap();
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match &src.sym {
            Some(ss) if ss[so..so + n].iter().any(|x| x.0 != NOSYM) => {
                let sz = o.size as usize;
                let t = o.sym.get_or_insert_with(|| vec![(NOSYM, 0); sz]);
                t[dof..dof + n].copy_from_slice(&ss[so..so + n]);
            }
            _ => o.clear_sym(dof, n),
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, dof) = self.locate(st, d, n, true)?;
        let o = st.mem.get_mut(di).unwrap();
        match v {
            Val::E(e) => {
                for i in 0..n as usize {
                    o.set_sym(dof + i, *e, 0);
                }
            }
            v => {
                let c = asc(v).unwrap_or(0) as u8;
                o.data[dof..dof + n as usize].fill(c);
                o.clear_sym(dof, n as usize);
            }
        }
        Ok(())
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> u64 {
        if n > 1 << 30 {
            return 0;
        }
        let id = st.mem.alloc(Obj::new(n, Kind::Heap));
        obj_base(id)
    }

    // ---- control ----------------------------------------------------------------
    fn jump(&mut self, st: &mut State, to: u32) {
        let n = st.frames.len() - 1;
        let fr = Rc::make_mut(&mut st.frames[n]);
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let ph = &b.phis[0];
                let o = ph.inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = match o {
                    Opnd::R(r) => fr.regs[r as usize].clone(),
                    Opnd::K(k) => self.m.consts[k as usize].clone(),
                };
                fr.regs[ph.dst as usize] = v;
            }
            _ => {
                let mut vals: Vec<Val> = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    let o = ph.inc.iter().find(|x| x.0 == from).expect("phi").1;
                    vals.push(match o {
                        Opnd::R(r) => fr.regs[r as usize].clone(),
                        Opnd::K(k) => self.m.consts[k as usize].clone(),
                    });
                }
                for (ph, v) in b.phis.iter().zip(vals) {
                    fr.regs[ph.dst as usize] = v;
                }
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            if st.steps > self.cfg.max_steps {
                return Stop::Violation { kind: "hang", id: format!("no termination within {} instructions", self.cfg.max_steps) };
            }
            self.ticks = self.ticks.wrapping_add(1);
            if self.ticks & 0xfff == 0 {
                if let Some(d) = self.cfg.deadline {
                    if Instant::now() > d {
                        return Stop::Error("deadline reached".into());
                    }
                }
            }
            st.steps += 1;
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let top = st.frames.len() - 1;
        let fr = &st.frames[top];
        let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
        macro_rules! next {
            ($dst:expr, $v:expr) => {{
                let v = $v;
                let fr = Rc::make_mut(&mut st.frames[top]);
                fr.regs[$dst as usize] = v;
                fr.ip += 1;
            }};
            () => {{
                Rc::make_mut(&mut st.frames[top]).ip += 1;
            }};
        }
        match inst {
            Inst::Bin { op, w, n, a, b, dst } => {
                if *n == 0 {
                    let (x, y) = (self.raw(fr, *a), self.raw(fr, *b));
                    let r = self.binv(*op, *w, &x, &y);
                    next!(*dst, r);
                } else {
                    let (x, y) = (self.raw(fr, *a), self.raw(fr, *b));
                    let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n));
                    let r: Vec<Val> = (0..*n as usize).map(|i| self.binv(*op, *w, &x[i], &y[i])).collect();
                    next!(*dst, Val::A(Rc::new(r)));
                }
            }
            Inst::FNeg { w, n, a, dst } => {
                let x = self.raw(fr, *a);
                let sg = Val::C(1u128 << (*w - 1));
                let r = if *n == 0 {
                    self.binv(Op::Xor, *w, &x, &sg)
                } else {
                    let x = self.lanes(&x, *n);
                    Val::A(Rc::new(x.iter().map(|v| self.binv(Op::Xor, *w, v, &sg)).collect()))
                };
                next!(*dst, r);
            }
            Inst::ICmp { pred, w, n, a, b, dst } => {
                let (x, y) = (self.raw(fr, *a), self.raw(fr, *b));
                let r = if *n == 0 {
                    self.icmp(*pred, *w, &x, &y)
                } else {
                    let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n));
                    Val::A(Rc::new((0..*n as usize).map(|i| self.icmp(*pred, *w, &x[i], &y[i])).collect()))
                };
                next!(*dst, r);
            }
            Inst::FCmp { pred, w, n, a, b, dst } => {
                if *n != 0 {
                    return Err(Stop::Error("vector fcmp".into()));
                }
                let (x, y) = (self.val(st, *a), self.val(st, *b));
                let r = match (asc(&x), asc(&y)) {
                    (Some(x), Some(y)) => Val::C(fp::fcmp_c(*pred, *w, x, y) as u128),
                    _ => {
                        let (x, y) = (self.ex(&x, *w), self.ex(&y, *w));
                        let r = fp::fcmp(&mut self.p, *pred, x, y);
                        self.norm(r)
                    }
                };
                next!(*dst, r);
            }
            Inst::Cast { op, fw, tw, n, a, dst } => {
                let x = self.raw(fr, *a);
                let r = if *n == 0 {
                    self.cast(*op, *fw, *tw, &x)?
                } else {
                    let x = self.lanes(&x, *n);
                    let mut o = vec![];
                    for v in &x {
                        o.push(self.cast(*op, *fw, *tw, v)?);
                    }
                    Val::A(Rc::new(o))
                };
                next!(*dst, r);
            }
            Inst::BitCast { fty, tty, a, dst } => {
                let x = self.raw(fr, *a);
                let fv = matches!(self.m.types[*fty as usize].ty, Ty::Vec(..));
                let tv = matches!(self.m.types[*tty as usize].ty, Ty::Vec(..));
                let r = if !fv && !tv {
                    x
                } else {
                    let e = self.flatten(*fty, &x);
                    self.unflatten(*tty, e)
                };
                next!(*dst, r);
            }
            Inst::Select { c, a, b, n, ty, dst } => {
                if *n == 0 {
                    let c = self.val(st, *c);
                    let r = match asc(&c) {
                        Some(k) => {
                            let fr = &st.frames[top];
                            self.raw(fr, if k & 1 != 0 { *a } else { *b })
                        }
                        None => {
                            let ce = self.ex(&c, 1);
                            let w = self.width(*ty);
                            let (x, y) = (self.val(st, *a), self.val(st, *b));
                            if w == 0 {
                                let v = self.decide(st, ce)?;
                                if v {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let (x, y) = (self.ex(&x, w), self.ex(&y, w));
                                let r = self.p.ite(ce, x, y);
                                self.norm(r)
                            }
                        }
                    };
                    next!(*dst, r);
                } else {
                    let Ty::Vec(et, _) = self.m.types[*ty as usize].ty else { return Err(Stop::Error("select".into())) };
                    let w = self.width(et);
                    let (cv, x, y) = (self.val(st, *c), self.val(st, *a), self.val(st, *b));
                    let (cv, x, y) = (self.lanes(&cv, *n), self.lanes(&x, *n), self.lanes(&y, *n));
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        let r = match asc(&cv[i]) {
                            Some(k) => {
                                if k & 1 != 0 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            None => {
                                let ce = self.ex(&cv[i], 1);
                                let (p, q) = (self.ex(&x[i], w), self.ex(&y[i], w));
                                let r = self.p.ite(ce, p, q);
                                self.norm(r)
                            }
                        };
                        o.push(r);
                    }
                    next!(*dst, Val::A(Rc::new(o)));
                }
            }
            Inst::Load { ty, p, dst } => {
                let a = self.val(st, *p);
                let v = self.load(st, *ty, &a, 0)?;
                next!(*dst, v);
            }
            Inst::Store { ty, v, p } => {
                let a = self.val(st, *p);
                let x = self.val(st, *v);
                self.store(st, *ty, &a, 0, &x)?;
                next!();
            }
            Inst::Gep { base, off, idx, dst } => {
                let mut b = self.raw(fr, *base);
                let mut k = *off as u64;
                let mut se: Vec<(E, i64)> = vec![];
                for (o, sc, w) in idx.iter() {
                    let v = self.raw(fr, *o);
                    match asc(&v) {
                        Some(c) => k = k.wrapping_add((sext(c, *w) as i64).wrapping_mul(*sc) as u64),
                        None => {
                            let e = self.ex(&v, *w);
                            let e = if *w < 64 { self.p.sext(e, 64) } else { e };
                            se.push((e, *sc));
                        }
                    }
                }
                for (e, sc) in se {
                    let s = self.p.konst(64, sc as u64 as u128);
                    let m = self.p.bin(Op::Mul, e, s);
                    b = self.binv(Op::Add, 64, &b, &Val::E(m));
                }
                if k != 0 {
                    b = self.binv(Op::Add, 64, &b, &Val::C(k as u128));
                }
                next!(*dst, b);
            }
            Inst::Alloca { size, align: _, cnt, dst } => {
                let c = self.conc(st, *cnt)? as u64;
                let id = st.mem.alloc(Obj::new(size * c, Kind::Stack));
                let fr = Rc::make_mut(&mut st.frames[top]);
                fr.allocas.push(id);
                fr.regs[*dst as usize] = Val::C(obj_base(id) as u128);
                fr.ip += 1;
            }
            Inst::ExtractValue { a, idx, dst } => {
                let mut v = self.raw(fr, *a);
                for i in idx.iter() {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => Val::U,
                    };
                }
                next!(*dst, v);
            }
            Inst::InsertValue { a, v, idx, dst, ty } => {
                let mut agg = self.raw(fr, *a);
                let x = self.raw(fr, *v);
                agg = self.insert(agg, *ty, idx, x);
                next!(*dst, agg);
            }
            Inst::ExtractElem { a, i, dst } => {
                let k = self.conc(st, *i)?;
                let v = self.raw(&st.frames[top], *a);
                let r = match &v {
                    Val::A(x) => x.get(k as usize).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                };
                next!(*dst, r);
            }
            Inst::InsertElem { a, v, i, n, dst } => {
                let k = self.conc(st, *i)?;
                let fr = &st.frames[top];
                let (x, y) = (self.raw(fr, *a), self.raw(fr, *v));
                let mut l = self.lanes(&x, *n);
                if (k as usize) < l.len() {
                    l[k as usize] = y;
                }
                next!(*dst, Val::A(Rc::new(l)));
            }
            Inst::Shuffle { a, b, n, mask, dst } => {
                let (x, y) = (self.raw(fr, *a), self.raw(fr, *b));
                let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n));
                let r: Vec<Val> = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            Val::U
                        } else if (*m as u32) < *n {
                            x[*m as usize].clone()
                        } else {
                            y[*m as usize - *n as usize].clone()
                        }
                    })
                    .collect();
                next!(*dst, Val::A(Rc::new(r)));
            }
            Inst::AtomicRmw { op, p, v, ty, dst } => {
                let a = self.val(st, *p);
                let x = self.val(st, *v);
                let w = self.width(*ty);
                let old = self.load(st, *ty, &a, 0)?;
                let nv = match op {
                    0 => x,
                    1 => self.binv(Op::Add, w, &old, &x),
                    2 => self.binv(Op::Sub, w, &old, &x),
                    3 => self.binv(Op::And, w, &old, &x),
                    5 => self.binv(Op::Or, w, &old, &x),
                    6 => self.binv(Op::Xor, w, &old, &x),
                    9 | 10 => {
                        let c = self.icmp(if *op == 9 { 34 } else { 36 }, w, &old, &x);
                        let ce = self.ex(&c, 1);
                        let (p, q) = (self.ex(&old, w), self.ex(&x, w));
                        let r = self.p.ite(ce, p, q);
                        self.norm(r)
                    }
                    _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, *ty, &a, 0, &nv)?;
                next!(*dst, old);
            }
            Inst::CmpXchg { p, c, v, ty, dst } => {
                let a = self.val(st, *p);
                let w = self.width(*ty);
                let old = self.load(st, *ty, &a, 0)?;
                let cv = self.val(st, *c);
                let eq = self.icmp(32, w, &old, &cv);
                let ok = match asc(&eq) {
                    Some(k) => k != 0,
                    None => {
                        let e = self.ex(&eq, 1);
                        self.decide(st, e)?
                    }
                };
                if ok {
                    let x = self.val(st, *v);
                    self.store(st, *ty, &a, 0, &x)?;
                }
                next!(*dst, Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            Inst::Copy { a, dst } => {
                let v = self.raw(fr, *a);
                let v = if let Val::U = v { Val::C(0) } else { v };
                next!(*dst, v);
            }
            Inst::Br(b) => self.jump(st, *b),
            Inst::CondBr(c, t, e) => {
                let v = self.val(st, *c);
                let k = match asc(&v) {
                    Some(k) => k & 1 != 0,
                    None => {
                        let ce = self.ex(&v, 1);
                        if self.cfg.trace {
                            let fr = &st.frames[top];
                            *self.prof.entry((fr.fi, fr.blk)).or_insert(0) += 1;
                        }
                        self.decide(st, ce)?
                    }
                };
                self.jump(st, if k { *t } else { *e });
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.val(st, *v);
                let to = match asc(&x) {
                    Some(c) => cases.iter().find(|k| k.0 == c).map_or(*def, |k| k.1),
                    None => {
                        let e = self.ex(&x, *w);
                        let cur = self.ev(st, e);
                        let tgt = cases.iter().find(|k| k.0 == cur).map_or(*def, |k| k.1);
                        // condition for taking the edge the current model takes
                        let c = if tgt == *def {
                            let mut acc = self.p.tru();
                            for (k, b) in cases.iter() {
                                if b != def {
                                    let q = self.p.eqc(e, *k);
                                    let q = self.p.not(q);
                                    acc = self.p.and(acc, q);
                                }
                            }
                            acc
                        } else {
                            let mut acc = self.p.fls();
                            for (k, b) in cases.iter() {
                                if *b == tgt {
                                    let q = self.p.eqc(e, *k);
                                    acc = self.p.or(acc, q);
                                }
                            }
                            acc
                        };
                        if self.cfg.trace {
                            let fr = &st.frames[top];
                            *self.prof.entry((fr.fi, fr.blk)).or_insert(0) += 1;
                        }
                        if !self.decide(st, c)? {
                            // model says this edge is possible, so it cannot be excluded
                            return Err(Stop::Error("switch".into()));
                        }
                        tgt
                    }
                };
                self.jump(st, to);
            }
            Inst::Ret(v) => {
                let r = match v {
                    Some(o) => Some(self.raw(fr, *o)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for id in &fr.allocas {
                    st.mem.set(*id, None);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let n = st.frames.len() - 1;
                let c = Rc::make_mut(&mut st.frames[n]);
                if let (Some(d), Some(v)) = (fr.dst, r) {
                    c.regs[d as usize] = v;
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => c.ip += 1,
                }
            }
            Inst::Unreachable => return self.viol(st, "unreachable", short(&f.name)),
            Inst::LandingPad { dst } => next!(*dst, Val::A(Rc::new(vec![Val::C(0), Val::C(0)]))),
            Inst::Resume => return self.viol(st, "panic", "resume"),
            Inst::Nop => next!(),
            Inst::Unsupported(s) => return Err(Stop::Error(format!("unsupported {s}"))),
            Inst::Call { callee, args, dst, rty, normal } => {
                return self.call(st, callee, args, *dst, *rty, *normal);
            }
        }
        Ok(())
    }
    fn insert(&self, agg: Val, ty: TyId, idx: &[u32], x: Val) -> Val {
        let mut v = match &agg {
            Val::A(a) => a.to_vec(),
            _ => {
                let n = match &self.m.types[ty as usize].ty {
                    Ty::Struct(f) => f.len(),
                    Ty::Arr(_, n) => *n as usize,
                    _ => 0,
                };
                vec![Val::U; n]
            }
        };
        let i = idx[0] as usize;
        if idx.len() == 1 {
            v[i] = x;
        } else {
            let et = match &self.m.types[ty as usize].ty {
                Ty::Struct(f) => f[i].0,
                Ty::Arr(e, _) => *e,
                _ => ty,
            };
            v[i] = self.insert(v[i].clone(), et, &idx[1..], x);
        }
        Val::A(Rc::new(v))
    }

    fn ret(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Val) {
        let n = st.frames.len() - 1;
        let fr = Rc::make_mut(&mut st.frames[n]);
        if let Some(d) = dst {
            fr.regs[d as usize] = v;
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => fr.ip += 1,
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        callee: &Callee,
        args: &[Opnd],
        dst: Option<u32>,
        rty: TyId,
        normal: Option<u32>,
    ) -> R<()> {
        let fi = match callee {
            Callee::F(f) => *f,
            Callee::P(o) => {
                let a = self.conc(st, *o)? as u64;
                if a >> 32 != FN_ID || (a & 15) != 0 || ((a & 0xffff_ffff) / 16) as usize >= self.m.funcs.len() {
                    return self.viol(st, "memory", format!("call through invalid function pointer {a:#x}"));
                }
                ((a & 0xffff_ffff) / 16) as u32
            }
            Callee::Intr(n, k) => {
                match k {
                    Intr::Nop => {}
                    Intr::Assume => {}
                    Intr::Memcpy => {
                        let n = self.conc(st, args[2])? as u64;
                        if n > 0 {
                            let d = self.conc(st, args[0])? as u64;
                            let s = self.conc(st, args[1])? as u64;
                            self.memcpy(st, d, s, n)?;
                        }
                    }
                    Intr::Memset => {
                        let n = self.conc(st, args[2])? as u64;
                        if n > 0 {
                            let d = self.conc(st, args[0])? as u64;
                            let v = self.val(st, args[1]);
                            self.memset(st, d, &v, n)?;
                        }
                    }
                    Intr::Other => {
                        let v = crate::intr::intrinsic(self, st, n, args, rty)?;
                        self.ret(st, dst, normal, v);
                        return Ok(());
                    }
                }
                self.ret(st, dst, normal, Val::U);
                return Ok(());
            }
            Callee::Asm(s) => {
                if s.contains("cpuid") {
                    // a baseline CPU: no optional features
                    let n = match &self.m.types[rty as usize].ty {
                        Ty::Struct(f) => f.len(),
                        _ => 0,
                    };
                    self.ret(st, dst, normal, Val::A(Rc::new(vec![Val::C(0); n])));
                    return Ok(());
                }
                if s.is_empty() {
                    // optimisation barrier: identity / no-op
                    let v = if args.len() == 1 { self.val(st, args[0]) } else { Val::U };
                    self.ret(st, dst, normal, v);
                    return Ok(());
                }
                return Err(Stop::Error(format!("inline asm {s}")));
            }
        };
        match self.sp[fi as usize] {
            Sp::None => {}
            Sp::Panic if st.on_panic.is_some() => {
                let fi = st.on_panic.take().unwrap_or(0);
                let f = self.m.funcs[fi as usize].clone();
                let regs = vec![Val::U; f.nregs as usize];
                st.frames.push(Rc::new(Frame { f, fi, blk: 0, ip: 0, regs, allocas: vec![], dst: None, normal: None }));
                return Ok(());
            }
            Sp::Panic => {
                let id = self.panic_loc(st, fi, args);
                return self.viol(st, "panic", id);
            }
            Sp::Abort => {
                let id = self.stack(st);
                return self.viol(st, "abort", id);
            }
            Sp::Ext => {
                let name = self.m.funcs[fi as usize].name.clone();
                let v = crate::intr::external(self, st, &name, args, rty)?;
                self.ret(st, dst, normal, v);
                return Ok(());
            }
            Sp::Sym => {
                let name = self.m.funcs[fi as usize].name.clone();
                let v = self.sym_call(st, &name, args)?;
                self.ret(st, dst, normal, v);
                return Ok(());
            }
        }
        if st.frames.len() > self.cfg.max_depth {
            let id = self.stack(st);
            return self.viol(st, "stack", format!("recursion deeper than {} frames in {id}", self.cfg.max_depth));
        }
        let f = self.m.funcs[fi as usize].clone();
        self.fn_hit[fi as usize] += 1;
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, a) in args.iter().enumerate().take(f.nparams as usize) {
            regs[i] = self.val(st, *a);
        }
        st.frames.push(Rc::new(Frame { f, fi, blk: 0, ip: 0, regs, allocas: vec![], dst, normal }));
        Ok(())
    }

    fn panic_loc(&mut self, st: &mut State, _fi: u32, args: &[Opnd]) -> String {
        // the location is one of the pointer arguments: {file ptr, file len, line, col}
        for a in args.iter().rev() {
            if let Val::C(c) = self.val(st, *a) {
                let r = (|| -> R<Option<String>> {
                    let a = c as u64;
                    let o = match st.mem.get(a >> 32) {
                        Some(o) if o.size >= 24 => o,
                        _ => return Ok(None),
                    };
                    let _ = o;
                    let fp = self.load_sc(st, &Val::C(a as u128), 0, 8, 64)?;
                    let fl = self.load_sc(st, &Val::C(a as u128), 8, 8, 64)?;
                    let ln = self.load_sc(st, &Val::C(a as u128), 16, 4, 32)?;
                    let (Some(fp), Some(fl), Some(ln)) = (asc(&fp), asc(&fl), asc(&ln)) else { return Ok(None) };
                    if fl > 400 || fl == 0 {
                        return Ok(None);
                    }
                    let mut s = vec![];
                    for i in 0..fl as u64 {
                        let b = self.byte_at(st, (fp as u64).wrapping_add(i))?;
                        s.push(asc(&b).unwrap_or(0) as u8);
                    }
                    let s = String::from_utf8(s).unwrap_or_default();
                    if s.contains(".rs") {
                        Ok(Some(format!("{s}:{ln}")))
                    } else {
                        Ok(None)
                    }
                })();
                if let Ok(Some(s)) = r {
                    return s;
                }
            }
        }
        self.stack(st)
    }

    pub fn read_str(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let mut s = vec![];
        for i in 0..n {
            let b = self.byte_at(st, p + i)?;
            s.push(asc(&b).unwrap_or(b'?' as u128) as u8);
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    fn sym_call(&mut self, st: &mut State, name: &str, args: &[Opnd]) -> R<Val> {
        match name {
            // sym_int(ptr, nbytes): one unconstrained little-endian integer
            "sym_int" => {
                let p = self.conc(st, args[0])? as u64;
                let n = self.conc(st, args[1])? as u16;
                let k = st.inputs.len() as u32;
                let e = match self.vars.get(&(k, n * 8)) {
                    Some(e) => *e,
                    None => {
                        let (e, _) = self.p.var(n * 8);
                        self.vars.insert((k, n * 8), e);
                        e
                    }
                };
                Rc::make_mut(&mut st.inputs).push(Input::Var(e, n));
                self.store_sc(st, &Val::C(p as u128), 0, n as usize, n * 8, &Val::E(e))?;
                Ok(Val::U)
            }
            // sym_choice(n): explored for each concrete value below n
            "sym_choice" => {
                let n = self.conc(st, args[0])? as u32;
                if n == 0 {
                    return Err(Stop::Dead);
                }
                // push the alternatives; this state continues with 0
                let n_in = st.inputs.len();
                let _ = n_in;
                let top = st.frames.len() - 1;
                let fr = &st.frames[top];
                let Inst::Call { dst, normal, .. } = &fr.f.clone().blocks[fr.blk as usize].ins[fr.ip as usize] else {
                    return Err(Stop::Error("choice".into()));
                };
                for v in (1..n).rev() {
                    let mut o = st.clone();
                    Rc::make_mut(&mut o.inputs).push(Input::Choice(v, n));
                    self.ret(&mut o, *dst, *normal, Val::C(v as u128));
                    self.pending.push(o);
                    self.tot.forks += 1;
                }
                Rc::make_mut(&mut st.inputs).push(Input::Choice(0, n));
                Ok(Val::C(0))
            }
            "sym_assume" => {
                let v = self.val(st, args[0]);
                match asc(&v) {
                    Some(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Dead);
                        }
                    }
                    None => {
                        let mut e = self.ex(&v, 1);
                        if self.p.w(e) != 1 {
                            e = self.p.extract(e, 0, 1);
                        }
                        if self.ev(st, e) == 0 {
                            match self.s.check(&self.p, &st.cons, &[e]) {
                                Res::Sat(m) => self.set_model(st, &m),
                                Res::Unsat => return Err(Stop::Dead),
                                Res::Unknown => {
                                    self.tot.unknowns += 1;
                                    return Err(Stop::Error("solver timeout at an assumption".into()));
                                }
                            }
                        }
                        self.assume_true(st, e, false);
                    }
                }
                Ok(Val::U)
            }
            "sym_assert" => {
                let v = self.val(st, args[0]);
                st.asserts += 1;
                let (p, n) = (self.conc(st, args[1])? as u64, self.conc(st, args[2])? as u64);
                match asc(&v) {
                    Some(c) => {
                        if c & 1 == 0 {
                            let id = self.read_str(st, p, n)?;
                            return self.viol(st, "assert", id);
                        }
                    }
                    None => {
                        st.symasserts += 1;
                        let mut e = self.ex(&v, 1);
                        if self.p.w(e) != 1 {
                            e = self.p.extract(e, 0, 1);
                        }
                        let ne = self.p.not(e);
                        match self.s.check(&self.p, &st.cons, &[ne]) {
                            Res::Unsat => self.assume_true(st, e, true),
                            Res::Sat(m) => {
                                let id = self.read_str(st, p, n)?;
                                let mut bad = st.clone();
                                self.set_model(&mut bad, &m);
                                self.report(&bad, "assert", &id);
                                // continue where the assertion holds, if anywhere
                                if self.ev(st, e) == 0 {
                                    match self.s.check(&self.p, &st.cons, &[e]) {
                                        Res::Sat(m) => self.set_model(st, &m),
                                        _ => return Err(Stop::Dead),
                                    }
                                }
                                self.assume_true(st, e, false);
                            }
                            Res::Unknown => {
                                self.tot.unknowns += 1;
                                let id = self.read_str(st, p, n)?;
                                return Err(Stop::Error(format!("solver timeout at assertion {id}")));
                            }
                        }
                    }
                }
                Ok(Val::U)
            }
            "sym_observe" => {
                let (p, n) = (self.conc(st, args[0])? as u64, self.conc(st, args[1])? as u64);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.byte_at(st, p + i)?);
                }
                Rc::make_mut(&mut st.obs).push(v);
                Ok(Val::U)
            }
            "sym_cover" => {
                let (p, n) = (self.conc(st, args[0])? as u64, self.conc(st, args[1])? as u64);
                let id = self.read_str(st, p, n)?;
                Rc::make_mut(&mut st.covers).insert(id);
                Ok(Val::U)
            }
            // sym_concretize(u64) -> u64: split the path on every value
            "sym_concretize" => {
                let v = self.conc(st, args[0])?;
                Ok(Val::C(v))
            }
            // sym_on_panic(f): a panic is no violation, f is called and does not return
            "sym_on_panic" => {
                let a = self.conc(st, args[0])? as u64;
                st.on_panic = if a == 0 { None } else { Some(((a & 0xffff_ffff) / 16) as u32) };
                Ok(Val::U)
            }
            // 1 under the engine, 0 natively
            "sym_is_engine" => Ok(Val::C(1)),
            _ => Err(Stop::Error(format!("unknown {name}"))),
        }
    }

    // helpers for intr.rs
    pub fn arg(&mut self, st: &State, o: Opnd) -> Val {
        self.val(st, o)
    }
    pub fn argc(&mut self, st: &State, o: Opnd) -> R<u128> {
        self.conc(st, o)
    }
    pub fn e(&mut self, v: &Val, w: u16) -> E {
        self.ex(v, w)
    }
    pub fn nrm(&self, e: E) -> Val {
        self.norm(e)
    }
    pub fn bin2(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        self.binv(op, w, a, b)
    }
    pub fn cmp2(&mut self, pred: u8, w: u16, a: &Val, b: &Val) -> Val {
        self.icmp(pred, w, a, b)
    }
    pub fn tywn(&self, t: TyId) -> (u16, u32) {
        match &self.m.types[t as usize].ty {
            Ty::Vec(e, n) => (self.width(*e), *n as u32),
            Ty::Struct(f) => self.tywn(f[0].0),
            _ => (self.width(t), 0),
        }
    }
    pub fn lanes2(&self, v: &Val, n: u32) -> Vec<Val> {
        self.lanes(v, n)
    }
    pub fn do_malloc(&mut self, st: &mut State, n: u64) -> u64 {
        self.malloc(st, n)
    }
    pub fn do_memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        self.memcpy(st, d, s, n)
    }
    pub fn byte(&mut self, st: &mut State, a: u64) -> R<Val> {
        self.byte_at(st, a)
    }
    pub fn put(&mut self, st: &mut State, a: u64, nb: usize, v: &Val) -> R<()> {
        self.store_sc(st, &Val::C(a as u128), 0, nb, nb as u16 * 8, v)
    }
    pub fn wide(&mut self, st: &mut State, a: u64, nb: usize) -> R<Val> {
        self.load_sc(st, &Val::C(a as u128), 0, nb, nb as u16 * 8)
    }
    pub fn loc(&self, st: &State, a: u64, n: u64, w: bool) -> R<(u64, usize)> {
        self.locate(st, a, n, w)
    }
    pub fn dec(&mut self, st: &mut State, c: E) -> R<bool> {
        self.decide(st, c)
    }
    pub fn violate<T>(&self, st: &State, kind: &'static str, id: String) -> R<T> {
        self.viol(st, kind, id)
    }
}

/// Readable tail of a mangled name.
pub fn short(n: &str) -> String {
    demangle(n)
}

/// Crude demangler: collects the identifiers of a legacy or v0 mangled name.
pub fn demangle(n: &str) -> String {
    if !(n.starts_with("_ZN") || n.starts_with("_R")) {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            let s0 = i;
            while i < b.len() && b[i].is_ascii_digit() && i - s0 < 4 {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if k > 0 && i + k <= b.len() {
                let mut st = i;
                if b[st] == b'_' && n.starts_with("_R") {
                    st += 1;
                }
                let id = &n[st..(st + k).min(n.len())];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.') {
                    if !(id.len() == 17 && id.starts_with('h')) {
                        parts.push(id.to_string());
                    }
                    i = st + k;
                    continue;
                }
            }
        } else {
            i += 1;
        }
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}
