//! z3 back end: translation of expressions, independent-constraint slicing,
//! query cache, models.
use crate::dl::Lib;
use crate::dlapi;
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
dlapi!(Z3 {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(P, *const c_char, *const c_char);
    fn Z3_mk_context_rc(P) -> P;
    fn Z3_del_context(P);
    fn Z3_inc_ref(P, P);
    fn Z3_dec_ref(P, P);
    fn Z3_mk_bv_sort(P, c_uint) -> P;
    fn Z3_mk_bool_sort(P) -> P;
    fn Z3_mk_int_symbol(P, c_int) -> P;
    fn Z3_mk_const(P, P, P) -> P;
    fn Z3_mk_numeral(P, *const c_char, P) -> P;
    fn Z3_mk_unsigned_int64(P, u64, P) -> P;
    fn Z3_mk_true(P) -> P;
    fn Z3_mk_false(P) -> P;
    fn Z3_mk_not(P, P) -> P;
    fn Z3_mk_and(P, c_uint, *const P) -> P;
    fn Z3_mk_or(P, c_uint, *const P) -> P;
    fn Z3_mk_xor(P, P, P) -> P;
    fn Z3_mk_eq(P, P, P) -> P;
    fn Z3_mk_iff(P, P, P) -> P;
    fn Z3_mk_ite(P, P, P, P) -> P;
    fn Z3_mk_bvnot(P, P) -> P;
    fn Z3_mk_bvand(P, P, P) -> P;
    fn Z3_mk_bvor(P, P, P) -> P;
    fn Z3_mk_bvxor(P, P, P) -> P;
    fn Z3_mk_bvadd(P, P, P) -> P;
    fn Z3_mk_bvsub(P, P, P) -> P;
    fn Z3_mk_bvmul(P, P, P) -> P;
    fn Z3_mk_bvudiv(P, P, P) -> P;
    fn Z3_mk_bvsdiv(P, P, P) -> P;
    fn Z3_mk_bvurem(P, P, P) -> P;
    fn Z3_mk_bvsrem(P, P, P) -> P;
    fn Z3_mk_bvshl(P, P, P) -> P;
    fn Z3_mk_bvlshr(P, P, P) -> P;
    fn Z3_mk_bvashr(P, P, P) -> P;
    fn Z3_mk_bvult(P, P, P) -> P;
    fn Z3_mk_bvule(P, P, P) -> P;
    fn Z3_mk_bvslt(P, P, P) -> P;
    fn Z3_mk_bvsle(P, P, P) -> P;
    fn Z3_mk_concat(P, P, P) -> P;
    fn Z3_mk_extract(P, c_uint, c_uint, P) -> P;
    fn Z3_mk_zero_ext(P, c_uint, P) -> P;
    fn Z3_mk_sign_ext(P, c_uint, P) -> P;
    fn Z3_mk_fpa_sort_single(P) -> P;
    fn Z3_mk_fpa_sort_double(P) -> P;
    fn Z3_mk_fpa_to_fp_bv(P, P, P) -> P;
    fn Z3_mk_fpa_add(P, P, P, P) -> P;
    fn Z3_mk_fpa_sub(P, P, P, P) -> P;
    fn Z3_mk_fpa_mul(P, P, P, P) -> P;
    fn Z3_mk_fpa_div(P, P, P, P) -> P;
    fn Z3_mk_fpa_sqrt(P, P, P) -> P;
    fn Z3_mk_fpa_round_to_integral(P, P, P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(P, P) -> P;
    fn Z3_mk_fpa_rne(P) -> P;
    fn Z3_mk_fpa_rtz(P) -> P;
    fn Z3_mk_fpa_rtp(P) -> P;
    fn Z3_mk_fpa_rtn(P) -> P;
    fn Z3_mk_fpa_to_ubv(P, P, P, c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(P, P, P, c_uint) -> P;
    fn Z3_mk_fpa_to_fp_float(P, P, P, P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(P, P, P, P) -> P;
    fn Z3_mk_fpa_to_fp_signed(P, P, P, P) -> P;
    fn Z3_mk_string_symbol(P, *const c_char) -> P;
    fn Z3_mk_solver_for_logic(P, P) -> P;
    fn Z3_solver_inc_ref(P, P);
    fn Z3_solver_dec_ref(P, P);
    fn Z3_mk_params(P) -> P;
    fn Z3_params_inc_ref(P, P);
    fn Z3_params_dec_ref(P, P);
    fn Z3_params_set_uint(P, P, P, c_uint);
    fn Z3_solver_set_params(P, P, P);
    fn Z3_solver_assert(P, P, P);
    fn Z3_solver_check(P, P) -> c_int;
    fn Z3_solver_get_model(P, P) -> P;
    fn Z3_solver_to_string(P, P) -> *const c_char;
    fn Z3_model_inc_ref(P, P);
    fn Z3_model_dec_ref(P, P);
    fn Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    fn Z3_get_numeral_string(P, P) -> *const c_char;
    fn Z3_get_error_code(P) -> c_int;
    fn Z3_get_error_msg(P, c_int) -> *const c_char;
    fn Z3_set_error_handler(P, *const c_void);
    fn Z3_get_full_version() -> *const c_char;
});

unsafe extern "C" fn on_error(_c: P, _e: c_int) {}

pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}
#[derive(Clone)]
enum Cached {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub solver_ms: f64,
    pub max_ms: f64,
}

pub struct Solver {
    z: Z3,
    ctx: P,
    memo: FxMap<E, P>,
    cache: std::collections::HashMap<Vec<E>, Cached>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub version: String,
    recent: Vec<Rc<Vec<(u32, u128)>>>,
    pub dump_dir: Option<String>,
    pub dump_every: u64,
    pub dumped: u64,
}

impl Solver {
    pub fn new(paths: &[String], timeout_ms: u32) -> Solver {
        let lib = Lib::open(paths);
        let z = Z3::load(&lib);
        let ctx = unsafe { Self::mkctx(&z) };
        let version = unsafe { CStr::from_ptr((z.Z3_get_full_version)()).to_string_lossy().into_owned() };
        let version = format!("{version} ({})", lib.path());
        Solver {
            z,
            ctx,
            memo: Default::default(),
            cache: Default::default(),
            stats: Default::default(),
            timeout_ms,
            version,
            recent: vec![],
            dump_dir: None,
            dump_every: 0,
            dumped: 0,
        }
    }
    unsafe fn mkctx(z: &Z3) -> P {
        let cfg = (z.Z3_mk_config)();
        let ctx = (z.Z3_mk_context_rc)(cfg);
        (z.Z3_set_error_handler)(ctx, on_error as *const c_void);
        ctx
    }

    fn has_fp(&self, p: &Pool, roots: &[E]) -> bool {
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st: Vec<E> = roots.to_vec();
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            let n = p.n(x);
            use Op::*;
            match n.op {
                FAdd | FSub | FMul | FDiv | FSqrt | FFloor | FCeil | FTrunc | FRoundEven | FCvt | FFromU | FFromS
                | FToU | FToS => return true,
                Const | Var => {}
                Not | Extract | ZExt | SExt => st.push(n.a),
                Ite => st.extend([n.a, n.b, n.c]),
                _ => st.extend([n.a, n.b]),
            }
        }
        false
    }

    unsafe fn tr(&mut self, p: &Pool, root: E) -> P {
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            if self.memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = p.n(x);
            use Op::*;
            let ops: &[E] = match n.op {
                Const | Var => &[],
                Not | Extract | ZExt | SExt | FSqrt | FFloor | FCeil | FTrunc | FRoundEven | FCvt | FFromU
                | FFromS | FToU | FToS => &[n.a],
                Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for o in ops {
                if !self.memo.contains_key(o) {
                    stack.push(*o);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let c = self.ctx;
            let a = if !ops.is_empty() { self.memo[&n.a] } else { std::ptr::null_mut() };
            let b = if ops.len() > 1 { self.memo[&n.b] } else { std::ptr::null_mut() };
            let aw = if !ops.is_empty() { p.w(n.a) } else { 0 };
            let w = n.w;
            let z = &self.z;
            // bool → bv1 for operands of width 1 used as bit-vectors
            let k = |t: P| -> P {
                if !t.is_null() {
                    (z.Z3_inc_ref)(c, t);
                }
                t
            };
            let bv = |t: P, w: u16| -> P {
                if w != 1 {
                    return t;
                }
                let s = k((z.Z3_mk_bv_sort)(c, 1));
                let one = k((z.Z3_mk_unsigned_int64)(c, 1, s));
                let zero = k((z.Z3_mk_unsigned_int64)(c, 0, s));
                k((z.Z3_mk_ite)(c, t, one, zero))
            };
            let fps = |w: u16| if w == 32 { k((z.Z3_mk_fpa_sort_single)(c)) } else { k((z.Z3_mk_fpa_sort_double)(c)) };
            let fp = |t: P, w: u16| k((z.Z3_mk_fpa_to_fp_bv)(c, t, fps(w)));
            let r: P = match n.op {
                Const => {
                    let v = p.cval(x).unwrap();
                    if w == 1 {
                        if v == 1 {
                            k((z.Z3_mk_true)(c))
                        } else {
                            k((z.Z3_mk_false)(c))
                        }
                    } else {
                        let s = k((z.Z3_mk_bv_sort)(c, w as c_uint));
                        if v <= u64::MAX as u128 {
                            k((z.Z3_mk_unsigned_int64)(c, v as u64, s))
                        } else {
                            let t = CString::new(v.to_string()).unwrap();
                            k((z.Z3_mk_numeral)(c, t.as_ptr(), s))
                        }
                    }
                }
                Var => {
                    let s = if w == 1 { k((z.Z3_mk_bool_sort)(c)) } else { k((z.Z3_mk_bv_sort)(c, w as c_uint)) };
                    let y = (z.Z3_mk_int_symbol)(c, n.a as c_int); // symbols are not reference counted
                    k((z.Z3_mk_const)(c, y, s))
                }
                Not if w == 1 => k((z.Z3_mk_not)(c, a)),
                And if w == 1 => k((z.Z3_mk_and)(c, 2, [a, b].as_ptr())),
                Or if w == 1 => k((z.Z3_mk_or)(c, 2, [a, b].as_ptr())),
                Xor if w == 1 => k((z.Z3_mk_xor)(c, a, b)),
                Not => k((z.Z3_mk_bvnot)(c, a)),
                And => k((z.Z3_mk_bvand)(c, a, b)),
                Or => k((z.Z3_mk_bvor)(c, a, b)),
                Xor => k((z.Z3_mk_bvxor)(c, a, b)),
                Add => k((z.Z3_mk_bvadd)(c, a, b)),
                Sub => k((z.Z3_mk_bvsub)(c, a, b)),
                Mul => k((z.Z3_mk_bvmul)(c, a, b)),
                UDiv => k((z.Z3_mk_bvudiv)(c, a, b)),
                SDiv => k((z.Z3_mk_bvsdiv)(c, a, b)),
                URem => k((z.Z3_mk_bvurem)(c, a, b)),
                SRem => k((z.Z3_mk_bvsrem)(c, a, b)),
                Shl => k((z.Z3_mk_bvshl)(c, a, b)),
                LShr => k((z.Z3_mk_bvlshr)(c, a, b)),
                AShr => k((z.Z3_mk_bvashr)(c, a, b)),
                Eq => k((z.Z3_mk_eq)(c, a, b)),
                Ult => k((z.Z3_mk_bvult)(c, a, b)),
                Ule => k((z.Z3_mk_bvule)(c, a, b)),
                Slt => k((z.Z3_mk_bvslt)(c, a, b)),
                Sle => k((z.Z3_mk_bvsle)(c, a, b)),
                Ite => k((z.Z3_mk_ite)(c, a, b, self.memo[&n.c])),
                Concat => k((z.Z3_mk_concat)(c, bv(a, aw), bv(b, p.w(n.b)))),
                Extract => {
                    let t = k((z.Z3_mk_extract)(c, n.b + w as u32 - 1, n.b, bv(a, aw)));
                    if w == 1 {
                        let s = k((z.Z3_mk_bv_sort)(c, 1));
                        let one = k((z.Z3_mk_unsigned_int64)(c, 1, s));
                        k((z.Z3_mk_eq)(c, t, one))
                    } else {
                        t
                    }
                }
                ZExt => k((z.Z3_mk_zero_ext)(c, (w - aw) as c_uint, bv(a, aw))),
                SExt => k((z.Z3_mk_sign_ext)(c, (w - aw) as c_uint, bv(a, aw))),
                FAdd | FSub | FMul | FDiv => {
                    let f = match n.op {
                        FAdd => z.Z3_mk_fpa_add,
                        FSub => z.Z3_mk_fpa_sub,
                        FMul => z.Z3_mk_fpa_mul,
                        _ => z.Z3_mk_fpa_div,
                    };
                    k((z.Z3_mk_fpa_to_ieee_bv)(c, k(f(c, k((z.Z3_mk_fpa_rne)(c)), fp(a, w), fp(b, w)))))
                }
                FSqrt => k((z.Z3_mk_fpa_to_ieee_bv)(c, k((z.Z3_mk_fpa_sqrt)(c, k((z.Z3_mk_fpa_rne)(c)), fp(a, w))))),
                FFloor | FCeil | FTrunc | FRoundEven => {
                    let rm = match n.op {
                        FFloor => k((z.Z3_mk_fpa_rtn)(c)),
                        FCeil => k((z.Z3_mk_fpa_rtp)(c)),
                        FTrunc => k((z.Z3_mk_fpa_rtz)(c)),
                        _ => k((z.Z3_mk_fpa_rne)(c)),
                    };
                    k((z.Z3_mk_fpa_to_ieee_bv)(c, k((z.Z3_mk_fpa_round_to_integral)(c, rm, fp(a, w)))))
                }
                FCvt => k((z.Z3_mk_fpa_to_ieee_bv)(c, k((z.Z3_mk_fpa_to_fp_float)(c, k((z.Z3_mk_fpa_rne)(c)), fp(a, aw), fps(w))))),
                FFromU => k((z.Z3_mk_fpa_to_ieee_bv)(c, k((z.Z3_mk_fpa_to_fp_unsigned)(c, k((z.Z3_mk_fpa_rne)(c)), bv(a, aw), fps(w))))),
                FFromS => k((z.Z3_mk_fpa_to_ieee_bv)(c, k((z.Z3_mk_fpa_to_fp_signed)(c, k((z.Z3_mk_fpa_rne)(c)), bv(a, aw), fps(w))))),
                FToU => k((z.Z3_mk_fpa_to_ubv)(c, k((z.Z3_mk_fpa_rtz)(c)), fp(a, aw), w as c_uint)),
                FToS => k((z.Z3_mk_fpa_to_sbv)(c, k((z.Z3_mk_fpa_rtz)(c)), fp(a, aw), w as c_uint)),
            };
            if r.is_null() {
                let ec = (z.Z3_get_error_code)(c);
                let m = CStr::from_ptr((z.Z3_get_error_msg)(c, ec)).to_string_lossy().into_owned();
                eprintln!("engine: z3 error {m} building {:?} w={w} aw={aw}", n.op);
                std::process::exit(3);
            }
            self.memo.insert(x, r);
            stack.pop();
        }
        self.memo[&root]
    }

    /// Constraints (transitively) sharing a variable with `extra`.
    pub fn slice(p: &Pool, cons: &[E], extra: &[E]) -> Vec<E> {
        let mut vars: Vec<bool> = vec![false; p.var_w.len()];
        for e in extra {
            for v in p.support(*e).iter() {
                vars[*v as usize] = true;
            }
        }
        let sups: Vec<Rc<[u32]>> = cons.iter().map(|c| p.support(*c)).collect();
        let mut inn = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for i in 0..cons.len() {
                if !inn[i] && sups[i].iter().any(|v| vars[*v as usize]) {
                    inn[i] = true;
                    ch = true;
                    for v in sups[i].iter() {
                        vars[*v as usize] = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut out: Vec<E> = (0..cons.len()).filter(|i| inn[*i]).map(|i| cons[i]).collect();
        out.extend_from_slice(extra);
        out.sort_unstable();
        out.dedup();
        out
    }

    /// Satisfiability of the (already path-feasible) constraints together with `extra`.
    pub fn check(&mut self, p: &Pool, cons: &[E], extra: &[E]) -> Res {
        for e in extra {
            if p.cval(*e) == Some(0) {
                return Res::Unsat;
            }
        }
        let q = Self::slice(p, cons, extra);
        if let Some(c) = self.cache.get(&q) {
            self.stats.cache_hits += 1;
            return match c {
                Cached::Sat(m) => Res::Sat(m.clone()),
                Cached::Unsat => Res::Unsat,
                Cached::Unknown => Res::Unknown,
            };
        }
        let mut vars: Vec<u32> = vec![];
        for e in &q {
            vars.extend(p.support(*e).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        // recently found models often satisfy the new query too
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            let mut md = Model::default();
            for (v, x) in m.iter() {
                md.set(*v, *x);
            }
            let mut memo = FxMap::default();
            if q.iter().all(|e| p.eval(*e, &md, &mut memo).1 == 1) {
                self.stats.model_hits += 1;
                let r: Rc<Vec<(u32, u128)>> = Rc::new(vars.iter().map(|v| (*v, md.get(*v))).collect());
                self.cache.insert(q, Cached::Sat(r.clone()));
                return Res::Sat(r);
            }
        }
        let t0 = Instant::now();
        if self.memo.len() > 1_500_000 {
            unsafe {
                (self.z.Z3_del_context)(self.ctx);
                self.ctx = Self::mkctx(&self.z);
            }
            self.memo.clear();
        }
        let fpq = self.has_fp(p, &q);
        let r = unsafe {
            let logic = CString::new(if fpq { "QF_FPBV" } else { "QF_BV" }).unwrap();
            let sy = (self.z.Z3_mk_string_symbol)(self.ctx, logic.as_ptr());
            let s = (self.z.Z3_mk_solver_for_logic)(self.ctx, sy);
            (self.z.Z3_solver_inc_ref)(self.ctx, s);
            let pr = (self.z.Z3_mk_params)(self.ctx);
            (self.z.Z3_params_inc_ref)(self.ctx, pr);
            let tn = CString::new("timeout").unwrap();
            let ts = (self.z.Z3_mk_string_symbol)(self.ctx, tn.as_ptr());
            (self.z.Z3_params_set_uint)(self.ctx, pr, ts, self.timeout_ms);
            (self.z.Z3_solver_set_params)(self.ctx, s, pr);
            for e in &q {
                let t = self.tr(p, *e);
                (self.z.Z3_solver_assert)(self.ctx, s, t);
            }
            let c = (self.z.Z3_solver_check)(self.ctx, s);
            let ec = (self.z.Z3_get_error_code)(self.ctx);
            if ec != 0 {
                let m = CStr::from_ptr((self.z.Z3_get_error_msg)(self.ctx, ec)).to_string_lossy().into_owned();
                eprintln!("engine: z3 error: {m}");
            }
            self.stats.queries += 1;
            if self.dump_dir.is_some() && t0.elapsed().as_millis() as u64 >= self.dump_every && self.dumped < 40 {
                if let Some(d) = &self.dump_dir {
                    let t = CStr::from_ptr((self.z.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().into_owned();
                    let lg = if fpq { "QF_BVFP" } else { "QF_BV" };
                    let exp = match c {
                        1 => "sat",
                        -1 => "unsat",
                        _ => "unknown",
                    };
                    let _ = std::fs::write(
                        format!("{d}/q{}_{}.{exp}.smt2", std::process::id(), self.stats.queries),
                        format!("(set-logic {lg})\n{t}\n(check-sat)\n"),
                    );
                    self.dumped += 1;
                }
            }
            let r = if c == 1 {
                let m = (self.z.Z3_solver_get_model)(self.ctx, s);
                (self.z.Z3_model_inc_ref)(self.ctx, m);
                let mut out = vec![];
                for v in &vars {
                    let w = p.var_w[*v as usize];
                    let s = if w == 1 {
                        (self.z.Z3_mk_bool_sort)(self.ctx)
                    } else {
                        (self.z.Z3_mk_bv_sort)(self.ctx, w as c_uint)
                    };
                    let y = (self.z.Z3_mk_int_symbol)(self.ctx, *v as c_int);
                    (self.z.Z3_inc_ref)(self.ctx, s);
                    let t = (self.z.Z3_mk_const)(self.ctx, y, s);
                    (self.z.Z3_inc_ref)(self.ctx, t);
                    let mut o: P = std::ptr::null_mut();
                    if (self.z.Z3_model_eval)(self.ctx, m, t, true, &mut o) && !o.is_null() {
                        (self.z.Z3_inc_ref)(self.ctx, o);
                        let st = CStr::from_ptr((self.z.Z3_get_numeral_string)(self.ctx, o)).to_string_lossy().into_owned();
                        out.push((*v, st.parse::<u128>().unwrap_or(0)));
                        (self.z.Z3_dec_ref)(self.ctx, o);
                    }
                    (self.z.Z3_dec_ref)(self.ctx, t);
                }
                (self.z.Z3_model_dec_ref)(self.ctx, m);
                Some(Rc::new(out))
            } else {
                None
            };
            (self.z.Z3_params_dec_ref)(self.ctx, pr);
            (self.z.Z3_solver_dec_ref)(self.ctx, s);
            (c, r)
        };
        let ms = t0.elapsed().as_secs_f64() * 1000.0;
        self.stats.solver_ms += ms;
        if ms > self.stats.max_ms {
            self.stats.max_ms = ms;
        }
        match r {
            (1, Some(m)) => {
                // the model must satisfy the query under the engine's own evaluator
                let mut md = Model::default();
                for (v, x) in m.iter() {
                    md.set(*v, *x);
                }
                let mut memo = FxMap::default();
                for e in &q {
                    if p.eval(*e, &md, &mut memo).1 != 1 {
                        eprintln!("engine: z3 model does not satisfy {}", p.show(*e, 6));
                        std::process::exit(3);
                    }
                }
                self.stats.sat += 1;
                self.recent.push(m.clone());
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
                self.cache.insert(q, Cached::Sat(m.clone()));
                Res::Sat(m)
            }
            (-1, _) => {
                self.stats.unsat += 1;
                self.cache.insert(q, Cached::Unsat);
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                self.cache.insert(q, Cached::Unknown);
                Res::Unknown
            }
        }
    }
}
