// Z3 (C API) back end.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_code(c: P) -> c_uint;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn noerr(_c: P, _e: c_uint) {}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    c: P,
    fpsort: P,
    rne: P,
    rtz: P,
    cache: Vec<P>,
    solver_bv: P,
    timeout_ms: u32,
    pub stats: Stats,
    qcache: FxMap<Vec<T>, Res>,
}

extern "C" {
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(noerr));
            let fpsort = Z3_mk_fpa_sort_double(c);
            Z3_inc_ref(c, fpsort);
            let rne = Z3_mk_fpa_rne(c);
            Z3_inc_ref(c, rne);
            let rtz = Z3_mk_fpa_rtz(c);
            Z3_inc_ref(c, rtz);
            let mut s = Solver { c, fpsort, rne, rtz, cache: vec![], solver_bv: std::ptr::null_mut(), timeout_ms, stats: Stats::default(), qcache: Default::default() };
            s.solver_bv = s.mk_solver("QF_BV");
            s
        }
    }
    fn mk_solver(&self, logic: &str) -> P {
        unsafe {
            let l = CString::new(logic).unwrap();
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
            s
        }
    }
    /// temporaries stay alive in the reference-counted context
    unsafe fn kp(&self, a: P) -> P {
        if !a.is_null() {
            Z3_inc_ref(self.c, a);
        }
        a
    }
    unsafe fn bv(&self, a: P, w: u32) -> P {
        // bool -> bv1 when needed
        if w == 1 {
            let s = self.kp(Z3_mk_bv_sort(self.c, 1));
            self.kp(Z3_mk_ite(self.c, a, self.kp(Z3_mk_unsigned_int64(self.c, 1, s)), self.kp(Z3_mk_unsigned_int64(self.c, 0, s))))
        } else {
            a
        }
    }
    unsafe fn fp(&self, a: P) -> P {
        self.kp(Z3_mk_fpa_to_fp_bv(self.c, a, self.fpsort))
    }
    fn tr(&mut self, ar: &Arena, t: T) -> P {
        if self.cache.len() < ar.nodes.len() {
            self.cache.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if !self.cache[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = ar.nodes[x as usize];
            let w = n.w as u32;
            let kids: &[u32] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FIsNan | Op::FFromS | Op::FFromU | Op::FToS | Op::FToU | Op::FRoundZ => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids {
                if self.cache[k as usize].is_null() {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let c = self.c;
            let k = |i: u32| self.cache[i as usize];
            let wa = if kids.is_empty() { 0 } else { ar.w(n.a) };
            let r = unsafe {
                match n.op {
                    Op::Const => {
                        let v = ar.consts[n.a as usize];
                        if w == 1 {
                            if v == 1 {
                                self.kp(Z3_mk_true(c))
                            } else {
                                self.kp(Z3_mk_false(c))
                            }
                        } else {
                            let s = self.kp(Z3_mk_bv_sort(c, w));
                            if w <= 64 {
                                self.kp(Z3_mk_unsigned_int64(c, v as u64, s))
                            } else {
                                let st = CString::new(format!("{}", v)).unwrap();
                                self.kp(Z3_mk_numeral(c, st.as_ptr(), s))
                            }
                        }
                    }
                    Op::Var => {
                        let nm = CString::new(format!("v{}", n.a)).unwrap();
                        let s = if w == 1 { self.kp(Z3_mk_bool_sort(c)) } else { self.kp(Z3_mk_bv_sort(c, w)) };
                        self.kp(Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s))
                    }
                    Op::Not => {
                        if w == 1 {
                            self.kp(Z3_mk_not(c, k(n.a)))
                        } else {
                            self.kp(Z3_mk_bvnot(c, k(n.a)))
                        }
                    }
                    Op::And if w == 1 => self.kp(Z3_mk_and(c, 2, [k(n.a), k(n.b)].as_ptr())),
                    Op::Or if w == 1 => self.kp(Z3_mk_or(c, 2, [k(n.a), k(n.b)].as_ptr())),
                    Op::Xor if w == 1 => self.kp(Z3_mk_xor(c, k(n.a), k(n.b))),
                    Op::And => self.kp(Z3_mk_bvand(c, k(n.a), k(n.b))),
                    Op::Or => self.kp(Z3_mk_bvor(c, k(n.a), k(n.b))),
                    Op::Xor => self.kp(Z3_mk_bvxor(c, k(n.a), k(n.b))),
                    Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                        let (a, b) = (self.bv(k(n.a), w), self.bv(k(n.b), w));
                        let r = match n.op {
                            Op::Add => self.kp(Z3_mk_bvadd(c, a, b)),
                            Op::Sub => self.kp(Z3_mk_bvsub(c, a, b)),
                            Op::Mul => self.kp(Z3_mk_bvmul(c, a, b)),
                            Op::UDiv => self.kp(Z3_mk_bvudiv(c, a, b)),
                            Op::SDiv => self.kp(Z3_mk_bvsdiv(c, a, b)),
                            Op::URem => self.kp(Z3_mk_bvurem(c, a, b)),
                            Op::SRem => self.kp(Z3_mk_bvsrem(c, a, b)),
                            Op::Shl => self.kp(Z3_mk_bvshl(c, a, b)),
                            Op::LShr => self.kp(Z3_mk_bvlshr(c, a, b)),
                            _ => self.kp(Z3_mk_bvashr(c, a, b)),
                        };
                        if w == 1 {
                            let s = self.kp(Z3_mk_bv_sort(c, 1));
                            self.kp(Z3_mk_eq(c, r, self.kp(Z3_mk_unsigned_int64(c, 1, s))))
                        } else {
                            r
                        }
                    }
                    Op::Concat => self.kp(Z3_mk_concat(c, self.bv(k(n.a), wa), self.bv(k(n.b), ar.w(n.b)))),
                    Op::Extract => {
                        let e = self.kp(Z3_mk_extract(c, n.b + w - 1, n.b, k(n.a)));
                        if w == 1 {
                            let s = self.kp(Z3_mk_bv_sort(c, 1));
                            self.kp(Z3_mk_eq(c, e, self.kp(Z3_mk_unsigned_int64(c, 1, s))))
                        } else {
                            e
                        }
                    }
                    Op::ZExt => self.kp(Z3_mk_zero_ext(c, w - wa, self.bv(k(n.a), wa))),
                    Op::SExt => self.kp(Z3_mk_sign_ext(c, w - wa, self.bv(k(n.a), wa))),
                    Op::Eq => self.kp(Z3_mk_eq(c, k(n.a), k(n.b))),
                    Op::Ult => self.kp(Z3_mk_bvult(c, self.bv(k(n.a), wa), self.bv(k(n.b), wa))),
                    Op::Ule => self.kp(Z3_mk_bvule(c, self.bv(k(n.a), wa), self.bv(k(n.b), wa))),
                    Op::Slt => self.kp(Z3_mk_bvslt(c, self.bv(k(n.a), wa), self.bv(k(n.b), wa))),
                    Op::Sle => self.kp(Z3_mk_bvsle(c, self.bv(k(n.a), wa), self.bv(k(n.b), wa))),
                    Op::Ite => self.kp(Z3_mk_ite(c, k(n.a), k(n.b), k(n.c))),
                    Op::FLt => self.kp(Z3_mk_fpa_lt(c, self.fp(k(n.a)), self.fp(k(n.b)))),
                    Op::FLe => self.kp(Z3_mk_fpa_leq(c, self.fp(k(n.a)), self.fp(k(n.b)))),
                    Op::FEq => self.kp(Z3_mk_fpa_eq(c, self.fp(k(n.a)), self.fp(k(n.b)))),
                    Op::FIsNan => self.kp(Z3_mk_fpa_is_nan(c, self.fp(k(n.a)))),
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FRoundZ => {
                        let a = self.fp(k(n.a));
                        let r = match n.op {
                            Op::FAdd => self.kp(Z3_mk_fpa_add(c, self.rne, a, self.fp(k(n.b)))),
                            Op::FSub => self.kp(Z3_mk_fpa_sub(c, self.rne, a, self.fp(k(n.b)))),
                            Op::FMul => self.kp(Z3_mk_fpa_mul(c, self.rne, a, self.fp(k(n.b)))),
                            Op::FDiv => self.kp(Z3_mk_fpa_div(c, self.rne, a, self.fp(k(n.b)))),
                            Op::FRoundZ => self.kp(Z3_mk_fpa_round_to_integral(c, self.rtz, a)),
                            _ => panic!("symbolic frem"),
                        };
                        let s64 = self.kp(Z3_mk_bv_sort(c, 64));
                        let nan = self.kp(Z3_mk_unsigned_int64(c, 0x7ff8000000000000, s64));
                        self.kp(Z3_mk_ite(c, self.kp(Z3_mk_fpa_is_nan(c, r)), nan, self.kp(Z3_mk_fpa_to_ieee_bv(c, r))))
                    }
                    Op::FFromS => self.kp(Z3_mk_fpa_to_ieee_bv(c, self.kp(Z3_mk_fpa_to_fp_signed(c, self.rne, self.bv(k(n.a), wa), self.fpsort)))),
                    Op::FFromU => self.kp(Z3_mk_fpa_to_ieee_bv(c, self.kp(Z3_mk_fpa_to_fp_unsigned(c, self.rne, self.bv(k(n.a), wa), self.fpsort)))),
                    Op::FToS => self.kp(Z3_mk_fpa_to_sbv(c, self.rtz, self.fp(k(n.a)), w)),
                    Op::FToU => self.kp(Z3_mk_fpa_to_ubv(c, self.rtz, self.fp(k(n.a)), w)),
                }
            };
            unsafe {
                Z3_inc_ref(c, r);
                if Z3_get_error_code(c) != 0 {
                    panic!("z3 error on {:?}", n);
                }
            }
            self.cache[x as usize] = r;
            st.pop();
        }
        self.cache[t as usize]
    }
    fn has_fp(&self, ar: &Arena, ts: &[T], seen: &mut FxMap<T, ()>) -> bool {
        let mut st: Vec<T> = ts.to_vec();
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            let n = ar.nodes[x as usize];
            match n.op {
                Op::Const | Op::Var => {}
                Op::FLt | Op::FLe | Op::FEq | Op::FIsNan | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FFromS | Op::FFromU | Op::FToS | Op::FToU | Op::FRoundZ => return true,
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c)
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b)
                }
            }
        }
        false
    }
    /// Satisfiability of the conjunction of `cs`.
    pub fn check(&mut self, ar: &mut Arena, cs: &[T]) -> Res {
        let mut key: Vec<T> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let mut seen = Default::default();
        let fp = self.has_fp(ar, &key, &mut seen);
        let r = unsafe {
            let s;
            if fp {
                s = self.mk_solver("QF_BVFP");
            } else {
                s = self.mk_solver("QF_BV");
            }
            for &t in &key {
                let z = self.tr(ar, t);
                Z3_solver_assert(self.c, s, z);
            }
            let r = Z3_solver_check(self.c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vs: Vec<u32> = vec![];
                    for &t in &key {
                        vs.extend_from_slice(&ar.vset(t));
                    }
                    vs.sort();
                    vs.dedup();
                    let mut asg = vec![];
                    for v in vs {
                        let w = ar.vars[v as usize].w;
                        let vt = ar.var_term(v);
                        let z = self.tr(ar, vt);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, z, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            let val = if w == 1 {
                                (Z3_get_bool_value(self.c, o) == 1) as u128
                            } else if w <= 64 {
                                let mut x = 0u64;
                                Z3_get_numeral_uint64(self.c, o, &mut x);
                                x as u128
                            } else {
                                CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().parse().unwrap_or(0)
                            };
                            asg.push((v, val));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(asg)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.c, s);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        if dt > 0.03 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("slow {:.3} fp={} n={} {:?} : {}", dt, fp, key.len(), matches!(r, Res::Sat(_)), key.iter().map(|&t| ar.show(t)).collect::<Vec<_>>().join("  AND  "));
        }
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        // verify models by evaluation
        let r = match r {
            Res::Sat(asg) => {
                let mm: FxMap<u32, u128> = asg.iter().cloned().collect();
                let mut memo = Default::default();
                let f = |v: u32| *mm.get(&v).unwrap_or(&0);
                let ok = key.iter().all(|&t| ar.eval(t, &f, &mut memo) == 1);
                if ok {
                    self.stats.sat += 1;
                    Res::Sat(asg)
                } else {
                    self.stats.unknown += 1;
                    Res::Unknown
                }
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                Res::Unsat
            }
            Res::Unknown => {
                self.stats.unknown += 1;
                Res::Unknown
            }
        };
        if self.qcache.len() > 200_000 {
            self.qcache.clear();
        }
        self.qcache.insert(key, r.clone());
        r
    }
}

#[allow(dead_code)]
unsafe fn unused(c: P, s: P) {
    Z3_solver_push(c, s);
    Z3_solver_pop(c, s, 1);
}
