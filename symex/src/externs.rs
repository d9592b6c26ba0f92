// LLVM intrinsics, libc stand-ins and the harness interface (vf_*).
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::term::{mask, sx, Op, T};
use std::rc::Rc;

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsup(s.into()))
}

impl<'a> Exec<'a> {
    /// Functions with a body that are nevertheless replaced.
    pub fn override_fn(&self, id: usize) -> bool {
        let n = &self.m.funcs[id].name;
        n == "memcpy" || n == "memmove" || n == "memset" || n == "memcmp" || n == "bcmp" || n == "strlen"
    }

    fn s(&mut self, st: &mut State, v: &Val) -> R<u64> {
        Ok(self.concretize(st, v, 64)? as u64)
    }
    fn cstr(&mut self, st: &State, p: u64) -> R<Vec<u8>> {
        let mut v = vec![];
        let mut a = p;
        loop {
            match self.byte(st, a)? {
                Val::I(0) => return Ok(v),
                Val::I(b) => v.push(b as u8),
                _ => return unsup("symbolic C string"),
            }
            a += 1;
        }
    }
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> {
        if st.errno == 0 {
            st.errno = st.mem.alloc(8, Kind::Global);
        }
        let a = st.errno;
        self.store_int(st, a, &Val::I(e), 32)
    }
    fn cmp_bytes(&mut self, st: &State, a: u64, b: u64, n: usize, eq_only: bool) -> R<Val> {
        let mut xs: Vec<(Val, Val)> = vec![];
        for i in 0..n {
            let x = self.byte(st, a + i as u64)?;
            let y = self.byte(st, b + i as u64)?;
            if let (Val::I(p), Val::I(q)) = (&x, &y) {
                if p == q {
                    continue;
                }
                xs.push((x, y));
                if !eq_only {
                    break;
                }
                return Ok(Val::I(1));
            }
            xs.push((x, y));
        }
        if eq_only {
            let mut t = self.ar.k(0, 1);
            for (x, y) in xs {
                let p = self.term(&x, 8)?;
                let q = self.term(&y, 8)?;
                let e = self.ar.eq(p, q);
                let ne = self.ar.not(e);
                t = self.ar.or(t, ne);
            }
            let r = self.ar.zext(t, 32);
            return Ok(self.from_term(r));
        }
        let mut r = self.ar.k(0, 32);
        let m1 = self.ar.k(u32::MAX as u128, 32);
        let p1 = self.ar.k(1, 32);
        for (x, y) in xs.into_iter().rev() {
            let p = self.term(&x, 8)?;
            let q = self.term(&y, 8)?;
            let e = self.ar.eq(p, q);
            let lt = self.ar.bin(Op::Ult, p, q);
            let d = self.ar.ite(lt, m1, p1);
            r = self.ar.ite(e, r, d);
        }
        Ok(self.from_term(r))
    }
    fn fresh(&mut self, st: &mut State, name: &str, w: u32) -> T {
        let t = self.ar.var(st.inputs.len(), name, w);
        let k = st.inputs.len();
        st.inputs.push((name.to_string(), t));
        if st.steps <= st.retrace {
            let id = self.ar.nodes[t as usize].a;
            let mut map = st.model.map.clone();
            map.insert(id, self.start.vals[k]);
            st.model = Rc::new(Model { map, memo: Default::default() });
        }
        t
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> u64 {
        if n > 1 << 28 {
            return 0;
        }
        st.mem.nheap += 1;
        st.mem.alloc(n as usize, Kind::Heap)
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        if p & 0xffff_ffff != 0 {
            return Err(Stop::Mem(format!("free of interior pointer {:#x}", p)));
        }
        match st.mem.get(p) {
            Some(o) if o.kind == Kind::Heap => {}
            Some(o) => return Err(Stop::Mem(format!("free of {:?} memory", o.kind))),
            None => return Err(Stop::Mem(format!("double free of {:#x}", p))),
        }
        st.mem.free(p >> OBJ_SHIFT);
        Ok(())
    }

    pub fn call_extern(&mut self, st: &mut State, id: usize, ci: &CallI, a: Vec<Val>) -> R<()> {
        let m = self.m;
        let name: &str = &m.funcs[id].name;
        if let Some(n) = name.strip_prefix("llvm.") {
            let r = self.intrinsic(st, n, ci, &a)?;
            return self.finish_call(st, r);
        }
        let r: Option<Val> = match name {
            // ---- harness interface ----
            "vf_sym" => {
                // (bits, name ptr, name len) -> u64
                let w = self.s(st, &a[0])? as u32;
                let p = self.s(st, &a[1])?;
                let n = self.s(st, &a[2])? as usize;
                let nm = String::from_utf8_lossy(&self.bytes_conc(st, p, n)?).into_owned();
                let t = self.fresh(st, &nm, w);
                let z = self.ar.zext(t, 64);
                Some(Val::S(z))
            }
            "vf_choose" => {
                let n = self.s(st, &a[0])? as u32;
                let p = self.s(st, &a[1])?;
                let l = self.s(st, &a[2])? as usize;
                let nm = String::from_utf8_lossy(&self.bytes_conc(st, p, l)?).into_owned();
                if n == 0 {
                    return unsup("choose(0)");
                }
                let t = self.fresh(st, &nm, 32);
                if st.steps <= st.retrace {
                    let v = self.eval(st, t);
                    let kk = self.ar.k(v, 32);
                    let c = self.ar.eq(t, kk);
                    self.assume(st, c)?;
                    Some(Val::I(v as u64))
                } else {
                    // split: one state per value
                    for v in (1..n).rev() {
                        let mut s2 = st.clone();
                        let kk = self.ar.k(v as u128, 32);
                        let c = self.ar.eq(t, kk);
                        self.assume(&mut s2, c)?;
                        self.finish_call(&mut s2, Some(Val::I(v as u64)))?;
                        self.work.push(s2);
                        self.rep.forks += 1;
                    }
                    let kk = self.ar.k(0, 32);
                    let c = self.ar.eq(t, kk);
                    self.assume(st, c)?;
                    Some(Val::I(0))
                }
            }
            "vf_assume" => {
                let c = self.term(&a[0], 1).or_else(|_| self.term(&a[0], 8))?;
                let w = self.ar.w(c);
                let c = if w == 1 { c } else { self.ar.extract(c, 0, 1) };
                self.assume(st, c)?;
                None
            }
            "vf_assert" => {
                let c = match &a[0] {
                    Val::S(t) => {
                        let t = *t;
                        if self.ar.w(t) == 1 {
                            t
                        } else {
                            self.ar.extract(t, 0, 1)
                        }
                    }
                    v => {
                        let v = v.clone();
                        self.term(&v, 1)?
                    }
                };
                let p = self.s(st, &a[1])?;
                let n = self.s(st, &a[2])? as usize;
                let msg = String::from_utf8_lossy(&self.bytes_conc(st, p, n)?).into_owned();
                self.assert_(st, c, msg)?;
                None
            }
            "vf_cover" => {
                let p = self.s(st, &a[0])?;
                let n = self.s(st, &a[1])? as usize;
                let msg = String::from_utf8_lossy(&self.bytes_conc(st, p, n)?).into_owned();
                if !st.covers.contains(&msg) {
                    st.covers.push(msg);
                }
                None
            }
            "vf_print" => {
                let p = self.s(st, &a[0])?;
                let n = self.s(st, &a[1])? as usize;
                let b = self.bytes_conc(st, p, n)?;
                eprintln!("[print] {}", String::from_utf8_lossy(&b));
                None
            }
            "vf_concretize" => {
                let v = self.concretize(st, &a[0], 64)?;
                Some(Val::I(v as u64))
            }
            "vf_is_symbolic" => Some(Val::I(1)),
            "vf_decide" => {
                // fork on a boolean instead of building a merged value
                let v = match &a[0] {
                    Val::S(t) => {
                        let t = *t;
                        let t = if self.ar.w(t) == 1 { t } else { self.ar.extract(t, 0, 1) };
                        self.decide(st, t)?
                    }
                    Val::I(x) => *x & 1 == 1,
                    _ => return unsup("vf_decide"),
                };
                Some(Val::I(v as u64))
            }
            // ---- libc ----
            "malloc" => {
                let n = self.s(st, &a[0])?;
                Some(Val::I(self.malloc(st, n)))
            }
            "calloc" => {
                let n = self.s(st, &a[0])?.saturating_mul(self.s(st, &a[1])?);
                Some(Val::I(self.malloc(st, n)))
            }
            "realloc" => {
                let p = self.s(st, &a[0])?;
                let n = self.s(st, &a[1])?;
                let q = self.malloc(st, n);
                if p != 0 && q != 0 {
                    let old = match st.mem.get(p) {
                        Some(o) => o.data.len(),
                        None => return Err(Stop::Mem("realloc of freed memory".into())),
                    };
                    self.memcpy(st, q, p, old.min(n as usize))?;
                    self.free(st, p)?;
                }
                Some(Val::I(q))
            }
            "posix_memalign" => {
                let n = self.s(st, &a[2])?;
                let p = self.s(st, &a[0])?;
                let q = self.malloc(st, n);
                self.store_int(st, p, &Val::I(q), 64)?;
                Some(Val::I(0))
            }
            "free" => {
                let p = self.s(st, &a[0])?;
                self.free(st, p)?;
                None
            }
            "memcpy" | "memmove" => {
                let n = self.s(st, &a[2])? as usize;
                let d = self.addr(st, &a[0])?;
                let s = self.addr(st, &a[1])?;
                self.memcpy(st, d, s, n)?;
                Some(Val::I(d))
            }
            "memset" => {
                let n = self.s(st, &a[2])? as usize;
                let d = self.addr(st, &a[0])?;
                let b = match &a[1] {
                    Val::I(x) => Val::I(x & 0xff),
                    Val::S(t) => {
                        let e = self.ar.extract(*t, 0, 8);
                        Val::S(e)
                    }
                    _ => return unsup("memset"),
                };
                self.memset(st, d, &b, n)?;
                Some(Val::I(d))
            }
            "bcmp" | "memcmp" => {
                let n = self.s(st, &a[2])? as usize;
                let p = self.addr(st, &a[0])?;
                let q = self.addr(st, &a[1])?;
                Some(self.cmp_bytes(st, p, q, n, name == "bcmp")?)
            }
            "strlen" => {
                let p = self.addr(st, &a[0])?;
                let mut n = 0u64;
                loop {
                    let b = self.byte(st, p + n)?;
                    match b {
                        Val::I(0) => break,
                        Val::I(_) => {}
                        Val::S(t) => {
                            let z = self.ar.k(0, 8);
                            let e = self.ar.eq(t, z);
                            if self.decide(st, e)? {
                                break;
                            }
                        }
                        _ => return unsup("strlen"),
                    }
                    n += 1;
                }
                Some(Val::I(n))
            }
            "getrandom" => {
                let p = self.s(st, &a[0])?;
                let n = self.s(st, &a[1])? as usize;
                let b: Vec<u8> = (0..n)
                    .map(|_| {
                        st.rng = st.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (st.rng >> 33) as u8
                    })
                    .collect();
                self.write_conc(st, p, &b)?;
                Some(Val::I(n as u64))
            }
            "clock_gettime" => {
                let p = self.s(st, &a[1])?;
                st.time += 1;
                let t = st.time;
                self.store_int(st, p, &Val::I(t), 64)?;
                self.store_int(st, p + 8, &Val::I(1000), 64)?;
                Some(Val::I(0))
            }
            "__errno_location" => {
                if st.errno == 0 {
                    st.errno = st.mem.alloc(8, Kind::Global);
                }
                Some(Val::I(st.errno))
            }
            "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "pthread_mutex_destroy" | "pthread_mutex_init" => Some(Val::I(0)),
            "pthread_key_create" => {
                let p = self.s(st, &a[0])?;
                let k = st.tls_next;
                st.tls_next += 1;
                self.store_int(st, p, &Val::I(k), 32)?;
                Some(Val::I(0))
            }
            "pthread_setspecific" => {
                let k = self.s(st, &a[0])?;
                let v = self.s(st, &a[1])?;
                st.tls.insert(k, v);
                Some(Val::I(0))
            }
            "pthread_getspecific" => {
                let k = self.s(st, &a[0])?;
                Some(Val::I(*st.tls.get(&k).unwrap_or(&0)))
            }
            "pthread_self" | "gettid" | "getpid" => Some(Val::I(4242)),
            "__cxa_thread_atexit_impl" => Some(Val::I(0)),
            "getenv" | "secure_getenv" => Some(Val::I(0)),
            "dlsym" => {
                // only functions the module itself declares or defines
                let p = self.s(st, &a[1])?;
                let nm = String::from_utf8_lossy(&self.cstr(st, p)?).into_owned();
                match m.fn_by_name.get(&nm) {
                    Some(&i) => Some(Val::I(m.fn_addr(i))),
                    None => Some(Val::I(0)),
                }
            }
            "getauxval" => Some(Val::I(0)),
            "sysconf" => Some(Val::I(4096)),
            "sched_yield" => Some(Val::I(0)),
            "syscall" => {
                let n = self.s(st, &a[0])?;
                match n {
                    202 => {
                        // futex: WAIT blocks for ever in a single-threaded run
                        let op = self.s(st, &a[2])? & 0x7f;
                        if op == 0 || op == 9 {
                            return Err(Stop::Deadlock("thread blocks for ever on a lock it already holds".into()));
                        }
                        Some(Val::I(0))
                    }
                    186 => Some(Val::I(4242)),
                    318 => {
                        let p = self.s(st, &a[1])?;
                        let n = self.s(st, &a[2])? as usize;
                        let b = vec![7u8; n];
                        self.write_conc(st, p, &b)?;
                        Some(Val::I(n as u64))
                    }
                    _ => return unsup(format!("syscall {}", n)),
                }
            }
            "write" => {
                let n = self.s(st, &a[2])?;
                let p = self.s(st, &a[1])?;
                let b = self.bytes_conc(st, p, n as usize)?;
                st.stderr.extend(b);
                Some(Val::I(n))
            }
            "writev" => {
                let p = self.s(st, &a[1])?;
                let n = self.s(st, &a[2])?;
                let mut tot = 0;
                for i in 0..n {
                    let l = self.load_int(st, p + i * 16 + 8, 64)?;
                    tot += self.s(st, &l)?;
                }
                Some(Val::I(tot))
            }
            "abort" | "exit" | "_exit" => {
                let e = String::from_utf8_lossy(&st.stderr).into_owned();
                return Err(Stop::Panic(format!("process {} {}", name, e)));
            }
            "open" | "open64" | "stat64" | "lstat64" | "mkdir" | "readlink" | "realpath" | "unlink" => {
                let p = self.s(st, &a[0])?;
                let _ = self.cstr(st, p);
                self.set_errno(st, 2)?;
                Some(if name == "realpath" { Val::I(0) } else { Val::I(mask(ret_w(&ci.ret)) as u64) })
            }
            "statx" => {
                self.set_errno(st, 2)?;
                Some(Val::I(mask(32) as u64))
            }
            "close" | "munmap" | "sigaction" | "sigaltstack" | "signal" => Some(Val::I(0)),
            "_Unwind_Backtrace" | "dl_iterate_phdr" => Some(Val::I(0)),
            "sqrt" | "trunc" | "floor" | "ceil" => match &a[0] {
                Val::I(x) => {
                    let f = f64::from_bits(*x);
                    let r = match name {
                        "sqrt" => f.sqrt(),
                        "trunc" => f.trunc(),
                        "floor" => f.floor(),
                        _ => f.ceil(),
                    };
                    Some(Val::I(r.to_bits()))
                }
                Val::S(t) if name == "trunc" => {
                    let t = *t;
                    let r = self.ar.un(Op::FRoundZ, t, 64);
                    Some(self.from_term(r))
                }
                _ => return unsup(format!("symbolic {}", name)),
            },
            _ => {
                return unsup(format!("external function {}", name));
            }
        };
        self.finish_call(st, r)
    }

    pub fn memset(&mut self, st: &mut State, d: u64, b: &Val, n: usize) -> R<()> {
        match b {
            Val::I(x) => {
                let v = vec![*x as u8; n];
                self.write_conc(st, d, &v)
            }
            v => {
                for i in 0..n {
                    self.store_int(st, d + i as u64, v, 8)?;
                }
                Ok(())
            }
        }
    }

    fn map2(&mut self, a: &Val, b: &Val, ty: &Ty, f: &mut dyn FnMut(&mut Self, &Val, &Val, &Ty) -> R<Val>) -> R<Val> {
        if let (Ty::Vec(_, e), Val::A(x), Val::A(y)) = (ty, a, b) {
            let mut r = vec![];
            for i in 0..x.len() {
                r.push(f(self, &x[i], &y[i], e)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        f(self, a, b, ty)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, ci: &CallI, a: &[Val]) -> R<Option<Val>> {
        let ty = ci.args.get(0).map(|x| x.1.clone()).unwrap_or(Ty::Void);
        let base: &str = n.split('.').next().unwrap();
        Ok(match base {
            "memcpy" | "memmove" => {
                let len = self.concretize(st, &a[2], 64)? as usize;
                let d = self.addr(st, &a[0])?;
                let s = self.addr(st, &a[1])?;
                self.memcpy(st, d, s, len)?;
                None
            }
            "memset" => {
                let len = self.concretize(st, &a[2], 64)? as usize;
                let d = self.addr(st, &a[0])?;
                self.memset(st, d, &a[1], len)?;
                None
            }
            "trap" => return Err(Stop::Panic("trap".into())),
            "threadlocal" => Some(a[0].clone()),
            "is" => Some(Val::I(0)), // is.constant
            "expect" => Some(a[0].clone()),
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(self.map2(&a[0], &a[1], &ty, &mut |s, x, y, t| {
                    let c = s.icmp(p, x, y, t)?;
                    s.select(&c, x, y, t)
                })?)
            }
            "abs" => {
                let z = Val::I(0);
                let w = ty.bits();
                let z = if w > 64 { Val::B(Box::new(0)) } else { z };
                let c = self.icmp(Pred::Slt, &a[0], &z, &ty)?;
                let ng = self.bin(Bin::Sub, &z, &a[0], &ty)?;
                Some(self.select(&c, &ng, &a[0], &ty)?)
            }
            "ucmp" | "scmp" => {
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let w = ci.ret.bits();
                let lt = self.icmp(p, &a[0], &a[1], &ty)?;
                let gt = self.icmp(p, &a[1], &a[0], &ty)?;
                let one = Val::I(1);
                let zero = Val::I(0);
                let m1 = Val::I(mask(w) as u64);
                let rt = Ty::Int(w);
                let x = self.select(&gt, &one, &zero, &rt)?;
                Some(self.select(&lt, &m1, &x, &rt)?)
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let w = ty.bits();
                if n.contains(".sat.") {
                    return Ok(Some(self.map2(&a[0], &a[1], &ty, &mut |s, x, y, t| s.sat(base, x, y, t))?));
                }
                // with.overflow
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    if w <= 64 {
                        let (xi, yi) = if base.starts_with('s') { (sx(*x as u128, w), sx(*y as u128, w)) } else { (*x as i128, *y as i128) };
                        let full = match &base[1..] {
                            "add" => xi + yi,
                            "sub" => xi - yi,
                            _ => match xi.checked_mul(yi) {
                                Some(v) => v,
                                None => {
                                    // only unsigned 64x64 can exceed i128
                                    let v = (*x as u128) * (*y as u128);
                                    return Ok(Some(pair(Val::I(v as u64), true)));
                                }
                            },
                        };
                        let r = (full as u128) & mask(w);
                        let back = if base.starts_with('s') { sx(r, w) } else { r as i128 };
                        return Ok(Some(pair(Val::I(r as u64), back != full)));
                    }
                }
                if w == 128 {
                    if let (Some(x), Some(y)) = (c128(&a[0]), c128(&a[1])) {
                        let (r, o) = match base {
                            "uadd" => x.overflowing_add(y),
                            "usub" => x.overflowing_sub(y),
                            "umul" => x.overflowing_mul(y),
                            "sadd" => {
                                let (r, o) = (x as i128).overflowing_add(y as i128);
                                (r as u128, o)
                            }
                            "ssub" => {
                                let (r, o) = (x as i128).overflowing_sub(y as i128);
                                (r as u128, o)
                            }
                            _ => {
                                let (r, o) = (x as i128).overflowing_mul(y as i128);
                                (r as u128, o)
                            }
                        };
                        return Ok(Some(pair(Val::B(Box::new(r)), o)));
                    }
                    return unsup("symbolic i128 overflow op");
                }
                if w > 64 {
                    return unsup("wide overflow op");
                }
                let x = self.term(&a[0], w)?;
                let y = self.term(&a[1], w)?;
                let signed = base.starts_with('s');
                let mul = base.ends_with("mul");
                let ww = if mul { 2 * w } else { w + 1 };
                let (xe, ye) = if signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let full = self.ar.bin(op, xe, ye);
                let r = self.ar.bin(op, x, y);
                let back = if signed { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                let e = self.ar.eq(full, back);
                let o = if !signed && op == Op::Sub {
                    self.ar.bin(Op::Ult, x, y)
                } else {
                    self.ar.not(e)
                };
                Some(Val::A(Rc::new(vec![self.from_term(r), self.from_term(o)])))
            }
            "fshl" | "fshr" => {
                if let Ty::Vec(_, e) = &ty {
                    let mut r = vec![];
                    if let (Val::A(x), Val::A(y), Val::A(z)) = (&a[0], &a[1], &a[2]) {
                        for i in 0..x.len() {
                            r.push(self.fsh(base, &x[i], &y[i], &z[i], e.bits())?);
                        }
                    }
                    return Ok(Some(Val::A(Rc::new(r))));
                }
                Some(self.fsh(base, &a[0], &a[1], &a[2], ty.bits())?)
            }
            "bswap" => {
                let w = ty.bits();
                Some(match c128(&a[0]) {
                    Some(x) => {
                        let r = x.swap_bytes() >> (128 - w);
                        Self::mkc(r, w)
                    }
                    None => {
                        let t = self.term(&a[0], w)?;
                        let nb = w / 8;
                        let mut r = self.ar.extract(t, 0, 8);
                        for i in 1..nb {
                            let e = self.ar.extract(t, i * 8, 8);
                            r = self.ar.concat(r, e);
                        }
                        self.from_term(r)
                    }
                })
            }
            "bitreverse" => {
                let w = ty.bits();
                match c128(&a[0]) {
                    Some(x) => Some(Self::mkc(x.reverse_bits() >> (128 - w), w)),
                    None => return unsup("symbolic bitreverse"),
                }
            }
            "ctlz" | "cttz" | "ctpop" => {
                let w = ty.bits();
                match c128(&a[0]) {
                    Some(x) => {
                        let r = match base {
                            "ctlz" => x.leading_zeros() - (128 - w),
                            "cttz" => x.trailing_zeros().min(w),
                            _ => x.count_ones(),
                        };
                        Some(Self::mkc(r as u128, w))
                    }
                    None => {
                        let t = self.term(&a[0], w)?;
                        let mut r;
                        if base == "ctpop" {
                            r = self.ar.k(0, w);
                            for i in 0..w {
                                let b = self.ar.extract(t, i, 1);
                                let z = self.ar.zext(b, w);
                                r = self.ar.bin(Op::Add, r, z);
                            }
                        } else {
                            r = self.ar.k(w as u128, w);
                            let order: Vec<u32> = if base == "cttz" { (0..w).rev().collect() } else { (0..w).collect() };
                            for i in order {
                                let b = self.ar.extract(t, i, 1);
                                let v = if base == "cttz" { i } else { w - 1 - i };
                                let k = self.ar.k(v as u128, w);
                                r = self.ar.ite(b, k, r);
                            }
                        }
                        Some(self.from_term(r))
                    }
                }
            }
            "is" if n.starts_with("is.fpclass.f64") => {
                let m = match &a[1] {
                    Val::I(m) => *m,
                    _ => return unsup("fpclass mask"),
                };
                let t = self.term(&a[0], 64)?;
                let sign = self.ar.extract(t, 63, 1);
                let exp = self.ar.extract(t, 52, 11);
                let man = self.ar.extract(t, 0, 52);
                let quiet = self.ar.extract(t, 51, 1);
                let (z11, o11, z52) = (self.ar.k(0, 11), self.ar.k(0x7ff, 11), self.ar.k(0, 52));
                let (e0, e1, m0) = (self.ar.eq(exp, z11), self.ar.eq(exp, o11), self.ar.eq(man, z52));
                let (ne0, ne1, nm0) = (self.ar.not(e0), self.ar.not(e1), self.ar.not(m0));
                let (pos, nq) = (self.ar.not(sign), self.ar.not(quiet));
                let nan = self.ar.bin(Op::And, e1, nm0);
                let inf = self.ar.bin(Op::And, e1, m0);
                let nor = self.ar.bin(Op::And, ne0, ne1);
                let sub = self.ar.bin(Op::And, e0, nm0);
                let zer = self.ar.bin(Op::And, e0, m0);
                let cls = [(nan, nq), (nan, quiet), (inf, sign), (nor, sign), (sub, sign), (zer, sign), (zer, pos), (sub, pos), (nor, pos), (inf, pos)];
                let mut r = self.ar.k(0, 1);
                for (i, (c, s)) in cls.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        let x = self.ar.bin(Op::And, *c, *s);
                        r = self.ar.bin(Op::Or, r, x);
                    }
                }
                Some(self.from_term(r))
            }
            "fabs" => {
                let w = ty.bits();
                let k = Self::mkc(mask(w) >> 1, w);
                Some(self.bin(Bin::And, &a[0], &k, &Ty::Int(w))?)
            }
            "trunc" | "floor" | "ceil" | "sqrt" | "round" | "rint" | "nearbyint" => match &a[0] {
                Val::I(x) if ty == Ty::F64 => {
                    let f = f64::from_bits(*x);
                    let r = match base {
                        "trunc" => f.trunc(),
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "sqrt" => f.sqrt(),
                        "round" => f.round(),
                        _ => return unsup(base),
                    };
                    Some(Val::I(r.to_bits()))
                }
                Val::S(t) if base == "trunc" && ty == Ty::F64 => {
                    let t = *t;
                    let r = self.ar.un(Op::FRoundZ, t, 64);
                    Some(self.from_term(r))
                }
                _ => return unsup(format!("intrinsic {}", n)),
            },
            "fptosi" | "fptoui" => {
                // saturating
                let w = ci.ret.bits();
                let signed = base == "fptosi";
                match &a[0] {
                    Val::I(x) => {
                        let f = if ty == Ty::F32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
                        let r = if f.is_nan() {
                            0
                        } else if signed {
                            let lo = -(1i128 << (w - 1));
                            let hi = (1i128 << (w - 1)) - 1;
                            ((f as i128).clamp(lo, hi)) as u128
                        } else {
                            (f as u128).min(mask(w))
                        };
                        Some(Self::mkc(r, w))
                    }
                    Val::S(t) => {
                        if ty != Ty::F64 {
                            return unsup("symbolic f32");
                        }
                        let t = *t;
                        let (lo, hi, minv, maxv) = if signed {
                            (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w) >> 1)
                        } else {
                            (0.0, 2f64.powi(w as i32), 0, mask(w))
                        };
                        let nan = self.ar.un(Op::FIsNan, t, 1);
                        let klo = self.ar.k(lo.to_bits() as u128, 64);
                        let khi = self.ar.k(hi.to_bits() as u128, 64);
                        let below = self.ar.bin(Op::FLt, t, klo);
                        let above = self.ar.bin(Op::FLe, khi, t);
                        let cv = self.ar.un(if signed { Op::FToS } else { Op::FToU }, t, w);
                        let kmin = self.ar.k(minv, w);
                        let kmax = self.ar.k(maxv, w);
                        let z = self.ar.k(0, w);
                        let r = self.ar.ite(above, kmax, cv);
                        let r = self.ar.ite(below, kmin, r);
                        let r = self.ar.ite(nan, z, r);
                        Some(self.from_term(r))
                    }
                    _ => return unsup("fptosi"),
                }
            }
            "vector" => {
                // reductions
                let parts: Vec<&str> = n.split('.').collect();
                if parts.len() > 2 && parts[1] == "reduce" {
                    if let (Val::A(x), Ty::Vec(_, e)) = (&a[0], &ty) {
                        let mut r = x[0].clone();
                        for v in &x[1..] {
                            r = match parts[2] {
                                "or" => self.bin(Bin::Or, &r, v, e)?,
                                "and" => self.bin(Bin::And, &r, v, e)?,
                                "add" => self.bin(Bin::Add, &r, v, e)?,
                                "xor" => self.bin(Bin::Xor, &r, v, e)?,
                                "mul" => self.bin(Bin::Mul, &r, v, e)?,
                                "umax" | "umin" | "smax" | "smin" => {
                                    let p = match parts[2] {
                                        "umax" => Pred::Ugt,
                                        "umin" => Pred::Ult,
                                        "smax" => Pred::Sgt,
                                        _ => Pred::Slt,
                                    };
                                    let c = self.icmp(p, &r, v, e)?;
                                    self.select(&c, &r, v, e)?
                                }
                                _ => return unsup(format!("intrinsic {}", n)),
                            };
                        }
                        return Ok(Some(r));
                    }
                }
                return unsup(format!("intrinsic {}", n));
            }
            "x86" => match n {
                "x86.sse2.pause" => None,
                "x86.sse2.pmovmskb.128" => {
                    if let Val::A(x) = &a[0] {
                        let x = x.clone();
                        let mut r = self.ar.k(0, 32);
                        for (i, v) in x.iter().enumerate() {
                            let t = self.term(v, 8)?;
                            let b = self.ar.extract(t, 7, 1);
                            let z = self.ar.zext(b, 32);
                            let k = self.ar.k(i as u128, 32);
                            let z = self.ar.bin(Op::Shl, z, k);
                            r = self.ar.bin(Op::Or, r, z);
                        }
                        Some(self.from_term(r))
                    } else {
                        return unsup("pmovmskb");
                    }
                }
                _ => return unsup(format!("intrinsic {}", n)),
            },
            "stacksave" => Some(Val::I(0)),
            "stackrestore" => None,
            "va_start" | "va_end" => return unsup("varargs"),
            "assume" | "lifetime" | "dbg" | "experimental" | "prefetch" | "sideeffect" => None,
            _ => return unsup(format!("intrinsic llvm.{}", n)),
        })
    }
    fn fsh(&mut self, base: &str, x: &Val, y: &Val, z: &Val, w: u32) -> R<Val> {
        if let (Some(p), Some(q), Some(s)) = (c128(x), c128(y), c128(z)) {
            let s = (s % w as u128) as u32;
            let r = if s == 0 {
                if base == "fshl" {
                    p
                } else {
                    q
                }
            } else if base == "fshl" {
                (p << s) | (q >> (w - s))
            } else {
                (p << (w - s)) | (q >> s)
            };
            return Ok(Self::mkc(r, w));
        }
        match c128(z) {
            Some(s) => {
                let s = (s % w as u128) as u32;
                let p = self.term(x, w)?;
                let q = self.term(y, w)?;
                let r = if s == 0 {
                    if base == "fshl" {
                        p
                    } else {
                        q
                    }
                } else {
                    let sl = if base == "fshl" { s } else { w - s };
                    let hi = self.ar.extract(p, 0, w - sl);
                    let lo = self.ar.extract(q, w - sl, sl);
                    self.ar.concat(hi, lo)
                };
                Ok(self.from_term(r))
            }
            None => unsup("symbolic funnel shift amount"),
        }
    }
    fn sat(&mut self, base: &str, x: &Val, y: &Val, t: &Ty) -> R<Val> {
        let w = t.bits();
        match base {
            "usub" => {
                let c = self.icmp(Pred::Ult, x, y, t)?;
                let d = self.bin(Bin::Sub, x, y, t)?;
                self.select(&c, &Val::I(0), &d, t)
            }
            "uadd" => {
                let d = self.bin(Bin::Add, x, y, t)?;
                let c = self.icmp(Pred::Ult, &d, x, t)?;
                let m = Self::mkc(mask(w), w);
                self.select(&c, &m, &d, t)
            }
            "sadd" | "ssub" => {
                let op = if base == "sadd" { Bin::Add } else { Bin::Sub };
                let tt = self.term(x, w)?;
                let uu = self.term(y, w)?;
                let (xe, ye) = (self.ar.sext(tt, w + 1), self.ar.sext(uu, w + 1));
                let f = self.ar.bin(if base == "sadd" { Op::Add } else { Op::Sub }, xe, ye);
                let d = self.bin(op, x, y, t)?;
                let dt = self.term(&d, w)?;
                let back = self.ar.sext(dt, w + 1);
                let e = self.ar.eq(f, back);
                let neg = self.ar.extract(f, w, 1);
                let mn = self.ar.k(1u128 << (w - 1), w);
                let mx = self.ar.k(mask(w) >> 1, w);
                let s = self.ar.ite(neg, mn, mx);
                let r = self.ar.ite(e, dt, s);
                Ok(self.from_term(r))
            }
            _ => unsup(format!("{} sat", base)),
        }
    }
}

fn ret_w(t: &Ty) -> u32 {
    if t.is_scalar() {
        t.bits()
    } else {
        64
    }
}
fn pair(v: Val, o: bool) -> Val {
    Val::A(Rc::new(vec![v, Val::I(o as u64)]))
}
fn c128(v: &Val) -> Option<u128> {
    match v {
        Val::I(x) => Some(*x as u128),
        Val::B(x) => Some(**x),
        _ => None,
    }
}
