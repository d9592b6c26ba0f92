// Symbolic interpreter: explores every feasible path of a harness entry point.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::{self, bin_const, mask, sx, Arena, FxMap, Op, T};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(T),
    B(Box<u128>),
    A(Rc<Vec<Val>>),
}

pub struct FnC {
    pub f: Arc<Func>,
    pub consts: Vec<Val>,
    pub hook: Hook,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    None,
    Panic,
    /// decimal text of a number: width, passed by reference
    NumText(u32, bool),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<FnC>,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub obj: u64, // stack object id, 0 if none
    pub dyn_objs: Vec<u64>,
}

pub struct Model {
    pub map: FxMap<u32, u128>,
    pub memo: RefCell<FxMap<T, u128>>,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Rc<Frame>>,
    pub pc: Vec<T>,
    pub model: Rc<Model>,
    pub inputs: Vec<(String, T)>,
    /// instructions at which this path was split
    pub split_at: Vec<u64>,
    /// up to here the path retraces a handed-over one
    pub retrace: u64,
    pub steps: u64,
    pub time: u64,
    pub rng: u64,
    pub tls: BTreeMap<u64, u64>,
    pub tls_next: u64,
    pub errno: u64,
    pub stderr: Vec<u8>,
    pub expect_panic: bool,
    pub covers: Vec<String>,
    pub forks: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Prune,
    Panic(String),
    Mem(String),
    Assert(String),
    Unsup(String),
    Deadlock(String),
    Pause,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(String, u32, u128)>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub asserts_proved: u64,
    pub max_path_insts: u64,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub cover_inputs: BTreeMap<String, Vec<(String, u32, u128)>>,
    pub funcs: BTreeSet<usize>,
    pub samples: Vec<Vec<(String, u32, u128)>>,
    pub viol_counts: std::collections::BTreeMap<String, u64>,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_violations: usize,
    pub max_samples: usize,
    pub deadline: Instant,
    /// set to a few seconds after the first violation
    pub grace: &'static std::sync::Mutex<Option<Instant>>,
    pub grace_s: u64,
}

pub type R<X> = Result<X, Stop>;

pub enum Flow {
    Next,
    Jump,
}

#[derive(Clone, Default)]
pub struct Start {
    pub steps: u64,
    pub vals: Vec<u128>,
    pub split_at: Vec<u64>,
}

pub struct Exec<'a> {
    pub m: &'a Module,
    pub ar: Arena,
    pub sv: Solver,
    pub fns: HashMap<usize, Rc<FnC>>,
    pub base: Option<Mem>,
    pub work: Vec<State>,
    pub rep: Report,
    pub lim: Limits,
    /// does another worker want work?
    pub wanted: &'a dyn Fn() -> bool,
    /// hand a path over: the instruction it is at, its input values, where it was split
    pub give: &'a dyn Fn(u64, Vec<u128>, Vec<u64>),
    /// the path this job continues
    pub start: Start,
    pub pause_at: u64,
    pub trace_calls: bool,
    pub args: Vec<u64>,
}

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsup(s.into()))
}

/// Readable form of a v0-mangled symbol: its identifiers joined by "::".
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 {
                i = j + 1;
                continue;
            }
            i += 1;
        } else if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 {
                out.push(&n[j..j + l]);
                i = j + l;
            } else {
                i = j;
            }
        } else if b[i] == b'B' {
            // back reference B<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}

fn fbits32(x: u64) -> f32 {
    f32::from_bits(x as u32)
}

impl<'a> Exec<'a> {
    // ---------- values ----------
    #[inline]
    pub fn mkc(v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I((v & mask(w)) as u64)
        } else {
            Val::B(Box::new(v & mask(w)))
        }
    }
    pub fn from_term(&self, t: T) -> Val {
        match self.ar.kv(t) {
            Some(v) => Self::mkc(v, self.ar.w(t)),
            None => Val::S(t),
        }
    }
    pub fn term(&mut self, v: &Val, w: u32) -> R<T> {
        Ok(match v {
            Val::I(x) => self.ar.k(*x as u128, w),
            Val::B(x) => self.ar.k(**x, w),
            Val::S(t) => {
                if self.ar.w(*t) != w {
                    return unsup(format!("width mismatch {} {}", self.ar.w(*t), w));
                }
                *t
            }
            Val::A(_) => return unsup("aggregate as scalar"),
        })
    }
    fn conc(v: &Val) -> Option<u128> {
        match v {
            Val::I(x) => Some(*x as u128),
            Val::B(x) => Some(**x),
            _ => None,
        }
    }
    fn cval(v: &CVal, ty: &Ty) -> Val {
        match v {
            CVal::I(x) => {
                if ty.is_scalar() {
                    Self::mkc(*x, ty.bits().min(128))
                } else {
                    Val::I(*x as u64)
                }
            }
            CVal::Agg(es) => Val::A(Rc::new(es.iter().enumerate().map(|(i, e)| Self::cval(e, &ty.elem(i))).collect())),
        }
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => Val::A(Rc::new((0..ty.nelem()).map(|i| Self::zero(&ty.elem(i))).collect())),
            Ty::Int(w) if *w > 64 => Val::B(Box::new(0)),
            _ => Val::I(0),
        }
    }
    pub fn fnc(&mut self, id: usize) -> R<Rc<FnC>> {
        if let Some(f) = self.fns.get(&id) {
            return Ok(f.clone());
        }
        let f = self.m.func(id).map_err(Stop::Unsup)?;
        let consts = f.consts.iter().map(|(v, t)| Self::cval(v, t)).collect();
        let n = &f.name;
        let hook = if is_panic_fn(n) { Hook::Panic } else if let Some((w, by_ptr)) = num_text_fn(n) { Hook::NumText(w, by_ptr) } else { Hook::None };
        let c = Rc::new(FnC { f, consts, hook });
        self.fns.insert(id, c.clone());
        self.rep.funcs.insert(id);
        Ok(c)
    }

    // ---------- model / solver ----------
    pub fn eval(&self, st: &State, t: T) -> u128 {
        if let Some(v) = self.ar.kv(t) {
            return v;
        }
        let m = &st.model;
        let mut memo = m.memo.borrow_mut();
        self.ar.eval(t, &|v| *m.map.get(&v).unwrap_or(&0), &mut memo)
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut vars: BTreeSet<u32> = self.ar.vset(c).iter().copied().collect();
        let mut out = vec![c];
        let mut left: Vec<(T, Rc<[u32]>)> = st.pc.iter().map(|&t| (t, self.ar.vset(t))).collect();
        loop {
            let before = out.len();
            let mut rest = vec![];
            for (t, vs) in left {
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter().copied());
                    out.push(t);
                } else {
                    rest.push((t, vs));
                }
            }
            left = rest;
            if out.len() == before {
                break;
            }
        }
        out
    }
    pub fn sat_with(&mut self, st: &State, c: T) -> Res {
        match self.ar.kv(c) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(vec![]),
            None => {}
        }
        let cs = self.slice(st, c);
        self.sv.check(&mut self.ar, &cs)
    }
    fn with_model(st: &mut State, asg: &[(u32, u128)]) {
        if asg.is_empty() {
            return;
        }
        let mut map = st.model.map.clone();
        for (v, x) in asg {
            map.insert(*v, *x);
        }
        st.model = Rc::new(Model { map, memo: Default::default() });
    }
    fn push_pc(&mut self, st: &mut State, c: T) {
        if self.ar.kv(c) == Some(1) {
            return;
        }
        let n = self.ar.nodes[c as usize];
        if n.op == Op::And {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    /// Decide a boolean term on this path, forking when both outcomes are feasible.
    /// Must be called before the current instruction has changed the state.
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = self.ar.kv(c) {
            return Ok(v == 1);
        }
        let nc = self.ar.not(c);
        if st.pc.contains(&c) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        let v = self.eval(st, c) == 1;
        let (taken, other) = if v { (c, nc) } else { (nc, c) };
        if st.steps <= st.retrace {
            if self.start.split_at.binary_search(&st.steps).is_ok() {
                self.push_pc(st, taken);
            }
            return Ok(v);
        }
        match self.sat_with(st, other) {
            Res::Sat(asg) => {
                let mut s2 = st.clone();
                Self::with_model(&mut s2, &asg);
                self.push_pc(&mut s2, other);
                s2.forks += 1;
                s2.split_at.push(st.steps);
                s2.steps -= 1;
                st.split_at.push(st.steps);
                self.work.push(s2);
                self.rep.forks += 1;
                self.push_pc(st, taken);
            }
            Res::Unsat => {}
            Res::Unknown => {
                *self.rep.errors.entry(format!("solver gave no answer at {}", Self::where_(st))).or_insert(0) += 1;
                self.push_pc(st, taken);
            }
        }
        Ok(v)
    }
    pub fn decide_v(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 == 1),
            Val::S(t) => self.decide(st, *t),
            _ => unsup("cond"),
        }
    }
    /// Fix a term to one value on this path (forking over the others).
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::I(x) => Ok(*x as u128),
            Val::B(x) => Ok(**x),
            Val::S(t) => {
                let x = self.eval(st, *t);
                let k = self.ar.k(x, w);
                let c = self.ar.eq(*t, k);
                let b = self.decide(st, c)?;
                debug_assert!(b);
                Ok(x)
            }
            _ => unsup("concretize aggregate"),
        }
    }
    pub fn where_(st: &State) -> String {
        st.frames.last().map(|f| demangle(&f.f.f.name)).unwrap_or_default()
    }
    pub fn trace(st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| demangle(&f.f.f.name)).collect()
    }
    pub fn inputs(&self, st: &State) -> Vec<(String, u32, u128)> {
        st.inputs.iter().map(|(n, t)| (n.clone(), self.ar.w(*t), self.eval(st, *t))).collect()
    }

    // ---------- memory ----------
    fn oob<X>(st: &State, addr: u64, n: usize, what: &str) -> R<X> {
        let d = match st.mem.get(addr) {
            Some(o) => format!("{:?} object of {} bytes", o.kind, o.data.len()),
            None => "no live object".to_string(),
        };
        Err(Stop::Mem(format!("{} of {} bytes at {:#x} ({}) in {}", what, n, addr, d, Self::where_(st))))
    }
    pub fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let o = match st.mem.get(addr) {
            Some(o) if off + n <= o.data.len() => o,
            _ => return Self::oob(st, addr, n, "read"),
        };
        if !o.is_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let x = u64::from_le_bytes(b);
                return Ok(Val::I(if w >= 64 { x } else { x & ((1u64 << w) - 1) }));
            }
            if n > 16 {
                return unsup(format!("load of i{}", w));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Self::mkc(u128::from_le_bytes(b), w));
        }
        if n > 16 {
            return unsup(format!("load of symbolic i{}", w));
        }
        let bytes: Vec<T> = (0..n).map(|i| if o.sym[off + i] != NOSYM { o.sym[off + i] } else { self.ar.k(o.data[off + i] as u128, 8) }).collect();
        let mut t = bytes[n - 1];
        for i in (0..n - 1).rev() {
            t = self.ar.concat(t, bytes[i]);
        }
        if w < n as u32 * 8 {
            t = self.ar.extract(t, 0, w);
        }
        Ok(self.from_term(t))
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, v: &Val, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match st.mem.get(addr) {
            Some(o) if off + n <= o.data.len() => {
                if o.kind == Kind::Const {
                    return Self::oob(st, addr, n, "write to constant");
                }
            }
            _ => return Self::oob(st, addr, n, "write"),
        }
        let o = st.mem.get_mut(addr).unwrap();
        match v {
            Val::I(x) => {
                let b = x.to_le_bytes();
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    for k in 8..n {
                        o.data[off + k] = 0;
                    }
                }
                if !o.sym.is_empty() {
                    for k in 0..n {
                        o.sym[off + k] = NOSYM;
                    }
                }
            }
            Val::B(x) => {
                let b = x.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if !o.sym.is_empty() {
                    for k in 0..n {
                        o.sym[off + k] = NOSYM;
                    }
                }
            }
            Val::S(t) => {
                let t = self.ar.zext(*t, n as u32 * 8);
                if o.sym.is_empty() {
                    o.sym = vec![NOSYM; o.data.len()];
                }
                for k in 0..n {
                    let e = self.ar.extract(t, k as u32 * 8, 8);
                    match self.ar.kv(e) {
                        Some(v) => {
                            o.data[off + k] = v as u8;
                            o.sym[off + k] = NOSYM;
                        }
                        None => o.sym[off + k] = e,
                    }
                }
            }
            Val::A(_) => return unsup("store aggregate as int"),
        }
        Ok(())
    }
    pub fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, addr, 64),
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..ty.nelem() {
                    v.push(self.load(st, addr + ty.field_off(i), &ty.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let w = e.bits();
                if w % 8 == 0 {
                    let mut v = vec![];
                    for i in 0..*n {
                        v.push(self.load_int(st, addr + (i * w / 8) as u64, w)?);
                    }
                    Ok(Val::A(Rc::new(v)))
                } else {
                    let x = self.load_int(st, addr, n * w)?;
                    self.split(&x, *n, w)
                }
            }
            _ => unsup(format!("load {:?}", ty)),
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, v: &Val, ty: &Ty) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, addr, v, *w),
            Ty::Ptr | Ty::F64 => self.store_int(st, addr, v, 64),
            Ty::F32 => self.store_int(st, addr, v, 32),
            Ty::Struct(..) | Ty::Arr(..) => {
                if let Val::A(es) = v {
                    for (i, e) in es.iter().enumerate() {
                        self.store(st, addr + ty.field_off(i), e, &ty.elem(i))?;
                    }
                    Ok(())
                } else {
                    unsup("store agg")
                }
            }
            Ty::Vec(n, e) => {
                let w = e.bits();
                if let Val::A(es) = v {
                    if w % 8 == 0 {
                        for (i, x) in es.iter().enumerate() {
                            self.store_int(st, addr + (i as u32 * w / 8) as u64, x, w)?;
                        }
                        return Ok(());
                    }
                    let x = self.join(es, w)?;
                    return self.store_int(st, addr, &x, n * w);
                }
                unsup("store vec")
            }
            _ => unsup(format!("store {:?}", ty)),
        }
    }
    fn split(&mut self, x: &Val, n: u32, w: u32) -> R<Val> {
        let mut v = vec![];
        match Self::conc(x) {
            Some(c) => {
                for i in 0..n {
                    v.push(Self::mkc(c >> (i * w), w));
                }
            }
            None => {
                let t = match x {
                    Val::S(t) => *t,
                    _ => return unsup("split"),
                };
                for i in 0..n {
                    let e = self.ar.extract(t, i * w, w);
                    v.push(self.from_term(e));
                }
            }
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn join(&mut self, es: &[Val], w: u32) -> R<Val> {
        let tot = w * es.len() as u32;
        if tot > 128 {
            return unsup(format!("join to {} bits", tot));
        }
        if es.iter().all(|e| Self::conc(e).is_some()) {
            let mut r = 0u128;
            for (i, e) in es.iter().enumerate() {
                r |= Self::conc(e).unwrap() << (i as u32 * w);
            }
            return Ok(Self::mkc(r, tot));
        }
        let mut t = self.term(&es[es.len() - 1], w)?;
        for e in es[..es.len() - 1].iter().rev() {
            let l = self.term(e, w)?;
            t = self.ar.concat(t, l);
        }
        Ok(self.from_term(t))
    }
    pub fn byte(&mut self, st: &State, addr: u64) -> R<Val> {
        self.load_int(st, addr, 8)
    }
    pub fn bytes_conc(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = (addr & 0xffff_ffff) as usize;
        match st.mem.get(addr) {
            Some(o) if off + n <= o.data.len() => {
                if o.is_sym(off, n) {
                    let mut r = o.data[off..off + n].to_vec();
                    for k in 0..n {
                        if o.sym[off + k] != NOSYM {
                            r[k] = self.eval(st, o.sym[off + k]) as u8;
                        }
                    }
                    return Ok(r);
                }
                Ok(o.data[off..off + n].to_vec())
            }
            _ => Self::oob(st, addr, n, "read"),
        }
    }
    pub fn write_conc(&mut self, st: &mut State, addr: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        match st.mem.get(addr) {
            Some(o) if off + b.len() <= o.data.len() => {}
            _ => return Self::oob(st, addr, b.len(), "write"),
        }
        let o = st.mem.get_mut(addr).unwrap();
        o.data[off..off + b.len()].copy_from_slice(b);
        if !o.sym.is_empty() {
            for k in 0..b.len() {
                o.sym[off + k] = NOSYM;
            }
        }
        Ok(())
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let so = (s & 0xffff_ffff) as usize;
        let dof = (d & 0xffff_ffff) as usize;
        let (data, sym) = match st.mem.get(s) {
            Some(o) if so + n <= o.data.len() => {
                let sym = if o.is_sym(so, n) { Some(o.sym[so..so + n].to_vec()) } else { None };
                (o.data[so..so + n].to_vec(), sym)
            }
            _ => return Self::oob(st, s, n, "copy read"),
        };
        match st.mem.get(d) {
            Some(o) if dof + n <= o.data.len() && o.kind != Kind::Const => {}
            _ => return Self::oob(st, d, n, "copy write"),
        }
        let o = st.mem.get_mut(d).unwrap();
        o.data[dof..dof + n].copy_from_slice(&data);
        match sym {
            Some(sy) => {
                if o.sym.is_empty() {
                    o.sym = vec![NOSYM; o.data.len()];
                }
                o.sym[dof..dof + n].copy_from_slice(&sy);
            }
            None => {
                if !o.sym.is_empty() {
                    for k in 0..n {
                        o.sym[dof + k] = NOSYM;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn addr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            _ => Ok(self.concretize(st, v, 64)? as u64),
        }
    }
    /// Load through a possibly symbolic address.
    fn load_sym(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        if let Val::I(a) = p {
            return self.load(st, *a, ty);
        }
        let t = match p {
            Val::S(t) => *t,
            _ => return unsup("ptr"),
        };
        let a0 = self.eval(st, t) as u64;
        let n = ty.store_size();
        if ty.is_scalar() {
            if let Some(o) = st.mem.get(a0) {
                let size = o.data.len() as u64;
                let base = a0 >> OBJ_SHIFT << OBJ_SHIFT;
                if size >= n && size <= 4096 {
                    // is the address always inside this object?
                    let b = self.ar.k(base as u128, 64);
                    let d = self.ar.bin(Op::Sub, t, b);
                    let lim = self.ar.k((size - n) as u128, 64);
                    let inb = self.ar.bin(Op::Ule, d, lim);
                    let out = self.ar.not(inb);
                    if let Res::Unsat = self.sat_with(st, out) {
                        // collect feasible offsets (bounded) and build an if-then-else chain
                        let mut offs: Vec<u64> = vec![];
                        let mut blocked: Option<T> = None;
                        let mut ok = true;
                        let mut cur = Some(a0);
                        while let Some(a) = cur {
                            offs.push(a);
                            if offs.len() > 260 {
                                ok = false;
                                break;
                            }
                            let k = self.ar.k(a as u128, 64);
                            let e = self.ar.eq(t, k);
                            let ne = self.ar.not(e);
                            let c = match blocked {
                                Some(b) => self.ar.and(b, ne),
                                None => ne,
                            };
                            blocked = Some(c);
                            match self.sat_with(st, c) {
                                Res::Sat(asg) => {
                                    let mm: FxMap<u32, u128> = asg.into_iter().collect();
                                    let mut memo = Default::default();
                                    let model = st.model.clone();
                                    let x = self.ar.eval(t, &|v| *mm.get(&v).or(model.map.get(&v)).unwrap_or(&0), &mut memo);
                                    cur = Some(x as u64);
                                }
                                Res::Unsat => cur = None,
                                Res::Unknown => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            offs.sort();
                            let w = ty.bits();
                            let v = self.load(st, offs[offs.len() - 1], ty)?;
                            let mut r = self.term(&v, w)?;
                            for &a in offs[..offs.len() - 1].iter().rev() {
                                let v = self.load(st, a, ty)?;
                                let x = self.term(&v, w)?;
                                let k = self.ar.k(a as u128, 64);
                                let e = self.ar.eq(t, k);
                                r = self.ar.ite(e, x, r);
                            }
                            return Ok(self.from_term(r));
                        }
                    }
                }
            }
        }
        let a = self.addr(st, p)?;
        self.load(st, a, ty)
    }

    // ---------- operations ----------
    pub fn bin(&mut self, op: Bin, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Vec(_, e) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let mut r = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        r.push(self.bin(op, &x[i], &y[i], e)?);
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                unsup("vec bin")
            }
            Ty::F64 | Ty::F32 => self.fbin(op, a, b, ty),
            _ => {
                let w = ty.bits();
                if let (Val::I(x), Val::I(y)) = (a, b) {
                    if w <= 64 {
                        let (x, y) = (*x, *y);
                        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                        let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                        let r = match op {
                            Bin::Add => x.wrapping_add(y),
                            Bin::Sub => x.wrapping_sub(y),
                            Bin::Mul => x.wrapping_mul(y),
                            Bin::And => x & y,
                            Bin::Or => x | y,
                            Bin::Xor => x ^ y,
                            Bin::Shl => {
                                if y >= w as u64 {
                                    0
                                } else {
                                    x << y
                                }
                            }
                            Bin::LShr => {
                                if y >= w as u64 {
                                    0
                                } else {
                                    x >> y
                                }
                            }
                            Bin::AShr => (s(x) >> y.min(63)) as u64,
                            Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem if y == 0 => return Err(Stop::Mem("division by zero".into())),
                            Bin::UDiv => x / y,
                            Bin::URem => x % y,
                            Bin::SDiv => s(x).wrapping_div(s(y)) as u64,
                            Bin::SRem => s(x).wrapping_rem(s(y)) as u64,
                            _ => return unsup("bin"),
                        };
                        return Ok(Val::I(r & m));
                    }
                }
                if w > 128 {
                    return unsup(format!("i{} arithmetic", w));
                }
                let o = match op {
                    Bin::Add => Op::Add,
                    Bin::Sub => Op::Sub,
                    Bin::Mul => Op::Mul,
                    Bin::And => Op::And,
                    Bin::Or => Op::Or,
                    Bin::Xor => Op::Xor,
                    Bin::Shl => Op::Shl,
                    Bin::LShr => Op::LShr,
                    Bin::AShr => Op::AShr,
                    Bin::UDiv => Op::UDiv,
                    Bin::URem => Op::URem,
                    Bin::SDiv => Op::SDiv,
                    Bin::SRem => Op::SRem,
                    _ => return unsup("bin"),
                };
                if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
                    return Ok(Self::mkc(bin_const(o, x, y, w), w));
                }
                let x = self.term(a, w)?;
                let y = self.term(b, w)?;
                let t = self.ar.bin(o, x, y);
                Ok(self.from_term(t))
            }
        }
    }
    fn fbin(&mut self, op: Bin, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if *ty == Ty::F32 {
                let (x, y) = (fbits32(*x), fbits32(*y));
                let r = match op {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    _ => x % y,
                };
                return Ok(Val::I(r.to_bits() as u64));
            }
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            let r = match op {
                Bin::FAdd => x + y,
                Bin::FSub => x - y,
                Bin::FMul => x * y,
                Bin::FDiv => x / y,
                _ => x % y,
            };
            return Ok(Val::I(r.to_bits()));
        }
        if *ty == Ty::F32 {
            return unsup("symbolic f32");
        }
        let o = match op {
            Bin::FAdd => Op::FAdd,
            Bin::FSub => Op::FSub,
            Bin::FMul => Op::FMul,
            Bin::FDiv => Op::FDiv,
            _ => return unsup("symbolic frem"),
        };
        let x = self.term(a, 64)?;
        let y = self.term(b, 64)?;
        let t = self.ar.bin(o, x, y);
        Ok(self.from_term(t))
    }
    pub fn icmp(&mut self, p: Pred, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        if let Ty::Vec(_, e) = ty {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let mut r = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    r.push(self.icmp(p, &x[i], &y[i], e)?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
            return unsup("vec icmp");
        }
        let w = ty.bits();
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Ok(Val::I(r as u64));
        }
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
        };
        if w > 128 {
            return unsup("wide icmp");
        }
        let mut x = self.term(a, w)?;
        let mut y = self.term(b, w)?;
        if sw {
            std::mem::swap(&mut x, &mut y);
        }
        let mut t = self.ar.bin(op, x, y);
        if neg {
            t = self.ar.not(t);
        }
        Ok(self.from_term(t))
    }
    fn fcmp(&mut self, p: FPred, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = if *ty == Ty::F32 { (fbits32(*x) as f64, fbits32(*y) as f64) } else { (f64::from_bits(*x), f64::from_bits(*y)) };
            let u = x.is_nan() || y.is_nan();
            let r = match p {
                FPred::False => false,
                FPred::True => true,
                FPred::Oeq => x == y,
                FPred::Ogt => x > y,
                FPred::Oge => x >= y,
                FPred::Olt => x < y,
                FPred::Ole => x <= y,
                FPred::One => !u && x != y,
                FPred::Ord => !u,
                FPred::Uno => u,
                FPred::Ueq => u || x == y,
                FPred::Ugt => u || x > y,
                FPred::Uge => u || x >= y,
                FPred::Ult => u || x < y,
                FPred::Ule => u || x <= y,
                FPred::Une => u || x != y,
            };
            return Ok(Val::I(r as u64));
        }
        if *ty != Ty::F64 {
            return unsup("symbolic f32/vec fcmp");
        }
        let x = self.term(a, 64)?;
        let y = self.term(b, 64)?;
        let nx = self.ar.un(Op::FIsNan, x, 1);
        let ny = self.ar.un(Op::FIsNan, y, 1);
        let u = self.ar.or(nx, ny);
        let o = self.ar.not(u);
        let eq = self.ar.bin(Op::FEq, x, y);
        let lt = self.ar.bin(Op::FLt, x, y);
        let gt = self.ar.bin(Op::FLt, y, x);
        let le = self.ar.bin(Op::FLe, x, y);
        let ge = self.ar.bin(Op::FLe, y, x);
        let t = match p {
            FPred::False => self.ar.k(0, 1),
            FPred::True => self.ar.k(1, 1),
            FPred::Oeq => eq,
            FPred::Ogt => gt,
            FPred::Oge => ge,
            FPred::Olt => lt,
            FPred::Ole => le,
            FPred::One => {
                let ne = self.ar.not(eq);
                self.ar.and(o, ne)
            }
            FPred::Ord => o,
            FPred::Uno => u,
            FPred::Ueq => self.ar.or(u, eq),
            FPred::Ugt => self.ar.or(u, gt),
            FPred::Uge => self.ar.or(u, ge),
            FPred::Ult => self.ar.or(u, lt),
            FPred::Ule => self.ar.or(u, le),
            FPred::Une => self.ar.not(eq),
        };
        Ok(self.from_term(t))
    }
    fn cast(&mut self, k: Cast, a: &Val, from: &Ty, to: &Ty) -> R<Val> {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) {
            if k != Cast::Bitcast {
                if let Val::A(x) = a {
                    let mut r = Vec::with_capacity(x.len());
                    for e in x.iter() {
                        r.push(self.cast(k, e, fe, te)?);
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
            }
        }
        match k {
            Cast::Bitcast => {
                let (fw, fl) = match from {
                    Ty::Vec(n, e) => (e.bits(), Some(*n)),
                    t => (t.bits(), None),
                };
                let (tw, tl) = match to {
                    Ty::Vec(n, e) => (e.bits(), Some(*n)),
                    t => (t.bits(), None),
                };
                if fl.is_none() && tl.is_none() {
                    return Ok(a.clone());
                }
                if fl == tl && fw == tw {
                    return Ok(a.clone());
                }
                let tot = fw * fl.unwrap_or(1);
                if tot > 128 {
                    // lane-wise: only between lane widths where one divides the other
                    if let (Val::A(x), Some(_)) = (a, tl) {
                        if tw > fw && tw % fw == 0 && tw <= 128 {
                            let k = (tw / fw) as usize;
                            let mut r = vec![];
                            for c in x.chunks(k) {
                                r.push(self.join(c, fw)?);
                            }
                            return Ok(Val::A(Rc::new(r)));
                        }
                        if fw > tw && fw % tw == 0 {
                            let mut r = vec![];
                            for e in x.iter() {
                                if let Val::A(p) = self.split(e, fw / tw, tw)? {
                                    r.extend(p.iter().cloned());
                                }
                            }
                            return Ok(Val::A(Rc::new(r)));
                        }
                    }
                    return unsup("wide bitcast");
                }
                let x = match a {
                    Val::A(es) => self.join(&es.clone(), fw)?,
                    v => v.clone(),
                };
                match tl {
                    Some(n) => self.split(&x, n, tw),
                    None => Ok(x),
                }
            }
            Cast::Trunc | Cast::ZExt | Cast::SExt | Cast::PtrToInt | Cast::IntToPtr => {
                let (fw, tw) = (from.bits(), to.bits());
                if fw > 128 || tw > 128 {
                    if let (Some(c), true) = (Self::conc(a), k == Cast::ZExt || k == Cast::Trunc) {
                        if tw <= 128 {
                            return Ok(Self::mkc(c, tw));
                        }
                    }
                    return unsup(format!("cast i{} to i{}", fw, tw));
                }
                match a {
                    Val::I(x) if tw <= 64 => {
                        let r = match k {
                            Cast::SExt => sx(*x as u128, fw) as u64,
                            _ => *x,
                        };
                        Ok(Val::I(if tw == 64 { r } else { r & ((1u64 << tw) - 1) }))
                    }
                    Val::I(_) | Val::B(_) => {
                        let c = Self::conc(a).unwrap();
                        let r = match k {
                            Cast::SExt => sx(c, fw) as u128,
                            _ => c,
                        };
                        Ok(Self::mkc(r, tw))
                    }
                    Val::S(t) => {
                        let r = if tw == fw {
                            *t
                        } else if tw < fw {
                            self.ar.extract(*t, 0, tw)
                        } else if k == Cast::SExt {
                            self.ar.sext(*t, tw)
                        } else {
                            self.ar.zext(*t, tw)
                        };
                        Ok(self.from_term(r))
                    }
                    _ => unsup("cast agg"),
                }
            }
            Cast::SiToFp | Cast::UiToFp => {
                let fw = from.bits();
                if let Some(c) = Self::conc(a) {
                    let v = if k == Cast::SiToFp { sx(c, fw) as f64 } else { c as f64 };
                    if *to == Ty::F32 {
                        let v = if k == Cast::SiToFp { sx(c, fw) as f32 } else { c as f32 };
                        return Ok(Val::I(v.to_bits() as u64));
                    }
                    return Ok(Val::I(v.to_bits()));
                }
                if *to != Ty::F64 {
                    return unsup("symbolic f32");
                }
                let t = self.term(a, fw)?;
                let r = self.ar.un(if k == Cast::SiToFp { Op::FFromS } else { Op::FFromU }, t, 64);
                Ok(self.from_term(r))
            }
            Cast::FpToSi | Cast::FpToUi => {
                let tw = to.bits();
                if let Val::I(c) = a {
                    let f = if *from == Ty::F32 { fbits32(*c) as f64 } else { f64::from_bits(*c) };
                    let r = if k == Cast::FpToSi { (f as i128) as u128 } else { f as u128 };
                    return Ok(Self::mkc(r, tw));
                }
                let t = self.term(a, 64)?;
                let r = self.ar.un(if k == Cast::FpToSi { Op::FToS } else { Op::FToU }, t, tw);
                Ok(self.from_term(r))
            }
            Cast::FpTrunc => match a {
                Val::I(c) => Ok(Val::I((f64::from_bits(*c) as f32).to_bits() as u64)),
                _ => unsup("symbolic fptrunc"),
            },
            Cast::FpExt => match a {
                Val::I(c) => Ok(Val::I((fbits32(*c) as f64).to_bits())),
                _ => unsup("symbolic fpext"),
            },
        }
    }
    pub fn select(&mut self, c: &Val, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        match c {
            Val::I(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(t) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let mut r = vec![];
                    for i in 0..x.len() {
                        r.push(self.select(c, &x[i], &y[i], &ty.elem(i))?);
                    }
                    Ok(Val::A(Rc::new(r)))
                }
                _ => {
                    let w = ty.bits();
                    let x = self.term(a, w)?;
                    let y = self.term(b, w)?;
                    let r = self.ar.ite(*t, x, y);
                    Ok(self.from_term(r))
                }
            },
            Val::A(cs) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let mut r = vec![];
                    for i in 0..x.len() {
                        r.push(self.select(&cs[i], &x[i], &y[i], &ty.elem(i))?);
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                unsup("vector select")
            }
            _ => unsup("select"),
        }
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, e: &Edge) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if !e.moves.is_empty() {
            if e.moves.len() == 1 {
                let (d, o) = e.moves[0];
                let v = match o {
                    Opd::R(r) => fr.regs[r as usize].clone(),
                    Opd::C(c) => fr.f.consts[c as usize].clone(),
                };
                fr.regs[d as usize] = v;
            } else {
                let vals: Vec<Val> = e
                    .moves
                    .iter()
                    .map(|(_, o)| match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::C(c) => fr.f.consts[*c as usize].clone(),
                    })
                    .collect();
                for ((d, _), v) in e.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.bb = e.to;
        fr.ip = 0;
    }
    pub fn push_frame(&mut self, st: &mut State, f: Rc<FnC>, args: Vec<Val>) -> R<()> {
        if st.frames.len() > 2000 {
            return Err(Stop::Mem("stack overflow (more than 2000 frames)".into()));
        }
        let mut regs = Vec::with_capacity(f.f.nregs as usize);
        let np = f.f.nparams as usize;
        regs.extend(args.into_iter().take(np));
        regs.resize(f.f.nregs as usize, Val::I(0));
        let obj = if f.f.frame > 0 { st.mem.alloc(f.f.frame as usize, Kind::Stack) } else { 0 };
        st.frames.push(Rc::new(Frame { f, regs, bb: 0, ip: 0, obj, dyn_objs: vec![] }));
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State) {
        let fr = st.frames.pop().unwrap();
        if fr.obj != 0 {
            st.mem.free(fr.obj >> OBJ_SHIFT);
        }
        for d in &fr.dyn_objs {
            st.mem.free(d >> OBJ_SHIFT);
        }
    }
    /// Finish the call instruction the top frame is stopped at.
    pub fn finish_call(&mut self, st: &mut State, ret: Option<Val>) -> R<()> {
        let fc = st.frames.last().unwrap().f.clone();
        let (bb, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.bb, fr.ip)
        };
        if let Inst::Call(ci) = &fc.f.blocks[bb as usize][ip as usize] {
            if let Some(d) = ci.d {
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[d as usize] = ret.unwrap_or(Val::I(0));
            }
            match &ci.normal {
                Some(e) => self.jump(st, e),
                None => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
            }
            Ok(())
        } else {
            unsup("finish_call at non-call")
        }
    }
    fn set(st: &mut State, d: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }

    /// Run one state until it ends; forks are pushed on the worklist.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step_many(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step_many(&mut self, st: &mut State) -> R<()> {
        let fc = match st.frames.last() {
            Some(f) => f.f.clone(),
            None => return Err(Stop::Done),
        };
        let depth = st.frames.len();
        macro_rules! g {
            ($fr:expr, $o:expr) => {
                match $o {
                    Opd::R(r) => &$fr.regs[r as usize],
                    Opd::C(c) => &fc.consts[c as usize],
                }
            };
        }
        loop {
            if st.frames.len() != depth {
                return Ok(());
            }
            if st.steps == self.pause_at {
                return Err(Stop::Pause);
            }
            st.steps += 1;
            self.rep.insts += 1;
            if st.steps & 0xfff == 0 {
                if st.steps > self.lim.max_steps {
                    return unsup(format!("more than {} instructions on one path, in {}", self.lim.max_steps, Self::where_(st)));
                }
                if Instant::now() > self.lim.deadline {
                    return unsup("time budget exhausted");
                }
                if self.over() {
                    return unsup("stopped after a violation");
                }
            }
            let fr = st.frames.last().unwrap();
            let bb = fr.bb as usize;
            let ip = fr.ip as usize;
            let inst = &fc.f.blocks[bb][ip];
            match inst {
                Inst::Bin { op, ty, d, a, b } => {
                    let (x, y) = (g!(fr, *a).clone(), g!(fr, *b).clone());
                    if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                        if let Val::S(t) = y {
                            let z = self.ar.k(0, ty.bits());
                            let e = self.ar.eq(t, z);
                            if self.decide(st, e)? {
                                return Err(Stop::Mem("division by zero".into()));
                            }
                        }
                    }
                    let v = self.bin(*op, &x, &y, ty)?;
                    Self::set(st, *d, v);
                }
                Inst::ICmp { p, ty, d, a, b } => {
                    let (x, y) = (g!(fr, *a).clone(), g!(fr, *b).clone());
                    let v = self.icmp(*p, &x, &y, ty)?;
                    Self::set(st, *d, v);
                }
                Inst::Load { ty, d, p } => {
                    let a = g!(fr, *p).clone();
                    let v = self.load_sym(st, &a, ty)?;
                    Self::set(st, *d, v);
                }
                Inst::Store { ty, v, p } => {
                    let x = g!(fr, *v).clone();
                    let pv = g!(fr, *p).clone();
                    let a = self.addr(st, &pv)?;
                    self.store(st, a, &x, ty)?;
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                }
                Inst::Gep { d, base, off, idx } => {
                    let b = g!(fr, *base).clone();
                    let mut conc = match &b {
                        Val::I(x) => Some(x.wrapping_add(*off as u64)),
                        _ => None,
                    };
                    if conc.is_some() {
                        for (o, w, s) in idx.iter() {
                            match g!(fr, *o) {
                                Val::I(x) => {
                                    let k = sx(*x as u128, *w) as i64;
                                    conc = conc.map(|c| c.wrapping_add(k.wrapping_mul(*s) as u64));
                                }
                                _ => {
                                    conc = None;
                                    break;
                                }
                            }
                        }
                    }
                    let v = match conc {
                        Some(c) => Val::I(c),
                        None => {
                            let ops: Vec<(Val, u32, i64)> = idx.iter().map(|(o, w, s)| (g!(fr, *o).clone(), *w, *s)).collect();
                            let mut t = self.term(&b, 64)?;
                            let k = self.ar.k(*off as u64 as u128, 64);
                            t = self.ar.bin(Op::Add, t, k);
                            for (v, w, s) in ops {
                                let mut x = self.term(&v, w)?;
                                if w < 64 {
                                    x = self.ar.sext(x, 64);
                                } else if w > 64 {
                                    x = self.ar.extract(x, 0, 64);
                                }
                                let k = self.ar.k(s as u64 as u128, 64);
                                let x = self.ar.bin(Op::Mul, x, k);
                                t = self.ar.bin(Op::Add, t, x);
                            }
                            self.from_term(t)
                        }
                    };
                    Self::set(st, *d, v);
                }
                Inst::Cast { k, from, to, d, a } => {
                    let x = g!(fr, *a).clone();
                    let v = self.cast(*k, &x, from, to)?;
                    Self::set(st, *d, v);
                }
                Inst::Select { cty: _, ty, d, c, a, b } => {
                    let cv = g!(fr, *c).clone();
                    let (x, y) = (g!(fr, *a).clone(), g!(fr, *b).clone());
                    let v = if let (Val::S(t), true) = (&cv, *ty == Ty::Ptr) {
                        // keep pointers concrete: fork
                        let same = matches!((&x, &y), (Val::I(p), Val::I(q)) if p == q);
                        if same {
                            x
                        } else if self.decide(st, *t)? {
                            x
                        } else {
                            y
                        }
                    } else {
                        self.select(&cv, &x, &y, ty)?
                    };
                    Self::set(st, *d, v);
                }
                Inst::Br(e) => {
                    self.jump(st, e);
                }
                Inst::CondBr { c, t, f } => {
                    let cv = g!(fr, *c);
                    let b = match cv {
                        Val::I(x) => *x & 1 == 1,
                        v => {
                            let v = v.clone();
                            self.decide_v(st, &v)?
                        }
                    };
                    self.jump(st, if b { t } else { f });
                }
                Inst::Switch { ty, v, cases, def } => {
                    let x = g!(fr, *v).clone();
                    match &x {
                        Val::I(_) | Val::B(_) => {
                            let c = Self::conc(&x).unwrap();
                            let mut tgt = def;
                            for (k, e) in cases {
                                if *k == c {
                                    tgt = e;
                                    break;
                                }
                            }
                            self.jump(st, tgt);
                        }
                        Val::S(t) => {
                            let t = *t;
                            let w = ty.bits();
                            // try the model's case first so the other outcome is forked once
                            let mv = self.eval(st, t);
                            let mut tgt = None;
                            for (k, e) in cases {
                                if *k == mv {
                                    let kk = self.ar.k(*k, w);
                                    let c = self.ar.eq(t, kk);
                                    if self.decide(st, c)? {
                                        tgt = Some(e);
                                    }
                                    break;
                                }
                            }
                            if tgt.is_none() {
                                // default under the model: exclude every case
                                let mut any = self.ar.k(0, 1);
                                for (k, _) in cases {
                                    let kk = self.ar.k(*k, w);
                                    let c = self.ar.eq(t, kk);
                                    any = self.ar.or(any, c);
                                }
                                if self.decide(st, any)? {
                                    return unsup("switch resolution");
                                }
                                tgt = Some(def);
                            }
                            self.jump(st, tgt.unwrap());
                        }
                        _ => return unsup("switch agg"),
                    }
                }
                Inst::Alloca { d, off } => {
                    let a = fr.obj + off;
                    Self::set(st, *d, Val::I(a));
                }
                Inst::AllocaDyn { d, elem, n, nty } => {
                    let nv = g!(fr, *n).clone();
                    let n = self.concretize(st, &nv, nty.bits())? as u64;
                    let a = st.mem.alloc((n * elem) as usize, Kind::Stack);
                    Rc::make_mut(st.frames.last_mut().unwrap()).dyn_objs.push(a);
                    Self::set(st, *d, Val::I(a));
                }
                Inst::Call(ci) => {
                    let args: Vec<Val> = ci.args.iter().map(|(o, _)| g!(fr, *o).clone()).collect();
                    let target = match &ci.callee {
                        Callee::Fn(f) => *f,
                        Callee::Ptr(o) => {
                            let v = g!(fr, *o).clone();
                            let a = self.addr(st, &v)?;
                            if a >> OBJ_SHIFT != FN_OBJ || a & 15 != 0 || ((a & 0xffff_ffff) / 16) as usize >= self.m.funcs.len() {
                                return Err(Stop::Mem(format!("call through bad function pointer {:#x} in {}", a, Self::where_(st))));
                            }
                            ((a & 0xffff_ffff) / 16) as usize
                        }
                        Callee::Asm(s) => {
                            if s.contains("cpuid") {
                                let z = Self::zero(&ci.ret);
                                self.finish_call(st, Some(z))?;
                                continue;
                            }
                            return unsup(format!("inline asm {}", s));
                        }
                    };
                    if self.m.funcs[target].body.is_some() && !self.override_fn(target) {
                        let f = self.fnc(target)?;
                        if f.hook == Hook::Panic {
                            return Err(Stop::Panic(self.panic_msg(st, &f.f.name, &args)));
                        }
                        let mut args = args;
                        if let Hook::NumText(w, by_ptr) = f.hook {
                            self.abstract_number(st, &mut args, w, by_ptr)?;
                        }
                        if self.trace_calls {
                            eprintln!("{}call {}", " ".repeat(st.frames.len()), demangle(&f.f.name));
                        }
                        self.push_frame(st, f, args)?;
                    } else {
                        self.call_extern(st, target, ci, args)?;
                    }
                }
                Inst::Ret(v) => {
                    let rv = v.as_ref().map(|(o, _)| g!(fr, *o).clone());
                    self.pop_frame(st);
                    if st.frames.is_empty() {
                        return Err(Stop::Done);
                    }
                    self.finish_call(st, rv)?;
                }
                Inst::ExtractValue { ty: _, d, a, idx } => {
                    let mut v = g!(fr, *a).clone();
                    for i in idx {
                        v = match v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => return unsup("extractvalue"),
                        };
                    }
                    Self::set(st, *d, v);
                }
                Inst::InsertValue { ty, d, a, v, idx } => {
                    let x = match g!(fr, *a).clone() {
                        Val::A(x) => Val::A(x),
                        _ => Self::zero(ty),
                    };
                    let nv = g!(fr, *v).clone();
                    fn ins(a: &Val, idx: &[u32], v: Val) -> Option<Val> {
                        if idx.is_empty() {
                            return Some(v);
                        }
                        if let Val::A(x) = a {
                            let mut y = (**x).clone();
                            y[idx[0] as usize] = ins(&x[idx[0] as usize], &idx[1..], v)?;
                            return Some(Val::A(Rc::new(y)));
                        }
                        None
                    }
                    match ins(&x, idx, nv) {
                        Some(v) => Self::set(st, *d, v),
                        None => return unsup("insertvalue"),
                    }
                }
                Inst::ExtractElem { ty, d, a, i } => {
                    let x = g!(fr, *a).clone();
                    let iv = g!(fr, *i).clone();
                    let k = self.concretize(st, &iv, 64)? as usize;
                    match x {
                        Val::A(x) if k < x.len() => Self::set(st, *d, x[k].clone()),
                        _ => Self::set(st, *d, Self::zero(&ty.elem(0))),
                    }
                }
                Inst::InsertElem { ty, d, a, v, i } => {
                    let x = match g!(fr, *a).clone() {
                        Val::A(x) => (*x).clone(),
                        _ => (0..ty.nelem()).map(|_| Val::I(0)).collect(),
                    };
                    let nv = g!(fr, *v).clone();
                    let iv = g!(fr, *i).clone();
                    let k = self.concretize(st, &iv, 64)? as usize;
                    let mut x = x;
                    if k < x.len() {
                        x[k] = nv;
                    }
                    Self::set(st, *d, Val::A(Rc::new(x)));
                }
                Inst::Shuffle { d, n, a, b, mask } => {
                    let (x, y) = (g!(fr, *a).clone(), g!(fr, *b).clone());
                    let mut r = vec![];
                    for m in mask {
                        let v = match m {
                            Some(k) => {
                                let (src, k) = if k < n { (&x, *k) } else { (&y, *k - n) };
                                match src {
                                    Val::A(e) => e[k as usize].clone(),
                                    _ => Val::I(0),
                                }
                            }
                            None => Val::I(0),
                        };
                        r.push(v);
                    }
                    Self::set(st, *d, Val::A(Rc::new(r)));
                }
                Inst::Freeze { d, a } => {
                    let v = g!(fr, *a).clone();
                    Self::set(st, *d, v);
                }
                Inst::FCmp { p, ty, d, a, b } => {
                    let (x, y) = (g!(fr, *a).clone(), g!(fr, *b).clone());
                    let v = self.fcmp(*p, &x, &y, ty)?;
                    Self::set(st, *d, v);
                }
                Inst::FNeg { ty, d, a } => {
                    let x = g!(fr, *a).clone();
                    let w = ty.bits();
                    let v = match x {
                        Val::I(c) => Val::I(c ^ (1u64 << (w - 1))),
                        Val::S(t) => {
                            let k = self.ar.k(1u128 << (w - 1), w);
                            let r = self.ar.bin(Op::Xor, t, k);
                            self.from_term(r)
                        }
                        _ => return unsup("fneg"),
                    };
                    Self::set(st, *d, v);
                }
                Inst::AtomicRmw { op, ty, d, p, v } => {
                    let pv = g!(fr, *p).clone();
                    let x = g!(fr, *v).clone();
                    let a = self.addr(st, &pv)?;
                    let old = self.load(st, a, ty)?;
                    let w = ty.bits();
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(Bin::Add, &old, &x, &Ty::Int(w))?,
                        "sub" => self.bin(Bin::Sub, &old, &x, &Ty::Int(w))?,
                        "and" => self.bin(Bin::And, &old, &x, &Ty::Int(w))?,
                        "or" => self.bin(Bin::Or, &old, &x, &Ty::Int(w))?,
                        "xor" => self.bin(Bin::Xor, &old, &x, &Ty::Int(w))?,
                        "umax" | "max" | "umin" | "min" => {
                            let p = match op.as_str() {
                                "umax" => Pred::Ugt,
                                "umin" => Pred::Ult,
                                "max" => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(p, &old, &x, ty)?;
                            self.select(&c, &old, &x, ty)?
                        }
                        _ => return unsup(format!("atomicrmw {}", op)),
                    };
                    self.store(st, a, &new, ty)?;
                    Self::set(st, *d, old);
                }
                Inst::CmpXchg { ty, d, p, e, n } => {
                    let pv = g!(fr, *p).clone();
                    let ev = g!(fr, *e).clone();
                    let nv = g!(fr, *n).clone();
                    let a = self.addr(st, &pv)?;
                    let old = self.load(st, a, ty)?;
                    let c = self.icmp(Pred::Eq, &old, &ev, ty)?;
                    let b = self.decide_v(st, &c)?;
                    if b {
                        self.store(st, a, &nv, ty)?;
                    }
                    Self::set(st, *d, Val::A(Rc::new(vec![old, Val::I(b as u64)])));
                }
                Inst::Nop => {
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                }
                Inst::Unreachable => {
                    return Err(Stop::Mem(format!("reached unreachable code in {}", Self::where_(st))));
                }
                Inst::Unsupported(s) => return unsup(format!("instruction {} in {}", s, Self::where_(st))),
            }
        }
    }

    fn panic_msg(&mut self, st: &State, name: &str, args: &[Val]) -> String {
        // the last pointer argument is usually &'static Location { file: &str, line, col }
        let mut loc = String::new();
        for a in args.iter().rev() {
            if let Val::I(p) = a {
                if *p >> OBJ_SHIFT >= GL_OBJ0 {
                    let r = (|| -> R<String> {
                        let fp = self.load_int(st, *p, 64)?;
                        let fl = self.load_int(st, *p + 8, 64)?;
                        let ln = self.load_int(st, *p + 16, 32)?;
                        if let (Val::I(fp), Val::I(fl), Val::I(ln)) = (fp, fl, ln) {
                            if fl > 0 && fl < 300 {
                                let b = self.bytes_conc(st, fp, fl as usize)?;
                                if let Ok(s) = String::from_utf8(b) {
                                    if s.contains(".rs") {
                                        return Ok(format!("{}:{}", s.trim_end_matches('\0'), ln));
                                    }
                                }
                            }
                        }
                        unsup("")
                    })();
                    if let Ok(s) = r {
                        loc = s;
                        break;
                    }
                }
            }
        }
        let mut msg = String::new();
        if args.len() >= 2 {
            if let (Val::I(p), Val::I(n)) = (&args[0], &args[1]) {
                if *n < 400 && *p >> OBJ_SHIFT >= GL_OBJ0 {
                    if let Ok(b) = self.bytes_conc(st, *p, *n as usize) {
                        if let Ok(s) = String::from_utf8(b) {
                            if s.chars().all(|c| !c.is_control()) {
                                msg = s;
                            }
                        }
                    }
                }
            }
        }
        format!("{} \"{}\" at {}", demangle(name), msg, loc)
    }

    pub fn arena(&mut self) -> &mut Arena {
        &mut self.ar
    }
    pub fn base_mem(&mut self) -> Mem {
        if let Some(b) = &self.base {
            return b.clone();
        }
        let mut m = Mem::new();
        for (i, g) in self.m.globals.iter().enumerate() {
            let data = match &g.init {
                Some(b) => b.clone(),
                None => vec![0; (g.size as usize).max(8)],
            };
            m.put(GL_OBJ0 + i as u64, Obj { data, sym: vec![], kind: if g.constant { Kind::Const } else { Kind::Global } });
        }
        m.next = GL_OBJ0 + self.m.globals.len() as u64 + 1;
        self.base = Some(m.clone());
        m
    }
    pub fn explore(&mut self, entry: usize) {
        let f = match self.fnc(entry) {
            Ok(f) => f,
            Err(e) => {
                self.rep.errors.insert(format!("{:?}", e), 1);
                return;
            }
        };
        let mut st = State {
            mem: self.base_mem(),
            frames: vec![],
            pc: vec![],
            model: Rc::new(Model { map: Default::default(), memo: Default::default() }),
            inputs: vec![],
            split_at: self.start.split_at.clone(),
            retrace: self.start.steps,
            steps: 0,
            time: 1_700_000_000,
            rng: 0x9e3779b97f4a7c15,
            tls: Default::default(),
            tls_next: 1,
            errno: 0,
            stderr: vec![],
            expect_panic: false,
            covers: vec![],
            forks: 0,
        };
        let args = self.args.iter().map(|a| Val::I(*a)).collect();
        let _ = self.push_frame(&mut st, f, args);
        if self.start.steps > 0 {
            // retrace the path handed over
            self.pause_at = self.start.steps;
            match self.run(&mut st) {
                Stop::Pause if st.pc.iter().all(|&t| self.eval(&st, t) == 1) => {}
                _ => {
                    *self.rep.errors.entry("a path could not be retraced".into()).or_insert(0) += 1;
                    return;
                }
            }
            self.pause_at = u64::MAX;
        }
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = self.run(&mut st);
            self.finish(st, r);
            while !self.work.is_empty() && (self.wanted)() {
                let mut st = self.work.remove(0);
                self.pause_at = st.steps + 1;
                let r = self.run(&mut st);
                self.pause_at = u64::MAX;
                match r {
                    Stop::Pause => {
                        let vals = st.inputs.iter().map(|(_, t)| self.eval(&st, *t)).collect();
                        let mut at = std::mem::take(&mut st.split_at);
                        at.sort();
                        at.dedup();
                        (self.give)(st.steps, vals, at);
                    }
                    r => self.finish(st, r),
                }
            }
            if self.full() {
                self.work.clear();
                break;
            }
            if Instant::now() > self.lim.deadline || self.over() {
                if !self.work.is_empty() {
                    *self.rep.errors.entry("time budget exhausted".into()).or_insert(0) += 1;
                }
                self.work.clear();
                break;
            }
        }
    }
    fn finish(&mut self, st: State, r: Stop) {
        if st.steps > self.rep.max_path_insts {
            self.rep.max_path_insts = st.steps;
        }
        let (kind, msg) = match r {
            Stop::Done => {
                self.rep.paths += 1;
                for c in &st.covers {
                    *self.rep.covers.entry(c.clone()).or_insert(0) += 1;
                    if !self.rep.cover_inputs.contains_key(c) {
                        let i = self.inputs(&st);
                        self.rep.cover_inputs.insert(c.clone(), i);
                    }
                }
                if self.rep.samples.len() < self.lim.max_samples {
                    let i = self.inputs(&st);
                    self.rep.samples.push(i);
                }
                return;
            }
            Stop::Prune => {
                self.rep.pruned += 1;
                return;
            }
            Stop::Unsup(s) => {
                *self.rep.errors.entry(format!("{} [{}]", s, Self::trace(&st).join(" < "))).or_insert(0) += 1;
                return;
            }
            Stop::Panic(s) => {
                if st.expect_panic {
                    self.rep.paths += 1;
                    return;
                }
                ("panic", s)
            }
            Stop::Mem(s) => ("memory", s),
            Stop::Assert(s) => ("assert", s),
            Stop::Deadlock(s) => ("deadlock", s),
            Stop::Pause => unreachable!(),
        };
        self.rep.paths += 1;
        let v = Violation { kind: kind.into(), msg, trace: Self::trace(&st), inputs: self.inputs(&st) };
        self.record(v);
    }
    pub fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        // make the current model satisfy c, or prune
        if let Some(v) = self.ar.kv(c) {
            return if v == 1 { Ok(()) } else { Err(Stop::Prune) };
        }
        if self.eval(st, c) == 1 {
            self.push_pc(st, c);
            return Ok(());
        }
        match self.sat_with(st, c) {
            Res::Sat(asg) => {
                Self::with_model(st, &asg);
                self.push_pc(st, c);
                Ok(())
            }
            Res::Unsat => Err(Stop::Prune),
            Res::Unknown => unsup("solver gave no answer (assume)"),
        }
    }
    pub fn assert_(&mut self, st: &mut State, c: T, msg: String) -> R<()> {
        if st.steps <= st.retrace {
            // settled by the worker that handed the path over; a failed
            // assertion is an assumption from there on
            if self.ar.kv(c).is_none() && self.start.split_at.binary_search(&st.steps).is_ok() {
                self.push_pc(st, c);
            }
            return Ok(());
        }
        self.rep.asserts += 1;
        if let Some(v) = self.ar.kv(c) {
            if v == 1 {
                self.rep.asserts_proved += 1;
                return Ok(());
            }
            return Err(Stop::Assert(msg));
        }
        if self.eval(st, c) == 0 {
            return self.assert_failed(st, c, msg);
        }
        let n = self.ar.not(c);
        match self.sat_with(st, n) {
            Res::Unsat => {
                self.rep.asserts_proved += 1;
                Ok(())
            }
            Res::Sat(asg) => {
                Self::with_model(st, &asg);
                self.assert_failed(st, c, msg)
            }
            Res::Unknown => unsup(format!("solver gave no answer on assertion {}", msg)),
        }
    }
    /// the current model falsifies c: report it, go on where c holds
    fn assert_failed(&mut self, st: &mut State, c: T, msg: String) -> R<()> {
        let v = Violation { kind: "assert".into(), msg, trace: Self::trace(st), inputs: self.inputs(st) };
        self.record(v);
        if self.full() {
            return Err(Stop::Prune);
        }
        st.split_at.push(st.steps);
        self.assume(st, c)
    }
    fn over(&self) -> bool {
        matches!(*self.lim.grace.lock().unwrap(), Some(t) if Instant::now() > t)
    }
    fn record(&mut self, v: Violation) {
        if !v.msg.starts_with("[K:") {
            self.lim.grace.lock().unwrap().get_or_insert(Instant::now() + std::time::Duration::from_secs(self.lim.grace_s));
        }
        let n = self.rep.viol_counts.entry(v.msg.clone()).or_insert(0);
        *n += 1;
        if *n <= 2 {
            self.rep.violations.push(v);
        }
    }
    /// The decimal text of a symbolic number is that of a fixed number: it
    /// only ends up in error messages, and rendering it would split the state
    /// by digit.
    fn abstract_number(&mut self, st: &mut State, args: &mut [Val], w: u32, by_ptr: bool) -> R<()> {
        let k: u64 = match w {
            8 => 112,
            16 => 12321,
            64 if by_ptr => 1234567891,
            65 => 1234567891.5f64.to_bits(),
            _ => 1234567891,
        };
        let w = if w == 65 { 64 } else { w };
        if !by_ptr {
            if !matches!(args[0], Val::I(_)) {
                args[0] = Val::I(k);
            }
            return Ok(());
        }
        let p = match &args[0] {
            Val::I(p) => *p,
            _ => return Ok(()),
        };
        if let Val::I(_) = self.load_int(st, p, w)? {
            return Ok(());
        }
        let a = st.mem.alloc(8, Kind::Global);
        self.store_int(st, a, &Val::I(k), w)?;
        args[0] = Val::I(a);
        Ok(())
    }
    /// enough violations outside the listed findings ("[K:..]")
    fn full(&self) -> bool {
        self.rep.violations.iter().filter(|v| !v.msg.starts_with("[K:")).count() >= self.lim.max_violations
    }
}

pub fn is_panic_fn(n: &str) -> bool {
    if !n.starts_with("_R") {
        return n == "rust_begin_unwind" || n == "rust_panic";
    }
    n.contains("_4core9panicking")
        || (n.contains("_4core6option") && (n.ends_with("13unwrap_failed") || n.ends_with("13expect_failed")))
        || (n.contains("_4core6result") && n.contains("13unwrap_failed"))
        || (n.contains("_4core4cell") && (n.contains("panic_already") || n.contains("panic_borrow") || n.contains("panic_already_borrowed")))
        || (n.contains("_4core3str") && n.contains("slice_error_fail"))
        || (n.contains("_5alloc7raw_vec") && (n.ends_with("12handle_error") || n.ends_with("17capacity_overflow")))
        || (n.contains("_5alloc5alloc") && n.ends_with("18handle_alloc_error"))
        || n.contains("17rust_begin_unwind")
        || n.ends_with("10rust_panic")
        || (n.contains("_3std9panicking") && (n.contains("begin_panic") || n.contains("panic_with_hook") || n.contains("11panic_count13")))
            && !n.contains("panic_count17")
        || (n.contains("slice5index") && n.contains("fail"))
}


fn num_text_fn(n: &str) -> Option<(u32, bool)> {
    let width = |c: u8| match c {
        b'l' | b'm' => Some(32),
        b'x' | b'y' | b'i' | b'j' => Some(64),
        b's' | b't' => Some(16),
        b'a' | b'h' => Some(8),
        b'd' => Some(65),
        _ => None,
    };
    for (pat, by_ptr) in [("_4core3fmt3num3imp", true), ("_4core3fmt5float", true)] {
        if let Some(i) = n.find(pat) {
            let r = &n.as_bytes()[i + pat.len()..];
            let c = *r.first()?;
            let rest = std::str::from_utf8(&r[1..]).ok()?;
            if rest.starts_with("NtB") && (rest.ends_with("Display3fmt") || rest.ends_with("Debug3fmt")) {
                return Some((width(c)?, by_ptr));
            }
            if rest == "4__fmt" {
                return Some((width(c)?, false));
            }
        }
    }
    None
}
