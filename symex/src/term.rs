// Hash-consed bit-vector / floating-point terms with local simplification.
// Every term has a bit width 1..=128; width-1 terms double as booleans.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type T = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, // a = index in consts
    Var,   // a = var id
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,  // a high, b low
    Extract, // a, b = low bit
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite, // a cond, b, c
    FLt, // fp64 predicates on bit patterns
    FLe,
    FEq,
    FIsNan,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FFromS, // signed int -> f64
    FFromU,
    FToS, // f64 -> signed int (rtz), width = w; undefined outside range
    FToU,
    FRoundZ, // trunc to integral
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Var {
    pub name: String,
    pub w: u32,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u128, u16), T>,
    pub vars: Vec<Var>,
    vmap: HashMap<(usize, String, u32), u32>,
    vsets: Vec<Option<Rc<[u32]>>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn bin_const(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            let s = b.min(127) as u32;
            (x >> s.min(127)) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        Op::FLt => (f64::from_bits(a as u64) < f64::from_bits(b as u64)) as u128,
        Op::FLe => (f64::from_bits(a as u64) <= f64::from_bits(b as u64)) as u128,
        Op::FEq => (f64::from_bits(a as u64) == f64::from_bits(b as u64)) as u128,
        Op::FAdd => canon(f64::from_bits(a as u64) + f64::from_bits(b as u64)),
        Op::FSub => canon(f64::from_bits(a as u64) - f64::from_bits(b as u64)),
        Op::FMul => canon(f64::from_bits(a as u64) * f64::from_bits(b as u64)),
        Op::FDiv => canon(f64::from_bits(a as u64) / f64::from_bits(b as u64)),
        Op::FRem => canon(f64::from_bits(a as u64) % f64::from_bits(b as u64)),
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FLt | Op::FLe | Op::FEq => r,
        _ => r & m,
    }
}

/// NaN results are canonicalised so that evaluation agrees with the solver.
pub fn canon(x: f64) -> u128 {
    if x.is_nan() {
        0x7ff8000000000000
    } else {
        x.to_bits() as u128
    }
}

fn un_const(op: Op, a: u128, aw: u32, w: u32) -> u128 {
    match op {
        Op::Not => !a & mask(w),
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u128) & mask(w),
        Op::FIsNan => f64::from_bits(a as u64).is_nan() as u128,
        Op::FFromS => (sx(a, aw) as f64).to_bits() as u128,
        Op::FFromU => (a as f64).to_bits() as u128,
        Op::FToS => {
            let f = f64::from_bits(a as u64);
            ((f as i128) as u128) & mask(w)
        }
        Op::FToU => {
            let f = f64::from_bits(a as u64);
            (f as u128) & mask(w)
        }
        Op::FRoundZ => canon(f64::from_bits(a as u64).trunc()),
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn show(&self, t: T) -> String {
        self.show_d(t, 12)
    }
    fn show_d(&self, t: T, d: u32) -> String {
        let n = self.nodes[t as usize];
        let f = |x: u32| if d == 0 { format!("#{}", x) } else { self.show_d(x, d - 1) };
        match n.op {
            Op::Const => format!("{:#x}", self.consts[n.a as usize]),
            Op::Var => format!("v{}", n.a),
            Op::Extract => format!("(ex{}:{} {})", n.b, n.w, f(n.a)),
            Op::Not | Op::ZExt | Op::SExt | Op::FIsNan | Op::FFromS | Op::FFromU | Op::FToS | Op::FToU | Op::FRoundZ => format!("({:?}{} {})", n.op, n.w, f(n.a)),
            Op::Ite => format!("(ite {} {} {})", f(n.a), f(n.b), f(n.c)),
            _ => format!("({:?} {} {})", n.op, f(n.a), f(n.b)),
        }
    }

    pub fn new() -> Self {
        Default::default()
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> T {
        let n = Node { op, w: w as u16, a, b, c };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.vsets.push(None);
        self.map.insert(n, t);
        t
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }
    pub fn k(&mut self, v: u128, w: u32) -> T {
        let v = v & mask(w);
        if let Some(&t) = self.cmap.get(&(v, w as u16)) {
            return t;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        let t = self.mk(Op::Const, w, i, 0, 0);
        self.cmap.insert((v, w as u16), t);
        t
    }
    pub fn kv(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, seq: usize, name: &str, w: u32) -> T {
        let key = (seq, name.to_string(), w);
        let id = match self.vmap.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(Var { name: name.to_string(), w });
                self.vmap.insert(key, i);
                i
            }
        };
        self.mk(Op::Var, w, id, 0, 0)
    }
    pub fn var_term(&mut self, id: u32) -> T {
        let w = self.vars[id as usize].w;
        self.mk(Op::Var, w, id, 0, 0)
    }
    pub fn vset(&mut self, t: T) -> Rc<[u32]> {
        if let Some(s) = &self.vsets[t as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.vsets[x as usize].is_some() {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let kids: &[u32] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FIsNan | Op::FFromS | Op::FFromU | Op::FToS | Op::FToU | Op::FRoundZ => &[n.a][..],
                Op::Ite => &[n.a, n.b, n.c][..],
                _ => &[n.a, n.b][..],
            };
            let kids: Vec<u32> = kids.to_vec();
            let mut ready = true;
            for &k in &kids {
                if self.vsets[k as usize].is_none() {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let s: Rc<[u32]> = if n.op == Op::Var {
                Rc::from(vec![n.a])
            } else if n.op == Op::Const {
                Rc::from(vec![])
            } else {
                let first = self.vsets[kids[0] as usize].clone().unwrap();
                let mut same = true;
                for &k in &kids[1..] {
                    let o = self.vsets[k as usize].as_ref().unwrap();
                    if !o.is_empty() && !Rc::ptr_eq(o, &first) && o[..] != first[..] {
                        same = false;
                    }
                }
                if same {
                    first
                } else {
                    let mut v: Vec<u32> = vec![];
                    for &k in &kids {
                        v.extend_from_slice(self.vsets[k as usize].as_ref().unwrap());
                    }
                    v.sort();
                    v.dedup();
                    Rc::from(v)
                }
            };
            self.vsets[x as usize] = Some(s);
            st.pop();
        }
        self.vsets[t as usize].clone().unwrap()
    }

    pub fn not(&mut self, a: T) -> T {
        let n = self.nodes[a as usize];
        let w = n.w as u32;
        if let Some(v) = self.kv(a) {
            return self.k(!v, w);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if w == 1 {
            match n.op {
                Op::Ult => return self.mk_cmp(Op::Ule, n.b, n.a),
                Op::Ule => return self.mk_cmp(Op::Ult, n.b, n.a),
                Op::Slt => return self.mk_cmp(Op::Sle, n.b, n.a),
                Op::Sle => return self.mk_cmp(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.mk(Op::Not, w, a, 0, 0)
    }
    fn mk_cmp(&mut self, op: Op, a: T, b: T) -> T {
        self.bin(op, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.bin(Op::Eq, a, b)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FLt | Op::FLe | Op::FEq => 1,
            _ => w,
        };
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(bin_const(op, x, y, w), rw);
        }
        // commutative: constant to the right, else order by id
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq) && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.kv(b);
        let ka = self.kv(a);
        let m = mask(w);
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // low mask -> zext(extract)
                    if w > 1 && (y & (y + 1)) == 0 {
                        let lw = 128 - y.leading_zeros();
                        let e = self.extract(a, 0, lw);
                        return self.zext(e, w);
                    }
                    let na = self.nodes[a as usize];
                    if na.op == Op::And {
                        if let Some(z) = self.kv(na.b) {
                            let c = self.k(z & y, w);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.k(y, iw);
                        let r = self.bin(Op::And, na.a, c);
                        return self.zext(r, w);
                    }
                }
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.k(0, w);
                }
                if na.op == Op::And && (na.a == b || na.b == b) {
                    return a;
                }
                if nb.op == Op::And && (nb.a == a || nb.b == a) {
                    return b;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.k(m, w);
                }
                if w > 1 {
                    // concatenation assembled by shift+or: (zext x) | (y << k) with no overlap
                    if let Some(r) = self.try_concat_or(a, b) {
                        return r;
                    }
                    if let Some(r) = self.try_concat_or(b, a) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                    let na = self.nodes[a as usize];
                    if na.op == Op::Xor {
                        if let Some(z) = self.kv(na.b) {
                            let c = self.k(z ^ y, w);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
            }
            Op::Add => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    let na = self.nodes[a as usize];
                    if na.op == Op::Add {
                        if let Some(z) = self.kv(na.b) {
                            let c = self.k(z.wrapping_add(y), w);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = kb {
                    let c = self.k(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let c = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = kb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let c = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, c);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let c = self.k(y - 1, w);
                        return self.bin(Op::And, a, c);
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(0, w);
                    }
                    let e = self.extract(a, 0, w - y as u32);
                    let z = self.k(0, y as u32);
                    return self.concat(e, z);
                }
            }
            Op::LShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(0, w);
                    }
                    let e = self.extract(a, y as u32, w - y as u32);
                    return self.zext(e, w);
                }
            }
            Op::AShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    let y = y.min(w as u128 - 1) as u32;
                    let e = self.extract(a, y, w - y);
                    return self.sext(e, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if w == 1 {
                    if let Some(y) = kb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                let na = self.nodes[a as usize];
                if let Some(y) = kb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.k(0, 1);
                            }
                            let c = self.k(y, iw);
                            return self.eq(na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if (sx(y & mask(iw), iw) as u128) & m != y {
                                return self.k(0, 1);
                            }
                            let c = self.k(y, iw);
                            return self.eq(na.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let h = self.k(y >> lw, hw);
                            let l = self.k(y, lw);
                            let x = self.eq(na.a, h);
                            if self.kv(x) == Some(0) {
                                return x;
                            }
                            let z = self.eq(na.b, l);
                            return self.and(x, z);
                        }
                        Op::Ite => {
                            let (kt, kf) = (self.kv(na.b), self.kv(na.c));
                            if kt.is_some() || kf.is_some() {
                                let x = self.eq(na.b, b);
                                let z = self.eq(na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        Op::Add => {
                            if let Some(z) = self.kv(na.b) {
                                let c = self.k(y.wrapping_sub(z), w);
                                return self.eq(na.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(z) = self.kv(na.b) {
                                let c = self.k(y ^ z, w);
                                return self.eq(na.a, c);
                            }
                            if y == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        Op::Not => {
                            let c = self.k(!y, w);
                            return self.eq(na.a, c);
                        }
                        Op::Or if y == 0 => {
                            let z = self.k(0, w);
                            let p = self.eq(na.a, z);
                            let q = self.eq(na.b, z);
                            return self.and(p, q);
                        }
                        Op::Sub if y == 0 => return self.eq(na.a, na.b),
                        _ => {}
                    }
                } else {
                    let nb = self.nodes[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.eq(na.a, nb.a);
                    }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                        return self.eq(na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let x = self.eq(na.a, nb.a);
                        if self.kv(x) == Some(0) {
                            return x;
                        }
                        let y = self.eq(na.b, nb.b);
                        return self.and(x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.k((op == Op::Ule) as u128, 1);
                }
                if w == 1 {
                    // a<b == !a & b ; a<=b == !a | b
                    let na = self.not(a);
                    return if op == Op::Ult { self.and(na, b) } else { self.or(na, b) };
                }
                if op == Op::Ult {
                    if kb == Some(0) || ka == Some(m) {
                        return self.k(0, 1);
                    }
                    if kb == Some(1) {
                        let z = self.k(0, w);
                        return self.eq(a, z);
                    }
                } else {
                    if kb == Some(m) || ka == Some(0) {
                        return self.k(1, 1);
                    }
                    if kb == Some(0) {
                        return self.eq(a, b);
                    }
                }
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(y) = kb {
                        if y > mask(iw) {
                            return self.k(1, 1);
                        }
                        let c = self.k(y, iw);
                        return self.bin(op, na.a, c);
                    }
                    if nb.op == Op::ZExt && self.w(nb.a) == iw {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if nb.op == Op::ZExt {
                    let iw = self.w(nb.a);
                    if let Some(x) = ka {
                        if x > mask(iw) {
                            return self.k(0, 1);
                        }
                        let c = self.k(x, iw);
                        return self.bin(op, c, nb.a);
                    }
                }
                if let Some(r) = self.ite_cmp(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.k((op == Op::Sle) as u128, 1);
                }
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if w > 1 && na.op == Op::ZExt && (nb.op == Op::ZExt || kb.map_or(false, |y| y >> (w - 1) == 0)) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if w > 1 && nb.op == Op::ZExt && ka.map_or(false, |y| y >> (w - 1) == 0) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if w > 1 && op == Op::Slt && kb == Some(0) {
                    if na.op == Op::ZExt {
                        return self.k(0, 1);
                    }
                }
                if let Some(r) = self.ite_cmp(op, a, b) {
                    return r;
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0)
    }
    fn ite_cmp(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Ite && self.kv(b).is_some() && (self.kv(na.b).is_some() || self.kv(na.c).is_some()) {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        if nb.op == Op::Ite && self.kv(a).is_some() && (self.kv(nb.b).is_some() || self.kv(nb.c).is_some()) {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        None
    }
    fn try_concat_or(&mut self, a: T, b: T) -> Option<T> {
        // a = concat(x, 0_k), b = zext(y) with w(y) <= k
        let w = self.w(a);
        let na = self.nodes[a as usize];
        if na.op != Op::Concat || self.kv(na.b) != Some(0) {
            // a = zext(concat(x,0)) too
            if na.op == Op::ZExt {
                let ia = self.nodes[na.a as usize];
                if ia.op == Op::Concat && self.kv(ia.b) == Some(0) {
                    let iw = self.w(na.a);
                    let nb = self.nodes[b as usize];
                    let fits = match (self.kv(b), nb.op) {
                        (Some(v), _) => v <= mask(iw),
                        (None, Op::ZExt) => self.w(nb.a) <= iw,
                        _ => false,
                    };
                    if fits {
                        let lo = self.extract(b, 0, iw);
                        let r = self.bin(Op::Or, na.a, lo);
                        return Some(self.zext(r, w));
                    }
                }
            }
            return None;
        }
        let k = self.w(na.b);
        if let Some(v) = self.kv(b) {
            if v <= mask(k) {
                let l = self.k(v, k);
                return Some(self.concat(na.a, l));
            }
            return None;
        }
        let nb = self.nodes[b as usize];
        if nb.op == Op::ZExt && self.w(nb.a) <= k {
            let l = self.zext(nb.a, k);
            return Some(self.concat(na.a, l));
        }
        if nb.op == Op::Concat {
            // b = concat(0, y)
            if self.kv(nb.a) == Some(0) && self.w(nb.b) <= k {
                let l = self.zext(nb.b, k);
                return Some(self.concat(na.a, l));
            }
        }
        None
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(v, w);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(sx(v, aw) as u128, w);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        match (self.kv(h), self.kv(l)) {
            (Some(x), Some(y)) => return self.k((x << lw) | y, w),
            (Some(0), None) => return self.zext(l, w),
            _ => {}
        }
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, w);
        }
        // concat(concat(x, e1), e0) merging
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let m = self.nodes[nh.b as usize];
            if m.op == Op::Extract && m.a == nl.a && m.b == nl.b + lw {
                let lo = self.concat(nh.b, l);
                return self.concat(nh.a, lo);
            }
        }
        if nh.op == Op::Concat {
            if let (Some(x), Some(y)) = (self.kv(nh.b), self.kv(l)) {
                let lo = self.k((x << lw) | y, self.w(nh.b) + lw);
                return self.concat(nh.a, lo);
            }
        }
        // high part of a zext: concat(extract hi of zext...) is folded by extract()
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        // sign extension reassembled: concat(ite/sext?) left alone
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(v >> lo, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let e = self.extract(n.a, lo, iw - lo);
                    return self.sext(e, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.kv(n.b).is_some() || (lo == 0 && w <= 8) || n.op != Op::And {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.kv(n.b).is_some() || self.kv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.kv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.kv(a), self.kv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if let (Some(1), Some(0)) = (self.kv(a), self.kv(b)) {
            return self.zext(c, w);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn un(&mut self, op: Op, a: T, w: u32) -> T {
        if let Some(v) = self.kv(a) {
            let aw = self.w(a);
            return self.k(un_const(op, v, aw, w), w);
        }
        self.mk(op, w, a, 0, 0)
    }

    /// Evaluate under an assignment (missing vars are 0), memoised in `memo`.
    pub fn eval(&self, t: T, model: &dyn Fn(u32) -> u128, memo: &mut FxMap<T, u128>) -> u128 {
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let w = n.w as u32;
            macro_rules! need {
                ($k:expr) => {
                    match memo.get(&$k) {
                        Some(v) => *v,
                        None => {
                            st.push($k);
                            continue;
                        }
                    }
                };
            }
            let r = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => model(n.a) & mask(w),
                Op::Not | Op::ZExt | Op::SExt | Op::FIsNan | Op::FFromS | Op::FFromU | Op::FToS | Op::FToU | Op::FRoundZ => {
                    let v = need!(n.a);
                    un_const(n.op, v, self.w(n.a), w)
                }
                Op::Extract => {
                    let v = need!(n.a);
                    (v >> n.b) & mask(w)
                }
                Op::Concat => {
                    let h = need!(n.a);
                    let l = need!(n.b);
                    (h << self.w(n.b)) | l
                }
                Op::Ite => {
                    let c = need!(n.a);
                    if c == 1 {
                        need!(n.b)
                    } else {
                        need!(n.c)
                    }
                }
                _ => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    bin_const(n.op, a, b, self.w(n.a))
                }
            };
            memo.insert(x, r);
            st.pop();
        }
        memo[&t]
    }
}
