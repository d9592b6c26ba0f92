// Textual LLVM IR parser (the subset rustc emits).
use crate::ir::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),   // keyword / type / attribute
    Local(String),  // %x
    Global(String), // @x
    Int(String),
    Float(String),
    Str(Vec<u8>),  // "..."
    CStr(Vec<u8>), // c"..."
    P(u8),         // punctuation
    Meta(String),  // !foo
    Attr,          // #12
    Ellipsis,
    Nl,
    Eof,
}

pub struct Lex<'a> {
    pub s: &'a [u8],
    pub i: usize,
    peeked: Option<(Tok, usize)>,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

type R<T> = Result<T, String>;

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], i: usize) -> Self {
        Lex { s, i, peeked: None }
    }
    fn unesc(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn ident(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            return String::from_utf8_lossy(&self.unesc()).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn raw(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => {
                    self.i += 1;
                }
                b'\n' => {
                    self.i += 1;
                    return Tok::Nl;
                }
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'/' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'*' => {
                    self.i += 2;
                    while self.i + 1 < self.s.len() && !(self.s[self.i] == b'*' && self.s[self.i + 1] == b'/') {
                        self.i += 1;
                    }
                    self.i += 2;
                }
                b'%' => {
                    self.i += 1;
                    return Tok::Local(self.ident());
                }
                b'@' => {
                    self.i += 1;
                    return Tok::Global(self.ident());
                }
                b'!' => {
                    self.i += 1;
                    return Tok::Meta(self.ident());
                }
                b'#' => {
                    self.i += 1;
                    self.ident();
                    return Tok::Attr;
                }
                b'"' => {
                    return Tok::Str(self.unesc());
                }
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    return Tok::CStr(self.unesc());
                }
                b'.' => {
                    if self.s[self.i..].starts_with(b"...") {
                        self.i += 3;
                        return Tok::Ellipsis;
                    }
                    self.i += 1;
                    return Tok::P(b'.');
                }
                b'-' | b'+' | b'0'..=b'9' => {
                    let st = self.i;
                    self.i += 1;
                    let mut fl = false;
                    while self.i < self.s.len() {
                        let d = self.s[self.i];
                        if d.is_ascii_alphanumeric() || d == b'_' {
                            if !d.is_ascii_digit() {
                                fl = true;
                            }
                            self.i += 1;
                        } else if d == b'.' {
                            fl = true;
                            self.i += 1;
                        } else if (d == b'+' || d == b'-') && matches!(self.s[self.i - 1], b'e' | b'E') && fl {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    let t = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                    return if fl { Tok::Float(t) } else { Tok::Int(t) };
                }
                _ if c.is_ascii_alphabetic() || c == b'_' => {
                    let st = self.i;
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.')) {
                        self.i += 1;
                    }
                    return Tok::Word(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
                }
                _ => {
                    self.i += 1;
                    return Tok::P(c);
                }
            }
        }
    }
    pub fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            let save = self.i;
            let t = self.raw();
            self.peeked = Some((t, self.i));
            let _ = save;
        }
        &self.peeked.as_ref().unwrap().0
    }
    pub fn next(&mut self) -> Tok {
        if let Some((t, _)) = self.peeked.take() {
            return t;
        }
        self.raw()
    }
    fn is_p(&mut self, c: u8) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == c)
    }
    fn is_w(&mut self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            let t = self.peek().clone();
            Err(format!("expected '{}' got {:?} near {}", c as char, t, self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 60).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    fn skip_line(&mut self) {
        loop {
            match self.next() {
                Tok::Nl | Tok::Eof => return,
                _ => {}
            }
        }
    }
    fn skip_nl(&mut self) {
        while *self.peek() == Tok::Nl {
            self.next();
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80" | "bfloat" | "opaque")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'a> Lex<'a> {
    pub fn ty(&mut self, m: &HashMap<String, Ty>) -> R<Ty> {
        let t = self.next();
        let r = match t {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" | "opaque" => Ty::Other,
                _ if is_type_word(&w) => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("bad type word {} near {}", w, self.ctx())),
            },
            Tok::P(b'[') => {
                let n = match self.next() {
                    Tok::Int(s) => s.parse::<u64>().unwrap(),
                    x => return Err(format!("arr len {:?}", x)),
                };
                self.eat_w("x");
                let e = self.ty(m)?;
                self.exp(b']')?;
                Ty::Arr(n, Arc::new(e))
            }
            Tok::P(b'{') => {
                let f = self.fields(m)?;
                Ty::Struct(Arc::new(f), false)
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let f = self.fields(m)?;
                    self.exp(b'>')?;
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = match self.next() {
                        Tok::Int(s) => s.parse::<u32>().unwrap(),
                        x => return Err(format!("vec len {:?}", x)),
                    };
                    self.eat_w("x");
                    let e = self.ty(m)?;
                    self.exp(b'>')?;
                    Ty::Vec(n, Arc::new(e))
                }
            }
            Tok::Local(n) => m.get(&n).cloned().ok_or_else(|| format!("unknown type %{}", n))?,
            x => return Err(format!("bad type {:?} near {}", x, self.ctx())),
        };
        Ok(r)
    }
    fn fields(&mut self, m: &HashMap<String, Ty>) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat_p(b'}') {
            return Ok(f);
        }
        loop {
            f.push(self.ty(m)?);
            if self.eat_p(b',') {
                continue;
            }
            self.exp(b'}')?;
            return Ok(f);
        }
    }
    /// Skip attributes (words, with optional paren groups, strings) before a type or a value.
    fn skip_attrs_before_type(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Word(w) if !is_type_word(&w) => {
                    self.next();
                    if w == "align" {
                        if let Tok::Int(_) = self.peek() {
                            self.next();
                        }
                    }
                    if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.next();
                    if self.eat_p(b'=') {
                        self.next();
                    }
                }
                Tok::Attr => {
                    self.next();
                }
                _ => return,
            }
        }
    }
    fn skip_attrs_before_val(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Word(w) if !is_val_word(&w) => {
                    self.next();
                    if w == "align" {
                        if let Tok::Int(_) = self.peek() {
                            self.next();
                        }
                    }
                    if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.next();
                    if self.eat_p(b'=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
}

fn is_val_word(w: &str) -> bool {
    if w.starts_with("f0x") {
        return true;
    }
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "add" | "sub" | "xor" | "splat" | "none" | "asm" | "blockaddress" | "addrspacecast" | "ptrtoaddr" | "mul"
    )
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn parse_int(s: &str, w: u32) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        let v: u128 = r.parse().unwrap_or(0);
        (v.wrapping_neg()) & mask(w)
    } else {
        s.parse::<u128>().unwrap_or(0) & mask(w)
    }
}

fn parse_float(s: &str, ty: &Ty) -> R<u128> {
    let v: f64 = if let Some(h) = s.strip_prefix("0x") {
        if h.starts_with('K') || h.starts_with('L') || h.starts_with('M') || h.starts_with('H') {
            return Err("float kind".into());
        }
        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
    } else if let Some(h) = s.strip_prefix("f0x") {
        return Ok(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?);
    } else {
        match s {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "qnan" | "nan" => f64::from_bits(0x7ff8000000000000),
            "-qnan" => f64::from_bits(0xfff8000000000000),
            _ => s.parse().map_err(|_| format!("float {}", s))?,
        }
    };
    Ok(match ty {
        Ty::F32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    })
}

impl Module {
    pub fn load(src: Vec<u8>) -> R<Module> {
        let mut m = Module {
            src: vec![],
            types: HashMap::new(),
            funcs: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            gl_by_name: HashMap::new(),
            aliases: HashMap::new(),
        };
        // pass 1: named types
        let n = src.len();
        let mut i = 0;
        let mut lines: Vec<usize> = vec![];
        while i < n {
            let c = src[i];
            if c == b'%' || c == b'@' || c == b'd' {
                lines.push(i);
            }
            // find end of line
            match src[i..].iter().position(|&b| b == b'\n') {
                Some(k) => i += k + 1,
                None => break,
            }
            // inside a define: skip to closing brace line quickly
            if c == b'd' && src[lines[lines.len() - 1]..].starts_with(b"define") {
                while i < n {
                    if src[i] == b'}' {
                        break;
                    }
                    match src[i..].iter().position(|&b| b == b'\n') {
                        Some(k) => i += k + 1,
                        None => {
                            i = n;
                        }
                    }
                }
            }
        }
        let mut pending: Vec<usize> = lines.iter().copied().filter(|&l| src[l] == b'%').collect();
        for _ in 0..20 {
            let mut left = vec![];
            for &l in &pending {
                let mut lx = Lex::new(&src, l);
                let name = match lx.next() {
                    Tok::Local(n) => n,
                    _ => continue,
                };
                lx.exp(b'=')?;
                lx.eat_w("type");
                match lx.ty(&m.types) {
                    Ok(t) => {
                        m.types.insert(name, t);
                    }
                    Err(_) => left.push(l),
                }
            }
            pending = left;
            if pending.is_empty() {
                break;
            }
        }
        // pass 2: symbols
        for &l in &lines {
            let s = &src[l..];
            if s.starts_with(b"define") || s.starts_with(b"declare") {
                let is_def = s.starts_with(b"define");
                let mut lx = Lex::new(&src, l);
                lx.next();
                lx.skip_attrs_before_type();
                let ret = lx.ty(&m.types)?;
                let name = match lx.next() {
                    Tok::Global(n) => n,
                    x => return Err(format!("fn name {:?} {}", x, lx.ctx())),
                };
                let pos = lx.i;
                let id = m.funcs.len();
                m.fn_by_name.insert(name.clone(), id);
                m.funcs.push(FnDecl {
                    name,
                    ret,
                    nparams: 0,
                    body: if is_def { Some((pos, 0)) } else { None },
                    parsed: OnceLock::new(),
                });
            } else if s[0] == b'@' {
                let mut lx = Lex::new(&src, l);
                let name = match lx.next() {
                    Tok::Global(n) => n,
                    x => return Err(format!("glob {:?}", x)),
                };
                lx.exp(b'=')?;
                let mut constant = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    match lx.next() {
                        Tok::Word(w) => match w.as_str() {
                            "global" => break,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "alias" => {
                                alias = true;
                                break;
                            }
                            "external" | "extern_weak" => external = true,
                            _ => {
                                if lx.is_p(b'(') {
                                    lx.skip_parens();
                                }
                            }
                        },
                        Tok::Str(_) => {}
                        x => return Err(format!("glob {} {:?}", name, x)),
                    }
                }
                if name.starts_with("llvm.") {
                    continue;
                }
                let ty = lx.ty(&m.types)?;
                if alias {
                    lx.exp(b',')?;
                    lx.ty(&m.types)?;
                    if let Tok::Global(t) = lx.next() {
                        m.aliases.insert(name, t);
                    } else {
                        return Err("alias expr".into());
                    }
                    continue;
                }
                let pos = {
                    lx.peek();
                    // position before peeked token: re-lex from ty end is simplest
                    None::<usize>
                };
                let _ = pos;
                let id = m.globals.len();
                m.gl_by_name.insert(name.clone(), id);
                let size = ty.size();
                m.globals.push(Global { name, ty, size, constant, init: None, init_pos: if external { None } else { Some(l) }, alias });
            }
        }
        // pass 3: initialisers
        let ng = m.globals.len();
        for g in 0..ng {
            if let Some(l) = m.globals[g].init_pos {
                let mut lx = Lex::new(&src, l);
                lx.next();
                lx.exp(b'=')?;
                loop {
                    match lx.next() {
                        Tok::Word(w) if w == "global" || w == "constant" => break,
                        Tok::Word(_) => {
                            if lx.is_p(b'(') {
                                lx.skip_parens();
                            }
                        }
                        _ => {}
                    }
                }
                let ty = lx.ty(&m.types)?;
                let v = cval(&m, &mut lx, &ty)?;
                let mut b = vec![0u8; ty.size() as usize];
                cbytes(&v, &ty, &mut b);
                m.globals[g].init = Some(b);
            }
        }
        m.src = src;
        Ok(m)
    }

    pub fn func(&self, id: usize) -> Result<Arc<Func>, String> {
        self.funcs[id]
            .parsed
            .get_or_init(|| {
                let f = &self.funcs[id];
                match f.body {
                    Some((pos, _)) => parse_body(self, id, pos).map(Arc::new).map_err(|e| format!("{}: {}", f.name, e)),
                    None => Err(format!("no body: {}", f.name)),
                }
            })
            .clone()
    }
}

pub fn cbytes(v: &CVal, ty: &Ty, out: &mut [u8]) {
    match (v, ty) {
        (CVal::Agg(es), Ty::Vec(_, t)) if t.bits() % 8 == 0 => {
            let s = t.bits() as usize / 8;
            for (i, e) in es.iter().enumerate() {
                cbytes(e, t, &mut out[i * s..(i + 1) * s]);
            }
        }
        (CVal::Agg(es), Ty::Vec(_, _)) => {
            for (i, e) in es.iter().enumerate() {
                if let CVal::I(x) = e {
                    if x & 1 == 1 {
                        out[i / 8] |= 1 << (i % 8);
                    }
                }
            }
        }
        (CVal::Agg(es), _) => {
            for (i, e) in es.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                let et = ty.elem(i);
                let s = et.size() as usize;
                cbytes(e, &et, &mut out[o..o + s]);
            }
        }
        (CVal::I(x), t) => {
            let s = t.store_size() as usize;
            let b = x.to_le_bytes();
            for i in 0..s.min(16) {
                out[i] = b[i];
            }
        }
    }
}

fn zero(ty: &Ty) -> CVal {
    match ty {
        Ty::Arr(n, t) => CVal::Agg((0..*n).map(|_| zero(t)).collect()),
        Ty::Vec(n, t) => CVal::Agg((0..*n).map(|_| zero(t)).collect()),
        Ty::Struct(f, _) => CVal::Agg(f.iter().map(zero).collect()),
        _ => CVal::I(0),
    }
}

fn sext64(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v as i64) << (64 - w)) >> (64 - w)
    }
}

/// Parse a constant of the given type.
pub fn cval(m: &Module, lx: &mut Lex, ty: &Ty) -> R<CVal> {
    let t = lx.next();
    Ok(match t {
        Tok::Int(s) => CVal::I(match ty {
            Ty::F32 | Ty::F64 => parse_float(&s, ty)?,
            _ => parse_int(&s, ty.bits()),
        }),
        Tok::Float(s) => {
            if matches!(ty, Ty::F32 | Ty::F64) {
                CVal::I(parse_float(&s, ty)?)
            } else if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("0x")) {
                CVal::I(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?)
            } else {
                return Err(format!("int const {}", s));
            }
        }
        Tok::CStr(b) => CVal::Agg(b.into_iter().map(|x| CVal::I(x as u128)).collect()),
        Tok::Global(n) => CVal::I(m.sym_addr(&n).unwrap_or(0) as u128),
        Tok::Word(w) => match w.as_str() {
            "true" => CVal::I(1),
            "false" | "null" | "none" => CVal::I(0),
            "undef" | "poison" | "zeroinitializer" => zero(ty),
            "splat" => {
                lx.exp(b'(')?;
                let et = lx.ty(&m.types)?;
                let v = cval(m, lx, &et)?;
                lx.exp(b')')?;
                CVal::Agg((0..ty.nelem()).map(|_| v.clone()).collect())
            }
            "f0x" => return Err("f0x".into()),
            _ if w.starts_with("f0x") => CVal::I(u128::from_str_radix(&w[3..], 16).map_err(|e| e.to_string())?),
            "getelementptr" => {
                while let Tok::Word(x) = lx.peek().clone() {
                    if matches!(x.as_str(), "inbounds" | "nuw" | "nusw" | "inrange") {
                        lx.next();
                        if x == "inrange" {
                            lx.skip_parens();
                        }
                    } else {
                        break;
                    }
                }
                lx.exp(b'(')?;
                let bt = lx.ty(&m.types)?;
                lx.exp(b',')?;
                let pt = lx.ty(&m.types)?;
                let base = match cval(m, lx, &pt)? {
                    CVal::I(x) => x as u64,
                    _ => return Err("gep base".into()),
                };
                let mut off = 0i64;
                let mut cur = bt;
                let mut first = true;
                while lx.eat_p(b',') {
                    let it = lx.ty(&m.types)?;
                    let iv = match cval(m, lx, &it)? {
                        CVal::I(x) => sext64(x, it.bits()),
                        _ => return Err("gep idx".into()),
                    };
                    if first {
                        off += iv * cur.size() as i64;
                        first = false;
                    } else {
                        off += match &cur {
                            Ty::Struct(..) => cur.field_off(iv as usize) as i64,
                            _ => iv * cur.elem(0).size() as i64,
                        };
                        cur = cur.elem(if matches!(cur, Ty::Struct(..)) { iv as usize } else { 0 });
                    }
                }
                lx.exp(b')')?;
                CVal::I(base.wrapping_add(off as u64) as u128)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                lx.exp(b'(')?;
                let ft = lx.ty(&m.types)?;
                let v = cval(m, lx, &ft)?;
                lx.eat_w("to");
                let tt = lx.ty(&m.types)?;
                lx.exp(b')')?;
                match v {
                    CVal::I(x) => CVal::I(x & mask(tt.bits())),
                    v => v,
                }
            }
            "add" | "sub" | "xor" | "mul" => {
                while matches!(lx.peek(), Tok::Word(x) if x == "nuw" || x == "nsw") {
                    lx.next();
                }
                lx.exp(b'(')?;
                let t1 = lx.ty(&m.types)?;
                let a = cval(m, lx, &t1)?;
                lx.exp(b',')?;
                let t2 = lx.ty(&m.types)?;
                let b = cval(m, lx, &t2)?;
                lx.exp(b')')?;
                match (a, b) {
                    (CVal::I(x), CVal::I(y)) => CVal::I(
                        match w.as_str() {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "mul" => x.wrapping_mul(y),
                            _ => x ^ y,
                        } & mask(t1.bits()),
                    ),
                    _ => return Err("const expr".into()),
                }
            }
            _ => return Err(format!("const word {} near {}", w, lx.ctx())),
        },
        Tok::P(b'[') | Tok::P(b'{') => {
            let close = if t == Tok::P(b'[') { b']' } else { b'}' };
            let mut v = vec![];
            if !lx.eat_p(close) {
                loop {
                    let et = lx.ty(&m.types)?;
                    v.push(cval(m, lx, &et)?);
                    if !lx.eat_p(b',') {
                        break;
                    }
                }
                lx.exp(close)?;
            }
            CVal::Agg(v)
        }
        Tok::P(b'<') => {
            let packed = lx.eat_p(b'{');
            let mut v = vec![];
            loop {
                if packed && lx.is_p(b'}') {
                    break;
                }
                let et = lx.ty(&m.types)?;
                v.push(cval(m, lx, &et)?);
                if !lx.eat_p(b',') {
                    break;
                }
            }
            if packed {
                lx.exp(b'}')?;
            }
            lx.exp(b'>')?;
            CVal::Agg(v)
        }
        x => return Err(format!("const {:?} near {}", x, lx.ctx())),
    })
}

struct FnP<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    consts: Vec<(CVal, Ty)>,
    cmap: HashMap<(u128, u32), u32>,
    labels: HashMap<String, u32>,
}

struct RawPhi {
    d: u32,
    inc: Vec<(Opd, String)>,
}

impl<'a> FnP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, lx: &mut Lex, ty: &Ty) -> R<Opd> {
        if let Tok::Local(_) = lx.peek() {
            if let Tok::Local(n) = lx.next() {
                return Ok(Opd::R(self.reg(&n)));
            }
        }
        let v = cval(self.m, lx, ty)?;
        if let CVal::I(x) = &v {
            let w = match ty {
                Ty::Int(w) => *w,
                _ => 64,
            };
            if let Some(&c) = self.cmap.get(&(*x, w)) {
                return Ok(Opd::C(c));
            }
            let c = self.consts.len() as u32;
            self.cmap.insert((*x, w), c);
            self.consts.push((v, ty.clone()));
            return Ok(Opd::C(c));
        }
        self.consts.push((v, ty.clone()));
        Ok(Opd::C(self.consts.len() as u32 - 1))
    }
    fn tval(&mut self, lx: &mut Lex) -> R<(Opd, Ty)> {
        let t = lx.ty(&self.m.types)?;
        lx.skip_attrs_before_val();
        let v = self.val(lx, &t)?;
        Ok((v, t))
    }
    fn konst(&mut self, x: u128, ty: Ty) -> Opd {
        self.consts.push((CVal::I(x), ty));
        Opd::C(self.consts.len() as u32 - 1)
    }
    fn label(&mut self, lx: &mut Lex) -> R<String> {
        if !lx.eat_w("label") {
            return Err(format!("expected label near {}", lx.ctx()));
        }
        match lx.next() {
            Tok::Local(n) => Ok(n),
            x => Err(format!("label {:?}", x)),
        }
    }
}

enum PT {
    // pre-terminators carrying label names
    Br(String),
    CondBr(Opd, String, String),
    Switch(Ty, Opd, Vec<(u128, String)>, String),
    Invoke(Box<CallI>, String),
}

fn parse_body(m: &Module, id: usize, pos: usize) -> R<Func> {
    let mut lx = Lex::new(&m.src, pos);
    let mut p = FnP { m, regs: HashMap::new(), consts: vec![], cmap: HashMap::new(), labels: HashMap::new() };
    // params
    lx.exp(b'(')?;
    let mut np = 0u32;
    if !lx.eat_p(b')') {
        loop {
            if *lx.peek() == Tok::Ellipsis {
                lx.next();
            } else {
                lx.ty(&m.types)?;
                lx.skip_attrs_before_val();
                match lx.next() {
                    Tok::Local(n) => {
                        let r = p.reg(&n);
                        if r != np {
                            return Err("param reg".into());
                        }
                        np += 1;
                    }
                    x => return Err(format!("param {:?} near {}", x, lx.ctx())),
                }
            }
            if !lx.eat_p(b',') {
                break;
            }
        }
        lx.exp(b')')?;
    }
    // skip to '{' at end of line
    loop {
        match lx.next() {
            Tok::P(b'{') => {
                if *lx.peek() == Tok::Nl {
                    break;
                }
            }
            Tok::Eof => return Err("eof in header".into()),
            _ => {}
        }
    }
    lx.next();
    let mut blocks: Vec<(Vec<RawPhi>, Vec<Inst>, Option<PT>)> = vec![];
    let mut names: Vec<String> = vec![];
    let mut frame = 0u64;
    let mut ninst = 0usize;
    let mut unnamed_entry = true;
    loop {
        lx.skip_nl();
        // label?
        let t = lx.next();
        let mut lbl: Option<String> = None;
        match &t {
            Tok::P(b'}') => break,
            Tok::Eof => return Err("eof in body".into()),
            Tok::Word(w) => {
                if lx.is_p(b':') {
                    lbl = Some(w.clone());
                } else {
                    // words lexed without '-': labels such as "bb1.i-x" fall back below
                }
            }
            Tok::Int(w) | Tok::Float(w) => {
                if lx.is_p(b':') {
                    lbl = Some(w.clone());
                } else {
                    return Err(format!("unexpected number {} near {}", w, lx.ctx()));
                }
            }
            Tok::Str(s) => {
                if lx.is_p(b':') {
                    lbl = Some(String::from_utf8_lossy(s).into_owned());
                }
            }
            _ => {}
        }
        if let Some(l) = lbl {
            lx.next();
            lx.skip_line();
            p.labels.insert(l.clone(), blocks.len() as u32);
            names.push(l);
            blocks.push((vec![], vec![], None));
            unnamed_entry = false;
            continue;
        }
        if blocks.is_empty() && unnamed_entry {
            // implicit entry label: number of unnamed params
            let l = format!("{}", np);
            p.labels.insert(l.clone(), 0);
            names.push(l);
            blocks.push((vec![], vec![], None));
        }
        ninst += 1;
        // instruction
        let (dst, op) = match t {
            Tok::Local(n) => {
                lx.exp(b'=')?;
                let d = p.reg(&n);
                match lx.next() {
                    Tok::Word(w) => (Some(d), w),
                    x => return Err(format!("op {:?}", x)),
                }
            }
            Tok::Word(w) => (None, w),
            x => return Err(format!("inst {:?} near {}", x, lx.ctx())),
        };
        let cur = blocks.last_mut().unwrap();
        let d = dst.unwrap_or(u32::MAX);
        let insts = &mut cur.1;
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                lx.skip_attrs_before_type();
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let b = p.val(&mut lx, &ty)?;
                let k = match op.as_str() {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                insts.push(Inst::Bin { op: k, ty, d, a, b });
                lx.skip_line();
            }
            "fneg" => {
                lx.skip_attrs_before_type();
                let (a, ty) = p.tval(&mut lx)?;
                insts.push(Inst::FNeg { ty, d, a });
                lx.skip_line();
            }
            "icmp" => {
                let mut pr = None;
                while let Tok::Word(w) = lx.peek().clone() {
                    if is_type_word(&w) {
                        break;
                    }
                    lx.next();
                    pr = match w.as_str() {
                        "eq" => Some(Pred::Eq),
                        "ne" => Some(Pred::Ne),
                        "ugt" => Some(Pred::Ugt),
                        "uge" => Some(Pred::Uge),
                        "ult" => Some(Pred::Ult),
                        "ule" => Some(Pred::Ule),
                        "sgt" => Some(Pred::Sgt),
                        "sge" => Some(Pred::Sge),
                        "slt" => Some(Pred::Slt),
                        "sle" => Some(Pred::Sle),
                        _ => pr,
                    };
                }
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let b = p.val(&mut lx, &ty)?;
                insts.push(Inst::ICmp { p: pr.ok_or("icmp pred")?, ty, d, a, b });
                lx.skip_line();
            }
            "fcmp" => {
                let mut pr = None;
                while let Tok::Word(w) = lx.peek().clone() {
                    if is_type_word(&w) {
                        break;
                    }
                    lx.next();
                    pr = match w.as_str() {
                        "false" => Some(FPred::False),
                        "oeq" => Some(FPred::Oeq),
                        "ogt" => Some(FPred::Ogt),
                        "oge" => Some(FPred::Oge),
                        "olt" => Some(FPred::Olt),
                        "ole" => Some(FPred::Ole),
                        "one" => Some(FPred::One),
                        "ord" => Some(FPred::Ord),
                        "ueq" => Some(FPred::Ueq),
                        "ugt" => Some(FPred::Ugt),
                        "uge" => Some(FPred::Uge),
                        "ult" => Some(FPred::Ult),
                        "ule" => Some(FPred::Ule),
                        "une" => Some(FPred::Une),
                        "uno" => Some(FPred::Uno),
                        "true" => Some(FPred::True),
                        _ => pr,
                    };
                }
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let b = p.val(&mut lx, &ty)?;
                insts.push(Inst::FCmp { p: pr.ok_or("fcmp pred")?, ty, d, a, b });
                lx.skip_line();
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                lx.skip_attrs_before_type();
                let (a, from) = p.tval(&mut lx)?;
                lx.eat_w("to");
                let to = lx.ty(&m.types)?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::Bitcast,
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    _ => Cast::FpExt,
                };
                insts.push(Inst::Cast { k, from, to, d, a });
                lx.skip_line();
            }
            "select" => {
                lx.skip_attrs_before_type();
                let (c, cty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (b, _) = p.tval(&mut lx)?;
                insts.push(Inst::Select { cty, ty, d, c, a, b });
                lx.skip_line();
            }
            "freeze" => {
                let (a, _) = p.tval(&mut lx)?;
                insts.push(Inst::Freeze { d, a });
                lx.skip_line();
            }
            "alloca" => {
                let ty = lx.ty(&m.types)?;
                let mut align = ty.align();
                let mut dynn = None;
                while lx.eat_p(b',') {
                    if lx.eat_w("align") {
                        if let Tok::Int(s) = lx.next() {
                            align = s.parse().unwrap();
                        }
                    } else if let Tok::Meta(_) = lx.peek() {
                        break;
                    } else {
                        let (v, t) = p.tval(&mut lx)?;
                        dynn = Some((v, t));
                    }
                }
                match dynn {
                    Some((n, nty)) => insts.push(Inst::AllocaDyn { d, elem: ty.size(), n, nty }),
                    None => {
                        let align = align.max(1);
                        frame = (frame + align - 1) / align * align;
                        insts.push(Inst::Alloca { d, off: frame });
                        frame += ty.size();
                    }
                }
                lx.skip_line();
            }
            "load" => {
                while lx.eat_w("volatile") || lx.eat_w("atomic") {}
                let ty = lx.ty(&m.types)?;
                lx.exp(b',')?;
                let (ptr, _) = p.tval(&mut lx)?;
                insts.push(Inst::Load { ty, d, p: ptr });
                lx.skip_line();
            }
            "store" => {
                while lx.eat_w("volatile") || lx.eat_w("atomic") {}
                let (v, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (ptr, _) = p.tval(&mut lx)?;
                insts.push(Inst::Store { ty, v, p: ptr });
                lx.skip_line();
            }
            "getelementptr" => {
                while matches!(lx.peek(), Tok::Word(x) if matches!(x.as_str(), "inbounds" | "nuw" | "nusw")) {
                    lx.next();
                }
                let bt = lx.ty(&m.types)?;
                lx.exp(b',')?;
                let (base, pt) = p.tval(&mut lx)?;
                if pt != Ty::Ptr {
                    insts.push(Inst::Unsupported("vector gep".into()));
                    lx.skip_line();
                    continue;
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut curt = bt;
                let mut first = true;
                while lx.eat_p(b',') {
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                    let it = lx.ty(&m.types)?;
                    let o = p.val(&mut lx, &it)?;
                    let w = match it {
                        Ty::Int(w) => w,
                        _ => 64,
                    };
                    let cv = match o {
                        Opd::C(c) => match &p.consts[c as usize].0 {
                            CVal::I(x) => Some(sext64(*x, w)),
                            _ => None,
                        },
                        _ => None,
                    };
                    let scale = if first {
                        curt.size() as i64
                    } else {
                        match &curt {
                            Ty::Struct(..) => 0,
                            _ => curt.elem(0).size() as i64,
                        }
                    };
                    if !first && matches!(curt, Ty::Struct(..)) {
                        let k = cv.ok_or("struct gep idx")? as usize;
                        off += curt.field_off(k) as i64;
                        curt = curt.elem(k);
                    } else {
                        match cv {
                            Some(k) => off += k * scale,
                            None => idx.push((o, w, scale)),
                        }
                        if !first {
                            curt = curt.elem(0);
                        }
                    }
                    first = false;
                }
                insts.push(Inst::Gep { d, base, off, idx: idx.into_boxed_slice() });
                lx.skip_line();
            }
            "extractvalue" => {
                let (a, ty) = p.tval(&mut lx)?;
                let mut idx = vec![];
                while lx.eat_p(b',') {
                    match lx.next() {
                        Tok::Int(s) => idx.push(s.parse().unwrap()),
                        _ => break,
                    }
                }
                insts.push(Inst::ExtractValue { ty, d, a, idx });
                lx.skip_line();
            }
            "insertvalue" => {
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (v, _) = p.tval(&mut lx)?;
                let mut idx = vec![];
                while lx.eat_p(b',') {
                    match lx.next() {
                        Tok::Int(s) => idx.push(s.parse().unwrap()),
                        _ => break,
                    }
                }
                insts.push(Inst::InsertValue { ty, d, a, v, idx });
                lx.skip_line();
            }
            "extractelement" => {
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (i, _) = p.tval(&mut lx)?;
                insts.push(Inst::ExtractElem { ty, d, a, i });
                lx.skip_line();
            }
            "insertelement" => {
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (v, _) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (i, _) = p.tval(&mut lx)?;
                insts.push(Inst::InsertElem { ty, d, a, v, i });
                lx.skip_line();
            }
            "shufflevector" => {
                let (a, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (b, _) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let mt = lx.ty(&m.types)?;
                // mask: zeroinitializer/poison or <i32 k, ...>
                let mut mask = vec![];
                match lx.next() {
                    Tok::Word(w) if w == "zeroinitializer" => mask = vec![Some(0); mt.nelem()],
                    Tok::Word(w) if w == "splat" => {
                        lx.exp(b'(')?;
                        lx.next();
                        if let Tok::Int(s) = lx.next() {
                            mask = vec![Some(s.parse().unwrap()); mt.nelem()];
                        }
                        lx.exp(b')')?;
                    }
                    Tok::Word(_) => mask = vec![None; mt.nelem()],
                    Tok::P(b'<') => loop {
                        lx.ty(&m.types)?;
                        match lx.next() {
                            Tok::Int(s) => mask.push(Some(s.parse().unwrap())),
                            _ => mask.push(None),
                        }
                        if !lx.eat_p(b',') {
                            break;
                        }
                    },
                    x => return Err(format!("shuffle {:?}", x)),
                }
                insts.push(Inst::Shuffle { d, n: ty.nelem() as u32, a, b, mask });
                lx.skip_line();
            }
            "atomicrmw" => {
                lx.eat_w("volatile");
                let o = match lx.next() {
                    Tok::Word(w) => w,
                    x => return Err(format!("{:?}", x)),
                };
                let (ptr, _) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (v, ty) = p.tval(&mut lx)?;
                insts.push(Inst::AtomicRmw { op: o, ty, d, p: ptr, v });
                lx.skip_line();
            }
            "cmpxchg" => {
                while lx.eat_w("weak") || lx.eat_w("volatile") {}
                let (ptr, _) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (e, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let (n, _) = p.tval(&mut lx)?;
                insts.push(Inst::CmpXchg { ty, d, p: ptr, e, n });
                lx.skip_line();
            }
            "fence" => {
                insts.push(Inst::Nop);
                lx.skip_line();
            }
            "phi" => {
                lx.skip_attrs_before_type();
                let ty = lx.ty(&m.types)?;
                let mut inc = vec![];
                loop {
                    lx.exp(b'[')?;
                    let v = p.val(&mut lx, &ty)?;
                    lx.exp(b',')?;
                    match lx.next() {
                        Tok::Local(n) => inc.push((v, n)),
                        x => return Err(format!("phi {:?}", x)),
                    }
                    lx.exp(b']')?;
                    if lx.eat_p(b',') {
                        if lx.is_p(b'[') {
                            continue;
                        }
                    }
                    break;
                }
                cur.0.push(RawPhi { d, inc });
                lx.skip_line();
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut is_inv = op == "invoke";
                if op != "call" && op != "invoke" {
                    if let Tok::Word(w) = lx.next() {
                        is_inv = w == "invoke";
                    }
                }
                lx.skip_attrs_before_type();
                let ret = lx.ty(&m.types)?;
                // optional function type "(...)"
                if lx.is_p(b'(') {
                    lx.skip_parens();
                }
                let mut asm = None;
                let callee = match lx.next() {
                    Tok::Global(n) => {
                        let n2 = m.aliases.get(&n).cloned().unwrap_or(n);
                        Callee::Fn(*m.fn_by_name.get(&n2).ok_or_else(|| format!("callee {}", n2))?)
                    }
                    Tok::Local(n) => Callee::Ptr(Opd::R(p.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        let mut s = String::new();
                        loop {
                            match lx.peek().clone() {
                                Tok::Word(_) => {
                                    lx.next();
                                }
                                Tok::Str(x) => {
                                    if !s.is_empty() {
                                        s.push('|');
                                    }
                                    s.push_str(&String::from_utf8_lossy(&x));
                                    s.push('|');
                                    lx.next();
                                    lx.eat_p(b',');
                                }
                                _ => break,
                            }
                        }
                        asm = Some(s.clone());
                        Callee::Asm(s)
                    }
                    Tok::Word(w) => {
                        // constant expression callee
                        let mut l2 = Lex::new(lx.s, lx.i);
                        let _ = (&mut l2, w);
                        insts.push(Inst::Unsupported("const callee".into()));
                        lx.skip_line();
                        continue;
                    }
                    x => return Err(format!("callee {:?} near {}", x, lx.ctx())),
                };
                let _ = asm;
                lx.exp(b'(')?;
                let mut args = vec![];
                if !lx.eat_p(b')') {
                    loop {
                        if lx.is_w("metadata") {
                            // skip metadata operand
                            let mut dep = 0;
                            loop {
                                match lx.peek().clone() {
                                    Tok::P(b'(') => dep += 1,
                                    Tok::P(b')') => {
                                        if dep == 0 {
                                            break;
                                        }
                                        dep -= 1;
                                    }
                                    Tok::P(b',') if dep == 0 => break,
                                    Tok::Nl | Tok::Eof => break,
                                    _ => {}
                                }
                                lx.next();
                            }
                        } else {
                            let a = p.tval(&mut lx)?;
                            args.push(a);
                        }
                        if !lx.eat_p(b',') {
                            break;
                        }
                    }
                    lx.exp(b')')?;
                }
                let ci = Box::new(CallI { d: dst, callee, args, ret, normal: None });
                if is_inv {
                    // attributes, then newline, "to label %x unwind label %y"
                    loop {
                        match lx.next() {
                            Tok::Word(w) if w == "to" => break,
                            Tok::Eof => return Err("invoke eof".into()),
                            _ => {}
                        }
                    }
                    let l = p.label(&mut lx)?;
                    lx.skip_line();
                    cur.2 = Some(PT::Invoke(ci, l));
                } else {
                    // drop no-op intrinsics
                    let nop = match &ci.callee {
                        Callee::Fn(f) => {
                            let n = &m.funcs[*f].name;
                            n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") || n == "llvm.donothing"
                        }
                        Callee::Asm(s) => s.starts_with("|") || s.starts_with("~") || s.is_empty(),
                        _ => false,
                    };
                    if !nop {
                        insts.push(Inst::Call(ci));
                    }
                    lx.skip_line();
                }
            }
            "br" => {
                if lx.is_w("label") {
                    let l = p.label(&mut lx)?;
                    cur.2 = Some(PT::Br(l));
                } else {
                    let (c, _) = p.tval(&mut lx)?;
                    lx.exp(b',')?;
                    let a = p.label(&mut lx)?;
                    lx.exp(b',')?;
                    let b = p.label(&mut lx)?;
                    cur.2 = Some(PT::CondBr(c, a, b));
                }
                lx.skip_line();
            }
            "switch" => {
                let (v, ty) = p.tval(&mut lx)?;
                lx.exp(b',')?;
                let def = p.label(&mut lx)?;
                lx.exp(b'[')?;
                let mut cases = vec![];
                loop {
                    lx.skip_nl();
                    if lx.eat_p(b']') {
                        break;
                    }
                    let t = lx.ty(&m.types)?;
                    let k = match cval(m, &mut lx, &t)? {
                        CVal::I(x) => x,
                        _ => return Err("switch case".into()),
                    };
                    lx.exp(b',')?;
                    let l = p.label(&mut lx)?;
                    cases.push((k, l));
                }
                cur.2 = Some(PT::Switch(ty, v, cases, def));
                lx.skip_line();
            }
            "ret" => {
                if lx.eat_w("void") {
                    insts.push(Inst::Ret(None));
                } else {
                    let v = p.tval(&mut lx)?;
                    insts.push(Inst::Ret(Some(v)));
                }
                lx.skip_line();
            }
            "unreachable" => {
                insts.push(Inst::Unreachable);
                lx.skip_line();
            }
            "resume" => {
                insts.push(Inst::Unsupported("resume".into()));
                lx.skip_line();
            }
            "landingpad" => {
                insts.push(Inst::Unsupported("landingpad".into()));
                lx.skip_line();
                // clauses on following lines
                loop {
                    lx.skip_nl();
                    if lx.is_w("cleanup") || lx.is_w("catch") || lx.is_w("filter") {
                        lx.skip_line();
                    } else {
                        break;
                    }
                }
            }
            _ => {
                insts.push(Inst::Unsupported(op.clone()));
                lx.skip_line();
            }
        }
    }
    // resolve edges
    let phis: Vec<Vec<(u32, HashMap<String, Opd>)>> = blocks
        .iter()
        .map(|b| b.0.iter().map(|ph| (ph.d, ph.inc.iter().map(|(o, l)| (l.clone(), *o)).collect())).collect())
        .collect();
    let labels = p.labels.clone();
    let edge = |from: &str, to: &str| -> R<Edge> {
        let t = *labels.get(to).ok_or_else(|| format!("label {}", to))?;
        let mut mv = vec![];
        for (d, inc) in &phis[t as usize] {
            match inc.get(from) {
                Some(o) => mv.push((*d, *o)),
                None => return Err(format!("phi missing {} in {}", from, to)),
            }
        }
        Ok(Edge { to: t, moves: mv.into_boxed_slice() })
    };
    let mut out = vec![];
    for (bi, (_, mut insts, pt)) in blocks.into_iter().enumerate() {
        let from = &names[bi];
        match pt {
            Some(PT::Br(l)) => insts.push(Inst::Br(edge(from, &l)?)),
            Some(PT::CondBr(c, a, b)) => insts.push(Inst::CondBr { c, t: edge(from, &a)?, f: edge(from, &b)? }),
            Some(PT::Switch(ty, v, cs, def)) => {
                let mut cases = vec![];
                for (k, l) in cs {
                    cases.push((k, edge(from, &l)?));
                }
                insts.push(Inst::Switch { ty, v, cases, def: edge(from, &def)? });
            }
            Some(PT::Invoke(mut ci, l)) => {
                ci.normal = Some(edge(from, &l)?);
                insts.push(Inst::Call(ci));
            }
            None => {}
        }
        out.push(insts);
    }
    let _ = FnP::konst;
    Ok(Func {
        id,
        name: m.funcs[id].name.clone(),
        nregs: p.regs.len() as u32,
        nparams: np,
        consts: p.consts,
        blocks: out,
        frame,
        ninst,
    })
}
