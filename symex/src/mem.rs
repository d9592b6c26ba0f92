// Copy-on-write byte memory. Object ids are the upper 32 address bits.
use crate::ir::*;
use crate::term::T;
use std::rc::Rc;

pub const NOSYM: T = u32::MAX;
const CH: usize = 256;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Global,
    Const,
    Stack,
    Heap,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<T>,
    pub kind: Kind,
}

impl Obj {
    pub fn is_sym(&self, off: usize, n: usize) -> bool {
        !self.sym.is_empty() && self.sym[off..off + n].iter().any(|&t| t != NOSYM)
    }
}

pub struct Chunk {
    o: Vec<Option<Rc<Obj>>>,
    live: u32,
}
impl Clone for Chunk {
    fn clone(&self) -> Self {
        Chunk { o: self.o.clone(), live: self.live }
    }
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub next: u64,
    pub nheap: u64,
}

impl Mem {
    pub fn new() -> Self {
        Mem { chunks: vec![], next: GL_OBJ0, nheap: 0 }
    }
    pub fn put(&mut self, id: u64, o: Obj) {
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk { o: vec![None; CH], live: 0 }));
        let ch = Rc::make_mut(ch);
        ch.o[id as usize % CH] = Some(Rc::new(o));
        ch.live += 1;
    }
    pub fn alloc(&mut self, size: usize, kind: Kind) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Obj { data: vec![0; size], sym: vec![], kind });
        id << OBJ_SHIFT
    }
    pub fn free(&mut self, id: u64) -> Option<Kind> {
        let c = id as usize / CH;
        let e = self.chunks.get_mut(c)?;
        let ch = Rc::make_mut(e.as_mut()?);
        let o = ch.o[id as usize % CH].take()?;
        ch.live -= 1;
        let k = o.kind;
        if ch.live == 0 && (c + 1) * CH <= self.next as usize {
            self.chunks[c] = None;
        }
        Some(k)
    }
    #[inline]
    pub fn get(&self, addr: u64) -> Option<&Obj> {
        let id = (addr >> OBJ_SHIFT) as usize;
        match self.chunks.get(id / CH) {
            Some(Some(c)) => c.o[id % CH].as_deref(),
            _ => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let id = (addr >> OBJ_SHIFT) as usize;
        match self.chunks.get_mut(id / CH) {
            Some(Some(c)) => {
                let ch = Rc::make_mut(c);
                ch.o[id % CH].as_mut().map(|o| Rc::make_mut(o))
            }
            _ => None,
        }
    }
}
