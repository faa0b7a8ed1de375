//! Persistent symbolic memory: object table with copy-on-write objects.
use crate::term::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0 = concrete, otherwise ((term + 1) << 8) | byte index
    pub sym: Option<Vec<u64>>,
    pub heap: bool,
}

impl Obj {
    pub fn new(size: usize, heap: bool) -> Obj {
        Obj { data: vec![0; size], sym: None, heap }
    }
    #[inline]
    pub fn byte(&self, i: usize) -> B {
        if let Some(s) = &self.sym {
            let e = s[i];
            if e != 0 {
                return B::S(((e >> 8) - 1) as T, e as u8);
            }
        }
        B::C(self.data[i])
    }
    #[inline]
    pub fn set(&mut self, i: usize, b: B) {
        match b {
            B::C(v) => {
                self.data[i] = v;
                if let Some(s) = &mut self.sym {
                    s[i] = 0;
                }
            }
            B::S(t, k) => {
                let n = self.data.len();
                let s = self.sym.get_or_insert_with(|| vec![0; n]);
                s[i] = ((t as u64 + 1) << 8) | k as u64;
            }
        }
    }
    #[inline]
    pub fn conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| *x == 0),
        }
    }
}

#[derive(Clone)]
pub enum Slot {
    None,
    Obj(Rc<Obj>),
    /// continuation of a large object, number of ids back
    Back(u32),
}

const CH: usize = 64;
#[derive(Clone)]
pub struct Mem {
    pub chunks: Vec<Rc<Vec<Slot>>>,
    pub empty: Rc<Vec<Slot>>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], empty: Rc::new(vec![Slot::None; CH]) }
    }
    #[inline]
    pub fn get(&self, id: u64) -> &Slot {
        let c = id as usize / CH;
        if c >= self.chunks.len() {
            return &Slot::None;
        }
        &self.chunks[c][id as usize % CH]
    }
    #[inline]
    pub fn slot_mut(&mut self, id: u64) -> &mut Slot {
        let c = id as usize / CH;
        while c >= self.chunks.len() {
            let e = self.empty.clone();
            self.chunks.push(e);
        }
        &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH]
    }
}
pub const CHUNK: usize = CH;
