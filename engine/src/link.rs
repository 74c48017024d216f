//! Lays out globals, assigns addresses, resolves constants to values.
use crate::big::Big;
use crate::interp::{Intr, V};
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc as Rc;

pub const GBASE: u64 = 0x10000;
pub const FBASE: u64 = 0x7000_0000_0000;

pub struct Prog {
    pub funcs: Vec<Func>,
    pub intr: Vec<Option<Intr>>,
    pub hook: Vec<Option<crate::interp::Hook>>,
    pub write_str: Option<u32>,
    pub fidx: HashMap<String, u32>,
    pub ginit: Vec<u8>,
    pub gend: u64,
    pub gaddr: HashMap<String, u64>,
}

struct L {
    faddr: HashMap<String, u64>,
    gaddr: HashMap<String, u64>,
    aliases: HashMap<String, Const>,
}
impl L {
    fn global(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(a) = self.faddr.get(n) {
            return *a;
        }
        if let Some(c) = self.aliases.get(n) {
            return self.int(c, 64) as u64;
        }
        0xdead_0000_0000
    }
    fn int(&self, c: &Const, w: u32) -> u128 {
        let r = match c {
            Const::Int(x) => *x,
            Const::Null | Const::Undef | Const::Zero => 0,
            Const::Global(n) => self.global(n) as u128,
            Const::Gep(b, t, idx) => {
                let mut a = self.int(b, 64) as i64;
                let mut cur: Option<Ty> = None;
                for i in idx {
                    let k = self.int(i, 64) as i64;
                    match &cur {
                        None => {
                            a += k * t.alloc_size() as i64;
                            cur = Some(t.clone());
                        }
                        Some(c) => {
                            a += match c {
                                Ty::Struct(..) => c.field_offset(k as usize) as i64,
                                _ => k * c.elem(0).alloc_size() as i64,
                            };
                            let e = c.elem(if let Ty::Struct(..) = c { k as usize } else { 0 }).clone();
                            cur = Some(e);
                        }
                    }
                }
                a as u64 as u128
            }
            Const::Cast(c) => self.int(c, w),
            Const::Bin(op, a, b, ww) => {
                let (x, y) = (self.int(a, *ww), self.int(b, *ww));
                match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    _ => x << y,
                }
            }
            _ => panic!("not an integer constant: {:?}", c),
        };
        if w >= 128 {
            r
        } else {
            r & ((1u128 << w) - 1)
        }
    }
    fn value(&self, t: &Ty, c: &Const) -> V {
        match t {
            Ty::Int(w) => match c {
                Const::Big(b) => V::W(Rc::new(b.clone())),
                _ => V::I(self.int(c, *w)),
            },
            Ty::Ptr => V::I(self.int(c, 64)),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = t.count();
                let v = match c {
                    Const::Agg(l) => l.iter().map(|(t, c)| self.value(t, c)).collect(),
                    Const::Bytes(b) => b.iter().map(|x| V::I(*x as u128)).collect(),
                    Const::Splat(c) => (0..n).map(|_| self.value(t.elem(0), c)).collect(),
                    _ => (0..n).map(|i| self.value(t.elem(i), &Const::Zero)).collect::<Vec<V>>(),
                };
                V::A(Rc::new(v))
            }
            _ => V::I(0),
        }
    }
    fn init(&self, t: &Ty, c: &Const, out: &mut [u8]) {
        match (t, c) {
            (_, Const::Zero) | (_, Const::Undef) | (_, Const::Null) => {}
            (_, Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Const::Agg(l)) => {
                for (i, (et, ec)) in l.iter().enumerate() {
                    let o = t.field_offset(i) as usize;
                    self.init(et, ec, &mut out[o..]);
                }
            }
            (_, Const::Splat(c)) => {
                for i in 0..t.count() {
                    let o = t.field_offset(i) as usize;
                    self.init(t.elem(i), c, &mut out[o..]);
                }
            }
            (Ty::Int(_), Const::Big(b)) => {
                let n = t.store_size() as usize;
                out[..n].copy_from_slice(&b.to_bytes_le(n));
            }
            (Ty::Int(w), _) => {
                let n = t.store_size() as usize;
                let x: u128 = self.int(c, *w);
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (Ty::Ptr, _) => {
                let x = self.int(c, 64) as u64;
                out[..8].copy_from_slice(&x.to_le_bytes());
            }
            (_, Const::Unsupported(_)) => {}
            _ => panic!("global init {:?} {:?}", t, c),
        }
    }
}

fn fix(l: &L, o: &mut Op) {
    if let Op::C(b) = o {
        let v = match &b.1 {
            Const::Unsupported(_) => V::I(0),
            _ => l.value(&b.0, &b.1),
        };
        *o = Op::K(v);
    }
}

pub fn link(m: Module) -> Prog {
    let mut faddr = HashMap::new();
    let mut fidx = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
        faddr.insert(f.name.clone(), FBASE + 16 * i as u64);
        fidx.insert(f.name.clone(), i as u32);
    }
    let mut gaddr = HashMap::new();
    let mut a = GBASE;
    for g in &m.globals {
        a = a.next_multiple_of(g.align.max(1));
        gaddr.insert(g.name.clone(), a);
        a += g.ty.alloc_size().max(1);
    }
    let gend = a.next_multiple_of(4096);
    let l = L { faddr, gaddr: gaddr.clone(), aliases: m.aliases.into_iter().collect() };
    let mut ginit = vec![0u8; (gend - GBASE) as usize];
    for g in &m.globals {
        if let Some(c) = &g.init {
            let o = (gaddr[&g.name] - GBASE) as usize;
            l.init(&g.ty, c, &mut ginit[o..]);
        }
    }
    let mut funcs = m.funcs;
    let intr: Vec<Option<Intr>> = funcs.iter().map(|f| crate::interp::intr_of(&f.name, f.is_decl)).collect();
    let hook: Vec<_> = funcs.iter().map(|f| if f.is_decl { None } else { crate::interp::hook_of(&f.name) }).collect();
    let write_str = funcs.iter().position(|f| f.name.starts_with("_RNvMs") && f.name.contains("4core3fmtNtB") && f.name.contains("9Formatter9write_str")).map(|i| i as u32);
    for f in funcs.iter_mut() {
        for b in f.blocks.iter_mut() {
            for (_, inc) in b.phis.iter_mut() {
                for (_, o) in inc.iter_mut() {
                    fix(&l, o);
                }
            }
            for i in b.insts.iter_mut() {
                match i {
                    Inst::Alloca { n: Some(o), .. } => fix(&l, o),
                    Inst::Load { p, .. } => fix(&l, p),
                    Inst::Store { v, p, .. } => {
                        fix(&l, v);
                        fix(&l, p);
                    }
                    Inst::Gep { base, idx, .. } => {
                        fix(&l, base);
                        for x in idx.iter_mut() {
                            fix(&l, &mut x.0);
                        }
                    }
                    Inst::Bin { a, b, .. } | Inst::Icmp { a, b, .. } => {
                        fix(&l, a);
                        fix(&l, b);
                    }
                    Inst::Cast { a, .. } | Inst::Copy { a, .. } | Inst::ExtractValue { a, .. } => fix(&l, a),
                    Inst::Select { c, a, b, .. } => {
                        fix(&l, c);
                        fix(&l, a);
                        fix(&l, b);
                    }
                    Inst::Call { callee, args, .. } => {
                        let nc = match callee {
                            Callee::Direct(n) => {
                                let mut k = *fidx.get(n.as_str()).unwrap_or_else(|| panic!("call to unknown {}", n));
                                if let (true, Some(Const::Global(t))) = (false, l.aliases.get(n.as_str())) {
                                    k = fidx[t];
                                }
                                Some(Callee::Fn(k))
                            }
                            Callee::Ind(o) => {
                                fix(&l, o);
                                None
                            }
                            _ => None,
                        };
                        if let Some(c) = nc {
                            *callee = c;
                        }
                        for a in args.iter_mut() {
                            fix(&l, a);
                        }
                    }
                    Inst::InsertValue { a, v, .. } => {
                        fix(&l, a);
                        fix(&l, v);
                    }
                    Inst::ExtractElt { a, i, .. } => {
                        fix(&l, a);
                        fix(&l, i);
                    }
                    Inst::InsertElt { a, v, i, .. } => {
                        fix(&l, a);
                        fix(&l, v);
                        fix(&l, i);
                    }
                    Inst::Shuffle { a, b, mask, .. } => {
                        fix(&l, a);
                        fix(&l, b);
                        fix(&l, mask);
                    }
                    Inst::AtomicRmw { p, v, .. } => {
                        fix(&l, p);
                        fix(&l, v);
                    }
                    Inst::CmpXchg { p, c, n, .. } => {
                        fix(&l, p);
                        fix(&l, c);
                        fix(&l, n);
                    }
                    Inst::CondBr { c, .. } => fix(&l, c),
                    Inst::Switch { v, .. } => fix(&l, v),
                    Inst::Ret(Some(o)) => fix(&l, o),
                    _ => {}
                }
            }
        }
    }
    let _ = Big::ZERO;
    Prog { funcs, intr, hook, write_str, fidx, ginit, gend, gaddr }
}
