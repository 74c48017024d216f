//! Symbolic interpreter for the linked program: one `Path` executes one control-flow path,
//! driven by a decision prefix; new decisions fork alternatives onto the work queue.
use crate::big::Big;
use crate::ir::*;
use crate::link::*;
use crate::parse::sext;
use crate::solve::*;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    T(T),
    B(B),
    W(Arc<Big>),
    A(Arc<Vec<V>>),
}

#[derive(Debug, Clone)]
pub enum Stop {
    Panic(String),
    Unsupported(String),
    Infeasible,
    Limit(String),
    Halt,
}
pub type X<Y> = Result<Y, Stop>;
fn unsup<Y>(s: impl Into<String>) -> X<Y> {
    Err(Stop::Unsupported(s.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B(bool),
    V(Big),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Panic,
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    HashKeys,
    Abort,
    // llvm
    LNop,
    LArg0,
    LZero,
    Minmax(u8),
    Fsh(bool),
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    OverOp(u8),
    SatOp(u8),
    Cmp3(bool),
    Abs,
    Trap,
    PMaskRed,
    // harness interface
    SymInt,
    SymBool,
    SymChoose,
    SymAssume,
    SymCheck,
    SymReach,
    SymPanicMode,
    SymStop,
    SymConcrete,
    SymNote,
    SymObserve,
    SymIsSym,
    ZLoad,
    ZStore,
    ZBin(u8),
    ZCmp(u8),
    ZIte,
    BigOp,
    FmtNum,
    ParseNum,
    Sha256,
    DecPow,
    Isqrt,
}

/// Functions of the standard library whose argument may be symbolic: integer rendering and parsing.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook {
    FmtBuf,
    FmtInner,
    Display(u8),
    ParseInt(u8),
}
pub fn hook_of(name: &str) -> Option<Hook> {
    if !name.starts_with("_RNv") {
        return None;
    }
    let size = |c: u8| match c {
        b'h' => Some(1u8),
        b't' => Some(2),
        b'm' => Some(4),
        b'y' | b'j' => Some(8),
        b'o' => Some(16),
        _ => None,
    };
    for pre in ["4core3fmt3num3imp", "4core3fmt3num"] {
        if let Some(i) = name.find(pre) {
            let r = &name[i + pre.len()..];
            let b = r.as_bytes();
            if b.len() > 2 {
                if let Some(k) = size(b[0]) {
                    let t = &r[1..];
                    if t.starts_with("4__fmt") {
                        return Some(Hook::FmtBuf);
                    }
                    if b[0] == b'o' && t.starts_with("10__fmt_inner") {
                        return Some(Hook::FmtInner);
                    }
                    if t.starts_with("NtB") && (t.contains("_7Display3fmt") || t.contains("_5Debug3fmt")) {
                        return Some(Hook::Display(k));
                    }
                }
            }
        }
    }
    if let Some(i) = name.find("4core3num") {
        let r = &name[i + 9..];
        let b = r.as_bytes();
        if b.len() > 2 && r[1..].starts_with("27from_ascii_bytes_radix_impl") {
            return size(b[0]).map(Hook::ParseInt);
        }
    }
    None
}
pub fn intr_of(name: &str, decl: bool) -> Option<Intr> {
    use Intr::*;
    if !decl {
        if (name.starts_with("_RNv") || name.starts_with("_RINv"))
            && (name.contains("_4core9panicking")
                || name.contains("_4core6option13expect_failed")
                || name.contains("_4core6option13unwrap_failed")
                || name.contains("_4core6result13unwrap_failed")
                || name.contains("_5alloc5alloc18handle_alloc_error")
                || name.contains("_5alloc7raw_vec12handle_error")
                || name.contains("_5alloc7raw_vec17capacity_overflow")
                || name.contains("_4core3str16slice_error_fail")
                || name.contains("_4core4cell22panic_already")
                || name.contains("_3std9panicking")
                || name.contains("_3std7process5abort"))
        {
            return Some(Panic);
        }
        if name.contains("_3std2io5stdio6__print") || name.contains("_3std2io5stdio7__eprint") {
            return Some(LZero);
        }
        if name.contains("hashmap_random_keys") {
            return Some(HashKeys);
        }
        return None;
    }
    Some(match name {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "memchr" => Memchr,
        "abort" => Abort,
        "__cxa_thread_atexit_impl" => LZero,
        "__sym_int" => SymInt,
        "__sym_bool" => SymBool,
        "__sym_choose" => SymChoose,
        "__sym_assume" => SymAssume,
        "__sym_check" => SymCheck,
        "__sym_reach" => SymReach,
        "__sym_panic_mode" => SymPanicMode,
        "__sym_stop" => SymStop,
        "__sym_concrete" => SymConcrete,
        "__sym_note" => SymNote,
        "__sym_observe" => SymObserve,
        "__sym_is_symbolic" => SymIsSym,
        "__z_load" => ZLoad,
        "__z_store" => ZStore,
        "__z_add" => ZBin(0),
        "__z_sub" => ZBin(1),
        "__z_mul" => ZBin(2),
        "__z_div" => ZBin(3),
        "__z_mod" => ZBin(4),
        "__z_le" => ZCmp(0),
        "__z_lt" => ZCmp(1),
        "__z_eq" => ZCmp(2),
        "__z_ite" => ZIte,
        "__sym_bigop" => BigOp,
        "__sym_fmt" => FmtNum,
        "__sym_parse" => ParseNum,
        "__sym_sha256" => Sha256,
        "__sym_dec_pow" => DecPow,
        "__sym_isqrt" => Isqrt,
        _ => {
            let n = name.strip_prefix("llvm.")?;
            if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("donothing") || n.starts_with("dbg") || n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") || n.starts_with("invariant.start") || n.starts_with("invariant.end") {
                LNop
            } else if n.starts_with("memcpy") || n.starts_with("memmove") {
                Memcpy
            } else if n.starts_with("memset") {
                Memset
            } else if n.starts_with("expect") || n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("strip.invariant") || n.starts_with("ssa.copy") || n.starts_with("ptr.annotation") {
                LArg0
            } else if n.starts_with("is.constant") {
                LZero
            } else if n.starts_with("umin") {
                Minmax(0)
            } else if n.starts_with("umax") {
                Minmax(1)
            } else if n.starts_with("smin") {
                Minmax(2)
            } else if n.starts_with("smax") {
                Minmax(3)
            } else if n.starts_with("fshl") {
                Fsh(true)
            } else if n.starts_with("fshr") {
                Fsh(false)
            } else if n.starts_with("ctlz") {
                Ctlz
            } else if n.starts_with("cttz") {
                Cttz
            } else if n.starts_with("ctpop") {
                Ctpop
            } else if n.starts_with("bswap") {
                Bswap
            } else if n.starts_with("bitreverse") {
                BitRev
            } else if n.starts_with("uadd.with") {
                OverOp(0)
            } else if n.starts_with("usub.with") {
                OverOp(1)
            } else if n.starts_with("umul.with") {
                OverOp(2)
            } else if n.starts_with("sadd.with") {
                OverOp(3)
            } else if n.starts_with("ssub.with") {
                OverOp(4)
            } else if n.starts_with("smul.with") {
                OverOp(5)
            } else if n.starts_with("uadd.sat") {
                SatOp(0)
            } else if n.starts_with("usub.sat") {
                SatOp(1)
            } else if n.starts_with("ucmp") {
                Cmp3(false)
            } else if n.starts_with("scmp") {
                Cmp3(true)
            } else if n.starts_with("abs") {
                Abs
            } else if n.starts_with("trap") || n.starts_with("ubsantrap") {
                Trap
            } else if n.starts_with("vector.reduce") {
                PMaskRed
            } else {
                return None;
            }
        }
    })
}

// ------------------------------------------------------------------ memory
const STACK: u64 = 16 << 20;
const TOTAL: u64 = 384 << 20;
pub struct Mem {
    d: Vec<u8>,
    sh: Vec<u8>,
    sym: HashMap<u64, (T, u8, u8)>,
    sp: u64,
    sp_max: u64,
    stack0: u64,
    hp: u64,
    heap0: u64,
    free: HashMap<u64, Vec<u64>>,
    size: HashMap<u64, u64>,
}
impl Mem {
    pub fn new(p: &Prog) -> Mem {
        let stack0 = p.gend;
        let heap0 = stack0 + STACK;
        let mut m = Mem { d: vec![0; TOTAL as usize], sh: vec![0; TOTAL as usize], sym: HashMap::new(), sp: stack0, sp_max: stack0, stack0, hp: heap0, heap0, free: HashMap::new(), size: HashMap::new() };
        m.d[..p.ginit.len()].copy_from_slice(&p.ginit);
        m
    }
    pub fn reset(&mut self, p: &Prog) {
        let g = GBASE;
        for (a, b) in [(self.stack0, self.sp_max), (self.heap0, self.hp)] {
            let b = (b + 256).min(TOTAL + g);
            self.d[(a - g) as usize..(b - g) as usize].fill(0);
            self.sh[(a - g) as usize..(b - g) as usize].fill(0);
        }
        self.d[..p.ginit.len()].copy_from_slice(&p.ginit);
        self.sh[..p.ginit.len()].fill(0);
        self.sym.clear();
        self.sp = self.stack0;
        self.sp_max = self.stack0;
        self.hp = self.heap0;
        self.free.clear();
        self.size.clear();
    }
    #[inline]
    fn chk(&self, a: u64, n: u64) -> X<usize> {
        if a < GBASE || a.wrapping_add(n) > GBASE + TOTAL || a.wrapping_add(n) < a {
            return unsup(format!("memory access out of range: {:#x}+{}", a, n));
        }
        Ok((a - GBASE) as usize)
    }
    pub fn bytes(&self, a: u64, n: u64) -> X<&[u8]> {
        if n == 0 {
            return Ok(&[]);
        }
        let o = self.chk(a, n)?;
        Ok(&self.d[o..o + n as usize])
    }
    pub fn is_sym(&self, a: u64, n: u64) -> X<bool> {
        if n == 0 {
            return Ok(false);
        }
        let o = self.chk(a, n)?;
        Ok(self.sh[o..o + n as usize].iter().any(|x| *x != 0))
    }
    #[inline]
    fn load_c(&self, a: u64, n: u64) -> X<Option<u128>> {
        let o = self.chk(a, n)?;
        match n {
            1 => {
                if self.sh[o] != 0 {
                    return Ok(None);
                }
                Ok(Some(self.d[o] as u128))
            }
            4 => {
                if u32::from_le_bytes(self.sh[o..o + 4].try_into().unwrap()) != 0 {
                    return Ok(None);
                }
                Ok(Some(u32::from_le_bytes(self.d[o..o + 4].try_into().unwrap()) as u128))
            }
            8 => {
                if u64::from_le_bytes(self.sh[o..o + 8].try_into().unwrap()) != 0 {
                    return Ok(None);
                }
                Ok(Some(u64::from_le_bytes(self.d[o..o + 8].try_into().unwrap()) as u128))
            }
            _ => {
                if self.sh[o..o + n as usize].iter().any(|x| *x != 0) {
                    return Ok(None);
                }
                let mut r = 0u128;
                for i in (0..n as usize).rev() {
                    r = (r << 8) | self.d[o + i] as u128;
                }
                Ok(Some(r))
            }
        }
    }
    #[inline]
    pub fn store_c(&mut self, a: u64, n: u64, v: u128) -> X<()> {
        let o = self.chk(a, n)?;
        let n = n as usize;
        self.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        self.sh[o..o + n].fill(0);
        Ok(())
    }
    pub fn store_bytes(&mut self, a: u64, b: &[u8]) -> X<()> {
        if b.is_empty() {
            return Ok(());
        }
        let o = self.chk(a, b.len() as u64)?;
        self.d[o..o + b.len()].copy_from_slice(b);
        self.sh[o..o + b.len()].fill(0);
        Ok(())
    }
    pub fn store_t(&mut self, a: u64, n: u64, t: T) -> X<()> {
        let o = self.chk(a, n)?;
        for i in 0..n {
            self.sh[o + i as usize] = 1;
            self.d[o + i as usize] = 0;
            self.sym.insert(a + i, (t, i as u8, n as u8));
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let so = self.chk(s, n)?;
        let dst = self.chk(d, n)?;
        let nn = n as usize;
        let any = self.sh[so..so + nn].iter().any(|x| *x != 0);
        let mut ents = vec![];
        if any {
            for i in 0..n {
                if self.sh[so + i as usize] != 0 {
                    ents.push((i, self.sym[&(s + i)]));
                }
            }
        }
        self.d.copy_within(so..so + nn, dst);
        self.sh.copy_within(so..so + nn, dst);
        for (i, e) in ents {
            self.sym.insert(d + i, e);
        }
        Ok(())
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> X<u64> {
        let n = n.max(1).next_multiple_of(16);
        if align <= 16 {
            if let Some(v) = self.free.get_mut(&n) {
                if let Some(a) = v.pop() {
                    self.size.insert(a, n);
                    return Ok(a);
                }
            }
        }
        let a = self.hp.next_multiple_of(align.max(16));
        if a + n > GBASE + TOTAL - 4096 {
            return Err(Stop::Limit("out of modelled memory".into()));
        }
        self.hp = a + n;
        self.size.insert(a, n);
        Ok(a)
    }
    pub fn dealloc(&mut self, a: u64) {
        if let Some(n) = self.size.remove(&a) {
            self.free.entry(n).or_default().push(a);
        }
    }
}

// ------------------------------------------------------------------ results
#[derive(Clone, Debug)]
pub struct Violation {
    pub check: String,
    pub model: Vec<(String, Big)>,
    pub validated: bool,
    pub notes: Vec<String>,
    pub trace: Vec<String>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum CheckKind {
    Simplified,
    Lin,
    Nia,
}
#[derive(Default)]
pub struct PathOut {
    pub pending: Vec<Vec<Dec>>,
    pub violations: Vec<Violation>,
    pub unknown: Vec<String>,
    pub checks: Vec<(String, bool)>,
    pub reached: Vec<(String, Option<Vec<(String, Big)>>)>,
    pub insts: u64,
    pub stop: Option<Stop>,
    pub observed: Vec<(String, String)>,
    pub decisions: usize,
}

pub struct Cfg {
    pub max_insts: u64,
    pub lin_ms: u64,
    pub nia_ms: u64,
    pub feas_ms: u64,
    pub concrete: Option<HashMap<String, Big>>,
    pub deadline: std::time::Instant,
    /// reach ids already witnessed, per entry
    pub witnessed: std::sync::Mutex<HashSet<(Option<u32>, String)>>,
    /// check ids already violated (only one model per id is searched)
    pub violated: std::sync::Mutex<HashMap<String, u32>>,
    pub trace: bool,
    /// only obligations with one of these prefixes are decided (empty: all)
    pub only: Vec<String>,
}
impl Cfg {
    fn wants(&self, id: &str) -> bool {
        self.only.is_empty() || self.only.iter().any(|p| id.starts_with(p.as_str()))
    }
}

pub struct Path<'p> {
    pub p: &'p Prog,
    pub cfg: &'p Cfg,
    pub mem: &'p mut Mem,
    pub st: Store,
    pub pc: Vec<(B, Vec<A>)>,
    prefix: Vec<Dec>,
    trail: Vec<Dec>,
    pub solver: &'p mut Solver,
    vars: Vec<(String, A)>,
    names: HashMap<String, u32>,
    fmts: Vec<(u8, T)>,
    hashes: Vec<(Vec<Tok>, T)>,
    revs: Vec<(T, T)>,
    panic_mode: u64,
    panic_id: String,
    pub out: PathOut,
    pub seen_fn: &'p mut Vec<bool>,
    depth: u32,
    stack: Vec<u32>,
    notes: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    C(u8),
    S(T),
    N(u8, T),
    /// a whole digest
    H(T),
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl<'p> Path<'p> {
    pub fn new(p: &'p Prog, cfg: &'p Cfg, mem: &'p mut Mem, solver: &'p mut Solver, seen_fn: &'p mut Vec<bool>, prefix: Vec<Dec>) -> Path<'p> {
        Path {
            p,
            cfg,
            mem,
            st: Store::new(),
            pc: vec![],
            prefix,
            trail: vec![],
            solver,
            vars: vec![],
            names: HashMap::new(),
            revs: vec![],
            fmts: vec![],
            hashes: vec![],
            panic_mode: 2,
            panic_id: String::new(),
            out: PathOut::default(),
            seen_fn,
            depth: 0,
            stack: vec![],
            notes: vec![],
        }
    }
    // ---------- value helpers
    fn t(&mut self, v: &V) -> X<T> {
        Ok(match v {
            V::I(x) => self.st.konst(Big::from_u128(*x)),
            V::T(t) => *t,
            V::B(b) => self.st.b2i(*b),
            V::W(b) => self.st.konst((**b).clone()),
            V::A(_) => return unsup("aggregate as integer"),
        })
    }
    fn v(&self, t: T) -> V {
        match self.st.is_const(t) {
            Some(b) => match b.to_u128() {
                Some(x) => V::I(x),
                None => V::T(t),
            },
            None => V::T(t),
        }
    }
    fn vb(&self, b: B) -> V {
        match b {
            TRUE => V::I(1),
            FALSE => V::I(0),
            _ => V::B(b),
        }
    }
    fn b(&mut self, v: &V) -> X<B> {
        Ok(match v {
            V::I(x) => self.st.bconst(x & 1 == 1),
            V::B(b) => *b,
            V::T(t) => {
                let z = self.st.ki(0);
                let e = self.st.eq(*t, z);
                self.st.not(e)
            }
            _ => return unsup("bool"),
        })
    }
    fn conc(&mut self, v: &V) -> X<u128> {
        match v {
            V::I(x) => Ok(*x),
            V::B(b) => Ok(self.decide(*b)? as u128),
            V::T(t) => {
                let b = self.concretize(*t)?;
                match b.to_u128() {
                    Some(x) => Ok(x),
                    None => unsup("concretised to a wide value"),
                }
            }
            _ => unsup("concretise aggregate"),
        }
    }
    // ---------- path condition and decisions
    fn push_pc(&mut self, b: B) {
        if b == TRUE {
            return;
        }
        let s = self.st.support(b);
        self.pc.push((b, s));
        self.st.learn(b);
    }
    /// x*y. Expanding the product of two sums loses the bounds of the factors: they are kept as facts.
    fn mul_t(&mut self, x: T, y: T) -> T {
        let p = self.st.mul(x, y);
        if self.st.is_const(x).is_some() || self.st.is_const(y).is_some() {
            return p;
        }
        let (ix, iy) = (self.st.ivl(x), self.st.ivl(y));
        let (lo, hi) = iv_mul(&ix, &iy);
        let have = self.st.ivl(p);
        if lo > have.0 {
            let k = self.st.konst(lo);
            let b = self.st.le(k, p);
            self.push_pc(b);
        }
        if hi < have.1 {
            let k = self.st.konst(hi);
            let b = self.st.le(p, k);
            self.push_pc(b);
        }
        p
    }
    /// x/y rounded down, with the bounds that follow from those of x
    fn div_t(&mut self, x: T, y: T) -> T {
        let d = self.st.div(x, y);
        let k = match self.st.is_const(y) {
            Some(k) => k,
            None => return d,
        };
        let (lo, hi) = self.st.ivl(x);
        let (lo, hi) = (lo.div(&k), hi.div(&k));
        let have = self.st.ivl(d);
        if lo > have.0 {
            let k = self.st.konst(lo);
            let b = self.st.le(k, d);
            self.push_pc(b);
        }
        if hi < have.1 {
            let k = self.st.konst(hi);
            let b = self.st.le(d, k);
            self.push_pc(b);
        }
        d
    }
    fn check_deadline(&self) -> X<()> {
        if std::time::Instant::now() > self.cfg.deadline {
            return Err(Stop::Limit("time budget".into()));
        }
        Ok(())
    }
    /// linear-abstraction feasibility of pc && b ; false only if definitely infeasible
    fn feasible(&mut self, b: B) -> bool {
        match self.st.tri(b) {
            Some(false) => return false,
            _ => {}
        }
        let goal = self.st.support(b);
        let mut cs = slice(&self.pc, &goal);
        cs.push(b);
        let q = build(&mut self.st, &cs, true, &|_| String::new());
        self.solver.sh.stats.lin.fetch_add(1, Relaxed);
        match self.solver.run(&q, &[Kind::Z3New], self.cfg.feas_ms) {
            Res::Unsat => false,
            _ => true,
        }
    }
    pub fn decide(&mut self, b: B) -> X<bool> {
        if let Some(r) = self.st.tri(b) {
            return Ok(r);
        }
        let i = self.trail.len();
        if i < self.prefix.len() {
            let d = match &self.prefix[i] {
                Dec::B(d) => *d,
                _ => return unsup("decision mismatch"),
            };
            self.trail.push(Dec::B(d));
            let c = if d { b } else { self.st.not(b) };
            self.push_pc(c);
            return Ok(d);
        }
        self.check_deadline()?;
        let nb = self.st.not(b);
        let ft = self.feasible(b);
        let ff = if ft { self.feasible(nb) } else { true };
        if !ft && !self.pc.is_empty() {
            // b impossible; ¬b must hold (or the path is infeasible, which later queries discover)
            self.trail.push(Dec::B(false));
            self.push_pc(nb);
            return Ok(false);
        }
        if !ff {
            self.trail.push(Dec::B(true));
            self.push_pc(b);
            return Ok(true);
        }
        if !ft {
            self.trail.push(Dec::B(false));
            self.push_pc(nb);
            return Ok(false);
        }
        let mut alt = self.trail.clone();
        alt.push(Dec::B(false));
        self.out.pending.push(alt);
        if self.cfg.trace {
            let w = self.where_();
            eprintln!("fork#{} {} @ {}", self.trail.len(), self.st.show_b(b).chars().take(300).collect::<String>(), w);
        }
        self.trail.push(Dec::B(true));
        self.push_pc(b);
        Ok(true)
    }
    fn where_(&self) -> String {
        let v: Vec<String> = self.stack.iter().rev().take(4).map(|f| demangle(&self.p.funcs[*f as usize].name)).collect();
        v.join(" < ")
    }
    fn concretize(&mut self, t: T) -> X<Big> {
        if let Some(b) = self.st.is_const(t) {
            return Ok(b);
        }
        let (lo, hi) = self.st.ivl(t);
        if lo == hi {
            return Ok(lo);
        }
        if hi.sub(&lo) < Big::S(300) {
            let mut k = lo.clone();
            while k < hi {
                let kt = self.st.konst(k.clone());
                let e = self.st.eq(t, kt);
                if self.decide(e)? {
                    return Ok(k);
                }
                k = k.add(&Big::ONE);
            }
            let kt = self.st.konst(hi.clone());
            let e = self.st.eq(t, kt);
            if self.decide(e)? {
                return Ok(hi);
            }
            return Err(Stop::Infeasible);
        }
        for _ in 0..64 {
            let i = self.trail.len();
            let val = if i < self.prefix.len() {
                match &self.prefix[i] {
                    Dec::V(b) => b.clone(),
                    _ => return unsup("decision mismatch (value)"),
                }
            } else {
                let cs: Vec<B> = self.pc.iter().map(|x| x.0).collect();
                match self.model_of(&cs) {
                    Some(mut ev) => self.st.eval_t(t, &mut ev),
                    None => return unsup(format!("cannot concretise {}", self.st.show_t(t))),
                }
            };
            self.trail.push(Dec::V(val.clone()));
            let kt = self.st.konst(val.clone());
            let e = self.st.eq(t, kt);
            if self.decide(e)? {
                return Ok(val);
            }
        }
        unsup(format!("too many values to concretise: {}", self.st.show_t(t)))
    }
    // ---------- models
    /// a validated model of the conjunction (true integer semantics), if one can be found
    fn model_of(&mut self, cs: &[B]) -> Option<Eval> {
        self.model_ex(cs, self.cfg.nia_ms).ok()
    }
    /// Err(true) = proved unsat, Err(false) = unknown
    fn model_ex(&mut self, cs: &[B], ms: u64) -> Result<Eval, bool> {
        // split into independent components
        let supp: Vec<(B, Vec<A>)> = cs.iter().map(|b| (*b, self.st.support(*b))).collect();
        let mut left: Vec<usize> = (0..supp.len()).collect();
        let mut ev = Eval::default();
        let mut unknown = false;
        while let Some(&f) = left.first() {
            let sub: Vec<(B, Vec<A>)> = left.iter().map(|i| supp[*i].clone()).collect();
            let comp = slice(&sub, &supp[f].1);
            let comp_set: HashSet<B> = comp.iter().copied().collect();
            left.retain(|i| !comp_set.contains(&supp[*i].0) && *i != f);
            let comp = if comp.is_empty() { vec![supp[f].0] } else { comp };
            match self.model_comp(&comp, ms) {
                Ok(m) => {
                    for (a, b) in m {
                        ev.a.insert(a, b);
                    }
                }
                Err(true) => return Err(true),
                Err(false) => unknown = true,
            }
        }
        if unknown {
            return Err(false);
        }
        Ok(ev)
    }
    fn valid(&mut self, comp: &[B], m: &[(A, Big)]) -> Option<Vec<(A, Big)>> {
        let mut ev = Eval::default();
        let mut keep = vec![];
        for (a, b) in m {
            match &*self.st.atoms[*a as usize].clone() {
                Atom::Var { .. } => {}
                Atom::Uf { f: Uf::Hash(_), .. } => {}
                _ => continue,
            }
            ev.a.insert(*a, b.clone());
            keep.push((*a, b.clone()));
        }
        for c in comp {
            if !self.st.eval_b(*c, &mut ev) {
                return None;
            }
        }
        Some(keep)
    }
    fn model_comp(&mut self, comp: &[B], ms: u64) -> Result<Vec<(A, Big)>, bool> {
        let q = build(&mut self.st, comp, true, &|_| String::new());
        self.solver.sh.stats.lin.fetch_add(1, Relaxed);
        match self.solver.run(&q, &[Kind::Z3New], self.cfg.lin_ms) {
            Res::Unsat => return Err(true),
            Res::Sat(m) => {
                if let Some(k) = self.valid(comp, &m) {
                    return Ok(k);
                }
            }
            Res::Unknown => {}
        }
        let q = build(&mut self.st, comp, false, &|_| String::new());
        self.solver.sh.stats.nia.fetch_add(1, Relaxed);
        match self.solver.run(&q, &[Kind::Z3New, Kind::Z3Old, Kind::Cvc5], ms) {
            Res::Unsat => return Err(true),
            Res::Sat(m) => {
                if let Some(k) = self.valid(comp, &m) {
                    return Ok(k);
                }
            }
            Res::Unknown => {}
        }
        // search hints: restrict magnitudes so that the solver finds readable witnesses
        for hint in 0..4 {
            let vars: Vec<A> = {
                let (mut a, mut b) = self.st.marks();
                let mut o = vec![];
                for c in comp {
                    self.st.atoms_of_b(*c, &mut a, &mut b, &mut o);
                }
                o
            };
            let st_atoms: Vec<(A, bool)> = vars.iter().map(|a| (*a, matches!(&*self.st.atoms[*a as usize], Atom::Uf { f: Uf::DecPow, .. }))).collect();
            let mut exps = vec![];
            for (a, p) in &st_atoms {
                if *p {
                    if let Atom::Uf { args, .. } = &*self.st.atoms[*a as usize].clone() {
                        exps.push(args[1]);
                    }
                }
            }
            let mut cs = comp.to_vec();
            for e in exps {
                let two = self.st.ki(if hint == 3 { 2 } else { 1 });
                let c = self.st.le(e, two);
                cs.push(c);
            }
            for a in &vars {
                if let Atom::Var { hi, .. } = &*self.st.atoms[*a as usize].clone() {
                    let lim = match hint {
                        0 => Big::S(1_000_000),
                        1 => Big::S(4_000_000_000_000_000_000),
                        2 => Big::S(1_000_000_000_000_000_000_000_000),
                        _ => continue,
                    };
                    if *hi > lim {
                        let t = self.st.atom_term(*a);
                        let l = self.st.konst(lim);
                        let c = self.st.le(t, l);
                        cs.push(c);
                    }
                }
            }
            if cs.contains(&FALSE) {
                continue;
            }
            let q = build(&mut self.st, &cs, false, &|_| String::new());
            self.solver.sh.stats.nia.fetch_add(1, Relaxed);
            if let Res::Sat(m) = self.solver.run(&q, &[Kind::Z3New, Kind::Z3Old, Kind::Cvc5], ms / 3) {
                if let Some(k) = self.valid(comp, &m) {
                    return Ok(k);
                }
            }
        }
        Err(false)
    }
    fn full_model(&mut self, ev: Eval) -> Vec<(String, Big)> {
        let mut ev = ev;
        let vs = self.vars.clone();
        vs.iter().map(|(n, a)| (n.clone(), self.st.eval_a(*a, &mut ev))).collect()
    }
    /// property obligation
    fn check(&mut self, b: B, id: String) -> X<()> {
        if !self.cfg.wants(&id) {
            return Ok(());
        }
        self.solver.sh.stats.discharged.fetch_add(1, Relaxed);
        let vid = id.clone();
        if self.st.tri(b) == Some(true) {
            self.solver.sh.stats.by_interval.fetch_add(1, Relaxed);
            self.out.checks.push((id, true));
            return Ok(());
        }
        self.check_deadline()?;
        let nb = self.st.not(b);
        let goal = self.st.support(nb);
        let mut cs = slice(&self.pc, &goal);
        cs.push(nb);
        let q = build(&mut self.st, &cs, true, &|_| String::new());
        self.solver.sh.stats.lin.fetch_add(1, Relaxed);
        let r = self.solver.run(&q, &[Kind::Z3New], self.cfg.lin_ms);
        let mut ok = r == Res::Unsat;
        if !ok && self.cfg.violated.lock().unwrap().get(&vid).copied().unwrap_or(0) >= 3 {
            // already reported; do not spend more time on further instances of it
            self.out.checks.push((id, true));
            return match self.st.tri(b) {
                Some(false) => Err(Stop::Infeasible),
                _ => {
                    self.push_pc(b);
                    Ok(())
                }
            };
        }
        if !ok && q.nonlinear {
            let q2 = build(&mut self.st, &cs, false, &|_| String::new());
            self.solver.sh.stats.nia.fetch_add(1, Relaxed);
            ok = self.solver.run(&q2, &[Kind::Z3New, Kind::Z3Old, Kind::Cvc5], self.cfg.nia_ms) == Res::Unsat;
        }
        if ok {
            self.out.checks.push((id, true));
            self.push_pc(b);
            return Ok(());
        }
        let mut all: Vec<B> = self.pc.iter().map(|x| x.0).collect();
        all.push(nb);
        match self.model_ex(&all, self.cfg.nia_ms) {
            Ok(ev) => {
                let model = self.full_model(ev);
                *self.cfg.violated.lock().unwrap().entry(vid).or_insert(0) += 1;
                let tr = self.pc.iter().rev().take(30).map(|x| self.st.show_b(x.0).chars().take(400).collect()).collect();
                self.out.checks.push((id.clone(), true));
                self.out.violations.push(Violation { check: id, model, validated: true, notes: self.notes.clone(), trace: tr });
            }
            Err(true) => {
                self.out.checks.push((id, true));
            }
            Err(false) => {
                let d: String = self.st.show_b(nb).chars().take(600).collect();
                self.out.unknown.push(format!("{}: undecided obligation, negation {}", id, d));
            }
        }
        // continue under the assumption that the property holds
        match self.st.tri(b) {
            Some(false) => Err(Stop::Infeasible),
            _ => {
                self.push_pc(b);
                Ok(())
            }
        }
    }
    fn reach(&mut self, id: String) {
        if !self.cfg.wants(&id) {
            return;
        }
        {
            let w = self.cfg.witnessed.lock().unwrap();
            if w.contains(&(self.stack.first().copied(), id.clone())) {
                return;
            }
        }
        let all: Vec<B> = self.pc.iter().map(|x| x.0).collect();
        match self.model_ex(&all, self.cfg.nia_ms.min(5000)) {
            Ok(ev) => {
                let m = self.full_model(ev);
                self.cfg.witnessed.lock().unwrap().insert((self.stack.first().copied(), id.clone()));
                self.out.reached.push((id, Some(m)));
            }
            // infeasible paths reach nothing; undecided ones are reported as such
            Err(true) => {}
            Err(false) => self.out.reached.push((id, None)),
        }
    }
    pub fn on_panic(&mut self, msg: &str) -> X<()> {
        match self.panic_mode {
            0 => self.notes.push(format!("reverts: {}", msg)),
            1 => {
                let id = self.panic_id.clone();
                self.notes.push(format!("panic: {}", msg));
                let r = self.check(FALSE, id);
                match r {
                    Err(Stop::Infeasible) | Ok(()) => {}
                    Err(e) => return Err(e),
                }
            }
            _ => {
                // only an error if the path is really feasible
                let all: Vec<B> = self.pc.iter().map(|x| x.0).collect();
                match self.model_ex(&all, 3000) {
                    Err(true) => {}
                    Ok(ev) => {
                        let m = self.full_model(ev);
                        self.out.unknown.push(format!("harness panic: {} model {:?}", msg, m));
                    }
                    Err(false) => self.out.unknown.push(format!("harness panic: {}", msg)),
                }
            }
        }
        Ok(())
    }
    // ---------- memory access with symbolic content
    pub fn load_t(&mut self, a: u64, n: u64) -> X<T> {
        // gather runs
        let mut acc = self.st.ki(0);
        let mut i = 0u64;
        while i < n {
            let o = self.mem.chk(a + i, 1)?;
            if self.mem.sh[o] == 0 {
                let k = Big::S(self.mem.d[o] as i128).mul(&Big::pow2(8 * i as u32));
                let kt = self.st.konst(k);
                acc = self.st.add(acc, kt);
                i += 1;
                continue;
            }
            let (t, b0, tot) = self.mem.sym[&(a + i)];
            let mut len = 1u64;
            while i + len < n {
                let o2 = self.mem.chk(a + i + len, 1)?;
                if self.mem.sh[o2] == 0 {
                    break;
                }
                let (t2, b2, tot2) = self.mem.sym[&(a + i + len)];
                if t2 != t || tot2 != tot || b2 as u64 != b0 as u64 + len {
                    break;
                }
                len += 1;
            }
            let mut x = t;
            if b0 > 0 {
                let k = self.st.konst(Big::pow2(8 * b0 as u32));
                x = self.st.div(x, k);
            }
            if (b0 as u64 + len) < tot as u64 {
                let k = self.st.konst(Big::pow2(8 * len as u32));
                x = self.st.modulo(x, k);
            }
            let x = self.st.scale(x, &Big::pow2(8 * i as u32));
            acc = self.st.add(acc, x);
            i += len;
        }
        Ok(acc)
    }
    fn load_int(&mut self, a: u64, w: u32) -> X<V> {
        let n = ((w + 7) / 8) as u64;
        if n <= 16 {
            if let Some(x) = self.mem.load_c(a, n)? {
                return Ok(V::I(x & mask(w)));
            }
        }
        let t = self.load_t(a, n)?;
        if w % 8 != 0 {
            let k = self.st.konst(Big::pow2(w));
            let t = self.st.modulo(t, k);
            return Ok(if w == 1 {
                let one = self.st.ki(1);
                let b = self.st.eq(t, one);
                self.vb(b)
            } else {
                self.v(t)
            });
        }
        Ok(self.v(t))
    }
    fn load(&mut self, a: u64, ty: &Ty) -> X<V> {
        match ty {
            Ty::Int(w) => self.load_int(a, *w),
            Ty::Ptr => self.load_int(a, 64),
            Ty::Vector(_, e) if matches!(**e, Ty::Int(w) if w % 8 != 0) => unsup("load of bit vector"),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut v = vec![];
                for i in 0..ty.count() {
                    v.push(self.load(a + ty.field_offset(i), ty.elem(i))?);
                }
                Ok(V::A(Arc::new(v)))
            }
            _ => unsup("load type"),
        }
    }
    fn store(&mut self, a: u64, ty: &Ty, v: &V) -> X<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let n = ty.store_size();
                match v {
                    V::I(x) if n <= 16 => self.mem.store_c(a, n, *x),
                    V::A(_) => unsup("store agg as int"),
                    _ => {
                        let t = self.t(v)?;
                        self.store_term(a, n, t)
                    }
                }
            }
            Ty::Vector(n, e) if matches!(**e, Ty::Int(w) if w % 8 != 0) => {
                let w = if let Ty::Int(w) = **e { w as u64 } else { 0 };
                if n * w % 8 != 0 {
                    return unsup("store of bit vector");
                }
                let i = Ty::Int((n * w) as u32);
                let x = self.cast(CastOp::BitCast, ty, &i, v)?;
                self.store(a, &i, &x)
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let l = match v {
                    V::A(l) => l.clone(),
                    _ => return unsup("store scalar as agg"),
                };
                for i in 0..ty.count() {
                    self.store(a + ty.field_offset(i), ty.elem(i), &l[i])?;
                }
                Ok(())
            }
            _ => unsup("store type"),
        }
    }
    fn store_term(&mut self, a: u64, n: u64, t: T) -> X<()> {
        match self.st.is_const(t) {
            Some(b) => {
                if b.is_neg() {
                    return unsup("negative store");
                }
                let by = b.to_bytes_le(n as usize);
                self.mem.store_bytes(a, &by)
            }
            None => self.mem.store_t(a, n, t),
        }
    }
    fn str_at(&mut self, a: u64, n: u64) -> X<String> {
        Ok(String::from_utf8_lossy(self.mem.bytes(a, n)?).to_string())
    }
    // ---------- arithmetic
    fn wrap(&mut self, p: T, w: u32) -> X<T> {
        let (lo, hi) = self.st.ivl(p);
        let m = Big::pow2(w);
        if !lo.is_neg() && hi < m {
            return Ok(p);
        }
        let mt = self.st.konst(m);
        let z = self.st.ki(0);
        let inlo = self.st.le(z, p);
        let inhi = self.st.lt(p, mt);
        if !self.decide(inlo)? {
            let q = self.st.add(p, mt);
            return self.wrap2(q, w);
        }
        if !self.decide(inhi)? {
            return self.wrap2(p, w);
        }
        Ok(p)
    }
    fn wrap2(&mut self, p: T, w: u32) -> X<T> {
        let (lo, hi) = self.st.ivl(p);
        let m = Big::pow2(w);
        if !lo.is_neg() && hi < m {
            return Ok(p);
        }
        let mt = self.st.konst(m.clone());
        if !lo.is_neg() && hi < m.add(&m) && lo >= m {
            return Ok(self.st.sub(p, mt));
        }
        Ok(self.st.modulo(p, mt))
    }
    fn signed(&mut self, v: T, w: u32) -> X<T> {
        let h = Big::pow2(w - 1);
        let (lo, hi) = self.st.ivl(v);
        if hi < h {
            return Ok(v);
        }
        let m = self.st.konst(Big::pow2(w));
        if lo >= h {
            return Ok(self.st.sub(v, m));
        }
        let ht = self.st.konst(h);
        let c = self.st.lt(v, ht);
        if self.decide(c)? {
            Ok(v)
        } else {
            Ok(self.st.sub(v, m))
        }
    }
    fn unsigned(&mut self, s: T, w: u32) -> X<T> {
        let (lo, _) = self.st.ivl(s);
        if !lo.is_neg() {
            return Ok(s);
        }
        self.wrap(s, w)
    }
    fn and_const(&mut self, x: T, c: u128, w: u32) -> X<T> {
        // contiguous runs of ones in c
        let mut acc = self.st.ki(0);
        let mut i = 0u32;
        while i < w {
            if (c >> i) & 1 == 0 {
                i += 1;
                continue;
            }
            let s = i;
            while i < w && (c >> i) & 1 == 1 {
                i += 1;
            }
            let ks = self.st.konst(Big::pow2(s));
            let mut y = self.st.div(x, ks);
            if i < w {
                let kl = self.st.konst(Big::pow2(i - s));
                y = self.st.modulo(y, kl);
            }
            let y = self.st.scale(y, &Big::pow2(s));
            acc = self.st.add(acc, y);
        }
        Ok(acc)
    }
    fn tz(&self, t: T) -> u32 {
        let mut z = 4096u32;
        for (m, k) in &self.st.poly(t).0 {
            let _ = m;
            let mut n = 0;
            let mut k = k.abs();
            while k.is_even() && n < 600 {
                k = k.div(&Big::S(2));
                n += 1;
            }
            z = z.min(n);
        }
        z
    }
    fn bitop(&mut self, op: BinOp, w: u32, a: T, b: T, disjoint: bool) -> X<T> {
        if op == BinOp::Or && disjoint {
            return Ok(self.st.add(a, b));
        }
        let (ca, cb) = (self.st.is_const(a), self.st.is_const(b));
        if ca.is_some() && cb.is_none() {
            return self.bitop(op, w, b, a, disjoint);
        }
        if let Some(c) = cb {
            let c = match c.to_u128() {
                Some(c) => c,
                None => return unsup("wide bit mask"),
            };
            if w <= 128 {
                let n = self.and_const(a, c, w)?;
                return Ok(match op {
                    BinOp::And => n,
                    BinOp::Or => {
                        let k = self.st.konst(Big::from_u128(c));
                        let s = self.st.add(a, k);
                        self.st.sub(s, n)
                    }
                    _ => {
                        let k = self.st.konst(Big::from_u128(c));
                        let s = self.st.add(a, k);
                        let n2 = self.st.scale(n, &Big::S(2));
                        self.st.sub(s, n2)
                    }
                });
            }
        }
        // both symbolic
        let (al, ah) = self.st.ivl(a);
        let (bl, bh) = self.st.ivl(b);
        let one = Big::ONE;
        if !al.is_neg() && !bl.is_neg() && ah <= one && bh <= one {
            let z = self.st.ki(0);
            let ea = self.st.eq(a, z);
            let xa = self.st.not(ea);
            let eb = self.st.eq(b, z);
            let xb = self.st.not(eb);
            let r = match op {
                BinOp::And => self.st.and(xa, xb),
                BinOp::Or => self.st.or(xa, xb),
                _ => self.st.xor(xa, xb),
            };
            return Ok(self.st.b2i(r));
        }
        let (ta, tb) = (self.tz(a), self.tz(b));
        if bh < Big::pow2(ta) || ah < Big::pow2(tb) {
            return Ok(match op {
                BinOp::And => self.st.ki(0),
                _ => self.st.add(a, b),
            });
        }
        if a == b {
            return Ok(match op {
                BinOp::Xor => self.st.ki(0),
                _ => a,
            });
        }
        let nb = ah.max(bh).bits();
        let (f, lo, hi) = match op {
            BinOp::And => (Uf::BvAnd, Big::ZERO, ah_min(&self.st.ivl(a).1, &self.st.ivl(b).1)),
            BinOp::Or => (Uf::BvOr, Big::ZERO, Big::pow2(nb).sub(&one)),
            _ => (Uf::BvXor, Big::ZERO, Big::pow2(nb).sub(&one)),
        };
        let at = self.st.mk_atom(Atom::Uf { f, args: vec![a.min(b), a.max(b)], lo, hi });
        Ok(self.st.atom_term(at))
    }
    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V, nuw: bool, _nsw: bool, disjoint: bool) -> X<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 128 {
                return Ok(V::I(self.bin_c(op, w, *x, *y)?));
            }
        }
        if w == 1 {
            let (x, y) = (self.b(a)?, self.b(b)?);
            let r = match op {
                BinOp::And | BinOp::Mul => self.st.and(x, y),
                BinOp::Or => self.st.or(x, y),
                BinOp::Xor | BinOp::Add | BinOp::Sub => self.st.xor(x, y),
                _ => return unsup("i1 op"),
            };
            return Ok(self.vb(r));
        }
        let (x, y) = (self.t(a)?, self.t(b)?);
        let r = match op {
            BinOp::Add => {
                let p = self.st.add(x, y);
                if nuw {
                    p
                } else {
                    // x + (2^w - k) is a subtraction in disguise
                    if let Some(k) = self.st.is_const(y) {
                        if k >= Big::pow2(w - 1) {
                            let m = self.st.konst(Big::pow2(w));
                            let q = self.st.sub(p, m);
                            return self.wrap(q, w).map(|t| self.v(t));
                        }
                    }
                    self.wrap(p, w)?
                }
            }
            BinOp::Sub => {
                let p = self.st.sub(x, y);
                if nuw {
                    p
                } else {
                    self.wrap(p, w)?
                }
            }
            BinOp::Mul => {
                let p = self.mul_t(x, y);
                if nuw {
                    p
                } else {
                    self.wrap(p, w)?
                }
            }
            BinOp::UDiv | BinOp::URem => {
                let z = self.st.ki(0);
                let e = self.st.eq(y, z);
                if self.decide(e)? {
                    return unsup("division by zero (undefined behaviour)");
                }
                if op == BinOp::UDiv {
                    self.div_t(x, y)
                } else {
                    self.st.modulo(x, y)
                }
            }
            BinOp::SDiv | BinOp::SRem => {
                let (sx, sy) = (self.signed(x, w)?, self.signed(y, w)?);
                let (xl, _) = self.st.ivl(sx);
                let (yl, _) = self.st.ivl(sy);
                if xl.is_neg() || yl <= Big::ZERO {
                    return unsup("signed division of possibly negative symbolic values");
                }
                if op == BinOp::SDiv {
                    self.st.div(sx, sy)
                } else {
                    self.st.modulo(sx, sy)
                }
            }
            BinOp::Shl => {
                let n = self.conc(b)? as u32;
                let p = self.st.scale(x, &Big::pow2(n));
                if nuw {
                    p
                } else {
                    let m = self.st.konst(Big::pow2(w));
                    self.st.modulo(p, m)
                }
            }
            BinOp::LShr => {
                let n = self.conc(b)? as u32;
                let k = self.st.konst(Big::pow2(n));
                self.st.div(x, k)
            }
            BinOp::AShr => {
                let n = self.conc(b)? as u32;
                let s = self.signed(x, w)?;
                let k = self.st.konst(Big::pow2(n));
                let d = self.st.div(s, k);
                self.unsigned(d, w)?
            }
            BinOp::And | BinOp::Or | BinOp::Xor => self.bitop(op, w, x, y, disjoint)?,
        };
        Ok(self.v(r))
    }
    fn bin_c(&self, op: BinOp, w: u32, x: u128, y: u128) -> X<u128> {
        let m = mask(w);
        let sx = |v: u128| -> i128 {
            let s = 128 - w;
            ((v << s) as i128) >> s
        };
        Ok(m & match op {
            BinOp::Add => x.wrapping_add(y),
            BinOp::Sub => x.wrapping_sub(y),
            BinOp::Mul => x.wrapping_mul(y),
            BinOp::UDiv => {
                if y == 0 {
                    return unsup("div by zero");
                }
                x / y
            }
            BinOp::URem => {
                if y == 0 {
                    return unsup("div by zero");
                }
                x % y
            }
            BinOp::SDiv => {
                if y == 0 {
                    return unsup("div by zero");
                }
                sx(x).wrapping_div(sx(y)) as u128
            }
            BinOp::SRem => {
                if y == 0 {
                    return unsup("div by zero");
                }
                sx(x).wrapping_rem(sx(y)) as u128
            }
            BinOp::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            BinOp::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            BinOp::AShr => (sx(x) >> y.min(127)) as u128,
            BinOp::And => x & y,
            BinOp::Or => x | y,
            BinOp::Xor => x ^ y,
        })
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> X<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u128| -> i128 {
                let s = 128 - w.min(128);
                ((v << s) as i128) >> s
            };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Ok(V::I(r as u128));
        }
        if w == 1 {
            let (x, y) = (self.b(a)?, self.b(b)?);
            let r = match p {
                Pred::Eq => {
                    let r = self.st.xor(x, y);
                    self.st.not(r)
                }
                Pred::Ne => self.st.xor(x, y),
                Pred::Ult => {
                    let n = self.st.not(x);
                    self.st.and(n, y)
                }
                Pred::Ugt => {
                    let n = self.st.not(y);
                    self.st.and(n, x)
                }
                Pred::Ule => {
                    let n = self.st.not(x);
                    self.st.or(n, y)
                }
                Pred::Uge => {
                    let n = self.st.not(y);
                    self.st.or(n, x)
                }
                _ => return unsup("i1 signed cmp"),
            };
            return Ok(self.vb(r));
        }
        let (mut x, mut y) = (self.t(a)?, self.t(b)?);
        if matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle) {
            x = self.signed(x, w)?;
            y = self.signed(y, w)?;
        }
        let r = match p {
            Pred::Eq => self.st.eq(x, y),
            Pred::Ne => {
                let e = self.st.eq(x, y);
                self.st.not(e)
            }
            Pred::Ugt | Pred::Sgt => self.st.lt(y, x),
            Pred::Uge | Pred::Sge => self.st.le(y, x),
            Pred::Ult | Pred::Slt => self.st.lt(x, y),
            Pred::Ule | Pred::Sle => self.st.le(x, y),
        };
        Ok(self.vb(r))
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, a: &V) -> X<V> {
        if let (Ty::Vector(n, e), Ty::Int(w)) = (from, to) {
            // bitcast <n x i1> / <n x iK> -> iN (concrete only)
            let l = match a {
                V::A(l) => l.clone(),
                _ => return unsup("vector bitcast"),
            };
            let ew = if let Ty::Int(ew) = **e { ew } else { return unsup("vector bitcast") };
            let mut acc = self.st.ki(0);
            for i in 0..*n as usize {
                let t = self.t(&l[i])?;
                let t = self.st.scale(t, &Big::pow2(ew * i as u32));
                acc = self.st.add(acc, t);
            }
            let _ = w;
            return Ok(self.v(acc));
        }
        if let (Ty::Vector(..), _) | (_, Ty::Vector(..)) = (from, to) {
            if op == CastOp::SExt || op == CastOp::ZExt || op == CastOp::Trunc {
                if let (Ty::Vector(_, fe), Ty::Vector(_, te), V::A(l)) = (from, to, a) {
                    let mut o = vec![];
                    for x in l.iter() {
                        o.push(self.cast(op, fe, te, x)?);
                    }
                    return Ok(V::A(Arc::new(o)));
                }
            }
            return unsup("vector cast");
        }
        let wf = match from {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => return unsup("cast from"),
        };
        let wt = match to {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => return unsup("cast to"),
        };
        match op {
            CastOp::SExt => {
                if let V::I(x) = a {
                    if wt <= 128 {
                        let s = 128 - wf;
                        let r = (((*x << s) as i128) >> s) as u128;
                        return Ok(V::I(r & mask(wt)));
                    }
                }
                if wf == 1 {
                    let b = self.b(a)?;
                    let o = self.st.konst(Big::pow2(wt).sub(&Big::ONE));
                    let z = self.st.ki(0);
                    let r = self.st.ite(b, o, z);
                    return Ok(self.v(r));
                }
                let t = self.t(a)?;
                let s = self.signed(t, wf)?;
                let r = self.unsigned(s, wt)?;
                Ok(self.v(r))
            }
            _ => {
                if wt >= wf {
                    return Ok(match a {
                        V::B(b) if wt > 1 => {
                            let t = self.st.b2i(*b);
                            self.v(t)
                        }
                        _ => a.clone(),
                    });
                }
                if let V::I(x) = a {
                    return Ok(V::I(*x & mask(wt)));
                }
                let t = self.t(a)?;
                let k = self.st.konst(Big::pow2(wt));
                let r = self.st.modulo(t, k);
                if wt == 1 {
                    let o = self.st.ki(1);
                    let b = self.st.eq(r, o);
                    return Ok(self.vb(b));
                }
                Ok(self.v(r))
            }
        }
    }
    fn select(&mut self, ty: &Ty, c: &V, a: &V, b: &V) -> X<V> {
        if let (V::A(cl), V::A(al), V::A(bl)) = (c, a, b) {
            let mut o = vec![];
            for i in 0..cl.len() {
                o.push(self.select(ty.elem(i), &cl[i], &al[i], &bl[i])?);
            }
            return Ok(V::A(Arc::new(o)));
        }
        let cb = match c {
            V::I(x) => return Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            _ => self.b(c)?,
        };
        if let Some(k) = self.st.tri(cb) {
            return Ok(if k { a.clone() } else { b.clone() });
        }
        match ty {
            Ty::Int(1) => {
                let (x, y) = (self.b(a)?, self.b(b)?);
                let r = self.st.bite(cb, x, y);
                Ok(self.vb(r))
            }
            Ty::Int(_) => {
                let (x, y) = (self.t(a)?, self.t(b)?);
                let r = self.st.ite(cb, x, y);
                Ok(self.v(r))
            }
            _ => Ok(if self.decide(cb)? { a.clone() } else { b.clone() }),
        }
    }
    fn gep(&mut self, base: V, off: i64, idx: &[(V, u32, i64)]) -> X<V> {
        if let V::I(b) = base {
            let mut a = (b as u64).wrapping_add(off as u64);
            for (v, w, sc) in idx {
                let k = self.conc(v)?;
                a = a.wrapping_add((sext(k, *w)).wrapping_mul(*sc) as u64);
            }
            return Ok(V::I(a as u128));
        }
        let b = self.conc(&base)?;
        self.gep(V::I(b), off, idx)
    }

    // ---------- execution
    fn op(&self, regs: &[V], o: &Op) -> V {
        match o {
            Op::R(r) => regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
            Op::C(_) => unreachable!(),
        }
    }
    pub fn call(&mut self, f: u32, args: &[V]) -> X<V> {
        if let Some(i) = self.p.intr[f as usize] {
            let name = &self.p.funcs[f as usize].name;
            return self.intrinsic(i, name, args, &Ty::Void);
        }
        let fun = &self.p.funcs[f as usize];
        if fun.is_decl {
            return unsup(format!("external function {}", fun.name));
        }
        self.seen_fn[f as usize] = true;
        if let Some(h) = self.p.hook[f as usize] {
            if let Some(r) = self.hooked(h, args)? {
                return Ok(r);
            }
        }
        if self.depth > 2000 {
            return Err(Stop::Limit("recursion depth".into()));
        }
        self.depth += 1;
        self.stack.push(f);
        let sp0 = self.mem.sp;
        let r = self.run_fn(fun, args);
        if r.is_ok() {
            self.mem.sp = sp0;
            self.depth -= 1;
            self.stack.pop();
        }
        r
    }
    fn run_fn(&mut self, fun: &Func, args: &[V]) -> X<V> {
        let mut regs: Vec<V> = vec![V::I(0); fun.nregs as usize];
        for (i, r) in fun.params.iter().enumerate() {
            if i < args.len() {
                regs[*r as usize] = args[i].clone();
            }
        }
        let mut cur = 0u32;
        let mut prev = u32::MAX;
        'blk: loop {
            let blk = &fun.blocks[cur as usize];
            if !blk.phis.is_empty() {
                let mut vals = Vec::with_capacity(blk.phis.len());
                for (_, inc) in &blk.phis {
                    let o = match inc.iter().find(|x| x.0 == prev) {
                        Some(o) => &o.1,
                        None => return unsup("phi"),
                    };
                    vals.push(self.op(&regs, o));
                }
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    regs[*d as usize] = v;
                }
            }
            self.out.insts += blk.insts.len() as u64;
            if self.out.insts > self.cfg.max_insts {
                return Err(Stop::Limit(format!("instruction budget in {}", self.where_())));
            }
            for ins in &blk.insts {
                macro_rules! goto {
                    ($l:expr) => {{
                        prev = cur;
                        cur = $l;
                        continue 'blk;
                    }};
                }
                match ins {
                    Inst::Load { d, ty, p } => {
                        let a = match self.op(&regs, p) {
                            V::I(a) => a as u64,
                            v => self.conc(&v)? as u64,
                        };
                        regs[*d as usize] = self.load(a, ty)?;
                    }
                    Inst::Store { ty, v, p } => {
                        let a = match self.op(&regs, p) {
                            V::I(a) => a as u64,
                            v => self.conc(&v)? as u64,
                        };
                        let v = self.op(&regs, v);
                        self.store(a, ty, &v)?;
                    }
                    Inst::Gep { d, base, off, idx } => {
                        let b = self.op(&regs, base);
                        if let (V::I(b), true) = (&b, idx.is_empty()) {
                            regs[*d as usize] = V::I((*b as u64).wrapping_add(*off as u64) as u128);
                        } else {
                            let iv: Vec<(V, u32, i64)> = idx.iter().map(|x| (self.op(&regs, &x.0), x.1, x.2)).collect();
                            regs[*d as usize] = self.gep(b, *off, &iv)?;
                        }
                    }
                    Inst::Bin { d, op, w, a, b, nuw, nsw, disjoint, lanes } => {
                        let (x, y) = (self.op(&regs, a), self.op(&regs, b));
                        regs[*d as usize] = if *lanes > 0 {
                            match (&x, &y) {
                                (V::A(xl), V::A(yl)) => {
                                    let mut o = vec![];
                                    for i in 0..*lanes as usize {
                                        o.push(self.bin(*op, *w, &xl[i], &yl[i], *nuw, *nsw, *disjoint)?);
                                    }
                                    V::A(Arc::new(o))
                                }
                                _ => return unsup("vector op"),
                            }
                        } else {
                            self.bin(*op, *w, &x, &y, *nuw, *nsw, *disjoint)?
                        };
                    }
                    Inst::Icmp { d, p, w, a, b, lanes } => {
                        let (x, y) = (self.op(&regs, a), self.op(&regs, b));
                        regs[*d as usize] = if *lanes > 0 {
                            match (&x, &y) {
                                (V::A(xl), V::A(yl)) => {
                                    let mut o = vec![];
                                    for i in 0..*lanes as usize {
                                        o.push(self.icmp(*p, *w, &xl[i], &yl[i])?);
                                    }
                                    V::A(Arc::new(o))
                                }
                                _ => return unsup("vector cmp"),
                            }
                        } else {
                            self.icmp(*p, *w, &x, &y)?
                        };
                    }
                    Inst::Cast { d, op, from, to, a } => {
                        let x = self.op(&regs, a);
                        regs[*d as usize] = self.cast(*op, from, to, &x)?;
                    }
                    Inst::Select { d, ty, c, a, b } => {
                        let (c, a, b) = (self.op(&regs, c), self.op(&regs, a), self.op(&regs, b));
                        regs[*d as usize] = self.select(ty, &c, &a, &b)?;
                    }
                    Inst::Call { d, callee, args, ret, normal, name } => {
                        let av: Vec<V> = args.iter().map(|a| self.op(&regs, a)).collect();
                        let fi = match callee {
                            Callee::Fn(k) => *k,
                            Callee::Ind(o) => {
                                let v = self.op(&regs, o);
                                let a = self.conc(&v)? as u64;
                                if a < FBASE || (a - FBASE) / 16 >= self.p.funcs.len() as u64 || (a - FBASE) % 16 != 0 {
                                    return unsup(format!("indirect call to {:#x}", a));
                                }
                                ((a - FBASE) / 16) as u32
                            }
                            _ => return unsup("callee"),
                        };
                        let r = match self.p.intr[fi as usize] {
                            Some(i) => self.intrinsic(i, if name.is_empty() { &self.p.funcs[fi as usize].name } else { name }, &av, ret)?,
                            None => self.call(fi, &av)?,
                        };
                        if *d != NOREG {
                            regs[*d as usize] = r;
                        }
                        if let Some(n) = normal {
                            goto!(*n);
                        }
                    }
                    Inst::Br(l) => goto!(*l),
                    Inst::CondBr { c, t, f } => {
                        let v = self.op(&regs, c);
                        let r = match v {
                            V::I(x) => x & 1 == 1,
                            v => {
                                let b = self.b(&v)?;
                                self.decide(b)?
                            }
                        };
                        goto!(if r { *t } else { *f });
                    }
                    Inst::Switch { w, v, cases, def } => {
                        let x = self.op(&regs, v);
                        let mut tgt = *def;
                        match x {
                            V::I(x) => {
                                for (c, l) in cases {
                                    if *c == x {
                                        tgt = *l;
                                        break;
                                    }
                                }
                            }
                            x => {
                                for (c, l) in cases {
                                    let e = self.icmp(Pred::Eq, *w, &x, &V::I(*c))?;
                                    let b = self.b(&e)?;
                                    if self.decide(b)? {
                                        tgt = *l;
                                        break;
                                    }
                                }
                            }
                        }
                        goto!(tgt);
                    }
                    Inst::Ret(o) => {
                        return Ok(match o {
                            Some(o) => self.op(&regs, o),
                            None => V::I(0),
                        })
                    }
                    Inst::Alloca { d, size, align, n } => {
                        let k = match n {
                            Some(o) => {
                                let v = self.op(&regs, o);
                                self.conc(&v)? as u64
                            }
                            None => 1,
                        };
                        let a = self.mem.sp.next_multiple_of((*align).max(1));
                        let e = a + size * k;
                        if e > self.mem.stack0 + STACK {
                            return Err(Stop::Limit("stack overflow".into()));
                        }
                        self.mem.sp = e;
                        self.mem.sp_max = self.mem.sp_max.max(e);
                        regs[*d as usize] = V::I(a as u128);
                    }
                    Inst::ExtractValue { d, a, idx } => {
                        let mut v = self.op(&regs, a);
                        for i in idx {
                            v = match &v {
                                V::A(l) => l[*i as usize].clone(),
                                _ => return unsup("extractvalue"),
                            };
                        }
                        regs[*d as usize] = v;
                    }
                    Inst::InsertValue { d, a, v, idx, ty } => {
                        let base = self.op(&regs, a);
                        let x = self.op(&regs, v);
                        regs[*d as usize] = insert(&base, &x, idx, ty)?;
                    }
                    Inst::ExtractElt { d, a, i } => {
                        let (a, i) = (self.op(&regs, a), self.op(&regs, i));
                        let i = self.conc(&i)? as usize;
                        regs[*d as usize] = match &a {
                            V::A(l) => l[i].clone(),
                            _ => return unsup("extractelement"),
                        };
                    }
                    Inst::InsertElt { d, a, v, i, n } => {
                        let (a, v, i) = (self.op(&regs, a), self.op(&regs, v), self.op(&regs, i));
                        let i = self.conc(&i)? as usize;
                        let mut l = match &a {
                            V::A(l) => (**l).clone(),
                            _ => vec![V::I(0); *n],
                        };
                        l[i] = v;
                        regs[*d as usize] = V::A(Arc::new(l));
                    }
                    Inst::Shuffle { d, a, b, mask, n } => {
                        let (a, b, m) = (self.op(&regs, a), self.op(&regs, b), self.op(&regs, mask));
                        match (&a, &b, &m) {
                            (V::A(a), V::A(b), V::A(m)) => {
                                let mut o = vec![];
                                for k in m.iter() {
                                    let k = self.conc(k)? as usize;
                                    o.push(if k < *n { a[k].clone() } else { b[(k - n).min(n - 1)].clone() });
                                }
                                regs[*d as usize] = V::A(Arc::new(o));
                            }
                            _ => return unsup("shuffle"),
                        }
                    }
                    Inst::AtomicRmw { d, op, ty, p, v } => {
                        let pv = self.op(&regs, p);
                        let a = self.conc(&pv)? as u64;
                        let old = self.load(a, ty)?;
                        let v = self.op(&regs, v);
                        let w = ty.store_size() as u32 * 8;
                        let n = match op.as_str() {
                            "xchg" => v.clone(),
                            "add" => self.bin(BinOp::Add, w, &old, &v, false, false, false)?,
                            "sub" => self.bin(BinOp::Sub, w, &old, &v, false, false, false)?,
                            "and" => self.bin(BinOp::And, w, &old, &v, false, false, false)?,
                            "or" => self.bin(BinOp::Or, w, &old, &v, false, false, false)?,
                            "xor" => self.bin(BinOp::Xor, w, &old, &v, false, false, false)?,
                            _ => return unsup("atomicrmw"),
                        };
                        self.store(a, ty, &n)?;
                        if *d != NOREG {
                            regs[*d as usize] = old;
                        }
                    }
                    Inst::CmpXchg { d, ty, p, c, n } => {
                        let pv = self.op(&regs, p);
                        let a = self.conc(&pv)? as u64;
                        let old = self.load(a, ty)?;
                        let (c, n) = (self.op(&regs, c), self.op(&regs, n));
                        let (o1, c1) = (self.conc(&old)?, self.conc(&c)?);
                        if o1 == c1 {
                            self.store(a, ty, &n)?;
                        }
                        if *d != NOREG {
                            regs[*d as usize] = V::A(Arc::new(vec![old, V::I((o1 == c1) as u128)]));
                        }
                    }
                    Inst::Copy { d, a } => regs[*d as usize] = self.op(&regs, a),
                    Inst::Nop => {}
                    Inst::Unreachable => return unsup(format!("reached unreachable in {}", self.where_())),
                    Inst::Unsupported(s) => return unsup(format!("instruction {} in {}", s, self.where_())),
                }
            }
            return unsup("block without terminator");
        }
    }

    // ---------- intrinsics
    fn intrinsic(&mut self, i: Intr, name: &str, a: &[V], ret: &Ty) -> X<V> {
        use Intr::*;
        let unit = Ok(V::I(0));
        match i {
            Panic => {
                // the caller location is the last pointer argument for most panic entry points
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let V::I(p) = v {
                        let p = *p as u64;
                        if p >= GBASE && p < self.p.gend {
                            if let (Ok(Some(f)), Ok(Some(l)), Ok(Some(ln))) = (self.mem.load_c(p, 8), self.mem.load_c(p + 8, 8), self.mem.load_c(p + 16, 4)) {
                                if l > 0 && l < 400 {
                                    if let Ok(s) = self.str_at(f as u64, l as u64) {
                                        if s.ends_with(".rs") {
                                            loc = format!("{}:{}", s, ln);
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Err(Stop::Panic(format!("{} at {} in {}", demangle(name), loc, self.where_())))
            }
            Abort | Trap => Err(Stop::Panic(format!("{} in {}", name, self.where_()))),
            Nop | LNop => unit,
            LArg0 => Ok(a[0].clone()),
            LZero => unit,
            Malloc => {
                let n = self.conc(&a[0])? as u64;
                Ok(V::I(self.mem.alloc(n, 16)? as u128))
            }
            Calloc => {
                let n = self.conc(&a[0])? as u64 * self.conc(&a[1])? as u64;
                let p = self.mem.alloc(n, 16)?;
                let z = vec![0u8; n as usize];
                self.mem.store_bytes(p, &z)?;
                Ok(V::I(p as u128))
            }
            PosixMemalign => {
                let al = self.conc(&a[1])? as u64;
                let n = self.conc(&a[2])? as u64;
                let p = self.mem.alloc(n, al)?;
                let d = self.conc(&a[0])? as u64;
                self.mem.store_c(d, 8, p as u128)?;
                unit
            }
            Realloc => {
                let p = self.conc(&a[0])? as u64;
                let n = self.conc(&a[1])? as u64;
                let old = self.mem.size.get(&p).copied().unwrap_or(0);
                if n <= old {
                    return Ok(V::I(p as u128));
                }
                let q = self.mem.alloc(n, 16)?;
                self.mem.copy(q, p, old)?;
                self.mem.dealloc(p);
                Ok(V::I(q as u128))
            }
            Free => {
                let p = self.conc(&a[0])? as u64;
                self.mem.dealloc(p);
                unit
            }
            Memcpy => {
                let (d, s, n) = (self.conc(&a[0])? as u64, self.conc(&a[1])? as u64, self.conc(&a[2])? as u64);
                self.mem.copy(d, s, n)?;
                unit
            }
            Memset => {
                let (d, n) = (self.conc(&a[0])? as u64, self.conc(&a[2])? as u64);
                let x = self.conc(&a[1])? as u8;
                let z = vec![x; n as usize];
                self.mem.store_bytes(d, &z)?;
                unit
            }
            Strlen => {
                let p = self.conc(&a[0])? as u64;
                let mut n = 0;
                while self.mem.bytes(p + n, 1)?[0] != 0 {
                    n += 1;
                }
                Ok(V::I(n as u128))
            }
            Memchr => {
                let (p, c, n) = (self.conc(&a[0])? as u64, self.conc(&a[1])?, self.conc(&a[2])? as u64);
                for k in 0..n {
                    let v = self.load_int(p + k, 8)?;
                    let e = self.icmp(Pred::Eq, 8, &v, &V::I(c & 255))?;
                    let b = self.b(&e)?;
                    if self.decide(b)? {
                        return Ok(V::I((p + k) as u128));
                    }
                }
                unit
            }
            Bcmp => {
                let (p, q, n) = (self.conc(&a[0])? as u64, self.conc(&a[1])? as u64, self.conc(&a[2])? as u64);
                if !self.mem.is_sym(p, n)? && !self.mem.is_sym(q, n)? {
                    return Ok(V::I((self.mem.bytes(p, n)? != self.mem.bytes(q, n)?) as u128));
                }
                let mut acc = TRUE;
                // compare whole aligned symbolic chunks where possible, bytes otherwise
                for k in 0..n {
                    let x = self.load_int(p + k, 8)?;
                    let y = self.load_int(q + k, 8)?;
                    let e = self.icmp(Pred::Eq, 8, &x, &y)?;
                    let b = self.b(&e)?;
                    acc = self.st.and(acc, b);
                    if acc == FALSE {
                        break;
                    }
                }
                let acc = if acc != FALSE && acc != TRUE && n > 8 && self.whole(p, n)? && self.whole(q, n)? {
                    let x = self.load_t(p, n)?;
                    let y = self.load_t(q, n)?;
                    self.st.eq(x, y)
                } else {
                    acc
                };
                let nb = self.st.not(acc);
                let t = self.st.b2i(nb);
                Ok(self.v(t))
            }
            Memcmp => {
                let (p, q, n) = (self.conc(&a[0])? as u64, self.conc(&a[1])? as u64, self.conc(&a[2])? as u64);
                if !self.mem.is_sym(p, n)? && !self.mem.is_sym(q, n)? {
                    let r = self.mem.bytes(p, n)?.cmp(self.mem.bytes(q, n)?) as i32;
                    return Ok(V::I(r as u32 as u128));
                }
                if n == 32 && self.whole(p, n)? && self.whole(q, n)? {
                    // digests: one comparison of the big-endian numbers
                    let x = self.load_t(p, n)?;
                    let y = self.load_t(q, n)?;
                    if let (Some(rx), Some(ry)) = (self.reversed(x), self.reversed(y)) {
                        let e = self.st.eq(x, y);
                        if self.decide(e)? {
                            return unit;
                        }
                        let re = self.st.eq(rx, ry);
                        let d = self.st.not(re);
                        self.push_pc(d);
                        let l = self.st.lt(rx, ry);
                        return Ok(V::I(if self.decide(l)? { (-1i32) as u32 as u128 } else { 1 }));
                    }
                }
                for k in 0..n {
                    let x = self.load_int(p + k, 8)?;
                    let y = self.load_int(q + k, 8)?;
                    let e = self.icmp(Pred::Eq, 8, &x, &y)?;
                    let b = self.b(&e)?;
                    if !self.decide(b)? {
                        let l = self.icmp(Pred::Ult, 8, &x, &y)?;
                        let b = self.b(&l)?;
                        return Ok(V::I(if self.decide(b)? { (-1i32) as u32 as u128 } else { 1 }));
                    }
                }
                unit
            }
            HashKeys => Ok(V::A(Arc::new(vec![V::I(1), V::I(2)]))),
            Minmax(k) => {
                let w = int_w(ret)?;
                let p = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][k as usize];
                let c = self.icmp(p, w, &a[0], &a[1])?;
                self.select(&Ty::Int(w), &c, &a[0], &a[1])
            }
            Fsh(left) => {
                let w = int_w(ret)?;
                let s = self.conc(&a[2])? as u32 % w;
                if s == 0 {
                    return Ok(a[if left { 0 } else { 1 }].clone());
                }
                let (l, r) = if left { (s, w - s) } else { (w - s, s) };
                let hi = self.bin(BinOp::Shl, w, &a[0], &V::I(l as u128), false, false, false)?;
                let lo = self.bin(BinOp::LShr, w, &a[1], &V::I(r as u128), false, false, false)?;
                self.bin(BinOp::Or, w, &hi, &lo, false, false, true)
            }
            Ctlz | Cttz => {
                let w = int_w(ret)?;
                if let V::I(x) = a[0] {
                    return Ok(V::I(if x == 0 {
                        w
                    } else if i == Ctlz {
                        x.leading_zeros() - (128 - w)
                    } else {
                        x.trailing_zeros()
                    } as u128));
                }
                let t = self.t(&a[0])?;
                if i == Ctlz {
                    // binary search on the bit length
                    let (mut lo, mut hi) = (0u32, w); // bits in (.., hi]
                    while lo < hi {
                        let m = (lo + hi) / 2;
                        let k = self.st.konst(Big::pow2(m));
                        let c = self.st.lt(t, k);
                        if self.decide(c)? {
                            hi = m
                        } else {
                            lo = m + 1
                        }
                    }
                    return Ok(V::I((w - lo) as u128));
                }
                for k in 0..w {
                    let d = self.st.konst(Big::pow2(k + 1));
                    let m = self.st.modulo(t, d);
                    let z = self.st.ki(0);
                    let e = self.st.eq(m, z);
                    if !self.decide(e)? {
                        return Ok(V::I(k as u128));
                    }
                }
                Ok(V::I(w as u128))
            }
            Ctpop => {
                let x = self.conc(&a[0])?;
                Ok(V::I(x.count_ones() as u128))
            }
            Bswap => {
                let w = int_w(ret)?;
                if let V::I(x) = a[0] {
                    return Ok(V::I(x.swap_bytes() >> (128 - w)));
                }
                let t = self.t(&a[0])?;
                let n = w / 8;
                let mut acc = self.st.ki(0);
                for k in 0..n {
                    let d = self.st.konst(Big::pow2(8 * k));
                    let y = self.st.div(t, d);
                    let m = self.st.ki(256);
                    let y = self.st.modulo(y, m);
                    let y = self.st.scale(y, &Big::pow2(8 * (n - 1 - k)));
                    acc = self.st.add(acc, y);
                }
                Ok(self.v(acc))
            }
            BitRev => {
                let w = int_w(ret)?;
                let x = self.conc(&a[0])?;
                Ok(V::I(x.reverse_bits() >> (128 - w)))
            }
            OverOp(k) => {
                let w = match ret {
                    Ty::Struct(f, _) => int_w(&f[0])?,
                    _ => return unsup("overflow op type"),
                };
                let (x, y) = (&a[0], &a[1]);
                if k < 3 {
                    if let (V::I(x), V::I(y)) = (x, y) {
                        let (r, o) = match k {
                            0 => x.overflowing_add(*y),
                            1 => x.overflowing_sub(*y),
                            _ => x.overflowing_mul(*y),
                        };
                        let o = o || r & mask(w) != r;
                        return Ok(V::A(Arc::new(vec![V::I(r & mask(w)), V::I(o as u128)])));
                    }
                    let (x, y) = (self.t(x)?, self.t(y)?);
                    let p = match k {
                        0 => self.st.add(x, y),
                        1 => self.st.sub(x, y),
                        _ => self.mul_t(x, y),
                    };
                    let m = self.st.konst(Big::pow2(w));
                    let ok = if k == 1 {
                        let z = self.st.ki(0);
                        self.st.le(z, p)
                    } else {
                        self.st.lt(p, m)
                    };
                    if self.decide(ok)? {
                        return Ok(V::A(Arc::new(vec![self.v(p), V::I(0)])));
                    }
                    let r = if k == 1 { self.st.add(p, m) } else { self.wrap2(p, w)? };
                    return Ok(V::A(Arc::new(vec![self.v(r), V::I(1)])));
                }
                let (x, y) = (self.t(x)?, self.t(y)?);
                let (x, y) = (self.signed(x, w)?, self.signed(y, w)?);
                let p = match k {
                    3 => self.st.add(x, y),
                    4 => self.st.sub(x, y),
                    _ => self.mul_t(x, y),
                };
                let lo = self.st.konst(Big::pow2(w - 1).neg());
                let hi = self.st.konst(Big::pow2(w - 1));
                let c1 = self.st.le(lo, p);
                let c2 = self.st.lt(p, hi);
                let ok = self.st.and(c1, c2);
                let ok = self.decide(ok)?;
                if ok {
                    let u = self.unsigned(p, w)?;
                    Ok(V::A(Arc::new(vec![self.v(u), V::I(0)])))
                } else {
                    let m = self.st.konst(Big::pow2(w));
                    let u = self.st.modulo(p, m);
                    Ok(V::A(Arc::new(vec![self.v(u), V::I(1)])))
                }
            }
            SatOp(k) => {
                let w = int_w(ret)?;
                let (x, y) = (self.t(&a[0])?, self.t(&a[1])?);
                let (p, lim) = if k == 0 { (self.st.add(x, y), self.st.konst(Big::pow2(w).sub(&Big::ONE))) } else { (self.st.sub(x, y), self.st.ki(0)) };
                let c = if k == 0 { self.st.le(p, lim) } else { self.st.le(lim, p) };
                let r = self.st.ite(c, p, lim);
                Ok(self.v(r))
            }
            Cmp3(signed) => {
                // width of operands is in the intrinsic name suffix
                let w: u32 = name.rsplit(".i").next().and_then(|s| s.parse().ok()).unwrap_or(64);
                let rw = int_w(ret)?;
                let lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1])?;
                let b = self.b(&lt)?;
                if self.decide(b)? {
                    return Ok(V::I(mask(rw)));
                }
                let eq = self.icmp(Pred::Eq, w, &a[0], &a[1])?;
                let b = self.b(&eq)?;
                Ok(V::I(if self.decide(b)? { 0 } else { 1 }))
            }
            Abs => {
                let w = int_w(ret)?;
                let t = self.t(&a[0])?;
                let s = self.signed(t, w)?;
                let z = self.st.ki(0);
                let c = self.st.le(z, s);
                let n = self.st.neg(s);
                let r = self.st.ite(c, s, n);
                Ok(self.v(r))
            }
            PMaskRed => {
                let w = int_w(ret)?;
                let l = match &a[0] {
                    V::A(l) => l.clone(),
                    _ => return unsup("reduce"),
                };
                let op = if name.contains("reduce.or") {
                    BinOp::Or
                } else if name.contains("reduce.and") {
                    BinOp::And
                } else if name.contains("reduce.add") {
                    BinOp::Add
                } else {
                    return unsup(name);
                };
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = self.bin(op, w, &r, x, false, false, false)?;
                }
                Ok(r)
            }
            // ----- harness interface
            SymInt => {
                // (name_ptr, name_len, nbytes, lo: *const u128-ish bytes(32), hi: bytes(32), out)
                let n = self.str_at(self.u(&a[0])?, self.u(&a[1])?)?;
                let nb = self.u(&a[2])?;
                let lo = Big::from_bytes_le(self.mem.bytes(self.u(&a[3])?, 32)?);
                let hi = Big::from_bytes_le(self.mem.bytes(self.u(&a[4])?, 32)?);
                let t = self.fresh(&n, lo, hi)?;
                let out = self.u(&a[5])?;
                self.store_term(out, nb, t)?;
                unit
            }
            SymBool => {
                let n = self.str_at(self.u(&a[0])?, self.u(&a[1])?)?;
                let t = self.fresh(&n, Big::ZERO, Big::ONE)?;
                let o = self.st.ki(1);
                let b = self.st.eq(t, o);
                Ok(self.vb(b))
            }
            SymChoose => {
                let n = self.str_at(self.u(&a[0])?, self.u(&a[1])?)?;
                let k = self.u(&a[2])?;
                let t = self.fresh(&n, Big::ZERO, Big::S(k as i128 - 1))?;
                let v = self.v(t);
                Ok(V::I(self.conc(&v)?))
            }
            SymAssume => {
                let b = self.b(&a[0])?;
                match self.st.tri(b) {
                    Some(true) => {}
                    Some(false) => return Err(Stop::Infeasible),
                    None => {
                        if self.trail.len() >= self.prefix.len() && !self.feasible(b) {
                            return Err(Stop::Infeasible);
                        }
                        self.push_pc(b);
                    }
                }
                unit
            }
            SymCheck => {
                let b = self.b(&a[0])?;
                let n = self.str_at(self.u(&a[1])?, self.u(&a[2])?)?;
                // obligations inside the replayed prefix were already discharged by the parent path
                if self.trail.len() < self.prefix.len() {
                    match self.st.tri(b) {
                        Some(true) => {}
                        Some(false) => return Err(Stop::Infeasible),
                        None => self.push_pc(b),
                    }
                    return unit;
                }
                self.check(b, n)?;
                unit
            }
            SymReach => {
                let n = self.str_at(self.u(&a[0])?, self.u(&a[1])?)?;
                self.reach(n);
                unit
            }
            SymPanicMode => {
                self.panic_mode = self.u(&a[0])?;
                self.panic_id = self.str_at(self.u(&a[1])?, self.u(&a[2])?)?;
                unit
            }
            SymStop => Err(Stop::Halt),
            SymConcrete => Ok(V::I(self.conc(&a[0])?)),
            SymNote => {
                let n = self.str_at(self.u(&a[0])?, self.u(&a[1])?)?;
                if self.cfg.trace {
                    eprintln!("note: {}", n);
                }
                self.notes.push(n);
                unit
            }
            SymObserve => {
                let n = self.str_at(self.u(&a[0])?, self.u(&a[1])?)?;
                let h = self.u(&a[2])? as T;
                let s = self.st.show_t(h);
                self.out.observed.push((n, s));
                unit
            }
            SymIsSym => {
                let (p, n) = (self.u(&a[0])?, self.u(&a[1])?);
                Ok(V::I(self.mem.is_sym(p, n)? as u128))
            }
            ZLoad => {
                let (p, n) = (self.u(&a[0])?, self.u(&a[1])?);
                let t = self.load_t(p, n)?;
                Ok(V::I(t as u128))
            }
            ZStore => {
                // store a non-negative Z into n bytes; caller checked the range
                let (h, p, n) = (self.u(&a[0])? as T, self.u(&a[1])?, self.u(&a[2])?);
                self.store_term(p, n, h)?;
                unit
            }
            ZBin(k) => {
                let (x, y) = (self.u(&a[0])? as T, self.u(&a[1])? as T);
                let r = match k {
                    0 => self.st.add(x, y),
                    1 => self.st.sub(x, y),
                    2 => self.mul_t(x, y),
                    _ => {
                        let one = self.st.ki(1);
                        let pos = self.st.le(one, y);
                        if !self.decide(pos)? {
                            return unsup("Z division by non-positive value");
                        }
                        if k == 3 {
                            self.div_t(x, y)
                        } else {
                            self.st.modulo(x, y)
                        }
                    }
                };
                Ok(V::I(r as u128))
            }
            ZCmp(k) => {
                let (x, y) = (self.u(&a[0])? as T, self.u(&a[1])? as T);
                let r = match k {
                    0 => self.st.le(x, y),
                    1 => self.st.lt(x, y),
                    _ => self.st.eq(x, y),
                };
                Ok(self.vb(r))
            }
            ZIte => {
                let b = self.b(&a[0])?;
                let (x, y) = (self.u(&a[1])? as T, self.u(&a[2])? as T);
                Ok(V::I(self.st.ite(b, x, y) as u128))
            }
            BigOp => self.bigop(a),
            FmtNum => {
                // (ptr, nbytes, kind, out) -> len ; 0 when concrete
                let (p, n, kind, out) = (self.u(&a[0])?, self.u(&a[1])?, self.u(&a[2])? as u8, self.u(&a[3])?);
                if !self.mem.is_sym(p, n)? {
                    return unit;
                }
                let t = self.load_t(p, n)?;
                if self.st.is_const(t).is_some() {
                    let by = self.st.is_const(t).unwrap().to_bytes_le(n as usize);
                    self.mem.store_bytes(p, &by)?;
                    return unit;
                }
                let s = self.placeholder(kind, t);
                self.mem.store_bytes(out, s.as_bytes())?;
                Ok(V::I(s.len() as u128))
            }
            ParseNum => {
                // (ptr, len, kind, out, nbytes) -> 0 not a placeholder, 1 ok, 2 invalid/overflow
                let (p, n, kind, out, nb) = (self.u(&a[0])?, self.u(&a[1])?, self.u(&a[2])? as u8, self.u(&a[3])?, self.u(&a[4])?);
                if n < 4 || self.mem.is_sym(p, n)? {
                    return unit;
                }
                let t = match self.unplaceholder(p, n, kind, nb)? {
                    None => return unit,
                    Some(None) => return Ok(V::I(2)),
                    Some(Some(t)) => t,
                };
                self.store_term(out, nb, t)?;
                Ok(V::I(1))
            }
            Sha256 => {
                let (p, n, out) = (self.u(&a[0])?, self.u(&a[1])?, self.u(&a[2])?);
                self.sha256(p, n, out)?;
                unit
            }
            DecPow => {
                // (base*16, exp value, out*16) -> 0: run the real code, 1: value stored, 2: overflow
                let (p, out) = (self.u(&a[0])?, self.u(&a[2])?);
                let e = self.t(&a[1])?;
                if self.st.is_const(e).is_some() {
                    return unit;
                }
                // small exponents are handled exactly
                for k in 0..2 {
                    let kt = self.st.ki(k);
                    let c = self.st.eq(e, kt);
                    if self.decide(c)? {
                        let one = self.st.ki(1_000_000_000_000_000_000);
                        let b = self.load_t(p, 16)?;
                        self.store_term(out, 16, if k == 0 { one } else { b })?;
                        return Ok(V::I(1));
                    }
                }
                let b = self.load_t(p, 16)?;
                let one = Big::S(1_000_000_000_000_000_000);
                let (lo, _) = self.st.ivl(b);
                let rlo = if lo >= one { lo } else { Big::ZERO };
                let at = self.st.mk_atom(Atom::Uf { f: Uf::DecPow, args: vec![b, e], lo: rlo, hi: Big::pow2(129) });
                let r = self.st.atom_term(at);
                // the base comparison facts are asserted by the solver's axioms
                let m = self.st.konst(Big::pow2(128));
                let ok = self.st.lt(r, m);
                if self.decide(ok)? {
                    self.store_term(out, 16, r)?;
                    Ok(V::I(1))
                } else {
                    Ok(V::I(2))
                }
            }
            Isqrt => {
                let (p, n, out) = (self.u(&a[0])?, self.u(&a[1])?, self.u(&a[2])?);
                let t = self.load_t(p, n)?;
                let r = match self.st.is_const(t) {
                    Some(c) => {
                        let v = eval_uf(&Uf::Isqrt, &[c]).unwrap();
                        self.st.konst(v)
                    }
                    None => {
                        let (lo, hi) = self.st.ivl(t);
                        let lo = eval_uf(&Uf::Isqrt, &[lo]).unwrap();
                        let hi = eval_uf(&Uf::Isqrt, &[hi]).unwrap();
                        let at = self.st.mk_atom(Atom::Uf { f: Uf::Isqrt, args: vec![t], lo, hi });
                        self.st.atom_term(at)
                    }
                };
                self.store_term(out, n, r)?;
                unit
            }
        }
    }
    fn u(&self, v: &V) -> X<u64> {
        match v {
            V::I(x) => Ok(*x as u64),
            _ => unsup("symbolic intrinsic argument"),
        }
    }
    fn placeholder(&mut self, kind: u8, t: T) -> String {
        let id = match self.fmts.iter().position(|x| *x == (kind, t)) {
            Some(i) => i,
            None => {
                self.fmts.push((kind, t));
                self.fmts.len() - 1
            }
        };
        format!("#{}{}#", kind as char, id)
    }
    /// None: not a rendered symbolic number; Some(None): not a value of the requested type
    fn unplaceholder(&mut self, p: u64, n: u64, kind: u8, nb: u64) -> X<Option<Option<T>>> {
        if n < 4 || self.mem.is_sym(p, n)? {
            return Ok(None);
        }
        let s = self.str_at(p, n)?;
        let bs = s.as_bytes();
        if bs[0] != b'#' || bs[bs.len() - 1] != b'#' {
            return Ok(None);
        }
        let id: usize = match s[2..s.len() - 1].parse() {
            Ok(i) => i,
            Err(_) => return Ok(None),
        };
        if id >= self.fmts.len() || self.fmts[id].0 != bs[1] {
            return Ok(None);
        }
        let (k0, mut t) = self.fmts[id];
        if k0 != kind {
            let one = Big::S(1_000_000_000_000_000_000);
            match (k0, kind) {
                (b'U', b'D') => t = self.st.scale(t, &one),
                (b'D', b'U') => {
                    let o = self.st.konst(one);
                    let m = self.st.modulo(t, o);
                    let z = self.st.ki(0);
                    let e = self.st.eq(m, z);
                    if !self.decide(e)? {
                        return Ok(Some(None));
                    }
                    t = self.st.div(t, o);
                }
                _ => return unsup("parse kind"),
            }
        }
        let m = self.st.konst(Big::pow2(8 * nb as u32));
        let c = self.st.lt(t, m);
        if !self.decide(c)? {
            return Ok(Some(None));
        }
        Ok(Some(Some(t)))
    }
    fn hooked(&mut self, h: Hook, a: &[V]) -> X<Option<V>> {
        let symbolic = |s: &mut Self, v: &V| -> Option<T> {
            match v {
                V::T(t) => match s.st.is_const(*t) {
                    Some(_) => None,
                    None => Some(*t),
                },
                _ => None,
            }
        };
        match h {
            Hook::FmtBuf => {
                if let Some(t) = symbolic(self, &a[0]) {
                    let s = self.placeholder(b'U', t);
                    let (p, l) = (self.u(&a[1])?, self.u(&a[2])?);
                    if s.len() as u64 > l {
                        return unsup("rendering a symbolic integer into a small buffer");
                    }
                    self.mem.store_bytes(p, s.as_bytes())?;
                    return Ok(Some(V::A(Arc::new(vec![V::I(p as u128), V::I(s.len() as u128)]))));
                }
            }
            Hook::FmtInner => {
                if let Some(t) = symbolic(self, &a[0]) {
                    let s = self.placeholder(b'U', t);
                    let p = self.u(&a[1])?;
                    let off = 39 - s.len() as u64;
                    self.mem.store_bytes(p + off, s.as_bytes())?;
                    return Ok(Some(V::I(off as u128)));
                }
            }
            Hook::Display(k) => {
                let t = match &a[0] {
                    V::T(_) => symbolic(self, &a[0]),
                    V::I(p) if *p as u64 >= GBASE && self.mem.chk(*p as u64, k as u64).is_ok() && self.mem.is_sym(*p as u64, k as u64)? => {
                        let t = self.load_t(*p as u64, k as u64)?;
                        match self.st.is_const(t) {
                            Some(c) => {
                                let b = c.to_bytes_le(k as usize);
                                self.mem.store_bytes(*p as u64, &b)?;
                                None
                            }
                            None => Some(t),
                        }
                    }
                    _ => None,
                };
                if let Some(t) = t {
                    let s = self.placeholder(b'U', t);
                    let w = match self.p.write_str {
                        Some(w) => w,
                        None => return unsup("Formatter::write_str is not in the module"),
                    };
                    let buf = self.mem.alloc(24, 1)?;
                    self.mem.store_bytes(buf, s.as_bytes())?;
                    let r = self.call(w, &[a[1].clone(), V::I(buf as u128), V::I(s.len() as u128)])?;
                    return Ok(Some(r));
                }
            }
            Hook::ParseInt(k) => {
                let (o, p, n) = (self.u(&a[0])?, self.u(&a[1])?, self.u(&a[2])?);
                match self.unplaceholder(p, n, b'U', k as u64)? {
                    None => {}
                    Some(None) => {
                        // Err(ParseIntError { kind: PosOverflow })
                        self.mem.store_bytes(o, &[1, 2])?;
                        return Ok(Some(V::I(0)));
                    }
                    Some(Some(t)) => {
                        self.mem.store_bytes(o, &[0])?;
                        self.store_term(o + k as u64, k as u64, t)?;
                        return Ok(Some(V::I(0)));
                    }
                }
            }
        }
        Ok(None)
    }
    fn whole(&mut self, p: u64, n: u64) -> X<bool> {
        let o = self.mem.chk(p, n)?;
        if self.mem.sh[o..o + n as usize].iter().all(|x| *x == 0) {
            return Ok(true);
        }
        if !self.mem.sh[o..o + n as usize].iter().all(|x| *x != 0) {
            return Ok(false);
        }
        let (t, b, tot) = self.mem.sym[&p];
        if b != 0 || tot as u64 != n {
            return Ok(false);
        }
        for k in 0..n {
            if self.mem.sym[&(p + k)] != (t, k as u8, tot) {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn fresh(&mut self, n: &str, lo: Big, hi: Big) -> X<T> {
        let c = self.names.entry(n.to_string()).or_insert(0);
        *c += 1;
        let name = if *c == 1 { n.to_string() } else { format!("{}#{}", n, c) };
        if let Some(m) = &self.cfg.concrete {
            let v = match m.get(&name) {
                Some(v) => v.clone(),
                None => lo.clone(),
            };
            return Ok(self.st.konst(v));
        }
        let t = self.st.var(&name, lo.clone(), hi.clone());
        match self.st.as_atom(t) {
            Some(a) => self.vars.push((name, a)),
            None => {}
        }
        if lo == hi {
            return Ok(self.st.konst(lo));
        }
        Ok(t)
    }
    /// wide unsigned arithmetic on n little-endian u64 digits: (op, n, a, b, out) -> flag
    fn bigop(&mut self, a: &[V]) -> X<V> {
        let op = self.u(&a[0])?;
        let n = self.u(&a[1])? * 8;
        let (pa, pb, out) = (self.u(&a[2])?, self.u(&a[3])?, self.u(&a[4])?);
        let w = n as u32 * 8;
        let x = self.load_t(pa, n)?;
        let m = self.st.konst(Big::pow2(w));
        match op {
            0 | 1 | 2 => {
                // add, sub, mul: wrapped result, overflow flag
                let y = self.load_t(pb, n)?;
                let p = match op {
                    0 => self.st.add(x, y),
                    1 => self.st.sub(x, y),
                    _ => self.mul_t(x, y),
                };
                let ok = if op == 1 {
                    let z = self.st.ki(0);
                    self.st.le(z, p)
                } else {
                    self.st.lt(p, m)
                };
                if self.decide(ok)? {
                    self.store_term(out, n, p)?;
                    return Ok(V::I(0));
                }
                let r = if op == 1 { self.st.add(p, m) } else { self.wrap2(p, w)? };
                self.store_term(out, n, r)?;
                Ok(V::I(1))
            }
            3 => {
                // divmod: out = quotient, out+n = remainder; b != 0 established by caller
                let y = self.load_t(pb, n)?;
                let z = self.st.ki(0);
                let e = self.st.eq(y, z);
                if self.decide(e)? {
                    return Ok(V::I(1));
                }
                let q = self.div_t(x, y);
                let r0 = self.mul_t(q, y);
                let r = self.st.sub(x, r0);
                self.store_term(out, n, q)?;
                self.store_term(out + n, n, r)?;
                Ok(V::I(0))
            }
            4 => {
                // compare: 0 less, 1 equal, 2 greater
                let y = self.load_t(pb, n)?;
                let l = self.st.lt(x, y);
                if self.decide(l)? {
                    return Ok(V::I(0));
                }
                let e = self.st.eq(x, y);
                Ok(V::I(if self.decide(e)? { 1 } else { 2 }))
            }
            5 => {
                // equality
                let y = self.load_t(pb, n)?;
                let e = self.st.eq(x, y);
                Ok(V::I(self.decide(e)? as u128))
            }
            6 => {
                // shl by concrete pb (wrapping)
                let p = self.st.scale(x, &Big::pow2(pb as u32));
                let r = self.st.modulo(p, m);
                self.store_term(out, n, r)?;
                Ok(V::I(0))
            }
            7 => {
                let k = self.st.konst(Big::pow2(pb as u32));
                let r = self.st.div(x, k);
                self.store_term(out, n, r)?;
                Ok(V::I(0))
            }
            8 => {
                // bit length
                if let Some(c) = self.st.is_const(x) {
                    return Ok(V::I(c.bits() as u128));
                }
                let (mut lo, mut hi) = (0u32, w);
                while lo < hi {
                    let k = (lo + hi) / 2;
                    let kt = self.st.konst(Big::pow2(k));
                    let c = self.st.lt(x, kt);
                    if self.decide(c)? {
                        hi = k
                    } else {
                        lo = k + 1
                    }
                }
                Ok(V::I(lo as u128))
            }
            9 => {
                // fits in pb bits?
                let k = self.st.konst(Big::pow2(pb as u32));
                let c = self.st.lt(x, k);
                Ok(V::I(self.decide(c)? as u128))
            }
            _ => unsup("bigop"),
        }
    }
    /// the number whose big-endian bytes are the little-endian bytes of a digest
    fn reversed(&mut self, t: T) -> Option<T> {
        if let Some(c) = self.st.is_const(t) {
            let mut b = c.to_bytes_le(32);
            b.reverse();
            return Some(self.st.konst(Big::from_bytes_le(&b)));
        }
        if !self.hashes.iter().any(|x| x.1 == t) {
            return None;
        }
        if let Some(x) = self.revs.iter().find(|x| x.0 == t) {
            return Some(x.1);
        }
        let at = self.st.mk_atom(Atom::Uf { f: Uf::Hash(1_000_000 + self.revs.len() as u32), args: vec![t], lo: Big::ZERO, hi: Big::pow2(256).sub(&Big::ONE) });
        let h = self.st.atom_term(at);
        self.revs.push((t, h));
        Some(h)
    }
    fn toks(&mut self, p: u64, n: u64) -> X<(Vec<Tok>, bool)> {
        let mut v = vec![];
        let mut sym = false;
        let mut i = 0;
        while i < n {
            if self.mem.is_sym(p + i, 1)? {
                if i + 32 <= n && self.mem.sym.contains_key(&(p + i)) && self.whole(p + i, 32)? {
                    let t = self.load_t(p + i, 32)?;
                    if self.hashes.iter().any(|x| x.1 == t) {
                        sym = true;
                        v.push(Tok::H(t));
                        i += 32;
                        continue;
                    }
                }
                let x = self.load_int(p + i, 8)?;
                match x {
                    V::I(c) => v.push(Tok::C(c as u8)),
                    V::T(t) => {
                        sym = true;
                        v.push(Tok::S(t))
                    }
                    _ => return unsup("hash byte"),
                }
                i += 1;
                continue;
            }
            let c = self.mem.bytes(p + i, 1)?[0];
            if c == b'#' {
                // placeholder?
                let mut j = i + 1;
                let mut s = vec![];
                while j < n && !self.mem.is_sym(p + j, 1)? {
                    let d = self.mem.bytes(p + j, 1)?[0];
                    if d == b'#' {
                        break;
                    }
                    s.push(d);
                    j += 1;
                }
                if s.len() >= 2 && j < n {
                    if let Ok(id) = String::from_utf8_lossy(&s[1..]).parse::<usize>() {
                        if id < self.fmts.len() && self.fmts[id].0 == s[0] {
                            sym = true;
                            v.push(Tok::N(s[0], self.fmts[id].1));
                            i = j + 1;
                            continue;
                        }
                    }
                }
            }
            v.push(Tok::C(c));
            i += 1;
        }
        Ok((v, sym))
    }
    /// equality of two messages (assumes decimal renderings are not ambiguous with their neighbours)
    fn msg_eq(&mut self, a: &[Tok], b: &[Tok]) -> B {
        let (mut i, mut j) = (0, 0);
        let mut acc = TRUE;
        while i < a.len() && j < b.len() {
            match (&a[i], &b[j]) {
                (Tok::N(_, x), Tok::N(_, y)) => {
                    let e = self.st.eq(*x, *y);
                    acc = self.st.and(acc, e);
                    i += 1;
                    j += 1;
                }
                (Tok::H(x), Tok::H(y)) => {
                    let e = self.st.eq(*x, *y);
                    acc = self.st.and(acc, e);
                    i += 1;
                    j += 1;
                }
                (Tok::H(x), _) | (_, Tok::H(x)) => {
                    let x = *x;
                    let left = matches!(a[i], Tok::H(..));
                    let other = if left { &b[j..] } else { &a[i..] };
                    let d: Vec<u8> = other.iter().take(32).map_while(|t| if let Tok::C(c) = t { Some(*c) } else { None }).collect();
                    if d.len() < 32 {
                        // digests are only ever followed by digests
                        return FALSE;
                    }
                    let k = self.st.konst(Big::from_bytes_le(&d));
                    let e = self.st.eq(x, k);
                    acc = self.st.and(acc, e);
                    if left {
                        i += 1;
                        j += 32;
                    } else {
                        j += 1;
                        i += 32;
                    }
                }
                (Tok::N(_, x), _) | (_, Tok::N(_, x)) => {
                    let x = *x;
                    let other = if matches!(a[i], Tok::N(..)) { &b[j..] } else { &a[i..] };
                    let mut d = String::new();
                    for t in other {
                        match t {
                            Tok::C(c) if c.is_ascii_digit() => d.push(*c as char),
                            _ => break,
                        }
                    }
                    if d.is_empty() || (d.len() > 1 && d.starts_with('0')) {
                        return FALSE;
                    }
                    let k = self.st.konst(Big::parse(&d).unwrap());
                    let e = self.st.eq(x, k);
                    acc = self.st.and(acc, e);
                    if matches!(a[i], Tok::N(..)) {
                        i += 1;
                        j += d.len();
                    } else {
                        j += 1;
                        i += d.len();
                    }
                }
                (x, y) => {
                    let (x, y) = (x.clone(), y.clone());
                    let tx = match x {
                        Tok::C(c) => self.st.ki(c as i128),
                        Tok::S(t) => t,
                        _ => unreachable!(),
                    };
                    let ty = match y {
                        Tok::C(c) => self.st.ki(c as i128),
                        Tok::S(t) => t,
                        _ => unreachable!(),
                    };
                    let e = self.st.eq(tx, ty);
                    acc = self.st.and(acc, e);
                    i += 1;
                    j += 1;
                }
            }
            if acc == FALSE {
                return FALSE;
            }
        }
        if i < a.len() || j < b.len() {
            return FALSE;
        }
        acc
    }
    fn sha256(&mut self, p: u64, n: u64, out: u64) -> X<()> {
        let (tk, sym) = self.toks(p, n)?;
        let h;
        if !sym {
            let m: Vec<u8> = tk.iter().map(|t| if let Tok::C(c) = t { *c } else { 0 }).collect();
            let d = crate::sha::sha256(&m);
            h = self.st.konst(Big::from_bytes_le(&d));
            self.mem.store_bytes(out, &d)?;
        } else {
            // identical message => identical digest
            if let Some((_, t)) = self.hashes.iter().find(|x| x.0 == tk) {
                let t = *t;
                return self.store_term(out, 32, t);
            }
            // the same message as an earlier one, or a new digest
            for (m, t) in self.hashes.clone() {
                let eqm = self.msg_eq(&tk, &m);
                if self.decide(eqm)? {
                    return self.store_term(out, 32, t);
                }
            }
            let args: Vec<T> = tk
                .iter()
                .map(|t| match t {
                    Tok::S(t) | Tok::N(_, t) | Tok::H(t) => *t,
                    Tok::C(c) => self.st.ki(*c as i128),
                })
                .collect();
            let at = self.st.mk_atom(Atom::Uf { f: Uf::Hash(self.hashes.len() as u32), args, lo: Big::ZERO, hi: Big::pow2(256).sub(&Big::ONE) });
            h = self.st.atom_term(at);
            self.store_term(out, 32, h)?;
        }
        if self.hashes.iter().any(|x| x.0 == tk) {
            return Ok(());
        }
        for (m, t) in self.hashes.clone() {
            let f = if sym {
                // decided above to be another message
                let e = self.st.eq(h, t);
                self.st.not(e)
            } else if self.st.is_const(t).is_none() {
                let eqm = self.msg_eq(&tk, &m);
                let eqh = self.st.eq(h, t);
                let x = self.st.xor(eqm, eqh);
                self.st.not(x)
            } else {
                continue;
            };
            self.push_pc(f);
        }
        self.hashes.push((tk, h));
        Ok(())
    }
}

fn ah_min(a: &Big, b: &Big) -> Big {
    if a < b {
        a.clone()
    } else {
        b.clone()
    }
}
fn int_w(t: &Ty) -> X<u32> {
    match t {
        Ty::Int(w) => Ok(*w),
        Ty::Ptr => Ok(64),
        _ => unsup("intrinsic type"),
    }
}
fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => V::A(Arc::new((0..t.count()).map(|i| zero_of(t.elem(i))).collect())),
        _ => V::I(0),
    }
}
fn insert(base: &V, x: &V, idx: &[u32], ty: &Ty) -> X<V> {
    if idx.is_empty() {
        return Ok(x.clone());
    }
    let mut l = match base {
        V::A(l) => (**l).clone(),
        _ => match zero_of(ty) {
            V::A(l) => (*l).clone(),
            _ => return unsup("insertvalue"),
        },
    };
    let i = idx[0] as usize;
    l[i] = insert(&l[i], x, &idx[1..], ty.elem(i))?;
    Ok(V::A(Arc::new(l)))
}

/// readable-enough rendering of a v0-mangled name: the identifier components
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() && n.is_char_boundary(j) && n.is_char_boundary(j + k) && (b[j].is_ascii_alphabetic() || b[j] == b'_') {
                parts.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        if i < b.len() && b[i] == b's' {
            // disambiguator s<base62>_
            if let Some(e) = n[i..].find('_') {
                if n[i + 1..i + e].bytes().all(|c| c.is_ascii_alphanumeric()) && e < 14 {
                    i += e + 1;
                    continue;
                }
            }
        }
        i += 1;
    }
    parts.join("::")
}
