//! Inputs, assumptions and obligations. In the symbolic build every function is interpreted by the
//! engine (inputs are symbolic integers, obligations go to the solver); in the native build the
//! same harness runs on the values of one counterexample, against the unmodified crates.
use cosmwasm_std::{Decimal, Uint128};

#[cfg(feature = "sym")]
mod imp {
    use symrt::*;
    pub fn int(name: &str, n: usize, lo: &[u8; 32], hi: &[u8; 32], out: &mut [u8]) {
        unsafe { __sym_int(name.as_ptr(), name.len(), n, lo.as_ptr(), hi.as_ptr(), out.as_mut_ptr()) }
    }
    #[inline]
    pub fn boolean(name: &str) -> bool {
        unsafe { __sym_bool(name.as_ptr(), name.len()) }
    }
    pub fn choose(name: &str, n: usize) -> usize {
        unsafe { __sym_choose(name.as_ptr(), name.len(), n) }
    }
    #[inline]
    pub fn assume(b: bool) {
        unsafe { __sym_assume(b) }
    }
    #[inline]
    pub fn check(b: bool, id: &str) {
        unsafe { __sym_check(b, id.as_ptr(), id.len()) }
    }
    pub fn reach(id: &str) {
        unsafe { __sym_reach(id.as_ptr(), id.len()) }
    }
    pub fn stop() {
        unsafe { __sym_stop() }
    }
    pub fn note(s: &str) {
        unsafe { __sym_note(s.as_ptr(), s.len()) }
    }
    pub fn observe(s: &str, z: Z) {
        unsafe { __sym_observe(s.as_ptr(), s.len(), z.0) }
    }
    pub fn concrete(x: u64) -> u64 {
        unsafe { __sym_concrete(x) }
    }
    pub fn run<R>(mode: usize, id: &str, f: impl FnOnce() -> R) -> R {
        unsafe { __sym_panic_mode(mode, id.as_ptr(), id.len()) };
        let r = f();
        unsafe { __sym_panic_mode(2, "".as_ptr(), 0) };
        r
    }
    #[derive(Clone, Copy)]
    pub struct Z(pub u64);
    impl Z {
        pub fn of_le(b: &[u8]) -> Z {
            unsafe { Z(__z_load(b.as_ptr(), b.len())) }
        }
        /// self must be in range
        pub fn to_le(self, b: &mut [u8]) {
            unsafe { __z_store(self.0, b.as_mut_ptr(), b.len()) }
        }
        pub fn add(self, o: Z) -> Z {
            unsafe { Z(__z_add(self.0, o.0)) }
        }
        pub fn sub(self, o: Z) -> Z {
            unsafe { Z(__z_sub(self.0, o.0)) }
        }
        pub fn mul(self, o: Z) -> Z {
            unsafe { Z(__z_mul(self.0, o.0)) }
        }
        /// floor division, o > 0
        pub fn div(self, o: Z) -> Z {
            unsafe { Z(__z_div(self.0, o.0)) }
        }
        pub fn rem(self, o: Z) -> Z {
            unsafe { Z(__z_mod(self.0, o.0)) }
        }
        pub fn le(self, o: Z) -> bool {
            unsafe { __z_le(self.0, o.0) }
        }
        pub fn lt(self, o: Z) -> bool {
            unsafe { __z_lt(self.0, o.0) }
        }
        pub fn eq(self, o: Z) -> bool {
            unsafe { __z_eq(self.0, o.0) }
        }
        pub fn ite(c: bool, a: Z, b: Z) -> Z {
            unsafe { Z(__z_ite(c, a.0, b.0)) }
        }
    }
}

#[cfg(feature = "native")]
#[path = "../../engine/src/big.rs"]
#[allow(dead_code)]
mod big;

#[cfg(feature = "native")]
pub mod imp {
    use super::big::Big;
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[derive(Default)]
    pub struct St {
        pub vals: HashMap<String, String>,
        pub used: HashMap<String, usize>,
        pub failed: Vec<String>,
        pub passed: usize,
        pub reached: Vec<String>,
        pub observed: Vec<(String, String)>,
        pub only: String,
        pub log: Vec<String>,
    }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
    /// Ends the run: Halt is regular, Mismatch means an assumption does not hold on these values.
    pub enum End {
        Halt,
        Mismatch(String),
    }
    fn get(name: &str, lo: Big) -> Big {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let c = s.used.entry(name.to_string()).or_insert(0);
            *c += 1;
            let key = if *c == 1 { name.to_string() } else { format!("{}#{}", name, c) };
            let v = s.vals.get(&key).map(|v| Big::parse(v).expect("number")).unwrap_or(lo);
            let l = format!("input {} = {}", key, v);
            s.log.push(l);
            v
        })
    }
    pub fn int(name: &str, n: usize, lo: &[u8; 32], hi: &[u8; 32], out: &mut [u8]) {
        let (l, h) = (Big::from_bytes_le(lo), Big::from_bytes_le(hi));
        let v = get(name, l.clone());
        if v < l || v > h {
            std::panic::panic_any(End::Mismatch(format!("{} out of range", name)))
        }
        out.copy_from_slice(&v.to_bytes_le(n));
    }
    pub fn boolean(name: &str) -> bool {
        !get(name, Big::ZERO).is_zero()
    }
    pub fn choose(name: &str, n: usize) -> usize {
        let v = get(name, Big::ZERO).to_u128().unwrap() as usize;
        if v >= n {
            std::panic::panic_any(End::Mismatch(format!("{} out of range", name)))
        }
        v
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(End::Mismatch("assumption".into()))
        }
    }
    pub fn check(b: bool, id: &str) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            if !s.only.is_empty() && !id.starts_with(s.only.as_str()) {
                return;
            }
            if b {
                s.passed += 1
            } else {
                s.failed.push(id.to_string());
                let l = format!("obligation {} FAILS", id);
                s.log.push(l);
            }
        })
    }
    pub fn reach(id: &str) {
        ST.with(|s| s.borrow_mut().reached.push(id.to_string()))
    }
    pub fn stop() {
        std::panic::panic_any(End::Halt)
    }
    pub fn note(t: &str) {
        ST.with(|s| s.borrow_mut().log.push(format!("note {}", t)))
    }
    pub fn observe(t: &str, z: Z) {
        ST.with(|s| s.borrow_mut().observed.push((t.to_string(), z.0.to_string())))
    }
    pub fn concrete(x: u64) -> u64 {
        x
    }
    /// mode 0: a panic is a transaction that reverts; mode 1: a panic violates obligation `id`
    pub fn run<R>(mode: usize, id: &str, f: impl FnOnce() -> R) -> R {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => {
                if e.is::<End>() {
                    std::panic::resume_unwind(e)
                }
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                note(&format!("panicked: {}", m));
                if mode == 1 {
                    check(false, id);
                }
                if mode == 2 {
                    std::panic::panic_any(End::Mismatch(format!("harness panicked: {}", m)))
                }
                stop();
                unreachable!()
            }
        }
    }
    #[derive(Clone)]
    pub struct ZB(pub Big);
    thread_local! { static ZS: RefCell<Vec<Big>> = RefCell::new(vec![]); }
    #[derive(Clone, Copy)]
    pub struct Z(pub ZH);
    #[derive(Clone, Copy)]
    pub struct ZH(usize);
    impl std::fmt::Display for ZH {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}", ZS.with(|z| z.borrow()[self.0].clone()))
        }
    }
    impl Z {
        fn new(b: Big) -> Z {
            ZS.with(|z| {
                let mut z = z.borrow_mut();
                z.push(b);
                Z(ZH(z.len() - 1))
            })
        }
        fn g(self) -> Big {
            ZS.with(|z| z.borrow()[self.0 .0].clone())
        }
        pub fn of_le(b: &[u8]) -> Z {
            Z::new(Big::from_bytes_le(b))
        }
        pub fn to_le(self, b: &mut [u8]) {
            let n = b.len();
            b.copy_from_slice(&self.g().to_bytes_le(n))
        }
        pub fn add(self, o: Z) -> Z {
            Z::new(self.g().add(&o.g()))
        }
        pub fn sub(self, o: Z) -> Z {
            Z::new(self.g().sub(&o.g()))
        }
        pub fn mul(self, o: Z) -> Z {
            Z::new(self.g().mul(&o.g()))
        }
        pub fn div(self, o: Z) -> Z {
            Z::new(self.g().div(&o.g()))
        }
        pub fn rem(self, o: Z) -> Z {
            Z::new(self.g().rem(&o.g()))
        }
        pub fn le(self, o: Z) -> bool {
            self.g() <= o.g()
        }
        pub fn lt(self, o: Z) -> bool {
            self.g() < o.g()
        }
        pub fn eq(self, o: Z) -> bool {
            self.g() == o.g()
        }
        pub fn ite(c: bool, a: Z, b: Z) -> Z {
            if c {
                a
            } else {
                b
            }
        }
    }
}

pub use imp::{assume, boolean, check, choose, concrete, note, observe, reach, stop, Z};

impl std::ops::Add for Z {
    type Output = Z;
    #[inline]
    fn add(self, o: Z) -> Z {
        Z::add(self, o)
    }
}
impl std::ops::Sub for Z {
    type Output = Z;
    #[inline]
    fn sub(self, o: Z) -> Z {
        Z::sub(self, o)
    }
}
impl std::ops::Mul for Z {
    type Output = Z;
    #[inline]
    fn mul(self, o: Z) -> Z {
        Z::mul(self, o)
    }
}
impl std::ops::Div for Z {
    type Output = Z;
    #[inline]
    fn div(self, o: Z) -> Z {
        Z::div(self, o)
    }
}
impl Z {
    pub fn u128(x: Uint128) -> Z {
        Z::of_le(&x.u128().to_le_bytes())
    }
    pub fn u64(x: u64) -> Z {
        Z::of_le(&x.to_le_bytes())
    }
    pub fn dec(x: Decimal) -> Z {
        Z::u128(x.atomics())
    }
    pub fn k(x: u128) -> Z {
        Z::of_le(&x.to_le_bytes())
    }
    pub fn min(self, o: Z) -> Z {
        Z::ite(self.le(o), self, o)
    }
    pub fn max(self, o: Z) -> Z {
        Z::ite(self.le(o), o, self)
    }
    pub fn is0(self) -> bool {
        self.eq(Z::k(0))
    }
    /// caller guarantees 0 <= self < 2^128
    pub fn to_u128(self) -> Uint128 {
        let mut b = [0u8; 16];
        self.to_le(&mut b);
        Uint128::new(u128::from_le_bytes(b))
    }
}
/// 10^18
pub const ONE: u128 = 1_000_000_000_000_000_000;
/// value of a decimal rate applied to an amount, rounded down
pub fn mulf(rate: Z, amount: Z) -> Z {
    rate * amount / Z::k(ONE)
}
#[inline]
pub fn implies(a: bool, b: bool) -> bool {
    !a | b
}

fn le32(x: u128) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[..16].copy_from_slice(&x.to_le_bytes());
    o
}
pub fn u128_in(name: &str, lo: u128, hi: u128) -> Uint128 {
    let mut o = [0u8; 16];
    imp::int(name, 16, &le32(lo), &le32(hi), &mut o);
    Uint128::new(u128::from_le_bytes(o))
}
pub fn u128_any(name: &str) -> Uint128 {
    u128_in(name, 0, u128::MAX)
}
pub fn u64_in(name: &str, lo: u64, hi: u64) -> u64 {
    let mut o = [0u8; 8];
    imp::int(name, 8, &le32(lo as u128), &le32(hi as u128), &mut o);
    u64::from_le_bytes(o)
}
pub fn u32_in(name: &str, lo: u32, hi: u32) -> u32 {
    let mut o = [0u8; 4];
    imp::int(name, 4, &le32(lo as u128), &le32(hi as u128), &mut o);
    u32::from_le_bytes(o)
}
/// a decimal with atomics in [lo, hi]
pub fn dec_in(name: &str, lo: u128, hi: u128) -> Decimal {
    Decimal::new(u128_in(name, lo, hi))
}
pub fn dec_any(name: &str) -> Decimal {
    dec_in(name, 0, u128::MAX)
}
/// None or Some(symbolic decimal): forks on presence
pub fn opt_dec(name: &str, lo: u128, hi: u128) -> Option<Decimal> {
    if choose(&format!("{name}?"), 2) == 1 {
        Some(dec_in(name, lo, hi))
    } else {
        None
    }
}
/// Runs contract code. A panic inside it is what the chain sees as a failed transaction.
pub fn tx<R>(f: impl FnOnce() -> R) -> R {
    imp::run(0, "", f)
}
/// Runs code in which a panic is a violation of obligation `id`.
pub fn no_panic<R>(id: &str, f: impl FnOnce() -> R) -> R {
    imp::run(1, id, f)
}
/// an arbitrary string of `n` lower-case letters (one symbolic integer per letter)
pub fn letters(name: &str, n: usize) -> String {
    let mut v = vec![];
    for i in 0..n {
        v.push(u32_in(&format!("{name}{i}"), 97, 122) as u8);
    }
    String::from_utf8(v).unwrap()
}
