#![no_std]
//! Declarations of the functions interpreted by the symbolic engine. None of them has a native
//! body: code that calls them only exists in the symbolic build.
extern "C" {
    pub fn __sym_int(name: *const u8, len: usize, nbytes: usize, lo: *const u8, hi: *const u8, out: *mut u8);
    pub fn __sym_bool(name: *const u8, len: usize) -> bool;
    pub fn __sym_choose(name: *const u8, len: usize, n: usize) -> usize;
    pub fn __sym_assume(b: bool);
    pub fn __sym_check(b: bool, id: *const u8, len: usize);
    pub fn __sym_reach(id: *const u8, len: usize);
    pub fn __sym_panic_mode(mode: usize, id: *const u8, len: usize);
    pub fn __sym_stop();
    pub fn __sym_note(p: *const u8, len: usize);
    pub fn __sym_observe(p: *const u8, len: usize, z: u64);
    pub fn __sym_concrete(x: u64) -> u64;
    pub fn __sym_is_symbolic(p: *const u8, n: usize) -> bool;
    pub fn __z_load(p: *const u8, n: usize) -> u64;
    pub fn __z_store(z: u64, p: *mut u8, n: usize);
    pub fn __z_add(a: u64, b: u64) -> u64;
    pub fn __z_sub(a: u64, b: u64) -> u64;
    pub fn __z_mul(a: u64, b: u64) -> u64;
    pub fn __z_div(a: u64, b: u64) -> u64;
    pub fn __z_mod(a: u64, b: u64) -> u64;
    pub fn __z_le(a: u64, b: u64) -> bool;
    pub fn __z_lt(a: u64, b: u64) -> bool;
    pub fn __z_eq(a: u64, b: u64) -> bool;
    pub fn __z_ite(c: bool, a: u64, b: u64) -> u64;
    pub fn __sym_bigop(op: usize, n_digits: usize, a: *const u64, b: *const u64, out: *mut u64) -> usize;
    pub fn __sym_fmt(p: *mut u8, nbytes: usize, kind: u8, out: *mut u8) -> usize;
    pub fn __sym_parse(p: *const u8, len: usize, kind: u8, out: *mut u8, nbytes: usize) -> usize;
    pub fn __sym_sha256(p: *const u8, len: usize, out: *mut u8);
    pub fn __sym_dec_pow(base: *const u8, exp: u32, out: *mut u8) -> usize;
    pub fn __sym_isqrt(p: *const u8, n: usize, out: *mut u8);
}

/// Renders a symbolic little-endian unsigned integer as a placeholder ("#U12#"); None if concrete.
#[inline]
pub fn fmt_placeholder(bytes: &mut [u8], kind: u8, buf: &mut [u8; 24]) -> Option<usize> {
    let n = unsafe { __sym_fmt(bytes.as_mut_ptr(), bytes.len(), kind, buf.as_mut_ptr()) };
    if n == 0 {
        None
    } else {
        Some(n)
    }
}
/// None: not a placeholder; Some(false): placeholder that does not denote a value of this type.
#[inline]
pub fn parse_placeholder(s: &[u8], kind: u8, out: &mut [u8]) -> Option<bool> {
    match unsafe { __sym_parse(s.as_ptr(), s.len(), kind, out.as_mut_ptr(), out.len()) } {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    }
}
