//! Symbolic build only: at run time the multi-word primitives are single engine operations.
pub(crate) unsafe fn op<T, U>(op: usize, a: *const T, b: *const T, out: *mut U) -> usize {
    symrt::__sym_bigop(op, core::mem::size_of::<T>() / 8, a as *const u64, b as *const u64, out as *mut u64)
}
pub(crate) unsafe fn shift<T>(k: usize, a: *const T, by: u32, out: *mut T) -> usize {
    symrt::__sym_bigop(k, core::mem::size_of::<T>() / 8, a as *const u64, by as usize as *const u64, out as *mut u64)
}
