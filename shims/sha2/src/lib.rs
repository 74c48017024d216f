//! Symbolic build only: SHA-256 as one engine operation (real digest of concrete data, an
//! injective uninterpreted digest of symbolic data).
pub use digest::{self, Digest};
use digest::{consts::U32, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

#[derive(Clone, Default, Debug)]
pub struct Sha256 {
    buf: Vec<u8>,
}
impl HashMarker for Sha256 {}
impl Update for Sha256 {
    fn update(&mut self, d: &[u8]) {
        self.buf.extend_from_slice(d)
    }
}
impl OutputSizeUser for Sha256 {
    type OutputSize = U32;
}
impl Reset for Sha256 {
    fn reset(&mut self) {
        self.buf.clear()
    }
}
impl FixedOutput for Sha256 {
    fn finalize_into(self, out: &mut Output<Self>) {
        let mut d = [0u8; 32];
        unsafe { symrt::__sym_sha256(self.buf.as_ptr(), self.buf.len(), d.as_mut_ptr()) };
        out.copy_from_slice(&d);
    }
}
impl FixedOutputReset for Sha256 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        let mut d = [0u8; 32];
        unsafe { symrt::__sym_sha256(self.buf.as_ptr(), self.buf.len(), d.as_mut_ptr()) };
        self.buf.clear();
        out.copy_from_slice(&d);
    }
}
