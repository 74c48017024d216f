//! Symbolic build only: textual form of symbolic numbers.
use core::fmt;
pub(crate) fn fmt_num<T: Copy>(x: &T, kind: u8, f: &mut fmt::Formatter) -> Option<fmt::Result> {
    let mut y = *x;
    let by = unsafe { core::slice::from_raw_parts_mut(&mut y as *mut T as *mut u8, core::mem::size_of::<T>()) };
    let mut buf = [0u8; 24];
    let n = symrt::fmt_placeholder(by, kind, &mut buf)?;
    Some(f.write_str(unsafe { core::str::from_utf8_unchecked(&buf[..n]) }))
}
pub(crate) fn parse_num<T: Copy>(s: &str, kind: u8, zero: T) -> Option<Option<T>> {
    let mut y = zero;
    let by = unsafe { core::slice::from_raw_parts_mut(&mut y as *mut T as *mut u8, core::mem::size_of::<T>()) };
    match symrt::parse_placeholder(s.as_bytes(), kind, by)? {
        true => Some(Some(y)),
        false => Some(None),
    }
}
