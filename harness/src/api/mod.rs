//! Checks through the public API only.
pub mod hist;
pub mod keys;
pub mod rng;
pub mod sers;
pub mod verify;
pub use rng::genkeys_child;

use std::panic::{catch_unwind, AssertUnwindSafe};

/// Ok(value) or Err(panic message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| crate::run::panic_text(&e))
}
/// the bytes at some (content-dependent) alignment between other bytes, as callers pass slices of larger buffers
pub struct Placed(Vec<u8>, usize, usize);
pub fn placed(b: &[u8]) -> Placed {
    let off = (b.len() * 5 + b.first().copied().unwrap_or(0) as usize * 3 + b.last().copied().unwrap_or(0) as usize) % 16;
    let mut v = vec![0xa5u8; off];
    v.extend_from_slice(b);
    v.extend_from_slice(&[0x5a, 0xff, 1, 0, 0x80, 0x7f, 0x0a, 0x20, 0xc3]);
    Placed(v, off, b.len())
}
impl std::ops::Deref for Placed {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0[self.1..self.1 + self.2]
    }
}
pub fn hx(b: &[u8]) -> String {
    hex::encode(b)
}
