//! Stand-in for the `getrandom` crate, used only by the harness builds.
//!
//! The code under test draws all of its randomness through `thread_rng()`,
//! which seeds itself from here. A harness case runs in a thread of its own
//! and calls [`vp_seed`] first, so that the case is a function of its seed and
//! can be replayed. Threads that never call [`vp_seed`] get OS entropy.
use std::cell::Cell;
use std::fmt;
use std::io::Read;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(std::num::NonZeroU32);

impl Error {
    pub fn code(self) -> std::num::NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl From<std::num::NonZeroU32> for Error {
    fn from(c: std::num::NonZeroU32) -> Self {
        Error(c)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::error::Error for Error {}

thread_local! {
    static STATE: Cell<Option<u64>> = Cell::new(None);
    static DRAWN: Cell<u64> = Cell::new(0);
}

/// Makes this thread's entropy a deterministic function of `seed`.
pub fn vp_seed(seed: u64) {
    STATE.with(|s| s.set(Some(seed)));
}

/// Bytes of entropy handed to this thread so far.
pub fn vp_drawn() -> u64 {
    DRAWN.with(|d| d.get())
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    DRAWN.with(|d| d.set(d.get() + dest.len() as u64));
    if let Some(mut x) = STATE.with(|s| s.get()) {
        for chunk in dest.chunks_mut(8) {
            // splitmix64
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^= z >> 31;
            let b = z.to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
        STATE.with(|s| s.set(Some(x)));
        return Ok(());
    }
    std::fs::File::open("/dev/urandom")
        .and_then(|mut f| f.read_exact(dest))
        .map_err(|_| Error(std::num::NonZeroU32::new(1).unwrap()))
}
