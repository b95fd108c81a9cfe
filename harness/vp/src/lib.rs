//! Small property-based-testing engine used by every check in /verif.
//!
//! * every random decision of a case is one draw from a [`Src`]; the list of draws *is* the case,
//!   so replay and shrinking work uniformly for all generators;
//! * a run is a pure function of the code under test and `VERIF_SEED` (`getrandom` is overridden
//!   in [`detrand`], so random uuids and `HashMap` orders are pinned per case as well);
//! * the search runs in a child process; aborts, stack overflows, memory exhaustion and hangs are
//!   attributed to the case that caused them and reported like any other failure.

pub mod alloc;
pub mod detrand;
mod runner;
mod shrink;
mod src;
pub mod wire;

pub use runner::{give_up, main, trace, trace_clear, Ctx, Fail, Kind, Part, Property, Res};
pub use src::Src;

/// Returns a failure with the given signature and message.
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::Fail::new($sig, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Fail::new($sig, format!($($arg)*)));
        }
    };
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i >= 400 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn fnv(data: impl IntoIterator<Item = u8>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
