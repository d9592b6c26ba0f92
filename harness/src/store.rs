//! Database directories of a harness: store 0 is the one under test, store 1
//! the durable image left by an injected crash.
#[cfg(feature = "model")]
pub fn dir(n: usize) -> String { if n == 0 { "/v/0".to_string() } else { "/v/1".to_string() } }
#[cfg(feature = "native")]
pub fn dir(n: usize) -> String { format!("{}/{}", std::env::var("VF_SCRATCH").expect("VF_SCRATCH"), n) }

#[cfg(feature = "model")]
pub use crate::kv::crash_image;
#[cfg(feature = "native")]
pub use crate::native::crash_image;
