//! tokio, except that a blocking task runs at once on the caller's thread: the
//! server only hands a task over to await it.
pub use tokio_real::*;
pub mod task {
    pub use tokio_real::task::*;
    use std::future::{ready, Ready};
    pub fn spawn_blocking<F, R>(f: F) -> Ready<Result<R, tokio_real::task::JoinError>>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        ready(Ok(f()))
    }
}
