//! A small property-based testing engine.
//!
//! Every random choice of a case is drawn from a [`Src`], which records it on a tape. A failing
//! tape is shrunk (chunks deleted, values zeroed or lowered) while the property keeps failing the
//! same way, and the minimal tape is written to a replay file. A run is a pure function of the
//! code and of VERIF_SEED.

mod crash;
pub mod gen;
mod run;
mod src;

pub use run::{Case, Fail, Suite, Tier};
pub use src::Src;

/// Drives a future that never has to wait (the providers of the kit answer at once).
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let waker = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
        std::thread::yield_now();
    }
}

/// Fails the case with a message: `ensure!(cond, "sig", "fmt", args..)`.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)+) => {
        if !$cond { return Err($crate::Fail::new($sig, format!($($arg)+))); }
    };
}
/// Fails the case when two values differ.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail::new($sig, format!("{}\n   got: {a:?}\n  want: {b:?}", format!($($arg)+)))); }
    }};
}
