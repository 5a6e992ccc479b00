//! Harness core shared by the check binaries: choice-tape generation, shrinking,
//! evidence, and the reference models. Nothing here depends on the crate under test.
pub mod field;
pub mod fx;
pub mod modp;
pub mod q;
pub mod run;
pub mod src;
pub use num_bigint::{BigInt, BigUint};
pub use num_rational::Ratio;
pub type Q = Ratio<BigInt>;
pub use src::Src;
/// A failed case: message.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// Allocator that parks a thread whose live memory passes a limit, so that one runaway
/// case is left behind like any other case over its limit instead of ending the check.
pub mod capped {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    const LIMIT: isize = 2 << 30;
    thread_local! { static LIVE: Cell<isize> = const { Cell::new(0) }; }
    pub struct Capped;
    #[inline]
    fn add(n: isize) {
        let v = LIVE.try_with(|l| {
            let v = l.get() + n;
            l.set(v);
            v
        });
        if n > 0 && v.map_or(false, |v| v > LIMIT) {
            loop {
                std::thread::sleep(std::time::Duration::from_secs(3600));
            }
        }
    }
    unsafe impl GlobalAlloc for Capped {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size() as isize);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as isize));
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size() as isize);
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            add(n as isize - l.size() as isize);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static GLOBAL: Capped = Capped;
}
