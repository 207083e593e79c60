//! Counts what the code under test does: control-flow edges passed (only in
//! the instrumented build) and memory asked for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static BYTES: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);

fn up(n: usize) {
    BYTES.fetch_add(n as u64, Relaxed);
    let l = LIVE.fetch_add(n as u64, Relaxed) + n as u64;
    PEAK.fetch_max(l, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            up(n - l.size());
        } else {
            LIVE.fetch_sub((l.size() - n) as u64, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[cfg(vh_work)]
#[global_allocator]
static ALLOC: Counting = Counting;
#[cfg(vh_work)]
extern "C" {
    static vh_work: u64;
    static mut vh_limit: u64;
}
pub const ON: bool = cfg!(vh_work);
fn edges() -> u64 {
    #[cfg(vh_work)]
    unsafe {
        return std::ptr::read_volatile(&vh_work);
    }
    #[cfg(not(vh_work))]
    0
}

/// Bytes held now.
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    /// Control-flow edges passed.
    pub edges: u64,
    /// Bytes asked for, in total.
    pub bytes: u64,
    /// The most bytes held at a time beyond what was held before.
    pub peak: u64,
}
/// Ends the process once this many more edges are passed; None: no limit.
fn limit(n: Option<u64>) {
    #[cfg(vh_work)]
    unsafe {
        std::ptr::write_volatile(std::ptr::addr_of_mut!(vh_limit), n.map_or(u64::MAX, |n| edges() + n));
    }
    let _ = n;
}
pub fn measure<T>(most: u64, f: impl FnOnce() -> T) -> (T, Cost) {
    limit(Some(most));
    let b0 = BYTES.load(Relaxed);
    let l0 = LIVE.load(Relaxed);
    PEAK.store(l0, Relaxed);
    let e0 = edges();
    let t = f();
    limit(None);
    let c = Cost { edges: edges() - e0, bytes: BYTES.load(Relaxed) - b0, peak: PEAK.load(Relaxed).saturating_sub(l0) };
    (t, c)
}
