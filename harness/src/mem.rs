//! An allocator that counts, so that the memory a rendering takes can be
//! watched, and which stops a rendering that takes far too much.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Counting;

#[global_allocator]
static ALLOC: Counting = Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size() as i64;
        let live = LIVE.try_with(|c| {
            c.set(c.get() + n);
            c.get()
        });
        if let Ok(live) = live {
            let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
            let _ = PEAK.try_with(|c| c.set(c.get().max(live)));
            if live > LIMIT.try_with(|c| c.get()).unwrap_or(i64::MAX) {
                // a null pointer ends the process with SIGABRT
                return std::ptr::null_mut();
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}

/// What an action allocated: the peak above the start, and the sum of all
/// allocations.
pub struct Used {
    pub peak: u64,
    pub total: u64,
}

pub fn measure<T>(limit: i64, f: impl FnOnce() -> T) -> (T, Used) {
    let live = LIVE.with(|c| c.get());
    let total = TOTAL.with(|c| c.get());
    PEAK.with(|c| c.set(live));
    LIMIT.with(|c| c.set(live + limit));
    let v = f();
    LIMIT.with(|c| c.set(i64::MAX));
    let used = Used { peak: PEAK.with(|c| (c.get() - live).max(0) as u64), total: TOTAL.with(|c| c.get()) - total };
    (v, used)
}
