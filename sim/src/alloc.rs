//! Counting allocator: every block carries a header, so that leaks and double frees inside the code
//! under test are visible to the simulator. Blocks allocated by the simulator's own bookkeeping
//! (inside `harness`) are marked and not counted. Memory is otherwise the system allocator's.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed},
};

pub struct Counting;

static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static BAD_FREES: AtomicU64 = AtomicU64::new(0);
static HARNESS: AtomicI64 = AtomicI64::new(0);

const ALIVE: u64 = 0xA11F_E0B1_0C5A_11FE;
const ALIVE_H: u64 = 0xA11F_E0B1_0C5A_11FF;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;

#[inline]
fn pad(l: &Layout) -> usize { l.align().max(16) }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(&l);
        let raw = System.alloc(Layout::from_size_align_unchecked(l.size() + p, p));
        if raw.is_null() {
            return raw;
        }
        let user = raw.add(p);
        let h = HARNESS.load(Relaxed) > 0;
        *(user.sub(8) as *mut u64) = if h { ALIVE_H } else { ALIVE };
        *(user.sub(16) as *mut u64) = l.size() as u64;
        if !h {
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let p = pad(&l);
        let tag = *(user.sub(8) as *const u64);
        if (tag != ALIVE && tag != ALIVE_H) || *(user.sub(16) as *const u64) != l.size() as u64 {
            // Freed twice, or with another layout: record it and leave the block alone.
            BAD_FREES.fetch_add(1, Relaxed);
            return;
        }
        *(user.sub(8) as *mut u64) = DEAD;
        if tag == ALIVE {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(user.sub(p), Layout::from_size_align_unchecked(l.size() + p, p));
    }
}

/// (live blocks, live bytes, bad frees), not counting the simulator's own bookkeeping.
pub fn stats() -> (i64, i64, u64) { (LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed), BAD_FREES.load(Relaxed)) }

struct Guard;

impl Drop for Guard {
    fn drop(&mut self) { HARNESS.fetch_sub(1, Relaxed); }
}

/// Run simulator bookkeeping whose allocations are not those of the code under test.
#[inline]
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    HARNESS.fetch_add(1, Relaxed);
    let _g = Guard;
    f()
}
