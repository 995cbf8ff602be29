//! A checking global allocator.
//!
//! Detects, deterministically and without instrumentation of the code under test:
//!  * double frees and frees of foreign/interior pointers (header magic),
//!  * deallocation with a `Layout` other than the one used to allocate,
//!  * buffer under/overflow writes (header magic, tail canary),
//!  * writes after free (quarantine of freed blocks filled with 0xDD),
//!  * leaks (count of live blocks allocated while `tracking` was on),
//! and makes reads-after-free / uninit reads visible (0xDD / 0xCD fill).
//! It also counts allocations, for the "does not allocate" properties.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::*};

pub struct Checked;

#[global_allocator]
static GLOBAL: Checked = Checked;

#[repr(C)]
#[derive(Clone, Copy)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    off: usize,
    tracked: usize,
    magic2: u64,
}
const HDR: usize = std::mem::size_of::<Header>(); // 48
const LIVE: u64 = 0x5AFE_11FE_B10C_0001;
const FREED: u64 = 0xDEAD_F4EE_B10C_0002;
const TAIL: [u8; 16] = [0xA5; 16];

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<usize> = const { Cell::new(0) };
    static EXEMPT: Cell<bool> = const { Cell::new(false) };
}
static LIVE_TRACKED: AtomicIsize = AtomicIsize::new(0);
/// Bytes in live blocks of at least `BIG` bytes.
static LIVE_BIG: AtomicUsize = AtomicUsize::new(0);
const BIG: usize = 4096;
const MAX_LIVE: usize = 1 << 30;

const QN: usize = 2048;
const QBYTES: usize = 4 << 20;
struct Quarantine {
    lock: AtomicBool,
    ptrs: [AtomicUsize; QN],
    head: AtomicUsize, // next slot to push
    tail: AtomicUsize, // oldest
    bytes: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
static Q: Quarantine = Quarantine {
    lock: AtomicBool::new(false),
    ptrs: [Z; QN],
    head: Z,
    tail: Z,
    bytes: Z,
};

pub const ALLOC_VIOLATION_EXIT: i32 = 77;

fn die(msg: &[u8]) -> ! {
    unsafe {
        extern "C" {
            fn write(fd: i32, p: *const u8, n: usize) -> isize;
            fn _exit(c: i32) -> !;
        }
        let pre = b"ALLOC-VIOLATION: ";
        write(2, pre.as_ptr(), pre.len());
        write(2, msg.as_ptr(), msg.len());
        write(2, b"\n".as_ptr(), 1);
        _exit(ALLOC_VIOLATION_EXIT)
    }
}

unsafe fn header(user: *mut u8) -> *mut Header {
    user.sub(HDR).cast()
}

unsafe fn real_free(user: *mut u8) {
    let h = header(user).read_unaligned();
    for i in 0..h.size {
        if *user.add(i) != 0xDD {
            die(b"write to a freed block");
        }
    }
    let total = h.off + h.size + TAIL.len();
    let base = user.sub(h.off);
    System.dealloc(base, Layout::from_size_align_unchecked(total, h.align.max(16)));
}

fn qlock() {
    while Q.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn qunlock() {
    Q.lock.store(false, Release)
}

unsafe fn quarantine(user: *mut u8, size: usize) {
    qlock();
    let head = Q.head.load(Relaxed);
    Q.ptrs[head % QN].store(user as usize, Relaxed);
    Q.head.store(head + 1, Relaxed);
    let mut bytes = Q.bytes.load(Relaxed) + size;
    loop {
        let tail = Q.tail.load(Relaxed);
        let n = Q.head.load(Relaxed) - tail;
        if n > 1 && (n >= QN || bytes > QBYTES) {
            let p = Q.ptrs[tail % QN].load(Relaxed) as *mut u8;
            bytes -= header(p).read_unaligned().size;
            Q.tail.store(tail + 1, Relaxed);
            real_free(p);
        } else {
            break;
        }
    }
    Q.bytes.store(bytes, Relaxed);
    qunlock();
}

/// Verifies that no quarantined block was written to after it was freed
/// (the `n` most recently freed ones).
pub fn check_quarantine(n: usize) {
    unsafe {
        qlock();
        let head = Q.head.load(Relaxed);
        let tail = Q.tail.load(Relaxed);
        let from = tail.max(head.saturating_sub(n));
        for i in from..head {
            let p = Q.ptrs[i % QN].load(Relaxed) as *mut u8;
            let h = header(p).read_unaligned();
            if h.magic != FREED {
                die(b"header of a freed block overwritten");
            }
            for j in 0..h.size {
                if *p.add(j) != 0xDD {
                    die(b"write to a freed block");
                }
            }
        }
        qunlock();
    }
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let off = (HDR + l.align() - 1) / l.align() * l.align();
        let Some(total) = off.checked_add(l.size()).and_then(|n| n.checked_add(TAIL.len())) else {
            return std::ptr::null_mut();
        };
        let Ok(layout) = Layout::from_size_align(total, l.align().max(16)) else {
            return std::ptr::null_mut();
        };
        // Runaway allocation (a loop that never makes progress) has to end as a reported
        // failure of the case, not as the machine running out of memory.
        if l.size() >= BIG
            && LIVE_BIG.fetch_add(l.size(), Relaxed).saturating_add(l.size()) > MAX_LIVE
        {
            die(b"more than 1 GB of live allocations");
        }
        // `off` is a multiple of l.align() and the base is aligned to max(l.align(), 16).
        let base = System.alloc(layout);
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let track = TRACK.try_with(|t| t.get()).unwrap_or(false)
            && !EXEMPT.try_with(|t| t.get()).unwrap_or(false);
        header(user).write_unaligned(Header {
            magic: LIVE,
            size: l.size(),
            align: l.align(),
            off,
            tracked: track as usize,
            magic2: LIVE,
        });
        std::ptr::write_bytes(user, 0xCD, l.size());
        std::ptr::copy_nonoverlapping(TAIL.as_ptr(), user.add(l.size()), TAIL.len());
        if track {
            if LIVE_TRACKED.fetch_add(1, Relaxed) > 8_000_000 {
                die(b"more than 8 million live allocations");
            }
            let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        if user as usize % l.align() != 0 || user.is_null() {
            die(b"free of a misaligned or null pointer");
        }
        let h = header(user).read_unaligned();
        if h.magic == FREED {
            die(b"double free");
        }
        if h.magic != LIVE || h.magic2 != LIVE {
            die(b"free of a pointer that is not an allocated block (or underflow write)");
        }
        if h.size != l.size() || h.align != l.align() {
            die(b"free with a layout that differs from the allocation's");
        }
        for i in 0..TAIL.len() {
            if *user.add(h.size + i) != TAIL[i] {
                die(b"write past the end of a block");
            }
        }
        if h.size >= BIG {
            LIVE_BIG.fetch_sub(h.size, Relaxed);
        }
        if h.tracked != 0 {
            LIVE_TRACKED.fetch_sub(1, Relaxed);
        }
        (*header(user)).magic = FREED;
        std::ptr::write_bytes(user, 0xDD, h.size);
        quarantine(user, h.size);
    }
}

/// Is this the start of a live heap block? (only call with pointers to readable memory
/// preceded by 48 readable bytes.)
pub fn live_tracked() -> isize {
    LIVE_TRACKED.load(SeqCst)
}
pub fn set_tracking(on: bool) -> bool {
    TRACK.with(|t| t.replace(on))
}
/// Number of tracked allocations this thread has made so far.
pub fn allocs() -> usize {
    ALLOCS.with(|a| a.get())
}
/// Runs `f` without counting its allocations as part of the case.
pub fn exempt<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            EXEMPT.with(|t| t.set(self.0));
        }
    }
    let _g = G(EXEMPT.with(|t| t.replace(true)));
    f()
}
