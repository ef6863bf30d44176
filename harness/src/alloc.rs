//! The allocator of the harness: puts blocks where a history wants them, tells which blocks are still
//! allocated, overwrites blocks when they are released, and disturbs the schedule.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

pub struct Fv;

#[global_allocator]
static GLOBAL: Fv = Fv;

const SIZE: usize = 10 << 30;
/// The parts of the arena which are in use: each of this size, and so far apart
const PART: usize = 1 << 30;
const APART: usize = 3 << 30;
const BLOCKS: usize = 1 << 22;

static BASE: AtomicUsize = AtomicUsize::new(0);
/// The number of the block which begins at each 16 bytes
static INDEX: AtomicUsize = AtomicUsize::new(0);
/// The blocks: start, size, state
static TABLE: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicU32 = AtomicU32::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
pub static BAD_FREES: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Block {
    start: AtomicUsize,
    size: AtomicUsize,
    /// 1 allocated, 2 released, 3 released and claimed
    state: AtomicU8,
}

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static AT: Cell<usize> = const { Cell::new(0) };
    static WANT: Cell<usize> = const { Cell::new(0) };
    static FAR: Cell<usize> = const { Cell::new(0) };
    static NOISE: Cell<u64> = const { Cell::new(0) };
}

/// The first part of the arena is for `place`, the rest for `capture`.
pub const PLACES: usize = 1 << 24;
pub const CELL: usize = 64;

fn map(len: usize) -> usize {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert_ne!(p, libc::MAP_FAILED);
        p as usize
    }
}

/// 0, or 256 + the byte which fills memory that is allocated
static POISON: AtomicU32 = AtomicU32::new(0);

pub fn set_poison(byte: Option<u8>) {
    POISON.store(byte.map_or(0, |b| 256 + u32::from(b)), SeqCst);
}

/// Memory of the system's allocator
unsafe fn fresh(l: Layout) -> *mut u8 {
    let p = System.alloc(l);
    let b = POISON.load(SeqCst);
    if b != 0 && !p.is_null() {
        std::ptr::write_bytes(p, b as u8, l.size());
    }
    p
}

pub fn init() {
    TABLE.store(map(BLOCKS * std::mem::size_of::<Block>()), SeqCst);
    INDEX.store(map(SIZE / 16 * 4), SeqCst);
    TOP.store(PLACES, SeqCst);
    BASE.store(map(SIZE), SeqCst);
}

pub fn base() -> usize {
    BASE.load(SeqCst)
}

fn block(i: u32) -> &'static Block {
    unsafe { &*(TABLE.load(SeqCst) as *const Block).add(i as usize) }
}

fn index(at: usize) -> &'static AtomicU32 {
    unsafe { &*(INDEX.load(SeqCst) as *const AtomicU32).add((at - base()) / 16) }
}

fn inside(p: usize) -> bool {
    let b = base();
    b != 0 && p >= b && p < b + SIZE
}

fn register(at: usize, size: usize) {
    let i = COUNT.fetch_add(1, SeqCst) + 1;
    if i as usize >= BLOCKS {
        std::process::abort();
    }
    let b = block(i);
    b.start.store(at, SeqCst);
    b.size.store(size, SeqCst);
    b.state.store(1, SeqCst);
    index(at).store(i, SeqCst);
}

unsafe impl GlobalAlloc for Fv {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        noise();
        match MODE.with(Cell::get) {
            1 if l.size() == WANT.with(Cell::get) && l.align() == 8 => {
                MODE.with(|m| m.set(0));
                let at = AT.with(Cell::get);
                register(at, l.size());
                at as *mut u8
            }
            2 if l.align() <= 16 && l.size() > 0 => {
                let n = l.size().div_ceil(16) * 16;
                let off = TOP.fetch_add(n, SeqCst);
                if off + n > PART {
                    return System.alloc(l);
                }
                let at = base() + off + FAR.with(Cell::get);
                register(at, l.size());
                at as *mut u8
            }
            _ => fresh(l),
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        noise();
        if !inside(p as usize) {
            return System.dealloc(p, l);
        }
        let i = if p as usize % 16 == 0 { index(p as usize).load(SeqCst) } else { 0 };
        if i == 0 || block(i).size.load(SeqCst) != l.size() {
            BAD_FREES.fetch_add(1, SeqCst);
            return;
        }
        std::ptr::write_bytes(p, 0xDD, l.size());
        if block(i).state.swap(2, SeqCst) != 1 {
            BAD_FREES.fetch_add(1, SeqCst);
        }
        // Another thread may use this memory before whoever released it does anything else
        pause();
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !inside(p as usize) && MODE.with(Cell::get) == 0 {
            let q = System.realloc(p, l, n);
            let b = POISON.load(SeqCst);
            if b != 0 && !q.is_null() && n > l.size() {
                std::ptr::write_bytes(q.add(l.size()), b as u8, n - l.size());
            }
            return q;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Run `f`; the first allocation of a reference-counted slice of `len` bytes begins at `at`.
pub fn place<R>(at: usize, len: usize, f: impl FnOnce() -> R) -> R {
    AT.with(|a| a.set(at));
    WANT.with(|w| w.set((len + 16).div_ceil(8) * 8));
    MODE.with(|m| m.set(1));
    let r = f();
    MODE.with(|m| m.set(0));
    r
}

/// Run `f` with all its allocations in the arena, where they are never used again.
pub fn capture<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u8);
    impl Drop for Back {
        fn drop(&mut self) {
            MODE.with(|m| m.set(self.0));
        }
    }
    let _back = Back(MODE.with(|m| m.replace(2)));
    f()
}

/// What is captured from now on lies in another part of the arena
pub fn set_far(n: u64) {
    FAR.with(|f| f.set((n % 4) as usize * APART));
}

/// The number of the block which contains an address
pub fn block_of(p: usize) -> Option<u32> {
    if !inside(p) {
        return None;
    }
    let mut at = p / 16 * 16;
    for _ in 0..1 << 16 {
        let i = index(at).load(SeqCst);
        if i != 0 {
            let b = block(i);
            return (p < b.start.load(SeqCst) + b.size.load(SeqCst).max(1)).then_some(i);
        }
        if at == base() {
            return None;
        }
        at -= 16;
    }
    None
}

pub fn allocated(i: u32) -> bool {
    block(i).state.load(SeqCst) == 1
}

/// Make cells which threads can claim.
pub fn offer(at: usize) {
    register(at, 1);
    block(index(at).load(SeqCst)).state.store(2, SeqCst);
}

/// Take a released cell; at most one thread gets it.
pub fn claim(at: usize) -> bool {
    let i = index(at).load(SeqCst);
    i != 0 && block(i).state.compare_exchange(2, 3, SeqCst, SeqCst).is_ok()
}

/// Wait, every now and then, for long enough that another thread can do something.
fn pause() {
    let x = NOISE.with(Cell::get);
    if x == 0 || x % 4 == 0 {
        return;
    }
    unsafe {
        let t = libc::timespec { tv_sec: 0, tv_nsec: (20_000 + (x >> 32) % 100_000) as i64 };
        libc::nanosleep(&t, std::ptr::null_mut());
    }
}

/// Disturb the schedule of this thread at its allocations; 0 to stop.
pub fn set_noise(seed: u64) {
    NOISE.with(|n| n.set(seed));
}

pub fn noise() {
    NOISE.with(|n| {
        let mut x = n.get();
        if x == 0 {
            return;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        n.set(x);
        match x % 16 {
            0..=2 => unsafe {
                libc::sched_yield();
            },
            3..=5 => {
                for _ in 0..(x >> 32) % 400 {
                    std::hint::spin_loop();
                }
            }
            6 => unsafe {
                let t = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 32) % 30_000) as i64 };
                libc::nanosleep(&t, std::ptr::null_mut());
            },
            _ => {}
        }
    });
}
