//! Random numbers, panics as results, the crash journal.

use crate::tree::str_json;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
}

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(Cell::get) > 0 {
            let msg = info.to_string();
            LAST.with(|l| *l.borrow_mut() = msg);
        } else {
            default(info);
        }
    }));
}

/// Run code under test: a panic is a result.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

fn clip(s: &mut String, n: usize) {
    if let Some((i, _)) = s.char_indices().nth(n) {
        s.truncate(i);
    }
}

/// `["ok"]`, `["err",name]` or `["panic",message]`
pub fn res_json<R, E: std::fmt::Debug>(r: &Result<Result<R, E>, String>) -> String {
    match r {
        Ok(Ok(_)) => "[\"ok\"]".into(),
        Ok(Err(e)) => {
            let mut s = format!("{e:?}");
            clip(&mut s, 60);
            format!("[\"err\",{}]", str_json(&s))
        }
        Err(m) => {
            let mut m = m.clone();
            clip(&mut m, 160);
            format!("[\"panic\",{}]", str_json(&m))
        }
    }
}

// The journal: a shared mapping which survives the death of this process and tells what it was doing.
const JOURNAL_SIZE: usize = 1 << 20;
static JOURNAL: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static CASES: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);

pub fn open_journal() {
    let Ok(path) = std::env::var("FV_JOURNAL") else {
        return;
    };
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
        assert!(fd >= 0);
        assert_eq!(libc::ftruncate(fd, JOURNAL_SIZE as i64), 0);
        let p = libc::mmap(
            std::ptr::null_mut(),
            JOURNAL_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        assert_ne!(p, libc::MAP_FAILED);
        JOURNAL.store(p.cast(), Ordering::SeqCst);
    }
    // The watchdog: no single case may take longer than this.
    std::thread::spawn(|| {
        let limit = std::env::var("FV_CASE_LIMIT")
            .ok()
            .and_then(|s| s.parse::<u64>().ok())
            .unwrap_or(60);
        let mut last = 0;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = CASES.load(Ordering::SeqCst);
            if now != last {
                last = now;
                since = std::time::Instant::now();
            } else if ACTIVE.load(Ordering::SeqCst) && since.elapsed().as_secs() >= limit {
                let p = JOURNAL.load(Ordering::SeqCst);
                unsafe {
                    *p.add(4) = b'H';
                    libc::_exit(97);
                }
            }
        }
    });
}

/// Note what is about to be done. `what` is JSON.
pub fn journal(what: &str) {
    CASES.fetch_add(1, Ordering::SeqCst);
    ACTIVE.store(true, Ordering::SeqCst);
    let p = JOURNAL.load(Ordering::SeqCst);
    if p.is_null() {
        return;
    }
    let b = what.as_bytes();
    let n = b.len().min(JOURNAL_SIZE - 8);
    unsafe {
        std::ptr::copy_nonoverlapping((n as u32).to_le_bytes().as_ptr(), p, 4);
        *p.add(4) = b'C';
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
    }
}

/// The case is over: nothing under test is running.
pub fn journal_end() {
    CASES.fetch_add(1, Ordering::SeqCst);
    ACTIVE.store(false, Ordering::SeqCst);
    let p = JOURNAL.load(Ordering::SeqCst);
    if !p.is_null() {
        unsafe { *p.add(4) = b'D' };
    }
}
