//! The little OS support the checks need: a crash-surviving record of what each worker is executing, and buffers
//! that end exactly at an unmapped page.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{SystemTime, UNIX_EPOCH};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PROT_NONE: i32 = 0;
const PROT_RW: i32 = 3;
const MAP_SHARED: i32 = 1;
const MAP_PRIVATE: i32 = 2;
const MAP_ANON: i32 = 0x20;

pub fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

const SLOT: usize = 1 << 16;

/// One record per worker in a file mapping (MC_SLOTS): start time, job, choices. It survives the death of the process.
pub struct Slots {
    base: *mut u8,
    n: usize,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn none() -> Self {
        Slots { base: std::ptr::null_mut(), n: 0 }
    }
    pub fn new(n: usize, names: &[&str]) -> Self {
        let Ok(path) = std::env::var("MC_SLOTS") else {
            let base = unsafe { mmap(std::ptr::null_mut(), n * SLOT, PROT_RW, MAP_PRIVATE | MAP_ANON, -1, 0) };
            assert!(base as isize != -1);
            return Slots { base, n };
        };
        std::fs::write(format!("{path}.names"), names.join("\n")).expect("slot names");
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("slot file");
        f.set_len((n * SLOT) as u64).expect("slot file");
        use std::os::fd::AsRawFd;
        let base = unsafe { mmap(std::ptr::null_mut(), n * SLOT, PROT_RW, MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(base as isize != -1, "mmap");
        Slots { base, n }
    }
    fn time(&self, slot: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(slot * SLOT) as *const AtomicU64) }
    }
    fn word(&self, slot: usize, i: usize) -> &AtomicU32 {
        unsafe { &*(self.base.add(slot * SLOT + 8 + 4 * i) as *const AtomicU32) }
    }
    pub fn begin(&self, slot: usize, job: u32, choices: impl Iterator<Item = u32>) {
        if slot >= self.n {
            return;
        }
        self.word(slot, 0).store(job, Relaxed);
        let mut k = 0;
        for c in choices.take(SLOT / 4 - 8) {
            self.word(slot, 2 + k).store(c, Relaxed);
            k += 1;
        }
        self.word(slot, 1).store(k as u32, Relaxed);
        // a coarse clock is enough: the time is refreshed by the watchdog's counter, not by a system call per execution
        self.time(slot).store(COARSE.load(Relaxed).max(1), Release);
    }
    pub fn end(&self, slot: usize) {
        if slot < self.n {
            self.time(slot).store(0, Release);
        }
    }
    pub fn overdue(&self, limit_ms: u64) -> Option<usize> {
        let now = now_ms();
        COARSE.store(now, Relaxed);
        (0..self.n).find(|&i| {
            let t = self.time(i).load(Acquire);
            if t == 1 {
                // began before the clock first ran
                let _ = self.time(i).compare_exchange(1, now, AcqRel, Relaxed);
            }
            t > 1 && now > t + limit_ms
        })
    }
}
static COARSE: AtomicU64 = AtomicU64::new(0);

/// A buffer between two inaccessible pages; `at_end` places bytes so that the byte after the last one is unmapped,
/// `at_start` so that the byte before the first one is.
pub struct Guarded {
    base: *mut u8,
    len: usize,
}
unsafe impl Send for Guarded {}
const PAGE: usize = 4096;
impl Guarded {
    pub fn new(pages: usize) -> Self {
        unsafe {
            let total = (pages + 2) * PAGE;
            let p = mmap(std::ptr::null_mut(), total, PROT_RW, MAP_PRIVATE | MAP_ANON, -1, 0);
            assert!(p as isize != -1, "mmap");
            assert!(mprotect(p, PAGE, PROT_NONE) == 0 && mprotect(p.add((pages + 1) * PAGE), PAGE, PROT_NONE) == 0);
            Guarded { base: p.add(PAGE), len: pages * PAGE }
        }
    }
    pub fn at_end(&mut self, bytes: &[u8]) -> &[u8] {
        assert!(bytes.len() <= self.len);
        unsafe {
            let d = self.base.add(self.len - bytes.len());
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), d, bytes.len());
            std::slice::from_raw_parts(d, bytes.len())
        }
    }
    pub fn at_start(&mut self, bytes: &[u8]) -> &[u8] {
        assert!(bytes.len() <= self.len);
        unsafe {
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.base, bytes.len());
            std::slice::from_raw_parts(self.base, bytes.len())
        }
    }
}
