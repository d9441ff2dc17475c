//! Counting allocator: per-thread largest request and total, a per-thread cap above which it refuses, and a per-thread
//! ledger of what was obtained and not yet released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

pub struct Tracking;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static MAX_REQ: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static REFUSE_ABOVE: Cell<usize> = const { Cell::new(usize::MAX) };
    static LEDGER_ON: Cell<bool> = const { Cell::new(false) };
    static LEDGER: RefCell<Vec<(usize, usize, usize)>> = const { RefCell::new(Vec::new()) };
    static FAULT: Cell<Option<&'static str>> = const { Cell::new(None) };
}

/// Enters or removes a block; false if there is no such block to remove.
#[inline]
fn note(p: *mut u8, l: Layout, obtained: bool) -> bool {
    let on = LEDGER_ON.try_with(|o| o.replace(false)).unwrap_or(false);
    if !on {
        return true;
    }
    let ok = LEDGER.with(|v| {
        let mut v = v.borrow_mut();
        if obtained {
            v.push((p as usize, l.size(), l.align()));
            return true;
        }
        match v.iter().rposition(|x| x.0 == p as usize) {
            None => {
                FAULT.with(|f| f.set(Some("released twice, or never obtained")));
                false
            }
            Some(i) => {
                let x = v.swap_remove(i);
                if (x.1, x.2) != (l.size(), l.align()) {
                    FAULT.with(|f| f.set(Some("released with another size or alignment than it was obtained with")));
                    return false;
                }
                true
            }
        }
    });
    LEDGER_ON.with(|o| o.set(true));
    ok
}

/// Runs f, which must release all it obtains: the number of blocks and bytes it keeps, and whether it released
/// something it did not hold.
pub fn balance(f: impl FnOnce()) -> (usize, usize, Option<&'static str>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LEDGER_ON.with(|o| o.set(false));
        }
    }
    LEDGER.with(|v| v.borrow_mut().clear());
    FAULT.with(|f| f.set(None));
    LEDGER_ON.with(|o| o.set(true));
    let off = Off;
    f();
    drop(off);
    LEDGER.with(|v| {
        let v = v.borrow();
        (v.len(), v.iter().map(|x| x.1).sum(), FAULT.with(|f| f.get()))
    })
}

#[inline]
fn ask(size: usize) -> bool {
    ON.try_with(|on| {
        if !on.get() {
            return true;
        }
        let _ = MAX_REQ.try_with(|m| m.set(m.get().max(size)));
        let _ = TOTAL.try_with(|m| m.set(m.get().wrapping_add(size)));
        let _ = COUNT.try_with(|m| m.set(m.get() + 1));
        REFUSE_ABOVE.try_with(|r| size <= r.get()).unwrap_or(true)
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ask(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            note(p, l, true);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ask(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(p, l, true);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // what must not be released stays, so that the execution can be reported
        if note(p, l, false) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ask(n) {
            return std::ptr::null_mut();
        }
        if !note(p, l, false) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        let (r, l) = if q.is_null() { (p, l) } else { (q, Layout::from_size_align_unchecked(n, l.align())) };
        note(r, l, true);
        q
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq)]
pub struct Usage {
    pub max_request: usize,
    pub total: usize,
    pub count: usize,
}

/// Runs f while counting this thread's allocations; requests above `refuse_above` are refused.
pub fn measure<T>(refuse_above: usize, f: impl FnOnce() -> T) -> (T, Usage) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    MAX_REQ.with(|m| m.set(0));
    TOTAL.with(|m| m.set(0));
    COUNT.with(|m| m.set(0));
    REFUSE_ABOVE.with(|m| m.set(refuse_above));
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, Usage { max_request: MAX_REQ.with(|m| m.get()), total: TOTAL.with(|m| m.get()), count: COUNT.with(|m| m.get()) })
}
