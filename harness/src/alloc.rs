//! Checking allocator: counts live bytes, verifies layouts, poisons freed
//! blocks and keeps them in quarantine so that use after free is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Checked;

const MAGIC_LIVE: u64 = 0x4c49_5645_b10c_a11c;
const MAGIC_DEAD: u64 = 0xdead_b10c_dead_b10c;
const Q: usize = 2048;
pub const POISON: u8 = 0xDB;

#[repr(C)]
struct Head {
    magic: u64,
    size: u64,
    align: u64,
    base: u64,
}
const H: usize = std::mem::size_of::<Head>();

struct Quarantine {
    q: UnsafeCell<[usize; Q]>,
    at: Cell<usize>,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static QUAR: Quarantine = const { Quarantine { q: UnsafeCell::new([0; Q]), at: Cell::new(0) } };
    static BAD: Cell<Option<&'static str>> = const { Cell::new(None) };
}

fn bad(msg: &'static str) {
    ANY_BAD.store(true, std::sync::atomic::Ordering::SeqCst);
    let _ = BAD.try_with(|b| {
        if b.get().is_none() {
            b.set(Some(msg))
        }
    });
}

pub fn take_bad() -> Option<&'static str> {
    BAD.with(|b| b.take())
}
static ALL: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static ANY_BAD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// live bytes of all threads
pub fn live_all() -> i64 {
    ALL.load(std::sync::atomic::Ordering::SeqCst)
}
/// something went wrong in another thread
pub fn any_bad() -> bool {
    ANY_BAD.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn live() -> (i64, i64) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}
pub fn enable() {
    ON.with(|o| o.set(true))
}
/// Check and empty the quarantine.
pub fn flush() {
    let _ = QUAR.try_with(|z| unsafe {
        for i in 0..Q {
            let p = (*z.q.get())[i];
            (*z.q.get())[i] = 0;
            if p != 0 {
                release(p as *mut u8);
            }
        }
    });
}

unsafe fn release(p: *mut u8) {
    let h = p.sub(H) as *mut Head;
    let (size, align, base) = ((*h).size as usize, (*h).align as usize, (*h).base as *mut u8);
    if (*h).magic != MAGIC_DEAD {
        bad("header of a freed block was overwritten (write after free)");
    }
    for i in 0..size {
        if *p.add(i) != POISON {
            bad("a freed block was written to (write after free)");
            break;
        }
    }
    let pre = H.max(align);
    System.dealloc(base, Layout::from_size_align_unchecked(size + pre, align.max(16)));
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pre = H.max(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + pre, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(pre);
        let h = p.sub(H) as *mut Head;
        *h = Head { magic: MAGIC_LIVE, size: l.size() as u64, align: l.align() as u64, base: base as u64 };
        // uninitialised memory must not look like something useful
        std::ptr::write_bytes(p, 0xA7, l.size());
        let _ = LIVE.try_with(|x| x.set(x.get() + l.size() as i64));
        ALL.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        let _ = BLOCKS.try_with(|x| x.set(x.get() + 1));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(H) as *mut Head;
        if (*h).magic == MAGIC_DEAD {
            bad("a block was freed twice");
            return;
        }
        if (*h).magic != MAGIC_LIVE {
            bad("something that is not an allocated block was freed");
            return;
        }
        if (*h).size != l.size() as u64 || (*h).align != l.align() as u64 {
            bad("a block was freed with a layout different from the one it was allocated with");
        }
        let _ = LIVE.try_with(|x| x.set(x.get() - (*h).size as i64));
        ALL.fetch_sub((*h).size as i64, std::sync::atomic::Ordering::Relaxed);
        let _ = BLOCKS.try_with(|x| x.set(x.get() - 1));
        let size = (*h).size as usize;
        std::ptr::write_bytes(p, POISON, size);
        (*h).magic = MAGIC_DEAD;
        let on = ON.try_with(|o| o.get()).unwrap_or(false);
        let mut out = p as usize;
        if on {
            let _ = QUAR.try_with(|z| {
                let i = z.at.get();
                z.at.set((i + 1) % Q);
                let slot = &mut (*z.q.get())[i];
                let old = *slot;
                *slot = p as usize;
                out = old;
            });
        }
        if out != 0 {
            release(out as *mut u8);
        }
    }
}
