//! Checking global allocator: every block carries a header with the layout it was allocated with;
//! deallocation compares. Blocks obtained inside a call into uflow ("tagged") are counted per
//! thread, so that heap use can be attributed to the code under test.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const MAGIC_LIVE: u64 = 0x5AFE_B10C_A110_C8ED;
const MAGIC_DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: u32,
    tag: u32,
}

const HDR: usize = 32;
const MAX_ERR: usize = 8;

#[derive(Clone, Copy, Debug)]
pub struct AllocError {
    pub kind: u8, // 1 size/align mismatch, 2 double free / bad pointer
    pub alloc_size: usize,
    pub alloc_align: usize,
    pub free_size: usize,
    pub free_align: usize,
}

thread_local! {
    static TAG: Cell<u32> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static NERR: Cell<usize> = const { Cell::new(0) };
    static ERRS: Cell<[AllocError; MAX_ERR]> = const { Cell::new([AllocError { kind: 0, alloc_size: 0, alloc_align: 0, free_size: 0, free_align: 0 }; MAX_ERR]) };
}

pub struct CheckingAlloc;

fn offset(align: usize) -> usize {
    if align > HDR { align } else { HDR }
}

fn record(e: AllocError) {
    let _ = NERR.try_with(|n| {
        let i = n.get();
        if i < MAX_ERR {
            let _ = ERRS.try_with(|a| {
                let mut v = a.get();
                v[i] = e;
                a.set(v);
            });
        }
        n.set(i + 1);
    });
}

unsafe impl GlobalAlloc for CheckingAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let tag = TAG.try_with(|t| t.get()).unwrap_or(0);
        if tag != 0 {
            let over = LIVE.try_with(|l| {
                let v = l.get() + layout.size() as i64;
                if v > LIMIT.try_with(|m| m.get()).unwrap_or(i64::MAX) {
                    return true;
                }
                l.set(v);
                let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
                let _ = LIVE_BLOCKS.try_with(|b| b.set(b.get() + 1));
                false
            });
            if over == Ok(true) {
                return std::ptr::null_mut();
            }
        }
        let off = offset(layout.align());
        let full = match Layout::from_size_align(layout.size() + off, layout.align().max(16)) {
            Ok(l) => l,
            Err(_) => return std::ptr::null_mut(),
        };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let user = p.add(off);
        let h = user.sub(HDR) as *mut Header;
        (*h).magic = MAGIC_LIVE;
        (*h).size = layout.size();
        (*h).align = layout.align() as u32;
        (*h).tag = tag;
        user
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let h = ptr.sub(HDR) as *mut Header;
        if (*h).magic != MAGIC_LIVE {
            record(AllocError { kind: 2, alloc_size: 0, alloc_align: 0, free_size: layout.size(), free_align: layout.align() });
            return;
        }
        let (size, align) = ((*h).size, (*h).align as usize);
        if size != layout.size() || align != layout.align() {
            record(AllocError { kind: 1, alloc_size: size, alloc_align: align, free_size: layout.size(), free_align: layout.align() });
        }
        if (*h).tag != 0 {
            let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
            let _ = LIVE_BLOCKS.try_with(|b| b.set(b.get() - 1));
        }
        (*h).magic = MAGIC_DEAD;
        let off = offset(align);
        System.dealloc(ptr.sub(off), Layout::from_size_align_unchecked(size + off, align.max(16)));
    }
}

/// Sets the attribution tag of this thread and returns the previous one.
pub fn set_tag(t: u32) -> u32 {
    TAG.with(|c| c.replace(t))
}

pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

pub fn live_blocks() -> i64 {
    LIVE_BLOCKS.with(|c| c.get())
}

pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}

pub fn reset_peak() {
    PEAK.with(|c| c.set(live()));
}

pub fn reset() {
    LIVE.with(|c| c.set(0));
    LIVE_BLOCKS.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    NERR.with(|c| c.set(0));
}

/// Tagged allocations beyond this many live bytes fail (and abort the process).
pub fn set_limit(bytes: i64) {
    LIMIT.with(|c| c.set(bytes));
}

pub fn errors() -> Vec<AllocError> {
    let n = NERR.with(|n| n.get());
    let a = ERRS.with(|a| a.get());
    a[..n.min(MAX_ERR)].to_vec()
}
