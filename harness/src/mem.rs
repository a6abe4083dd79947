//! A global allocator that counts what a thread has allocated.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes allocated by this thread and not freed.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// From here on the peak counts.
pub fn start_peak() -> i64 {
    let l = live();
    PEAK.with(|p| p.set(l));
    l
}

pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// CPU seconds of this thread.
pub fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

// ---------------------------------------------------------------------------------------- fences

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;
const ROOM: usize = 2 * PAGE;
const FENCES: usize = 64;

/// 64 times two pages between pages that cannot be read.
struct Fences(*mut u8);

thread_local! {
    static POOL: Fences = unsafe {
        let unit = ROOM + PAGE;
        // private, anonymous
        let p = mmap(std::ptr::null_mut(), FENCES * unit + PAGE, 3, 0x22, -1, 0);
        if p as isize == -1 {
            Fences(std::ptr::null_mut())
        } else {
            for i in 0..FENCES + 1 {
                let _ = mprotect(p.add(i * unit), PAGE, 0);
            }
            Fences(p)
        }
    };
}

thread_local! {
    static IN_FENCE: Cell<bool> = Cell::new(false);
    static SCRATCH: Cell<Vec<u8>> = Cell::new(vec![]);
}

/// Gives slices a place of their own, as a caller does that reads into a buffer: what lies around them are other bytes than the
/// ones of the input, and what was there before is gone.
pub struct Place {
    buf: Vec<u8>,
    n: usize,
    off: bool,
}

const AROUND: usize = 40;

impl Place {
    pub fn new() -> Place {
        Place { buf: SCRATCH.with(|b| b.take()), n: 0, off: IN_FENCE.with(|f| f.get()) }
    }
    pub fn put<'a>(&'a mut self, s: &'a [u8]) -> &'a [u8] {
        if self.off || s.len() > 1 << 16 {
            return s;
        }
        self.n += 1;
        // the same place twice, as with a buffer that is read into again
        let at = AROUND + self.n / 2 % 11;
        let end = at + s.len();
        if self.buf.len() < end + AROUND {
            self.buf.resize(end + AROUND, 0);
        }
        let junk = b"\r-a\n0 =\0:%&"[self.n % 11];
        self.buf[..at].iter_mut().for_each(|b| *b = junk);
        self.buf[at..end].copy_from_slice(s);
        self.buf[end..end + AROUND].iter_mut().for_each(|b| *b = junk);
        &self.buf[at..end]
    }
}

impl Drop for Place {
    fn drop(&mut self) {
        let b = std::mem::replace(&mut self.buf, vec![]);
        SCRATCH.with(|x| x.set(b));
    }
}

/// Copies of slices (the first 64 short ones) that end, or begin if `begin`, next to a page that cannot be read: reading past
/// them kills the process, however it is done. Must not be nested.
pub fn fenced<R>(slices: &[&[u8]], begin: bool, f: impl FnOnce(&[&[u8]]) -> R) -> R {
    POOL.with(|pool| {
        let mut own: Vec<Box<[u8]>> = vec![];
        for (i, s) in slices.iter().enumerate() {
            if i >= FENCES || s.len() > ROOM || pool.0.is_null() {
                own.push(s.to_vec().into_boxed_slice());
            }
        }
        let mut rest = own.iter();
        let all: Vec<&[u8]> = slices
            .iter()
            .enumerate()
            .map(|(i, s)| {
                if i >= FENCES || s.len() > ROOM || pool.0.is_null() {
                    &rest.next().unwrap()[..]
                } else {
                    unsafe {
                        let start = pool.0.add(i * (ROOM + PAGE) + PAGE);
                        let at = if begin { start } else { start.add(ROOM - s.len()) };
                        std::ptr::copy_nonoverlapping(s.as_ptr(), at, s.len());
                        std::slice::from_raw_parts(at, s.len())
                    }
                }
            })
            .collect();
        struct Leave;
        impl Drop for Leave {
            fn drop(&mut self) {
                IN_FENCE.with(|f| f.set(false));
            }
        }
        IN_FENCE.with(|f| f.set(true));
        let _leave = Leave;
        f(&all)
    })
}
