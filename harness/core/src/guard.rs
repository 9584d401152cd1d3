//! Input buffers that end (or begin) at an inaccessible page, so that any read outside the input
//! faults at once: the supervisor attributes the fault to the running case.
use core::ffi::c_void;

extern "C" {
    fn mmap(a: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, len: usize, prot: i32) -> i32;
    fn munmap(a: *mut c_void, len: usize) -> i32;
}
const PROT_NONE: i32 = 0;
const PROT_RW: i32 = 3;
const MAP_PRIVATE_ANON: i32 = 0x22;
const PAGE: usize = 4096;

pub struct Guarded {
    map: *mut u8,
    map_len: usize,
    data: *mut u8,
    cap: usize,
}

impl Guarded {
    pub fn new(cap: usize) -> Self {
        let data_len = (cap + PAGE - 1) / PAGE * PAGE;
        let data_len = data_len.max(PAGE);
        let map_len = data_len + 2 * PAGE;
        // SAFETY: a fresh anonymous mapping, then its first and last page are protected.
        unsafe {
            let m = mmap(std::ptr::null_mut(), map_len, PROT_RW, MAP_PRIVATE_ANON, -1, 0);
            assert!(m as isize != -1, "mmap failed");
            let m = m as *mut u8;
            assert_eq!(mprotect(m as *mut c_void, PAGE, PROT_NONE), 0);
            assert_eq!(
                mprotect(m.add(PAGE + data_len) as *mut c_void, PAGE, PROT_NONE),
                0
            );
            Guarded {
                map: m,
                map_len,
                data: m.add(PAGE),
                cap: data_len,
            }
        }
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
    /// Copy `b` so that it ends exactly at the guard page (`at_end`) or starts right after one.
    pub fn place(&mut self, b: &[u8], at_end: bool) -> &[u8] {
        assert!(b.len() <= self.cap);
        // SAFETY: in bounds of the accessible part by the assertion above.
        unsafe {
            let p = if at_end {
                self.data.add(self.cap - b.len())
            } else {
                self.data
            };
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts(p, b.len())
        }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        // SAFETY: the mapping made in `new`.
        unsafe {
            munmap(self.map as *mut c_void, self.map_len);
        }
    }
}

/// A lazily backed region of zero bytes, for inputs of several gigabytes of which only a few
/// pages are ever touched.
pub struct Huge {
    map: *mut u8,
    len: usize,
}

// SAFETY: plain memory, shared only immutably or behind `&mut`.
unsafe impl Send for Huge {}
unsafe impl Sync for Huge {}

impl Huge {
    pub fn new(len: usize) -> Option<Self> {
        const MAP_NORESERVE: i32 = 0x4000;
        // SAFETY: a fresh anonymous mapping.
        let m = unsafe {
            mmap(std::ptr::null_mut(), len, PROT_RW, MAP_PRIVATE_ANON | MAP_NORESERVE, -1, 0)
        };
        (m as isize != -1).then(|| Huge { map: m as *mut u8, len })
    }
    pub fn bytes(&mut self) -> &mut [u8] {
        // SAFETY: the whole mapping is readable and writable and zero-initialised.
        unsafe { std::slice::from_raw_parts_mut(self.map, self.len) }
    }
}

impl Drop for Huge {
    fn drop(&mut self) {
        // SAFETY: the mapping made in `new`.
        unsafe {
            munmap(self.map as *mut c_void, self.len);
        }
    }
}
