//! Memory with inaccessible neighbours, and read-only memory.

use std::ffi::c_void;

extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut c_void, len: usize) -> i32;
}

pub const PAGE: usize = 4096;

/// `pages` accessible pages between two inaccessible ones.
pub struct Guarded {
    base: *mut u8,
    pages: usize,
}

impl Guarded {
    pub fn new(pages: usize) -> Guarded {
        unsafe {
            let len = (pages + 2) * PAGE;
            let p = mmap(std::ptr::null_mut(), len, 0, 0x22, -1, 0) as *mut u8;
            if p as isize == -1 {
                panic!("HARNESS: mmap failed");
            }
            if mprotect(p.add(PAGE) as *mut c_void, pages * PAGE, 3) != 0 {
                panic!("HARNESS: mprotect failed");
            }
            Guarded { base: p, pages }
        }
    }
    pub fn start(&self) -> *mut u8 {
        unsafe { self.base.add(PAGE) }
    }
    pub fn len(&self) -> usize {
        self.pages * PAGE
    }
    pub fn end(&self) -> *mut u8 {
        unsafe { self.start().add(self.len()) }
    }
    pub fn slice(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.start(), self.len()) }
    }
    pub fn writable(&self, yes: bool) {
        unsafe {
            if mprotect(self.start() as *mut c_void, self.len(), if yes { 3 } else { 1 }) != 0 {
                panic!("HARNESS: mprotect failed");
            }
        }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base as *mut c_void, (self.pages + 2) * PAGE);
        }
    }
}
