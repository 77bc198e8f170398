//! Shared-memory record of the case each worker is running, so that a supervisor can tell which
//! input a dying or stuck process was working on.

use crate::engine::THREADS;
use std::sync::atomic::{fence, Ordering};

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Ends this process when the one that started it ends.
pub fn die_with_parent() { unsafe { prctl(1, 9, 0, 0, 0); } }

const REGION: usize = 64 << 20;
const HEAD: usize = 64;

pub struct Slots { base: *mut u8, pub fd: i32 }
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn create() -> Slots {
        let fd = unsafe { memfd_create(b"mc-slots\0".as_ptr(), 0) };
        assert!(fd >= 0, "memfd_create");
        assert_eq!(unsafe { ftruncate(fd, (REGION * THREADS) as i64) }, 0);
        Slots::map(fd)
    }
    pub fn map(fd: i32) -> Slots {
        let base = unsafe { mmap(std::ptr::null_mut(), REGION * THREADS, 3, 1, fd, 0) };
        assert!(base as isize != -1, "mmap");
        Slots { base, fd }
    }
    fn at(&self, id: usize, off: usize) -> *mut u64 { unsafe { self.base.add(id * REGION + off) as *mut u64 } }
    /// word 0: sequence number; 1: active; 2: kind; 3: payload length
    pub fn begin(&self, id: usize, kind: u32, p: &[u8]) {
        let n = p.len().min(REGION - HEAD);
        unsafe {
            std::ptr::copy_nonoverlapping(p.as_ptr(), self.base.add(id * REGION + HEAD), n);
            self.at(id, 16).write_volatile(kind as u64);
            self.at(id, 24).write_volatile(if n == p.len() { n as u64 } else { u64::MAX });
            self.at(id, 0).write_volatile(self.at(id, 0).read_volatile() + 1);
            fence(Ordering::SeqCst);
            self.at(id, 8).write_volatile(1);
        }
    }
    pub fn end(&self, id: usize) { unsafe { fence(Ordering::SeqCst); self.at(id, 8).write_volatile(0) } }
    /// (sequence number, active)
    pub fn peek(&self, id: usize) -> (u64, bool) { unsafe { (self.at(id, 0).read_volatile(), self.at(id, 8).read_volatile() != 0) } }
    pub fn case(&self, id: usize) -> Option<(u32, Vec<u8>)> {
        unsafe {
            if self.at(id, 8).read_volatile() == 0 { return None }
            let n = self.at(id, 24).read_volatile() as usize;
            if n > REGION - HEAD { return None }
            let mut v = vec![0; n];
            std::ptr::copy_nonoverlapping(self.base.add(id * REGION + HEAD), v.as_mut_ptr(), n);
            Some((self.at(id, 16).read_volatile() as u32, v))
        }
    }
}
