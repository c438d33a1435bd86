//! Crash evidence and guard pages.
use std::ffi::c_void;
extern "C" {
  fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
  fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
  fn munmap(a: *mut c_void, l: usize) -> i32;
}
const PAGE: usize = 4096;
const STATE: usize = 1 << 22;

/// The input being run is kept in a shared file mapping, so that the parent process still has it
/// if the code under test crashes or never returns.
pub struct State(*mut u8);
impl State {
  pub fn open(path: Option<&str>) -> State {
    use std::os::fd::AsRawFd;
    let Some(path) = path else { return State(std::ptr::null_mut()) };
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(STATE as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), STATE, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    State(p as *mut u8)
  }
  pub fn record(&mut self, s: &str) {
    if self.0.is_null() {
      return;
    }
    unsafe {
      let n = s.len().min(STATE - 16);
      let c = self.0 as *mut u64;
      *c = (*c).wrapping_add(1);
      *c.add(1) = n as u64;
      std::ptr::copy_nonoverlapping(s.as_ptr(), self.0.add(16), n);
    }
  }
}

/// A copy of a string that ends exactly at an unmapped page (a read past its end faults) and, when
/// `front` is set, begins exactly at the start of a mapping preceded by an unmapped page.
pub struct Guarded {
  base: *mut u8,
  len: usize,
  ptr: *const u8,
  slen: usize,
}
impl Guarded {
  pub fn new(s: &str, front: bool) -> Guarded {
    let data = (s.len() + PAGE - 1) / PAGE * PAGE + PAGE;
    let len = data + 2 * PAGE;
    unsafe {
      let p = mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0);
      assert!(p as isize != -1);
      let base = p as *mut u8;
      mprotect(p, PAGE, 0);
      mprotect(base.add(PAGE + data) as *mut c_void, PAGE, 0);
      let ptr = if front { base.add(PAGE) } else { base.add(PAGE + data - s.len()) };
      // hostile surroundings: a read outside the string sees delimiters
      std::ptr::write_bytes(base.add(PAGE), b'=', data);
      std::ptr::copy_nonoverlapping(s.as_ptr(), ptr, s.len());
      Guarded { base, len, ptr, slen: s.len() }
    }
  }
  pub fn str(&self) -> &str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.ptr, self.slen)) }
  }
}
impl Drop for Guarded {
  fn drop(&mut self) {
    unsafe {
      munmap(self.base as *mut c_void, self.len);
    }
  }
}
