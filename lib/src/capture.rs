//! The harness's own `write`/`writev`: what the code under test prints to standard error is kept per thread instead.
use std::cell::RefCell;
use std::ffi::c_void;

thread_local! {
  static OUT: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

#[repr(C)]
pub struct IoVec {
  base: *const u8,
  len: usize,
}

extern "C" {
  fn syscall(n: i64, ...) -> i64;
}

fn put(b: &[u8]) {
  let _ = OUT.try_with(|o| {
    if let Some(v) = o.borrow_mut().as_mut() {
      v.extend_from_slice(b);
    }
  });
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, n: usize) -> isize {
  if fd == 2 {
    put(std::slice::from_raw_parts(buf as *const u8, n));
    return n as isize;
  }
  syscall(1, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
  if fd == 2 {
    let mut t = 0;
    for i in 0..n as usize {
      let x = &*v.add(i);
      put(std::slice::from_raw_parts(x.base, x.len));
      t += x.len;
    }
    return t as isize;
  }
  syscall(20, fd, v, n as i64) as isize
}

/// Runs `f` and returns what it printed to standard error.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
  OUT.with(|o| *o.borrow_mut() = Some(vec![]));
  let t = f();
  (t, OUT.with(|o| o.borrow_mut().take()).unwrap_or_default())
}
