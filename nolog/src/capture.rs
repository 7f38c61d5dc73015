//! The harness's own `write`/`writev`: what a thread prints to standard output and error while it captures is kept.
use std::cell::RefCell;
use std::ffi::c_void;
use std::io::Write;

thread_local! {
  static OUT: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

#[repr(C)]
pub struct IoVec {
  base: *const u8,
  len: usize,
}

extern "C" {
  fn syscall(n: i64, ...) -> i64;
}

fn put(b: &[u8]) -> bool {
  OUT
    .try_with(|o| match o.borrow_mut().as_mut() {
      Some(v) => {
        v.extend_from_slice(b);
        true
      }
      None => false,
    })
    .unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, n: usize) -> isize {
  if (fd == 1 || fd == 2) && put(std::slice::from_raw_parts(buf as *const u8, n)) {
    return n as isize;
  }
  syscall(1, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
  if fd == 1 || fd == 2 {
    let mut t = 0;
    for i in 0..n as usize {
      let x = &*v.add(i);
      if !put(std::slice::from_raw_parts(x.base, x.len)) {
        return syscall(20, fd, v, n as i64) as isize;
      }
      t += x.len;
    }
    return t as isize;
  }
  syscall(20, fd, v, n as i64) as isize
}

/// Runs `f` and returns what it printed.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
  OUT.with(|o| *o.borrow_mut() = Some(vec![]));
  let t = f();
  // what is waiting in the buffer of standard output counts as well
  let _ = std::io::stdout().flush();
  (t, OUT.with(|o| o.borrow_mut().take()).unwrap_or_default())
}
