//! Direct system calls (never intercepted).
use std::arch::asm;
pub unsafe fn syscall6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
  let r: i64;
  asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
       lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
pub fn write_all(fd: i32, mut b: &[u8]) {
  while !b.is_empty() {
    let r = unsafe { syscall6(1, fd as u64, b.as_ptr() as u64, b.len() as u64, 0, 0, 0) };
    if r <= 0 {
      return;
    }
    b = &b[r as usize..];
  }
}
pub fn open(path: &std::ffi::CStr, flags: i32, mode: u32) -> i32 {
  unsafe { syscall6(2, path.as_ptr() as u64, flags as u64, mode as u64, 0, 0, 0) as i32 }
}
pub fn close(fd: i32) {
  unsafe { syscall6(3, fd as u64, 0, 0, 0, 0, 0) };
}
pub fn read_file(path: &std::ffi::CStr) -> Option<Vec<u8>> {
  let fd = open(path, 0, 0);
  if fd < 0 {
    return None;
  }
  let mut v = Vec::new();
  let mut buf = vec![0u8; 1 << 16];
  loop {
    let r = unsafe { syscall6(0, fd as u64, buf.as_mut_ptr() as u64, buf.len() as u64, 0, 0, 0) };
    if r <= 0 {
      break;
    }
    v.extend_from_slice(&buf[..r as usize]);
  }
  close(fd);
  Some(v)
}
pub fn exit_group(code: i32) -> ! {
  loop {
    unsafe { syscall6(231, code as u64, 0, 0, 0, 0, 0) };
  }
}
pub fn die(msg: &str) -> ! {
  write_all(2, msg.as_bytes());
  write_all(2, b"\n");
  exit_group(97)
}
pub fn futex_wait(p: *const u32, val: u32) {
  unsafe { syscall6(202, p as u64, 128, val as u64, 0, 0, 0) };
}
pub fn futex_wake(p: *const u32) {
  unsafe { syscall6(202, p as u64, 129, 1, 0, 0, 0) };
}
pub fn gettid() -> i32 {
  unsafe { syscall6(186, 0, 0, 0, 0, 0, 0) as i32 }
}
pub fn getpid() -> i32 {
  unsafe { syscall6(39, 0, 0, 0, 0, 0, 0) as i32 }
}
pub fn tgkill0(pid: i32, tid: i32) -> i64 {
  unsafe { syscall6(234, pid as u64, tid as u64, 0, 0, 0, 0) }
}
pub fn sched_yield() {
  unsafe { syscall6(24, 0, 0, 0, 0, 0, 0) };
}
