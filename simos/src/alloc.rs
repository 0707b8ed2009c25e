//! Private allocator of the simulator: keeps the simulator's own memory out of
//! the heap of the program under test. Only used by the thread holding the
//! baton (or during single threaded start-up).
use std::alloc::{GlobalAlloc, Layout};

pub struct SimAlloc;
const NCLS: usize = 40;
static mut FREE: [*mut u8; NCLS] = [std::ptr::null_mut(); NCLS];
static mut CHUNK: *mut u8 = std::ptr::null_mut();
static mut LEFT: usize = 0;

fn class(l: &Layout) -> usize {
  let n = l.size().max(l.align()).max(16);
  (usize::BITS - (n - 1).leading_zeros()) as usize
}
unsafe fn map(n: usize) -> *mut u8 {
  let r = crate::raw::syscall6(9, 0, n as u64, 3, 0x22, u64::MAX, 0);
  if (-4095..0).contains(&r) {
    crate::raw::die("simos: out of memory");
  }
  r as *mut u8
}
unsafe impl GlobalAlloc for SimAlloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let c = class(&l);
    let n = 1usize << c;
    if !FREE[c].is_null() {
      let p = FREE[c];
      FREE[c] = *(p as *mut *mut u8);
      return p;
    }
    if n >= 1 << 18 {
      return map(n.max(4096));
    }
    if LEFT < n {
      CHUNK = map(1 << 20);
      LEFT = 1 << 20;
    }
    // keep natural alignment of the size class
    let off = (CHUNK as usize).wrapping_neg() & (n.min(4096) - 1);
    if LEFT < off + n {
      CHUNK = map(1 << 20);
      LEFT = 1 << 20;
      let p = CHUNK;
      CHUNK = CHUNK.add(n);
      LEFT -= n;
      return p;
    }
    let p = CHUNK.add(off);
    CHUNK = CHUNK.add(off + n);
    LEFT -= off + n;
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let c = class(&l);
    *(p as *mut *mut u8) = FREE[c];
    FREE[c] = p;
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
    let nl = Layout::from_size_align_unchecked(new, l.align());
    if class(&l) == class(&nl) {
      return p;
    }
    let q = self.alloc(nl);
    std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
    self.dealloc(p, l);
    q
  }
}
