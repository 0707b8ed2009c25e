//! Interposed C library entry points.
use crate::core::*;
use crate::net::{self, Obj, SS};
use crate::vfs::{self, IK, ROOT};
use crate::{clients, raw};
use libc::*;
use simspec::*;
use std::ffi::CStr;

type PthreadCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
static mut REAL_CREATE: Option<PthreadCreate> = None;
static mut REAL_JOIN: Option<unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int> = None;
static mut REAL_SYSCONF: Option<unsafe extern "C" fn(c_int) -> c_long> = None;
static mut REAL_SIGACTION: Option<unsafe extern "C" fn(c_int, *const sigaction, *mut sigaction) -> c_int> = None;
static mut KEY: pthread_key_t = 0;
static mut EXE: (usize, usize) = (0, 0);
const MONO0: u64 = 1000 * 1_000_000_000;

fn set_errno(e: i32) {
  unsafe { *__errno_location() = e };
}
fn ret(r: Result<i64, i32>) -> i64 {
  match r {
    Ok(v) => v,
    Err(e) => {
      set_errno(e);
      -1
    }
  }
}
fn act() -> bool {
  unsafe { ACTIVE }
}

unsafe extern "C" fn phdr_cb(info: *mut dl_phdr_info, _s: size_t, _d: *mut c_void) -> c_int {
  // first entry is the main executable
  let i = &*info;
  let mut lo = usize::MAX;
  let mut hi = 0;
  for k in 0..i.dlpi_phnum as usize {
    let p = &*i.dlpi_phdr.add(k);
    if p.p_type == PT_LOAD {
      let a = i.dlpi_addr as usize + p.p_vaddr as usize;
      lo = lo.min(a);
      hi = hi.max(a + p.p_memsz as usize);
    }
  }
  EXE = (lo, hi);
  1
}
unsafe fn next(name: &[u8]) -> *mut c_void {
  let p = dlsym(RTLD_NEXT, name.as_ptr() as *const c_char);
  if p.is_null() {
    raw::die("simos: dlsym");
  }
  p
}
pub unsafe fn resolve() {
  REAL_CREATE = Some(std::mem::transmute(next(b"pthread_create\0")));
  REAL_JOIN = Some(std::mem::transmute(next(b"pthread_join\0")));
  REAL_SYSCONF = Some(std::mem::transmute(next(b"sysconf\0")));
  REAL_SIGACTION = Some(std::mem::transmute(next(b"sigaction\0")));
  pthread_key_create(&raw mut KEY, Some(key_dtor));
  dl_iterate_phdr(Some(phdr_cb), std::ptr::null_mut());
}
pub unsafe fn install_signal(s: i32, f: usize) {
  let mut sa: sigaction = std::mem::zeroed();
  sa.sa_sigaction = f;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  REAL_SIGACTION.unwrap()(s, &sa, std::ptr::null_mut());
}

// ------------------------------------------------------------------ threads
struct Start {
  f: extern "C" fn(*mut c_void) -> *mut c_void,
  arg: *mut c_void,
  park: &'static std::sync::atomic::AtomicU32,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
  unsafe {
    let s = p as *mut Start;
    park_wait((*s).park);
    after_resume();
    let (f, a) = ((*s).f, (*s).arg);
    drop(Box::from_raw(s));
    pthread_setspecific(KEY, 1 as *const c_void);
    f(a)
  }
}
unsafe extern "C" fn key_dtor(v: *mut c_void) {
  let n = v as usize;
  if n < 4 {
    pthread_setspecific(KEY, (n + 1) as *const c_void);
    return;
  }
  thread_exit();
}
fn thread_exit() {
  let g = g();
  let c = g.cur;
  g.ev("exit", c as u64, 0);
  g.threads[c].st = St::Exit;
  for i in 0..g.threads.len() {
    if g.threads[i].st == St::Block && g.threads[i].wait == Wait::Join(c) {
      g.wake_thread(i);
    }
  }
  g.resched(true);
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
  out: *mut pthread_t,
  attr: *const pthread_attr_t,
  f: extern "C" fn(*mut c_void) -> *mut c_void,
  arg: *mut c_void,
) -> c_int {
  let real = match REAL_CREATE {
    Some(r) => r,
    None => {
      resolve();
      REAL_CREATE.unwrap()
    }
  };
  if !act() {
    return real(out, attr, f, arg);
  }
  let g = g();
  if let Some(Act::Err(e)) = g.op(Op::Spawn, "") {
    return e;
  }
  let id = g.add_thread(true);
  let s = Box::into_raw(Box::new(Start { f, arg, park: g.threads[id].park }));
  let r = real(out, attr, tramp, s as *mut c_void);
  if r != 0 {
    raw::die("simos: real pthread_create failed");
  }
  g.threads[id].pthread = *out as u64;
  0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
  if act() {
    let g = g();
    g.op(Op::Join, "");
    if let Some(id) = (0..g.threads.len()).rev().find(|i| g.threads[*i].pthread == t as u64) {
      while g.threads[id].st != St::Exit {
        g.block(Wait::Join(id), None);
      }
    }
  }
  REAL_JOIN.unwrap()(t, r)
}
struct EnvStart {
  e: clients::Env,
  park: &'static std::sync::atomic::AtomicU32,
}
extern "C" fn env_tramp(p: *mut c_void) -> *mut c_void {
  unsafe {
    let s = Box::from_raw(p as *mut EnvStart);
    park_wait(s.park);
    after_resume();
    clients::run(&s.e);
    drop(s);
    thread_exit();
    std::ptr::null_mut()
  }
}
pub unsafe fn spawn_env(e: clients::Env) {
  let g = g();
  let id = g.add_thread(false);
  let s = Box::into_raw(Box::new(EnvStart { e, park: g.threads[id].park }));
  let mut t: pthread_t = 0;
  if REAL_CREATE.unwrap()(&mut t, std::ptr::null(), env_tramp, s as *mut c_void) != 0 {
    raw::die("simos: env thread");
  }
  g.threads[id].pthread = t as u64;
}

// ------------------------------------------------------------------- malloc
#[unsafe(naked)]
#[no_mangle]
pub unsafe extern "C" fn malloc(_n: usize) -> *mut c_void {
  std::arch::naked_asm!(
    "cmp rdi, 0x10000000",
    "jb 3f",
    "mov qword ptr [rip + {big}], rdi",
    "3:",
    "mov rax, qword ptr [rip + {mc}]",
    "inc rax",
    "mov qword ptr [rip + {mc}], rax",
    "cmp rax, qword ptr [rip + {nm}]",
    "jb 2f",
    "mov rsi, qword ptr [rsp]",
    "push rdi",
    "mov rdi, rsi",
    "call {slow}",
    "pop rdi",
    "2:",
    "jmp __libc_malloc@PLT",
    big = sym BIG_REQ,
    mc = sym MCOUNT,
    nm = sym NEXT_M,
    slow = sym malloc_slow,
  )
}
/// Last request for 256 MiB or more in one go.
pub static mut BIG_REQ: u64 = 0;
extern "C" {
  fn __libc_calloc(n: usize, m: usize) -> *mut c_void;
  fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
  fn malloc_usable_size(p: *mut c_void) -> usize;
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void {
  let t = n.wrapping_mul(m);
  if t >= 0x1000_0000 {
    BIG_REQ = t as u64;
  }
  __libc_calloc(n, m)
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
  // a buffer that grows step by step was not claimed by a header
  if n >= 0x1000_0000 && n / 3 > malloc_usable_size(p) {
    BIG_REQ = n as u64;
  }
  __libc_realloc(p, n)
}
unsafe extern "C" fn malloc_slow(ra: usize) {
  if !ACTIVE {
    NEXT_M = u64::MAX;
    return;
  }
  let g = g();
  if ra < EXE.0 || ra >= EXE.1 || !g.threads[g.cur].sut {
    if !g.explicit {
      NEXT_M = MCOUNT + 1;
    } else {
      g.arm_malloc();
    }
    return;
  }
  let e = *__errno_location();
  g.mpoint();
  *__errno_location() = e;
}

// ------------------------------------------------------------------- clocks
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
  if !act() {
    let r = raw::syscall6(228, id as u64, ts as u64, 0, 0, 0, 0);
    return if r < 0 { -1 } else { 0 };
  }
  let g = g();
  g.now += 500;
  let t = if id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE { g.realtime() } else { (g.now + MONO0) as i64 };
  (*ts).tv_sec = t.div_euclid(1_000_000_000);
  (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
  0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _z: *mut c_void) -> c_int {
  let mut ts: timespec = std::mem::zeroed();
  clock_gettime(CLOCK_REALTIME, &mut ts);
  (*tv).tv_sec = ts.tv_sec;
  (*tv).tv_usec = ts.tv_nsec / 1000;
  0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
  let mut ts: timespec = std::mem::zeroed();
  clock_gettime(CLOCK_REALTIME, &mut ts);
  if !t.is_null() {
    *t = ts.tv_sec;
  }
  ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, _rem: *mut timespec) -> c_int {
  if !act() {
    return 0;
  }
  let g = g();
  g.op(Op::Sleep, "");
  let d = g.now + (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
  g.block(Wait::Sleep, Some(d));
  0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
  if flags & TIMER_ABSTIME == 0 {
    return nanosleep(req, rem);
  }
  let g = g();
  g.op(Op::Sleep, "");
  let t = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
  let d = if id == CLOCK_REALTIME { t - g.spec.start_ns - g.real_off } else { t - MONO0 as i64 };
  g.block(Wait::Sleep, Some(d.max(0) as u64));
  0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
  if act() {
    g().yield_now();
  }
  0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_p: pid_t, n: size_t, m: *mut cpu_set_t) -> c_int {
  let b = std::slice::from_raw_parts_mut(m as *mut u8, n);
  b.fill(0);
  let c = if act() { g().spec.cpus as usize } else { 1 };
  for i in 0..c.min(n * 8) {
    b[i / 8] |= 1 << (i % 8);
  }
  0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
  if act() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) {
    return g().spec.cpus as c_long;
  }
  match REAL_SYSCONF {
    Some(f) => f(n),
    None => {
      resolve();
      REAL_SYSCONF.unwrap()(n)
    }
  }
}
fn fill_random(p: *mut u8, n: usize) {
  let g = g();
  for i in 0..n {
    unsafe { *p.add(i) = (g.grng.next() >> 17) as u8 };
  }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, _f: c_uint) -> ssize_t {
  if !act() {
    return raw::syscall6(318, p as u64, n as u64, _f as u64, 0, 0, 0) as ssize_t;
  }
  fill_random(p as *mut u8, n);
  n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
  getrandom(p, n, 0);
  0
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
  if act() {
    4242 + g().cur as i32
  } else {
    raw::gettid()
  }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
  if act() {
    4242
  } else {
    raw::getpid()
  }
}

// -------------------------------------------------------------------- futex
unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const timespec, val3: u32) -> Result<i64, i32> {
  let g = g();
  let cmd = op & 127;
  match cmd {
    FUTEX_WAIT | FUTEX_WAIT_BITSET => {
      g.op(Op::Futex, "wait");
      let cur = std::sync::atomic::AtomicU32::from_ptr(addr as *mut u32).load(std::sync::atomic::Ordering::SeqCst);
      if cur != val {
        return Err(EAGAIN);
      }
      if g.spec.spurious_pm > 0 && g.rng.chance(g.spec.spurious_pm) {
        g.stats.spurious += 1;
        return Ok(0);
      }
      let dl = if ts.is_null() {
        None
      } else {
        let t = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
        let d = if cmd == FUTEX_WAIT {
          g.now as i128 + t
        } else if op & FUTEX_CLOCK_REALTIME != 0 {
          t - g.spec.start_ns as i128 - g.real_off as i128
        } else {
          t - MONO0 as i128
        };
        Some(d.clamp(0, u64::MAX as i128 / 2) as u64)
      };
      let c = g.cur;
      g.threads[c].bitset = if cmd == FUTEX_WAIT { u32::MAX } else { val3 };
      if g.block(Wait::Futex(addr), dl) {
        Err(ETIMEDOUT)
      } else {
        Ok(0)
      }
    }
    FUTEX_WAKE | FUTEX_WAKE_BITSET => {
      g.op(Op::Futex, "wake");
      let bs = if cmd == FUTEX_WAKE { u32::MAX } else { val3 };
      let mut w: Vec<(u64, usize)> = (0..g.threads.len())
        .filter(|i| {
          let t = &g.threads[*i];
          t.st == St::Block && t.wait == Wait::Futex(addr) && t.bitset & bs != 0
        })
        .map(|i| (g.threads[i].waitseq, i))
        .collect();
      w.sort();
      let n = w.len().min(val as usize);
      for (_, i) in w.iter().take(n) {
        g.wake_thread(*i);
      }
      Ok(n as i64)
    }
    _ => g.unsupported(&format!("futex op {}", op)),
  }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
  if !act() {
    let r = raw::syscall6(n, a, b, c, d, e, f);
    return if (-4095..0).contains(&r) {
      set_errno(-r as i32);
      -1
    } else {
      r
    };
  }
  match n {
    SYS_futex => ret(futex(a as usize, b as i32, c as u32, d as *const timespec, f as u32)),
    SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
    SYS_gettid => gettid() as c_long,
    SYS_getpid => getpid() as c_long,
    SYS_statx => statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut statx) as c_long,
    SYS_copy_file_range | SYS_openat2 | SYS_io_uring_setup | SYS_pidfd_open | SYS_clone3 => ret(Err(ENOSYS)),
    SYS_renameat2 => renameat2(a as i32, b as *const c_char, c as i32, d as *const c_char, e as u32) as c_long,
    SYS_membarrier => ret(Err(ENOSYS)),
    _ => {
      g().unsupported(&format!("syscall {}", n));
    }
  }
}

// --------------------------------------------------------------------- exit
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
  if act() {
    g().finish(Exit::Abort);
  }
  raw::exit_group(134)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(c: c_int) -> ! {
  if act() {
    g().finish(Exit::Code(c));
  }
  raw::exit_group(c)
}
#[no_mangle]
pub unsafe extern "C" fn sigaction(s: c_int, a: *const sigaction, o: *mut sigaction) -> c_int {
  if act() && (s == SIGSEGV || s == SIGBUS || s == SIGILL || s == SIGFPE || s == SIGABRT || s == SIGTRAP) {
    if !o.is_null() {
      *o = std::mem::zeroed();
    }
    return 0;
  }
  if REAL_SIGACTION.is_none() {
    resolve();
  }
  REAL_SIGACTION.unwrap()(s, a, o)
}

// --------------------------------------------------------------------- files
unsafe fn cpath<'a>(p: *const c_char) -> &'a [u8] {
  CStr::from_ptr(p).to_bytes()
}
/// Directory a relative path starts from.
fn base(g: &G, dirfd: i32) -> Result<u64, i32> {
  if dirfd == AT_FDCWD {
    return Ok(g.vfs.cwd);
  }
  match g.net.fds.get(&dirfd) {
    Some(Obj::File(o)) => Ok(g.vfs.ofd[o].ino),
    _ => Err(EBADF),
  }
}
fn file(g: &G, fd: i32) -> Result<usize, i32> {
  match g.net.fds.get(&fd) {
    Some(Obj::File(o)) => Ok(*o),
    _ => Err(EBADF),
  }
}
fn sock(g: &G, fd: i32) -> Result<u64, i32> {
  match g.net.fds.get(&fd) {
    Some(Obj::Sock(o)) => Ok(*o),
    Some(_) => Err(ENOTSOCK),
    _ => Err(EBADF),
  }
}
fn opath(g: &G, o: usize) -> String {
  g.vfs.ofd[&o].path.clone()
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> Result<i64, i32> {
  let g = g();
  let path = cpath(p);
  let b = base(g, dirfd)?;
  let wr = flags & O_ACCMODE != O_RDONLY || flags & O_CREAT != 0;
  let lbl = g.vfs.label(b, path, flags & O_NOFOLLOW == 0);
  match g.op(if wr { Op::Create } else { Op::Open }, &lbl) {
    Some(Act::Err(e)) => return Err(e),
    _ => {}
  }
  let b = base(g, dirfd)?;
  let o = vfs::open(g, b, path, flags, mode & 0o755)?;
  Ok(g.net.new_fd(Obj::File(o)) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(2, p as u64, flags as u64, mode as u64, 0, 0, 0)) as c_int;
  }
  ret(do_open(AT_FDCWD, p, flags, mode)) as c_int
}
fn raw_ret(r: i64) -> i64 {
  if (-4095..0).contains(&r) {
    set_errno(-r as i32);
    -1
  } else {
    r
  }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: mode_t) -> c_int {
  open64(p, O_WRONLY | O_CREAT | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
  open64(p, O_WRONLY | O_CREAT | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(257, d as u64, p as u64, flags as u64, mode as u64, 0, 0)) as c_int;
  }
  ret(do_open(d, p, flags, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(3, fd as u64, 0, 0, 0, 0, 0)) as c_int;
  }
  if (0..3).contains(&fd) {
    return 0;
  }
  ret(do_close(fd)) as c_int
}
fn do_close(fd: c_int) -> Result<i64, i32> {
  let g = g();
  let o = *g.net.fds.get(&fd).ok_or(EBADF)?;
  let lbl = match o {
    Obj::File(f) => opath(g, f),
    Obj::Sock(s) => g.net.socks.get(&s).map(|s| s.cls.clone()).unwrap_or_default(),
    _ => String::new(),
  };
  let a = g.op(Op::Close, &lbl);
  g.net.fds.remove(&fd);
  net::close_obj(g, fd, o);
  match a {
    Some(Act::Err(e)) => Err(e),
    _ => Ok(0),
  }
}
fn dup_obj(g: &mut G, o: Obj) {
  match o {
    Obj::File(f) => g.vfs.ofd.get_mut(&f).unwrap().refs += 1,
    Obj::Sock(s) => g.net.socks.get_mut(&s).unwrap().refs += 1,
    Obj::Ev(s) => g.net.evs.get_mut(&s).unwrap().refs += 1,
    Obj::Ep(s) => g.net.eps.get_mut(&s).unwrap().refs += 1,
  }
}
fn do_dup(fd: c_int) -> Result<i64, i32> {
  let g = g();
  if let Some(Act::Err(e)) = g.op(Op::Dup, "") {
    return Err(e);
  }
  let o = *g.net.fds.get(&fd).ok_or(EBADF)?;
  dup_obj(g, o);
  Ok(g.net.new_fd(o) as i64)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
  ret(do_dup(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(72, fd as u64, cmd as u64, arg as u64, 0, 0, 0)) as c_int;
  }
  let g = g();
  if (0..3).contains(&fd) {
    return match cmd {
      F_GETFL => O_RDWR,
      F_DUPFD_CLOEXEC | F_DUPFD => ret(Err(EMFILE)) as c_int,
      _ => 0,
    };
  }
  ret((|| {
    let o = *g.net.fds.get(&fd).ok_or(EBADF)?;
    match cmd {
      F_DUPFD_CLOEXEC | F_DUPFD => do_dup(fd),
      F_GETFD => Ok(1),
      F_SETFD => Ok(0),
      F_GETFL => Ok(match o {
        Obj::Sock(s) => (O_RDWR | if g.net.socks[&s].nonblock { O_NONBLOCK } else { 0 }) as i64,
        Obj::File(f) => {
          let f = &g.vfs.ofd[&f];
          (if f.rd && f.wr {
            O_RDWR
          } else if f.wr {
            O_WRONLY
          } else {
            O_RDONLY
          }) as i64
        }
        _ => O_RDWR as i64,
      }),
      F_SETFL => {
        if let Obj::Sock(s) = o {
          g.net.socks.get_mut(&s).unwrap().nonblock = arg as i32 & O_NONBLOCK != 0;
        }
        Ok(0)
      }
      _ => g.unsupported(&format!("fcntl {}", cmd)),
    }
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
  fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
  set_errno(ENOTTY);
  0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_int) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(16, fd as u64, req as u64, arg as u64, 0, 0, 0)) as c_int;
  }
  let g = g();
  ret((|| {
    if req == FIONBIO as c_ulong {
      let s = sock(g, fd)?;
      g.net.socks.get_mut(&s).unwrap().nonblock = *arg != 0;
      return Ok(0);
    }
    Err(ENOTTY)
  })()) as c_int
}

unsafe fn iov_total(v: *const iovec, n: c_int) -> Vec<u8> {
  let mut b = Vec::new();
  for i in 0..n as usize {
    let x = &*v.add(i);
    b.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
  }
  b
}
fn std_write(fd: c_int, b: &[u8]) -> Result<i64, i32> {
  let g = g();
  let mut n = b.len();
  match g.op(if fd == 1 { Op::Stdout } else { Op::Stderr }, if fd == 1 { "stdout" } else { "stderr" }) {
    Some(Act::Err(e)) => return Err(e),
    Some(Act::Short(k)) => n = n.min(k.max(1)),
    _ => {}
  }
  if n > 1 && g.spec.short_write_pm > 0 && fd == 1 && g.rng.chance(g.spec.short_write_pm) {
    n = 1 + g.rng.below(n as u64) as usize;
    g.stats.short_writes += 1;
  }
  if fd == 1 {
    g.stdout.extend_from_slice(&b[..n]);
  } else if g.stderr.len() < 1 << 22 {
    g.stderr.extend_from_slice(&b[..n]);
  }
  Ok(n as i64)
}
fn do_write(fd: c_int, b: &[u8], at: Option<u64>) -> Result<i64, i32> {
  let g = g();
  if fd == 1 || fd == 2 {
    return std_write(fd, b);
  }
  match g.net.fds.get(&fd) {
    Some(Obj::File(o)) => {
      let o = *o;
      let p = opath(g, o);
      let a = g.op(Op::Write, &p);
      vfs::write(g, o, b, at, a).map(|n| n as i64)
    }
    Some(Obj::Ev(e)) => {
      let e = *e;
      g.op(Op::EventFd, "");
      if b.len() < 8 {
        return Err(EINVAL);
      }
      g.net.evs.get_mut(&e).unwrap().val += u64::from_ne_bytes(b[..8].try_into().unwrap());
      net::notify(g, Obj::Ev(e));
      Ok(8)
    }
    Some(Obj::Sock(s)) => do_send(*s, b),
    _ => Err(EBADF),
  }
}
fn do_read(fd: c_int, n: usize, at: Option<u64>) -> Result<Vec<u8>, i32> {
  let g = g();
  if fd == 0 {
    return Ok(vec![]);
  }
  match g.net.fds.get(&fd) {
    Some(Obj::File(o)) => {
      let o = *o;
      let p = opath(g, o);
      let a = g.op(Op::Read, &p);
      vfs::read(g, o, n, at, a)
    }
    Some(Obj::Ev(e)) => {
      let e = *e;
      g.op(Op::EventFd, "");
      loop {
        let v = g.net.evs.get_mut(&e).unwrap();
        if v.val > 0 {
          let x = v.val;
          v.val = 0;
          return Ok(x.to_ne_bytes().to_vec());
        }
        if v.nonblock {
          return Err(EAGAIN);
        }
        g.block(Wait::Io(e), None);
      }
    }
    Some(Obj::Sock(s)) => do_recv(*s, n, 0),
    _ => Err(EBADF),
  }
}
fn do_send(s: u64, b: &[u8]) -> Result<i64, i32> {
  let g = g();
  let cls = g.net.socks[&s].cls.clone();
  let mut b = b;
  match g.op(Op::Send, &cls) {
    Some(Act::Err(e)) => {
      if e == ECONNRESET || e == EPIPE || e == ETIMEDOUT {
        kill_conn(g, s);
      }
      return Err(e);
    }
    Some(Act::Short(n)) => b = &b[..b.len().min(n.max(1))],
    _ => {}
  }
  if b.len() > 1 && g.spec.short_write_pm > 0 && g.rng.chance(g.spec.short_write_pm) {
    b = &b[..1 + g.rng.below(b.len() as u64) as usize];
    g.stats.short_writes += 1;
  }
  loop {
    let r = net::send(g, s, b);
    if r == Err(EAGAIN) && !g.net.socks[&s].nonblock {
      g.block(Wait::Io(s), None);
      continue;
    }
    if let Ok(n) = r {
      g.ev("send", n as u64, 0);
    }
    return r.map(|n| n as i64);
  }
}
fn kill_conn(g: &mut G, s: u64) {
  // both ends observe the reset
  let p = g.net.socks.get_mut(&s).and_then(|k| {
    k.rst = true;
    k.err = 0;
    k.rx.clear();
    k.peer.take()
  });
  if let Some(q) = p.and_then(|p| g.net.socks.get_mut(&p)) {
    q.rst = true;
    q.err = ECONNRESET;
    q.peer = None;
  }
  net::notify(g, Obj::Sock(s));
  if let Some(p) = p {
    net::notify(g, Obj::Sock(p));
  }
}
fn do_recv(s: u64, n: usize, flags: i32) -> Result<Vec<u8>, i32> {
  let g = g();
  let cls = g.net.socks[&s].cls.clone();
  let mut n = n;
  match g.op(Op::Recv, &cls) {
    Some(Act::Err(e)) => {
      if e == ECONNRESET || e == ETIMEDOUT {
        kill_conn(g, s);
      }
      return Err(e);
    }
    Some(Act::Short(k)) => n = n.min(k.max(1)),
    _ => {}
  }
  if n > 1 && g.spec.short_read_pm > 0 && g.rng.chance(g.spec.short_read_pm) {
    n = 1 + g.rng.below(n.min(512) as u64) as usize;
    g.stats.short_reads += 1;
  }
  loop {
    let r = net::recv(g, s, n, flags & MSG_PEEK != 0);
    if r == Err(EAGAIN) && !g.net.socks[&s].nonblock {
      g.block(Wait::Io(s), None);
      continue;
    }
    if let Ok(v) = &r {
      let l = v.len() as u64;
      // an edge triggered reader that did not drain the buffer keeps its edge
      let left = g.net.socks.get(&s).map(|k| !k.rx.is_empty()).unwrap_or(false);
      g.ev("recv", l, left as u64);
      if left {
        net::notify(g, Obj::Sock(s));
      }
    }
    return r;
  }
}
unsafe fn out_bytes(r: Result<Vec<u8>, i32>, p: *mut c_void) -> ssize_t {
  match r {
    Ok(v) => {
      std::ptr::copy_nonoverlapping(v.as_ptr(), p as *mut u8, v.len());
      v.len() as ssize_t
    }
    Err(e) => {
      set_errno(e);
      -1
    }
  }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
  if !act() {
    return raw_ret(raw::syscall6(1, fd as u64, p as u64, n as u64, 0, 0, 0)) as ssize_t;
  }
  ret(do_write(fd, std::slice::from_raw_parts(p as *const u8, n), None)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
  let b = iov_total(v, n);
  if !act() {
    return raw_ret(raw::syscall6(20, fd as u64, v as u64, n as u64, 0, 0, 0)) as ssize_t;
  }
  ret(do_write(fd, &b, None)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, off: off64_t) -> ssize_t {
  ret(do_write(fd, std::slice::from_raw_parts(p as *const u8, n), Some(off as u64))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, p: *const c_void, n: size_t, off: off64_t) -> ssize_t {
  pwrite64(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
  if !act() {
    return raw_ret(raw::syscall6(0, fd as u64, p as u64, n as u64, 0, 0, 0)) as ssize_t;
  }
  out_bytes(do_read(fd, n, None), p)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, p: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
  if !act() {
    return raw_ret(raw::syscall6(17, fd as u64, p as u64, n as u64, off as u64, 0, 0)) as ssize_t;
  }
  out_bytes(do_read(fd, n, Some(off as u64)), p)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, p: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
  pread64(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
  let mut total = 0;
  for i in 0..n as usize {
    total += (*v.add(i)).iov_len;
  }
  match do_read(fd, total, None) {
    Ok(d) => {
      let mut o = 0;
      for i in 0..n as usize {
        let x = &*v.add(i);
        let k = x.iov_len.min(d.len() - o);
        std::ptr::copy_nonoverlapping(d.as_ptr().add(o), x.iov_base as *mut u8, k);
        o += k;
      }
      d.len() as ssize_t
    }
    Err(e) => {
      set_errno(e);
      -1
    }
  }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
  if !act() {
    return raw_ret(raw::syscall6(8, fd as u64, off as u64, wh as u64, 0, 0, 0));
  }
  let g = g();
  ret((|| {
    let o = file(g, fd).map_err(|e| if (0..3).contains(&fd) { ESPIPE } else { e })?;
    let p = opath(g, o);
    if let Some(Act::Err(e)) = g.op(Op::Seek, &p) {
      return Err(e);
    }
    let f = &g.vfs.ofd[&o];
    let b = match wh {
      SEEK_SET => 0,
      SEEK_CUR => f.pos as i64,
      SEEK_END => vfs::size(g.vfs.node(f.ino)) as i64,
      _ => return Err(EINVAL),
    };
    let n = b + off;
    if n < 0 {
      return Err(EINVAL);
    }
    g.vfs.ofd.get_mut(&o).unwrap().pos = n as u64;
    Ok(n)
  })())
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
  lseek64(fd, off, wh)
}
unsafe fn simple(fd: c_int, op: Op) -> c_int {
  let g = g();
  ret((|| {
    let o = file(g, fd)?;
    let p = opath(g, o);
    if let Some(Act::Err(e)) = g.op(op, &p) {
      return Err(e);
    }
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
  simple(fd, Op::Fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
  simple(fd, Op::Fsync)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(_fd: c_int, _o: off_t, _l: off_t, _a: c_int) -> c_int {
  0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: c_int, _o: off_t, _l: off_t, _a: c_int) -> c_int {
  0
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(_fd: c_int, _m: c_int, _o: off_t, _l: off_t) -> c_int {
  set_errno(EOPNOTSUPP);
  -1
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(_fd: c_int, _m: c_int, _o: off_t, _l: off_t) -> c_int {
  set_errno(EOPNOTSUPP);
  -1
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
  let g = g();
  ret((|| {
    let o = file(g, fd)?;
    let p = opath(g, o);
    if let Some(Act::Err(e)) = g.op(Op::Truncate, &p) {
      return Err(e);
    }
    if !g.vfs.ofd[&o].wr {
      return Err(EINVAL);
    }
    let ino = g.vfs.ofd[&o].ino;
    vfs::truncate(g, ino, &p, len as usize)?;
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
  ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _e: size_t, _f: c_uint) -> ssize_t {
  set_errno(ENOSYS);
  -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _o: *mut off64_t, _n: size_t) -> ssize_t {
  set_errno(EINVAL);
  -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(_a: c_int, _b: c_int, _o: *mut off64_t, _n: size_t) -> ssize_t {
  set_errno(EINVAL);
  -1
}
#[no_mangle]
pub unsafe extern "C" fn splice(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t {
  set_errno(EINVAL);
  -1
}

/// One path operation: label, fault, then the closure with the base inode.
unsafe fn pathop(op: Op, d: c_int, p: *const c_char, follow: bool, f: impl FnOnce(&mut G, u64, &[u8]) -> Result<i64, i32>) -> c_int {
  let g = g();
  ret((|| {
    let path = cpath(p);
    let b = base(g, d)?;
    let lbl = g.vfs.label(b, path, follow);
    if let Some(Act::Err(e)) = g.op(op, &lbl) {
      return Err(e);
    }
    let b = base(g, d)?;
    f(g, b, path)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
  pathop(Op::Unlink, AT_FDCWD, p, false, |g, b, p| vfs::unlink_at(g, b, p, false).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn remove(p: *const c_char) -> c_int {
  unlink(p)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
  pathop(Op::Rmdir, AT_FDCWD, p, false, |g, b, p| vfs::unlink_at(g, b, p, true).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
  let dir = flags & AT_REMOVEDIR != 0;
  pathop(if dir { Op::Rmdir } else { Op::Unlink }, d, p, false, |g, b, p| vfs::unlink_at(g, b, p, dir).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
  pathop(Op::Mkdir, AT_FDCWD, p, false, |g, b, p| vfs::mkdir_at(g, b, p, m & 0o755).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int {
  pathop(Op::Mkdir, d, p, false, |g, b, p| vfs::mkdir_at(g, b, p, m & 0o755).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
  let t = cpath(t).to_vec();
  pathop(Op::Symlink, AT_FDCWD, p, false, |g, b, p| vfs::symlink_at(g, &t, b, p).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
  linkat(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
  let to = cpath(b).to_vec();
  let fl = flags & AT_SYMLINK_FOLLOW != 0;
  pathop(Op::Link, d1, a, fl, |g, b1, p| {
    let b2 = base(g, d2)?;
    vfs::link_at(g, b1, p, b2, &to, fl).map(|_| 0)
  })
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
  renameat2(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
  renameat2(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_uint) -> c_int {
  let to = cpath(b).to_vec();
  let nr = flags & 1 != 0;
  pathop(Op::Rename, d1, a, false, |g, b1, p| {
    let b2 = base(g, d2)?;
    vfs::rename_at(g, b1, p, b2, &to, nr).map(|_| 0)
  })
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
  pathop(Op::Chmod, AT_FDCWD, p, true, |g, b, p| {
    let i = g.vfs.resolve(b, p, true)?.ino.ok_or(ENOENT)?;
    let lbl = g.vfs.label(b, p, true);
    g.vfs.node_mut(i).mode = m & 0o777;
    g.mutn(Op::Chmod, &lbl, "", i);
    Ok(0)
  })
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
  let g = g();
  ret((|| {
    let o = file(g, fd)?;
    let p = opath(g, o);
    if let Some(Act::Err(e)) = g.op(Op::Chmod, &p) {
      return Err(e);
    }
    let ino = g.vfs.ofd[&o].ino;
    g.vfs.node_mut(ino).mode = m & 0o777;
    g.mutn(Op::Chmod, &p, "", ino);
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const timespec) -> c_int {
  let g = g();
  ret((|| {
    let o = file(g, fd)?;
    let p = opath(g, o);
    if let Some(Act::Err(e)) = g.op(Op::Utimens, &p) {
      return Err(e);
    }
    let ino = g.vfs.ofd[&o].ino;
    let v = if ts.is_null() { None } else { Some([*ts, *ts.add(1)]) };
    vfs::utimens(g, ino, &p, v)?;
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, ts: *const timespec, flags: c_int) -> c_int {
  if p.is_null() {
    return futimens(d, ts);
  }
  let fl = flags & AT_SYMLINK_NOFOLLOW == 0;
  let v = if ts.is_null() { None } else { Some([*ts, *ts.add(1)]) };
  pathop(Op::Utimens, d, p, fl, |g, b, p| {
    let i = g.vfs.resolve(b, p, fl)?.ino.ok_or(ENOENT)?;
    let lbl = g.vfs.label(b, p, fl);
    vfs::utimens(g, i, &lbl, v).map(|_| 0)
  })
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
  let g = g();
  ret((|| {
    let o = file(g, fd)?;
    let p = opath(g, o);
    if let Some(Act::Err(e)) = g.op(Op::Flock, &p) {
      return Err(e);
    }
    let ino = g.vfs.ofd[&o].ino;
    loop {
      let n = g.vfs.node_mut(ino);
      let k = op & !LOCK_NB;
      let ok = match k {
        LOCK_UN => {
          if n.lock_ex == Some(o) {
            n.lock_ex = None;
          }
          n.lock_sh.retain(|x| *x != o);
          g.wake_io(0x4000_0000_0000 + ino);
          return Ok(0);
        }
        LOCK_EX => (n.lock_ex.is_none() || n.lock_ex == Some(o)) && n.lock_sh.iter().all(|x| *x == o),
        _ => n.lock_ex.is_none() || n.lock_ex == Some(o),
      };
      if ok {
        if k == LOCK_EX {
          n.lock_ex = Some(o);
        } else {
          n.lock_ex = None;
          n.lock_sh.push(o);
        }
        return Ok(0);
      }
      if op & LOCK_NB != 0 {
        return Err(EWOULDBLOCK);
      }
      g.block(Wait::Io(0x4000_0000_0000 + ino), None);
    }
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
  pathop(Op::Readlink, AT_FDCWD, p, false, |g, b, p| {
    let i = g.vfs.resolve(b, p, false)?.ino.ok_or(ENOENT)?;
    match &g.vfs.node(i).k {
      IK::Link(t) => {
        let k = t.len().min(n);
        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
        Ok(k as i64)
      }
      _ => Err(EINVAL),
    }
  }) as ssize_t
}
extern "C" {
  fn __libc_malloc(n: usize) -> *mut c_void;
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
  let mut s = String::new();
  let r = pathop(Op::Realpath, AT_FDCWD, p, true, |g, b, p| {
    let r = g.vfs.resolve(b, p, true)?;
    r.ino.ok_or(ENOENT)?;
    s = g.vfs.rpath(&r);
    Ok(0)
  });
  if r != 0 {
    return std::ptr::null_mut();
  }
  let s = path_bytes(&s);
  let o = if out.is_null() { __libc_malloc(4096) as *mut c_char } else { out };
  std::ptr::copy_nonoverlapping(s.as_ptr(), o as *mut u8, s.len());
  *o.add(s.len()) = 0;
  o
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
  let g = g();
  let s = path_bytes(&g.vfs.path_of(g.vfs.cwd, b""));
  if s.len() + 1 > n {
    set_errno(ERANGE);
    return std::ptr::null_mut();
  }
  std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
  *buf.add(s.len()) = 0;
  buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
  pathop(Op::Misc, AT_FDCWD, p, true, |g, b, p| {
    let i = g.vfs.resolve(b, p, true)?.ino.ok_or(ENOENT)?;
    if !g.vfs.is_dir(i) {
      return Err(ENOTDIR);
    }
    g.vfs.cwd = i;
    Ok(0)
  })
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
  pathop(Op::Stat, AT_FDCWD, p, true, |g, b, p| {
    let i = g.vfs.resolve(b, p, true)?.ino.ok_or(ENOENT)?;
    let md = g.vfs.node(i).mode;
    if (m & R_OK != 0 && md & 0o400 == 0) || (m & W_OK != 0 && md & 0o200 == 0) {
      return Err(EACCES);
    }
    Ok(0)
  })
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(_d: c_int, p: *const c_char, m: c_int, _f: c_int) -> c_int {
  access(p, m)
}

// ---- stat family
unsafe fn fill_stat(g: &G, i: u64, st: *mut stat64) {
  let n = g.vfs.node(i);
  *st = std::mem::zeroed();
  let s = &mut *st;
  s.st_dev = 42;
  s.st_ino = i;
  s.st_nlink = n.nlink as u64;
  s.st_mode = vfs::fmt_mode(n);
  s.st_uid = 1000;
  s.st_gid = 1000;
  s.st_size = vfs::size(n) as i64;
  s.st_blksize = 4096;
  s.st_blocks = (vfs::size(n) as i64 + 511) / 512;
  s.st_atime = n.atime.0;
  s.st_atime_nsec = n.atime.1 as i64;
  s.st_mtime = n.mtime.0;
  s.st_mtime_nsec = n.mtime.1 as i64;
  s.st_ctime = n.ctime.0;
  s.st_ctime_nsec = n.ctime.1 as i64;
}
unsafe fn stat_common(d: c_int, p: *const c_char, follow: bool, st: *mut stat64) -> c_int {
  pathop(Op::Stat, d, p, follow, |g, b, p| {
    let i = g.vfs.resolve(b, p, follow)?.ino.ok_or(ENOENT)?;
    fill_stat(g, i, st);
    Ok(0)
  })
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
  stat_common(AT_FDCWD, p, true, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
  stat_common(AT_FDCWD, p, false, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut stat64) -> c_int {
  stat_common(AT_FDCWD, p, true, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut stat64) -> c_int {
  stat_common(AT_FDCWD, p, false, st)
}
unsafe fn special_stat(st: *mut stat64) {
  *st = std::mem::zeroed();
  (*st).st_mode = S_IFIFO | 0o600;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(5, fd as u64, st as u64, 0, 0, 0, 0)) as c_int;
  }
  let g = g();
  if (0..3).contains(&fd) {
    special_stat(st);
    return 0;
  }
  ret((|| {
    let o = file(g, fd)?;
    let p = opath(g, o);
    if let Some(Act::Err(e)) = g.op(Op::Fstat, &p) {
      return Err(e);
    }
    let i = g.vfs.ofd[&o].ino;
    fill_stat(g, i, st);
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
  fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
  if flags & AT_EMPTY_PATH != 0 && *p == 0 {
    return fstat64(d, st);
  }
  stat_common(d, p, flags & AT_SYMLINK_NOFOLLOW == 0, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
  fstatat64(d, p, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, _mask: c_uint, out: *mut statx) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(332, d as u64, p as u64, flags as u64, _mask as u64, out as u64, 0)) as c_int;
  }
  let mut st: stat64 = std::mem::zeroed();
  let r = if flags & AT_EMPTY_PATH != 0 && (p.is_null() || *p == 0) {
    fstat64(d, &mut st)
  } else if p.is_null() {
    set_errno(EFAULT);
    -1
  } else {
    stat_common(d, p, flags & AT_SYMLINK_NOFOLLOW == 0, &mut st)
  };
  if r != 0 {
    return r;
  }
  *out = std::mem::zeroed();
  let o = &mut *out;
  o.stx_mask = 0x7ff;
  o.stx_blksize = 4096;
  o.stx_nlink = st.st_nlink as u32;
  o.stx_uid = st.st_uid;
  o.stx_gid = st.st_gid;
  o.stx_mode = st.st_mode as u16;
  o.stx_ino = st.st_ino;
  o.stx_size = st.st_size as u64;
  o.stx_blocks = st.st_blocks as u64;
  o.stx_atime.tv_sec = st.st_atime;
  o.stx_atime.tv_nsec = st.st_atime_nsec as u32;
  o.stx_mtime.tv_sec = st.st_mtime;
  o.stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
  o.stx_ctime.tv_sec = st.st_ctime;
  o.stx_ctime.tv_nsec = st.st_ctime_nsec as u32;
  0
}

// ---- directories
pub struct SimDir {
  fd: c_int,
  list: Option<Vec<(Vec<u8>, u8, u64)>>,
  ix: usize,
  buf: dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut SimDir {
  let g = g();
  let r: Result<*mut SimDir, i32> = (|| {
    let lbl = g.vfs.label(g.vfs.cwd, cpath(p), true);
    if let Some(Act::Err(e)) = g.op(Op::Opendir, &lbl) {
      return Err(e);
    }
    let cwd = g.vfs.cwd;
    let o = vfs::open(g, cwd, cpath(p), O_RDONLY | O_DIRECTORY, 0)?;
    let fd = g.net.new_fd(Obj::File(o));
    Ok(Box::into_raw(Box::new(SimDir { fd, list: None, ix: 0, buf: std::mem::zeroed() })))
  })();
  match r {
    Ok(d) => d,
    Err(e) => {
      set_errno(e);
      std::ptr::null_mut()
    }
  }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut SimDir {
  let g = g();
  match file(g, fd) {
    Ok(o) if g.vfs.is_dir(g.vfs.ofd[&o].ino) => Box::into_raw(Box::new(SimDir { fd, list: None, ix: 0, buf: std::mem::zeroed() })),
    Ok(_) => {
      set_errno(ENOTDIR);
      std::ptr::null_mut()
    }
    Err(e) => {
      set_errno(e);
      std::ptr::null_mut()
    }
  }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut SimDir) -> c_int {
  (*d).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut SimDir) -> c_int {
  let b = Box::from_raw(d);
  close(b.fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut SimDir) -> *mut dirent64 {
  let g = g();
  let dir = &mut *d;
  let o = match file(g, dir.fd) {
    Ok(o) => o,
    Err(e) => {
      set_errno(e);
      return std::ptr::null_mut();
    }
  };
  let p = opath(g, o);
  if let Some(Act::Err(e)) = g.op(Op::Readdir, &p) {
    set_errno(e);
    return std::ptr::null_mut();
  }
  if dir.list.is_none() {
    let ino = g.vfs.ofd[&o].ino;
    let mut l: Vec<(Vec<u8>, u8, u64)> = match &g.vfs.node(ino).k {
      IK::Dir(e) => e
        .iter()
        .map(|(k, v)| {
          let t = match g.vfs.node(*v).k {
            IK::Dir(_) => DT_DIR,
            IK::File(_) => DT_REG,
            IK::Link(_) => DT_LNK,
          };
          (k.clone(), t, *v)
        })
        .collect(),
      _ => vec![],
    };
    l.push((b".".to_vec(), DT_DIR, ino));
    l.push((b"..".to_vec(), DT_DIR, ROOT));
    if g.spec.shuffle_dirs {
      for i in (1..l.len()).rev() {
        let j = g.rng.below(i as u64 + 1) as usize;
        l.swap(i, j);
      }
    }
    dir.list = Some(l);
  }
  let l = dir.list.as_ref().unwrap();
  if dir.ix >= l.len() {
    return std::ptr::null_mut();
  }
  let (n, t, i) = &l[dir.ix];
  dir.ix += 1;
  let dot = n == b"." || n == b"..";
  dir.buf.d_ino = *i;
  dir.buf.d_off = dir.ix as i64;
  dir.buf.d_reclen = std::mem::size_of::<dirent64>() as u16;
  dir.buf.d_type = if g.spec.dt_unknown && !dot { DT_UNKNOWN } else { *t };
  for (k, c) in n.iter().enumerate() {
    dir.buf.d_name[k] = *c as c_char;
  }
  dir.buf.d_name[n.len()] = 0;
  &mut dir.buf
}

// ---- memory maps
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
  if !act() || fd < 1000 {
    let r = raw_ret(raw::syscall6(9, addr as u64, len as u64, prot as u64, flags as u64, fd as i64 as u64, off as u64));
    return r as *mut c_void;
  }
  let g = g();
  let r = (|| {
    let o = file(g, fd)?;
    let p = opath(g, o);
    let a = g.op(Op::Mmap, &p);
    if let Some(Act::Err(e)) = a {
      return Err(e);
    }
    if prot & PROT_WRITE != 0 && flags & MAP_SHARED != 0 {
      g.unsupported("writable shared file mapping");
    }
    let ino = g.vfs.ofd[&o].ino;
    let m = raw::syscall6(9, 0, len as u64, 3, (MAP_PRIVATE | MAP_ANONYMOUS) as u64, u64::MAX, 0);
    if (-4095..0).contains(&m) {
      return Err(ENOMEM);
    }
    if let IK::File(d) = &g.vfs.node(ino).k {
      let s = (off as usize).min(d.len());
      let e = (off as usize + len).min(d.len());
      std::ptr::copy_nonoverlapping(d.as_ptr().add(s), m as *mut u8, e - s);
      if let Some(Act::Flip(n)) = a {
        if e > s {
          *(m as *mut u8).add((n / 8) as usize % (e - s)) ^= 1 << (n % 8);
        }
      }
    }
    g.vfs.node_mut(ino).maps.push((m as usize, off as u64, len));
    if prot & PROT_WRITE == 0 {
      // kept writable for the simulator; the program maps read-only memory
    }
    Ok(m)
  })();
  match r {
    Ok(m) => m as *mut c_void,
    Err(e) => {
      set_errno(e);
      MAP_FAILED
    }
  }
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
  mmap64(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
  if act() {
    let g = g();
    let a = addr as usize;
    let mut hit = None;
    for (i, n) in g.vfs.ino.iter_mut() {
      if n.maps.iter().any(|m| m.0 == a) {
        n.maps.retain(|m| m.0 != a);
        hit = Some(*i);
        break;
      }
    }
    if let Some(i) = hit {
      let n = g.vfs.node(i);
      if n.nlink == 0 && n.opens == 0 && n.maps.is_empty() {
        g.vfs.ino.remove(&i);
      }
    }
  }
  raw_ret(raw::syscall6(11, addr as u64, len as u64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn madvise(_a: *mut c_void, _l: size_t, _adv: c_int) -> c_int {
  0
}

// ------------------------------------------------------------------ network
unsafe fn put_addr(v6: bool, port: u16, p: *mut sockaddr, l: *mut socklen_t) {
  if p.is_null() || l.is_null() {
    return;
  }
  if v6 {
    let mut a: sockaddr_in6 = std::mem::zeroed();
    a.sin6_family = AF_INET6 as u16;
    a.sin6_port = port.to_be();
    a.sin6_addr.s6_addr[15] = 1;
    let n = std::mem::size_of::<sockaddr_in6>();
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, p as *mut u8, n.min(*l as usize));
    *l = n as u32;
  } else {
    let mut a: sockaddr_in = std::mem::zeroed();
    a.sin_family = AF_INET as u16;
    a.sin_port = port.to_be();
    a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let n = std::mem::size_of::<sockaddr_in>();
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, p as *mut u8, n.min(*l as usize));
    *l = n as u32;
  }
}
unsafe fn get_port(p: *const sockaddr) -> u16 {
  match (*p).sa_family as i32 {
    AF_INET => u16::from_be((*(p as *const sockaddr_in)).sin_port),
    AF_INET6 => u16::from_be((*(p as *const sockaddr_in6)).sin6_port),
    _ => 0,
  }
}
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, _p: c_int) -> c_int {
  let g = g();
  if let Some(Act::Err(e)) = g.op(Op::Socket, "") {
    return ret(Err(e)) as c_int;
  }
  if (dom != AF_INET && dom != AF_INET6) || ty & 0xf != SOCK_STREAM {
    return ret(Err(EAFNOSUPPORT)) as c_int;
  }
  let s = g.net.new_sock(dom == AF_INET6, false);
  g.net.socks.get_mut(&s).unwrap().nonblock = ty & SOCK_NONBLOCK != 0;
  g.net.new_fd(Obj::Sock(s))
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(_d: c_int, ty: c_int, _p: c_int, sv: *mut c_int) -> c_int {
  let g = g();
  g.op(Op::Socket, "pair");
  let a = g.net.new_sock(false, false);
  let b = g.net.new_sock(false, false);
  for (x, y) in [(a, b), (b, a)] {
    let k = g.net.socks.get_mut(&x).unwrap();
    k.st = SS::Conn;
    k.peer = Some(y);
    k.unix = true;
    k.nonblock = ty & SOCK_NONBLOCK != 0;
    k.cls = "pair".into();
  }
  *sv = g.net.new_fd(Obj::Sock(a));
  *sv.add(1) = g.net.new_fd(Obj::Sock(b));
  0
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, _l: socklen_t) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let p = get_port(a);
    if let Some(Act::Err(e)) = g.op(Op::Bind, if p == 0 { "pasv" } else { "listen" }) {
      return Err(e);
    }
    net::bind(g, s, p)?;
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, _b: c_int) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let cls = g.net.socks[&s].cls.clone();
    if let Some(Act::Err(e)) = g.op(Op::Listen, &cls) {
      return Err(e);
    }
    net::listen(g, s)?;
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let cls = g.net.socks[&s].cls.clone();
    // faults only count where a connection is pending
    let pend = !g.net.socks[&s].backlog.is_empty();
    match g.op(if pend { Op::Accept } else { Op::Misc }, &cls) {
      Some(Act::Err(e)) => {
        // the connection that failed is one more, never one of a simulated client
        net::notify(g, Obj::Sock(s));
        return Err(e);
      }
      _ => {}
    }
    loop {
      match net::accept(g, s) {
        Ok(c) => {
          let k = g.net.socks.get_mut(&c).unwrap();
          k.nonblock = flags & SOCK_NONBLOCK != 0;
          let (v6, pp) = (k.v6, k.pport);
          put_addr(v6, pp, a, l);
          let f = g.net.new_fd(Obj::Sock(c));
          g.ev("accept", f as u64, 0);
          return Ok(f as i64);
        }
        Err(EAGAIN) if !g.net.socks[&s].nonblock => {
          g.block(Wait::Io(s), None);
        }
        Err(e) => return Err(e),
      }
    }
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
  accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, _l: socklen_t) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let p = get_port(a);
    let fault = match g.op(Op::Connect, "data") {
      Some(Act::Err(e)) => Some(e),
      _ => None,
    };
    let nb = g.net.socks[&s].nonblock;
    let ok = fault.is_none() && net::establish(g, s, p);
    if !ok {
      let e = fault.unwrap_or(ECONNREFUSED);
      if nb {
        g.net.socks.get_mut(&s).unwrap().err = e;
        net::notify(g, Obj::Sock(s));
        return Err(EINPROGRESS);
      }
      return Err(e);
    }
    if nb {
      Err(EINPROGRESS)
    } else {
      Ok(0)
    }
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let k = &g.net.socks[&s];
    put_addr(k.v6, k.lport, a, l);
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let k = &g.net.socks[&s];
    if k.st != SS::Conn {
      return Err(ENOTCONN);
    }
    put_addr(k.v6, k.pport, a, l);
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, name: c_int, v: *const c_void, l: socklen_t) -> c_int {
  let g = g();
  let _ = (lvl, name, v, l);
  ret(sock(g, fd).map(|_| 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let mut val = 0i32;
    if lvl == SOL_SOCKET && name == SO_ERROR {
      let k = g.net.socks.get_mut(&s).unwrap();
      val = k.err;
      k.err = 0;
    }
    if *l >= 4 {
      *(v as *mut i32) = val;
      *l = 4;
    }
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, _f: c_int) -> ssize_t {
  let g = g();
  match sock(g, fd) {
    Ok(s) => ret(do_send(s, std::slice::from_raw_parts(p as *const u8, n))) as ssize_t,
    Err(e) => ret(Err(e)) as ssize_t,
  }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, f: c_int) -> ssize_t {
  let g = g();
  match sock(g, fd) {
    Ok(s) => out_bytes(do_recv(s, n, f), p),
    Err(e) => ret(Err(e)) as ssize_t,
  }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, p: *const c_void, n: size_t, f: c_int, _a: *const sockaddr, _l: socklen_t) -> ssize_t {
  send(fd, p, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: size_t, f: c_int, _a: *mut sockaddr, _l: *mut socklen_t) -> ssize_t {
  recv(fd, p, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
  let g = g();
  ret((|| {
    let s = sock(g, fd)?;
    let cls = g.net.socks[&s].cls.clone();
    if let Some(Act::Err(e)) = g.op(Op::Shutdown, &cls) {
      return Err(e);
    }
    net::shutdown(g, s, how)?;
    Ok(0)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(v: c_uint, f: c_int) -> c_int {
  let g = g();
  g.op(Op::EventFd, "");
  let i = g.net.id();
  g.net.evs.insert(i, net::EvFd { refs: 1, val: v as u64, nonblock: f & EFD_NONBLOCK != 0 });
  g.net.new_fd(Obj::Ev(i))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(_f: c_int) -> c_int {
  let g = g();
  let i = g.net.id();
  g.net.eps.insert(i, net::Ep { refs: 1, regs: Default::default() });
  g.net.new_fd(Obj::Ep(i))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
  let g = g();
  ret((|| {
    let e = match g.net.fds.get(&ep) {
      Some(Obj::Ep(e)) => *e,
      _ => return Err(EBADF),
    };
    if let Some(Act::Err(er)) = g.op(Op::EpollCtl, "") {
      return Err(er);
    }
    let o = *g.net.fds.get(&fd).ok_or(EBADF)?;
    if let Obj::File(_) = o {
      return Err(EPERM);
    }
    let regs = &mut g.net.eps.get_mut(&e).unwrap().regs;
    match op {
      EPOLL_CTL_ADD | EPOLL_CTL_MOD => {
        if op == EPOLL_CTL_ADD && regs.contains_key(&fd) {
          return Err(EEXIST);
        }
        if op == EPOLL_CTL_MOD && !regs.contains_key(&fd) {
          return Err(ENOENT);
        }
        let x = std::ptr::read_unaligned(ev);
        regs.insert(fd, net::Reg { obj: o, events: x.events, data: x.u64, armed: true });
        if g.net.ready(o) & x.events != 0 {
          net::notify(g, o);
        }
        Ok(0)
      }
      EPOLL_CTL_DEL => {
        regs.remove(&fd).ok_or(ENOENT)?;
        Ok(0)
      }
      _ => Err(EINVAL),
    }
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
  let g = g();
  ret((|| {
    let e = match g.net.fds.get(&ep) {
      Some(Obj::Ep(e)) => *e,
      _ => return Err(EBADF),
    };
    g.op(Op::EpollWait, "");
    let r = net::epoll_wait(g, e, max as usize, timeout)?;
    for (i, (m, d)) in r.iter().enumerate() {
      std::ptr::write_unaligned(evs.add(i), epoll_event { events: *m, u64: *d });
    }
    Ok(r.len() as i64)
  })()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, _t: c_int) -> c_int {
  if !act() {
    return raw_ret(raw::syscall6(7, fds as u64, n as u64, _t as u64, 0, 0, 0)) as c_int;
  }
  for i in 0..n as usize {
    let p = &mut *fds.add(i);
    p.revents = 0;
    if p.fd >= 1000 {
      g().unsupported("poll on simulated descriptor");
    }
  }
  0
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(_fd: c_int, _m: *const msghdr, _f: c_int) -> ssize_t {
  g().unsupported("sendmsg")
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(_fd: c_int, _m: *mut msghdr, _f: c_int) -> ssize_t {
  g().unsupported("recvmsg")
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(_a: *const c_char, _b: *const c_char, _c: *const addrinfo, _d: *mut *mut addrinfo) -> c_int {
  EAI_FAIL
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
  g().unsupported("fork")
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn() -> c_int {
  g().unsupported("posix_spawn")
}
