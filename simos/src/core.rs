//! Scheduler, virtual clock, fault injection, run result.
use crate::{net::Net, raw, vfs::Vfs};
use simspec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
  None,
  Futex(usize),
  Io(u64),
  Join(usize),
  Sleep,
  Barrier(u32),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
  Run,
  Block,
  Exit,
}
pub struct Thread {
  pub st: St,
  pub wait: Wait,
  pub deadline: Option<u64>,
  pub timed_out: bool,
  pub woken: bool,
  pub park: &'static AtomicU32,
  pub pthread: u64,
  pub sut: bool,
  pub prio: u64,
  pub bitset: u32,
  pub waitseq: u64,
}

pub struct G {
  pub spec: Spec,
  pub blob: Vec<u8>,
  pub out: Vec<u8>, // output blob
  pub threads: Vec<Thread>,
  pub cur: usize,
  pub now: u64,
  pub real_off: i64,
  pub next_dl: u64,
  pub points: u64,
  pub seq: u64,
  pub srng: Rng,
  pub rng: Rng,
  pub nrng: Rng,
  pub grng: Rng,
  pub vfs: Vfs,
  pub net: Net,
  pub stdout: Vec<u8>,
  pub stderr: Vec<u8>,
  pub muts: Vec<Mutn>,
  pub fhits: Vec<u32>,
  pub fired: Vec<u32>,
  pub ops: Vec<OpEnt>,
  pub paths: Vec<String>,
  pub path_ix: BTreeMap<String, u32>,
  pub hash: u64,
  pub shash: u64,
  pub dev: Vec<Dev>,
  pub devmap: BTreeMap<(bool, u64), u32>,
  pub explicit: bool,
  pub trace: Vec<String>,
  pub stats: Stats,
  pub cev: Vec<Vec<CevAt>>,
  pub clients_left: u32,
  pub clients_done_at: Option<u64>,
  pub exiting: i32,
  pub pct_points: Vec<u64>,
  pub pct_low: u64,
  pub wseq: u64,
  pub barriers: BTreeMap<u32, u32>,
  pub pid: i32,
  pub env_mut: bool,
  pub unsupported: Option<String>,
}

pub static mut G_PTR: *mut G = std::ptr::null_mut();
pub static mut ACTIVE: bool = false;
pub static mut IN_SIM: bool = false;
pub static mut MCOUNT: u64 = 0;
pub static mut NEXT_M: u64 = u64::MAX;
pub static mut OUT_PATH: Option<std::ffi::CString> = None;

pub fn g() -> &'static mut G {
  unsafe { &mut *G_PTR }
}

pub fn new_park() -> &'static AtomicU32 {
  Box::leak(Box::new(AtomicU32::new(0)))
}

pub fn fnv(h: &mut u64, b: &[u8]) {
  for x in b {
    *h = (*h ^ *x as u64).wrapping_mul(0x100000001b3);
  }
}
pub fn fnv_u(h: &mut u64, v: u64) {
  *h = (*h ^ v).wrapping_mul(0x100000001b3);
  *h ^= *h >> 29;
}

impl G {
  pub fn ev(&mut self, tag: &str, a: u64, b: u64) {
    fnv(&mut self.hash, tag.as_bytes());
    fnv_u(&mut self.hash, a);
    fnv_u(&mut self.hash, b);
    self.seq += 1;
    if self.spec.trace {
      let s = format!("{} t{} {} {} {}", self.seq, self.cur, tag, a as i64, b as i64);
      self.trace.push(s);
    }
  }
  pub fn tr(&mut self, s: String) {
    fnv(&mut self.hash, s.as_bytes());
    self.seq += 1;
    if self.spec.trace {
      let l = format!("{} t{} {}", self.seq, self.cur, s);
      self.trace.push(l);
    }
  }

  // ---------------------------------------------------------------- time
  fn fire_deadlines(&mut self) {
    if self.now < self.next_dl {
      return;
    }
    let mut next = u64::MAX;
    for t in self.threads.iter_mut() {
      if t.st == St::Block {
        if let Some(d) = t.deadline {
          if d <= self.now {
            t.st = St::Run;
            t.timed_out = true;
          } else {
            next = next.min(d);
          }
        }
      }
    }
    self.next_dl = next;
  }
  pub fn tick(&mut self) {
    self.now += self.spec.tick_ns;
    self.fire_deadlines();
    if self.now / 1000 > self.spec.max_vtime_us {
      self.finish(Exit::TimeLimit);
    }
  }
  pub fn realtime(&self) -> i64 {
    self.spec.start_ns + self.now as i64 + self.real_off
  }

  // ----------------------------------------------------------- scheduling
  fn runnable(&self) -> Vec<usize> {
    self.threads.iter().enumerate().filter(|(_, t)| t.st == St::Run).map(|(i, _)| i).collect()
  }
  fn default_after(&self, r: &[usize]) -> usize {
    *r.iter().find(|x| **x > self.cur).unwrap_or(&r[0])
  }
  fn best_prio(&self, r: &[usize]) -> usize {
    *r.iter().max_by_key(|i| self.threads[**i].prio).unwrap()
  }
  fn record(&mut self, m: bool, at: u64, to: usize) {
    if self.dev.len() < 200_000 {
      self.dev.push(Dev { m, at, to: to as u32 });
    }
  }
  /// Scheduling point reached while running.
  pub fn point(&mut self) {
    self.points += 1;
    if self.points > self.spec.max_points {
      self.finish(Exit::PointLimit);
    }
    self.tick();
    let pts = self.points;
    self.maybe_switch(false, pts);
  }
  pub fn mpoint(&mut self) {
    let at = unsafe { MCOUNT };
    if self.now / 1000 > self.spec.max_vtime_us {
      self.finish(Exit::TimeLimit);
    }
    self.now += self.spec.tick_ns;
    self.fire_deadlines();
    self.maybe_switch(true, at);
    self.arm_malloc();
  }
  pub fn arm_malloc(&mut self) {
    let mean = match &self.spec.sched {
      Sched::Random { malloc_mean, .. } | Sched::Pct { malloc_mean, .. } => *malloc_mean,
      _ => {
        // next explicit allocation point
        let at = unsafe { MCOUNT };
        let n = self.devmap.range((true, at + 1)..).next().map(|(k, _)| *k);
        unsafe { NEXT_M = n.map(|k| k.1).unwrap_or(u64::MAX) };
        return;
      }
    };
    unsafe {
      NEXT_M = if mean == 0 { u64::MAX } else { MCOUNT + 1 + self.srng.below(2 * mean as u64) };
    }
  }
  fn maybe_switch(&mut self, m: bool, at: u64) {
    let r = self.runnable();
    if r.len() < 2 {
      return;
    }
    let to = if self.explicit {
      match self.devmap.get(&(m, at)) {
        Some(t) if r.contains(&(*t as usize)) => *t as usize,
        _ => return,
      }
    } else {
      match self.spec.sched {
        Sched::Random { p_switch, .. } => {
          if !m && !self.srng.chance(p_switch) {
            return;
          }
          *self.srng.pick(&r)
        }
        Sched::Pct { .. } => {
          if !m && self.pct_points.contains(&at) {
            self.pct_low -= 1;
            let c = self.cur;
            self.threads[c].prio = self.pct_low;
          }
          self.best_prio(&r)
        }
        _ => return,
      }
    };
    if to != self.cur {
      self.record(m, at, to);
      self.switch_to(to);
    }
  }
  /// sched_yield: let somebody else run if possible.
  pub fn yield_now(&mut self) {
    self.points += 1;
    if self.points > self.spec.max_points {
      self.finish(Exit::PointLimit);
    }
    self.now += 2000;
    self.tick();
    let mut r = self.runnable();
    let c = self.cur;
    r.retain(|x| *x != c);
    if r.is_empty() {
      return;
    }
    let def = self.default_after(&r);
    let at = self.points;
    let to = if self.explicit {
      match self.devmap.get(&(false, at)) {
        Some(t) if r.contains(&(*t as usize)) => *t as usize,
        _ => def,
      }
    } else {
      match self.spec.sched {
        Sched::Pct { .. } => {
          self.pct_low -= 1;
          self.threads[c].prio = self.pct_low;
          self.best_prio(&r)
        }
        _ => *self.srng.pick(&r),
      }
    };
    if to != def {
      self.record(false, at, to);
    }
    self.switch_to(to);
  }
  /// Block the current thread. Returns true if it timed out.
  pub fn block(&mut self, wait: Wait, deadline: Option<u64>) -> bool {
    let c = self.cur;
    self.wseq += 1;
    let ws = self.wseq;
    {
      let t = &mut self.threads[c];
      t.st = St::Block;
      t.wait = wait;
      t.deadline = deadline;
      t.timed_out = false;
      t.woken = false;
      t.waitseq = ws;
    }
    if let Some(d) = deadline {
      self.next_dl = self.next_dl.min(d);
      self.fire_deadlines();
    }
    if self.threads[c].st == St::Block {
      self.resched(false);
    }
    let t = &mut self.threads[c];
    t.wait = Wait::None;
    t.deadline = None;
    t.timed_out
  }
  /// The current thread cannot continue: choose another one.
  pub fn resched(&mut self, exiting: bool) {
    self.points += 1;
    loop {
      let r = self.runnable();
      if !r.is_empty() {
        let def = self.default_after(&r);
        let at = self.points;
        let to = if self.explicit {
          match self.devmap.get(&(false, at)) {
            Some(t) if r.contains(&(*t as usize)) => *t as usize,
            _ => def,
          }
        } else {
          match self.spec.sched {
            Sched::Pct { .. } => self.best_prio(&r),
            _ => *self.srng.pick(&r),
          }
        };
        if to != def {
          self.record(false, at, to);
        }
        if exiting {
          self.handoff(to);
        } else if to != self.cur {
          self.switch_to(to);
        }
        return;
      }
      // nobody can run: advance the clock
      let next = self.threads.iter().filter(|t| t.st == St::Block).filter_map(|t| t.deadline).min();
      if self.spec.server && self.clients_left == 0 {
        let end = self.clients_done_at.unwrap_or(self.now) + self.spec.settle_us * 1000;
        if next.map(|n| n > end).unwrap_or(true) {
          self.finish(Exit::ServerDone);
        }
      }
      match next {
        Some(n) => {
          self.now = self.now.max(n);
          self.next_dl = 0;
          self.fire_deadlines();
          if self.now / 1000 > self.spec.max_vtime_us {
            self.finish(Exit::TimeLimit);
          }
        }
        None => {
          let s = self.dump_threads();
          self.finish(Exit::Deadlock(s));
        }
      }
    }
  }
  pub fn dump_threads(&self) -> String {
    let mut s = String::new();
    for (i, t) in self.threads.iter().enumerate() {
      if t.st != St::Exit {
        s.push_str(&format!("t{}({}):{:?}/{:?} ", i, if t.sut { "sut" } else { "env" }, t.st, t.wait));
      }
    }
    s
  }
  fn note_switch(&mut self, to: usize) {
    self.stats.switches += 1;
    fnv_u(&mut self.hash, 0x5157 ^ ((to as u64) << 20) ^ self.points);
    fnv_u(&mut self.shash, (to as u64) << 32 | self.cur as u64);
  }
  fn switch_to(&mut self, to: usize) {
    self.note_switch(to);
    let me = self.cur;
    let my = self.threads[me].park;
    my.store(0, Ordering::SeqCst);
    self.cur = to;
    let other = self.threads[to].park;
    other.store(1, Ordering::SeqCst);
    raw::futex_wake(other.as_ptr());
    park_wait(my);
    after_resume();
  }
  /// Hand the baton over without waiting (thread exit).
  fn handoff(&mut self, to: usize) {
    self.note_switch(to);
    self.exiting = raw::gettid();
    self.cur = to;
    let other = self.threads[to].park;
    other.store(1, Ordering::SeqCst);
    raw::futex_wake(other.as_ptr());
  }
  pub fn wake_thread(&mut self, i: usize) {
    let t = &mut self.threads[i];
    if t.st == St::Block {
      t.st = St::Run;
      t.woken = true;
    }
  }
  pub fn wake_io(&mut self, key: u64) {
    for i in 0..self.threads.len() {
      if self.threads[i].st == St::Block && self.threads[i].wait == Wait::Io(key) {
        self.wake_thread(i);
      }
    }
  }
  pub fn add_thread(&mut self, sut: bool) -> usize {
    let prio = self.srng.next() >> 8 | 1 << 60;
    self.threads.push(Thread {
      st: St::Run,
      wait: Wait::None,
      deadline: None,
      timed_out: false,
      woken: false,
      park: new_park(),
      pthread: 0,
      sut,
      prio,
      bitset: 0,
      waitseq: 0,
    });
    self.threads.len() - 1
  }

  // --------------------------------------------------------------- faults
  pub fn path_id(&mut self, p: &str) -> u32 {
    if let Some(i) = self.path_ix.get(p) {
      return *i;
    }
    let i = self.paths.len() as u32;
    self.paths.push(p.to_string());
    self.path_ix.insert(p.to_string(), i);
    i
  }
  /// Entry of every simulated operation. Returns the injected action, if any.
  pub fn op(&mut self, op: Op, path: &str) -> Option<Act> {
    if self.threads[self.cur].sut {
      self.point();
    }
    fnv(&mut self.hash, &[op as u8]);
    fnv(&mut self.hash, path.as_bytes());
    self.seq += 1;
    if self.spec.trace {
      let l = format!("{} t{} {:?} {}", self.seq, self.cur, op, path);
      self.trace.push(l);
    }
    if !self.threads[self.cur].sut {
      return None;
    }
    if self.spec.want_ops && (op as u8) < (Op::EpollWait as u8) {
      let id = self.path_id(path);
      self.ops.push(OpEnt { op, path: id });
    }
    let mut act = None;
    for i in 0..self.spec.faults.len() {
      let f = &self.spec.faults[i];
      if f.op == op && path.contains(f.path.as_str()) {
        let n = self.fhits[i];
        self.fhits[i] += 1;
        if n >= f.nth && n < f.nth.saturating_add(f.count.max(1)) && act.is_none() {
          self.fired[i] += 1;
          act = Some(f.act.clone());
        }
      }
    }
    match act {
      Some(Act::Kill) => self.finish(Exit::Killed),
      Some(Act::ClockJump(s)) => {
        self.real_off += s * 1_000_000_000;
        self.stats.clock_jumps += 1;
        self.ev("jump", s as u64, 0);
        None
      }
      Some(Act::Stall(us)) => {
        let d = self.now + us * 1000;
        self.block(Wait::Sleep, Some(d));
        None
      }
      Some(Act::Env(list)) => {
        for a in list {
          self.env_act(&a);
        }
        None
      }
      o => o,
    }
  }
  pub fn env_act(&mut self, a: &EnvAct) {
    self.env_mut = true;
    self.tr(format!("env {:?}", a));
    match a {
      EnvAct::WriteFile { path, data } => {
        let d = self.blob_get(*data);
        crate::vfs::put_file(self, path, &d, false);
      }
      EnvAct::CreateFile { path, data } => {
        let d = self.blob_get(*data);
        crate::vfs::put_file(self, path, &d, true);
      }
      EnvAct::Unlink { path } => {
        let _ = crate::vfs::unlink(self, &path_bytes(&path), false);
      }
      EnvAct::Mkdir { path } => {
        let _ = crate::vfs::mkdir(self, &path_bytes(&path), 0o755);
      }
      EnvAct::Symlink { path, target } => {
        let _ = crate::vfs::symlink(self, &path_bytes(&target), &path_bytes(&path));
      }
      EnvAct::Rename { from, to } => {
        let _ = crate::vfs::rename(self, &path_bytes(&from), &path_bytes(&to), false);
      }
    }
    self.env_mut = false;
  }
  pub fn blob_get(&self, b: Blob) -> Vec<u8> {
    self.blob[b.0 as usize..(b.0 + b.1) as usize].to_vec()
  }
  pub fn blob_put(&mut self, d: &[u8]) -> Blob {
    let o = self.out.len() as u64;
    self.out.extend_from_slice(d);
    Blob(o, d.len() as u64)
  }
  pub fn mutn(&mut self, op: Op, path: &str, path2: &str, ino: u64) {
    self.seq += 1;
    if op == Op::Write {
      if let Some(l) = self.muts.last() {
        if l.op == Op::Write && l.ino == ino && l.env == self.env_mut {
          return;
        }
      }
    }
    let m = Mutn { seq: self.seq, env: self.env_mut, op, path: path.to_string(), path2: path2.to_string(), ino };
    self.muts.push(m);
  }
  pub fn unsupported(&mut self, what: &str) -> ! {
    let s = what.to_string();
    self.finish(Exit::Unsupported(s))
  }

  // --------------------------------------------------------------- finish
  pub fn finish(&mut self, exit: Exit) -> ! {
    unsafe {
      ACTIVE = false;
      IN_SIM = true;
    }
    self.ev("finish", 0, 0);
    let so = std::mem::take(&mut self.stdout);
    let se = std::mem::take(&mut self.stderr);
    let stdout = self.blob_put(&so);
    let stderr = self.blob_put(&se);
    let fs = crate::vfs::dump(self);
    self.stats.points = self.points;
    self.stats.vtime_ns = self.now;
    self.stats.mallocs = unsafe { MCOUNT };
    self.stats.big_req = unsafe { crate::hooks::BIG_REQ };
    self.stats.threads = self.threads.len() as u32;
    self.stats.live_threads = self.threads.iter().filter(|t| t.sut && t.st != St::Exit).count() as u32;
    self.stats.open_fds = self.net.fds.len() as u32;
    self.stats.open_socks = self.net.open_socks();
    let o = Outcome {
      exit,
      stdout,
      stderr,
      fs,
      muts: std::mem::take(&mut self.muts),
      clients: std::mem::take(&mut self.cev),
      stats: self.stats.clone(),
      fired: self.fired.clone(),
      ops: std::mem::take(&mut self.ops),
      paths: std::mem::take(&mut self.paths),
      hash: self.hash,
      sched_hash: self.shash,
      dev: std::mem::take(&mut self.dev),
      trace: std::mem::take(&mut self.trace),
      seed: self.spec.seed,
    };
    let j = serde_json::to_vec(&o).unwrap_or_default();
    let data = pack(&j, &self.out);
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { OUT_PATH.as_ref() } {
      let fd = raw::open(p, 0o1 | 0o100 | 0o1000, 0o600);
      if fd >= 0 {
        raw::write_all(fd, &data);
        raw::close(fd);
      }
    }
    raw::exit_group(0)
  }
}

pub fn park_wait(p: &AtomicU32) {
  while p.load(Ordering::SeqCst) == 0 {
    raw::futex_wait(p.as_ptr(), 0);
  }
}
/// Called by a thread that just received the baton: an exiting thread must be
/// gone completely before the world continues.
pub fn after_resume() {
  let gg = g();
  if gg.exiting != 0 {
    let t = gg.exiting;
    gg.exiting = 0;
    let mut n = 0u32;
    while raw::tgkill0(gg.pid, t) == 0 {
      n += 1;
      if n > 50 {
        raw::sched_yield();
      }
    }
  }
}
