//! Simulated TCP, epoll, eventfd and the descriptor table.
use crate::core::*;
use libc::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Obj {
  File(usize),
  Sock(u64),
  Ep(u64),
  Ev(u64),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SS {
  New,
  Listen,
  Conn,
}
pub struct Sock {
  pub refs: u32,
  pub cls: String,
  pub v6: bool,
  pub unix: bool,
  pub nonblock: bool,
  pub st: SS,
  pub lport: u16,
  pub pport: u16,
  pub backlog: VecDeque<u64>,
  pub rx: VecDeque<u8>,
  pub rx_fin: bool,
  pub rst: bool,
  pub wr_shut: bool,
  pub rd_shut: bool,
  pub peer: Option<u64>,
  pub rcvbuf: usize,
  pub err: i32,
  pub env: bool,
  pub accepted: bool,
}
pub struct EvFd {
  pub refs: u32,
  pub val: u64,
  pub nonblock: bool,
}
pub struct Reg {
  pub obj: Obj,
  pub events: u32,
  pub data: u64,
  pub armed: bool,
}
pub struct Ep {
  pub refs: u32,
  pub regs: BTreeMap<i32, Reg>,
}
pub struct Net {
  pub fds: BTreeMap<i32, Obj>,
  pub socks: BTreeMap<u64, Sock>,
  pub evs: BTreeMap<u64, EvFd>,
  pub eps: BTreeMap<u64, Ep>,
  pub ports: BTreeMap<u16, u64>,
  pub next: u64,
  pub eph: u16,
  pub ports_rng: simspec::Rng,
  pub nctl: u32,
  pub ndata: u32,
}
const EPKEY: u64 = 0x2000_0000_0000;

impl Net {
  pub fn new(seed: u64) -> Net {
    Net {
      fds: BTreeMap::new(),
      socks: BTreeMap::new(),
      evs: BTreeMap::new(),
      eps: BTreeMap::new(),
      ports: BTreeMap::new(),
      next: 1,
      eph: 32768,
      ports_rng: simspec::Rng::new(seed ^ 0x44),
      nctl: 0,
      ndata: 0,
    }
  }
  /// Sockets held by the program (listeners of its main port excluded by the caller's baseline).
  pub fn open_socks(&self) -> u32 {
    self.fds.values().filter(|o| matches!(o, Obj::Sock(_))).count() as u32
  }
  pub fn new_fd(&mut self, o: Obj) -> i32 {
    let mut f = 1000;
    for k in self.fds.keys() {
      if *k == f {
        f += 1;
      } else if *k > f {
        break;
      }
    }
    self.fds.insert(f, o);
    f
  }
  pub fn id(&mut self) -> u64 {
    let i = self.next;
    self.next += 1;
    i
  }
  pub fn new_sock(&mut self, v6: bool, env: bool) -> u64 {
    let i = self.id();
    self.socks.insert(
      i,
      Sock {
        refs: 1,
        cls: "sock".into(),
        v6,
        unix: false,
        nonblock: false,
        st: SS::New,
        lport: 0,
        pport: 0,
        backlog: VecDeque::new(),
        rx: VecDeque::new(),
        rx_fin: false,
        rst: false,
        wr_shut: false,
        rd_shut: false,
        peer: None,
        rcvbuf: 65536,
        err: 0,
        env,
        accepted: false,
      },
    );
    i
  }
  pub fn ephemeral(&mut self) -> u16 {
    loop {
      // like a real system: any port of the dynamic range
      self.eph = 32768 + (self.ports_rng.next() % 28232) as u16;
      if !self.ports.contains_key(&self.eph) {
        return self.eph;
      }
    }
  }
  pub fn ready(&self, o: Obj) -> u32 {
    let (i, ou, hup, err, rdhup) = (EPOLLIN as u32, EPOLLOUT as u32, EPOLLHUP as u32, EPOLLERR as u32, EPOLLRDHUP as u32);
    match o {
      Obj::Ev(e) => {
        let e = &self.evs[&e];
        (if e.val > 0 { i } else { 0 }) | ou
      }
      Obj::Sock(s) => {
        let s = match self.socks.get(&s) {
          Some(s) => s,
          None => return 0,
        };
        match s.st {
          SS::New => {
            if s.err != 0 {
              ou | err | hup
            } else {
              ou | hup
            }
          }
          SS::Listen => {
            if s.backlog.is_empty() {
              0
            } else {
              i
            }
          }
          SS::Conn => {
            if s.rst {
              return i | ou | err | hup | rdhup;
            }
            let mut r = 0;
            if !s.rx.is_empty() || s.rx_fin || s.rd_shut {
              r |= i;
            }
            if s.rx_fin || s.rd_shut {
              r |= rdhup;
            }
            if s.rx_fin && s.wr_shut {
              r |= hup;
            }
            if s.wr_shut || self.space(s) > 0 {
              r |= ou;
            }
            if s.err != 0 {
              r |= err;
            }
            r
          }
        }
      }
      _ => 0,
    }
  }
  fn space(&self, s: &Sock) -> usize {
    match s.peer.and_then(|p| self.socks.get(&p)) {
      Some(p) => p.rcvbuf.saturating_sub(p.rx.len()),
      None => usize::MAX, // peer gone: accepted and discarded
    }
  }
}

pub fn notify(g: &mut G, o: Obj) {
  if let Obj::Sock(s) = o {
    g.wake_io(s);
  }
  if let Obj::Ev(e) = o {
    g.wake_io(e);
  }
  let mut hit = Vec::new();
  for (id, ep) in g.net.eps.iter_mut() {
    let mut any = false;
    for r in ep.regs.values_mut() {
      if r.obj == o {
        r.armed = true;
        any = true;
      }
    }
    if any {
      hit.push(*id);
    }
  }
  for id in hit {
    g.wake_io(EPKEY + id);
  }
}

pub fn close_obj(g: &mut G, fd: i32, o: Obj) {
  match o {
    Obj::File(f) => crate::vfs::unref(g, f),
    Obj::Sock(s) => {
      let k = g.net.socks.get_mut(&s).unwrap();
      k.refs -= 1;
      if k.refs == 0 {
        for ep in g.net.eps.values_mut() {
          ep.regs.retain(|_, r| r.obj != o);
        }
        close_sock(g, s, false);
      } else {
        let _ = fd;
      }
    }
    Obj::Ev(e) => {
      let k = g.net.evs.get_mut(&e).unwrap();
      k.refs -= 1;
      if k.refs == 0 {
        for ep in g.net.eps.values_mut() {
          ep.regs.retain(|_, r| r.obj != o);
        }
        g.net.evs.remove(&e);
      }
    }
    Obj::Ep(e) => {
      let k = g.net.eps.get_mut(&e).unwrap();
      k.refs -= 1;
      if k.refs == 0 {
        g.net.eps.remove(&e);
      }
    }
  }
}

/// Close a socket; `rst` forces a reset instead of a graceful close.
pub fn close_sock(g: &mut G, s: u64, rst: bool) {
  let k = match g.net.socks.remove(&s) {
    Some(k) => k,
    None => return,
  };
  let lbl = format!("sockclose {} {}", k.cls, rst);
  g.tr(lbl);
  match k.st {
    SS::Listen => {
      if g.net.ports.get(&k.lport) == Some(&s) {
        g.net.ports.remove(&k.lport);
      }
      for b in k.backlog {
        close_sock(g, b, true);
      }
    }
    SS::Conn => {
      if let Some(p) = k.peer {
        let reset = rst || (!k.rx.is_empty() && !k.unix);
        if let Some(q) = g.net.socks.get_mut(&p) {
          q.peer = None;
          if reset {
            q.rst = true;
            q.err = ECONNRESET;
          } else {
            q.rx_fin = true;
          }
          notify(g, Obj::Sock(p));
        }
      }
    }
    SS::New => {}
  }
  g.wake_io(s);
}

/// Establish a connection to a listening port. Returns the new client endpoint state.
pub fn establish(g: &mut G, c: u64, port: u16) -> bool {
  let l = match g.net.ports.get(&port) {
    Some(l) => *l,
    None => return false,
  };
  let (lenv, v6) = (g.net.socks[&l].env, g.net.socks[&l].v6);
  if g.net.socks[&l].backlog.len() > 128 {
    return false;
  }
  let s = g.net.new_sock(v6, lenv);
  let lp = g.net.ephemeral();
  let ctl = !g.net.socks[&l].cls.starts_with("pasv") && !lenv;
  let cls = if ctl {
    g.net.nctl += 1;
    format!("ctl#{}", g.net.nctl)
  } else {
    g.net.ndata += 1;
    format!("data#{}", g.net.ndata)
  };
  {
    let k = g.net.socks.get_mut(&s).unwrap();
    k.st = SS::Conn;
    k.lport = port;
    k.pport = lp;
    k.peer = Some(c);
    k.cls = cls.clone();
  }
  {
    let k = g.net.socks.get_mut(&c).unwrap();
    k.st = SS::Conn;
    if k.lport == 0 {
      k.lport = lp;
    }
    k.pport = port;
    k.peer = Some(s);
    k.cls = cls;
  }
  let lp = g.net.socks[&c].lport;
  g.net.socks.get_mut(&s).unwrap().pport = lp;
  g.net.socks.get_mut(&l).unwrap().backlog.push_back(s);
  g.ev("establish", c, port as u64);
  notify(g, Obj::Sock(l));
  notify(g, Obj::Sock(c));
  true
}
pub fn bind(g: &mut G, s: u64, port: u16) -> Result<(), i32> {
  let p = if port == 0 { g.net.ephemeral() } else { port };
  if g.net.ports.contains_key(&p) {
    return Err(EADDRINUSE);
  }
  let k = g.net.socks.get_mut(&s).unwrap();
  k.lport = p;
  k.cls = if port == 0 { "pasv".into() } else { format!("listen:{}", p) };
  Ok(())
}
pub fn listen(g: &mut G, s: u64) -> Result<(), i32> {
  if g.net.socks[&s].lport == 0 {
    bind(g, s, 0)?;
  }
  let p = g.net.socks[&s].lport;
  if g.net.ports.contains_key(&p) {
    return Err(EADDRINUSE);
  }
  g.net.ports.insert(p, s);
  g.net.socks.get_mut(&s).unwrap().st = SS::Listen;
  Ok(())
}
pub fn accept(g: &mut G, s: u64) -> Result<u64, i32> {
  let k = g.net.socks.get_mut(&s).unwrap();
  if k.st != SS::Listen {
    return Err(EINVAL);
  }
  match k.backlog.pop_front() {
    Some(c) => {
      g.net.socks.get_mut(&c).unwrap().accepted = true;
      Ok(c)
    }
    None => Err(EAGAIN),
  }
}
/// Non-blocking receive step.
pub fn recv(g: &mut G, s: u64, max: usize, peek: bool) -> Result<Vec<u8>, i32> {
  let k = match g.net.socks.get_mut(&s) {
    Some(k) => k,
    None => return Err(EBADF),
  };
  if k.st != SS::Conn {
    return Err(ENOTCONN);
  }
  if !k.rx.is_empty() && !k.rd_shut {
    let n = max.min(k.rx.len());
    let out: Vec<u8> = k.rx.iter().take(n).copied().collect();
    if !peek {
      k.rx.drain(..n);
      if let Some(p) = k.peer {
        notify_out(g, p);
      }
    }
    return Ok(out);
  }
  if k.rst && k.err != 0 {
    let e = k.err;
    k.err = 0;
    return Err(e);
  }
  if k.rx_fin || k.rst || k.rd_shut {
    return Ok(Vec::new());
  }
  Err(EAGAIN)
}
fn notify_out(g: &mut G, s: u64) {
  if g.net.socks.contains_key(&s) {
    notify(g, Obj::Sock(s));
  }
}
/// Non-blocking send step.
pub fn send(g: &mut G, s: u64, b: &[u8]) -> Result<usize, i32> {
  let k = match g.net.socks.get_mut(&s) {
    Some(k) => k,
    None => return Err(EBADF),
  };
  if k.st != SS::Conn {
    return Err(if k.st == SS::New { ENOTCONN } else { EPIPE });
  }
  if k.err != 0 {
    let e = k.err;
    k.err = 0;
    return Err(e);
  }
  if k.rst || k.wr_shut {
    return Err(EPIPE);
  }
  match k.peer {
    None => {
      // peer closed gracefully: our data makes it answer with a reset
      k.rst = true;
      k.err = EPIPE;
      notify(g, Obj::Sock(s));
      Ok(b.len())
    }
    Some(p) => {
      let q = g.net.socks.get_mut(&p).unwrap();
      let n = b.len().min(q.rcvbuf.saturating_sub(q.rx.len()));
      if n == 0 && !b.is_empty() {
        return Err(EAGAIN);
      }
      if q.rd_shut {
        return Ok(n);
      }
      q.rx.extend(&b[..n]);
      notify(g, Obj::Sock(p));
      Ok(n)
    }
  }
}
pub fn shutdown(g: &mut G, s: u64, how: i32) -> Result<(), i32> {
  let k = g.net.socks.get_mut(&s).unwrap();
  if k.st != SS::Conn || k.rst {
    return Err(ENOTCONN);
  }
  if how == SHUT_RD || how == SHUT_RDWR {
    k.rd_shut = true;
  }
  if how == SHUT_WR || how == SHUT_RDWR {
    k.wr_shut = true;
    if let Some(p) = k.peer {
      if let Some(q) = g.net.socks.get_mut(&p) {
        q.rx_fin = true;
        notify(g, Obj::Sock(p));
      }
    }
  }
  notify(g, Obj::Sock(s));
  Ok(())
}
pub fn epoll_wait(g: &mut G, ep: u64, max: usize, timeout_ms: i32) -> Result<Vec<(u32, u64)>, i32> {
  let deadline = if timeout_ms < 0 { None } else { Some(g.now + timeout_ms as u64 * 1_000_000) };
  loop {
    let mut cand: Vec<i32> = Vec::new();
    {
      let e = match g.net.eps.get(&ep) {
        Some(e) => e,
        None => return Err(EBADF),
      };
      for (fd, r) in e.regs.iter() {
        let et = r.events & EPOLLET as u32 != 0;
        if et && !r.armed {
          continue;
        }
        let rd = g.net.ready(r.obj) & (r.events | EPOLLERR as u32 | EPOLLHUP as u32);
        if rd != 0 {
          cand.push(*fd);
        }
      }
    }
    if !cand.is_empty() {
      for i in (1..cand.len()).rev() {
        let j = g.nrng.below(i as u64 + 1) as usize;
        cand.swap(i, j);
      }
      cand.truncate(max);
      let mut out = Vec::new();
      for fd in cand {
        let (obj, events, data) = {
          let r = g.net.eps.get_mut(&ep).unwrap().regs.get_mut(&fd).unwrap();
          r.armed = false;
          (r.obj, r.events, r.data)
        };
        let rd = g.net.ready(obj) & (events | EPOLLERR as u32 | EPOLLHUP as u32);
        out.push((rd, data));
        g.ev("epev", rd as u64, fd as u64);
      }
      return Ok(out);
    }
    if timeout_ms == 0 {
      return Ok(vec![]);
    }
    if g.rng.chance(g.spec.eintr_pm) {
      g.stats.eintrs += 1;
      return Err(EINTR);
    }
    if g.block(Wait::Io(EPKEY + ep), deadline) {
      return Ok(vec![]);
    }
  }
}
