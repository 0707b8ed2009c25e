//! Simulated parties outside the program: FTP clients and other processes
//! acting on the file system. They run as env threads under the scheduler.
use crate::core::*;
use crate::net::{self, SS};
use crate::vfs::{IK, ROOT};
use simspec::*;

pub enum Env {
  Client(usize),
  Actor(usize),
}

pub fn run(e: &Env) {
  match e {
    Env::Client(i) => {
      let c = g().spec.clients[*i].clone();
      let rng = Rng::new(c.seed);
      let mut cl = Cl { i: *i, c, rng, ctl: None, buf: Vec::new(), data: None, lst: None, in_reply: None, pport: 0 };
      cl.main();
      let g = g();
      g.clients_left -= 1;
      if g.clients_left == 0 {
        g.clients_done_at = Some(g.now);
      }
    }
    Env::Actor(i) => {
      let a = g().spec.actors[*i].clone();
      for (us, act) in a.acts {
        sleep(us);
        g().point();
        g().env_act(&act);
      }
    }
  }
}
fn sleep(us: u64) {
  let g = g();
  let d = g.now + us * 1000;
  g.block(Wait::Sleep, Some(d));
}

struct Cl {
  i: usize,
  c: Client,
  rng: Rng,
  ctl: Option<u64>,
  buf: Vec<u8>,
  data: Option<u64>,
  lst: Option<u64>,
  in_reply: Option<(u32, String)>,
  pport: u16,
}
const TMO: u64 = 600_000_000; // virtual µs to wait for a reply
const QUIET: u64 = 300_000;

impl Cl {
  fn rec(&mut self, ev: Cev) {
    let g = g();
    let s = match &ev {
      Cev::DataRecv { data, eof } => format!("c{} DataRecv {} {}", self.i, data.1, eof),
      Cev::Peek { path, state } => format!(
        "c{} Peek {} {}",
        self.i,
        path,
        match state {
          PeekState::File(b) => format!("file {}", b.1),
          o => format!("{:?}", o),
        }
      ),
      o => format!("c{} {:?}", self.i, o),
    };
    g.tr(s);
    let e = CevAt { seq: g.seq, t: g.now, ev };
    g.cev[self.i].push(e);
  }
  fn think(&mut self) {
    g().point();
    if self.c.think > 0 && self.rng.chance(500) {
      let us = self.rng.below(self.c.think);
      sleep(us);
    }
  }
  fn drop_ctl(&mut self, rst: bool) {
    if let Some(s) = self.ctl.take() {
      net::close_sock(g(), s, rst);
    }
    self.buf.clear();
    self.in_reply = None;
  }
  fn drop_data(&mut self, rst: bool) {
    if let Some(s) = self.data.take() {
      net::close_sock(g(), s, rst);
    }
    if let Some(s) = self.lst.take() {
      net::close_sock(g(), s, false);
    }
  }
  fn main(&mut self) {
    let steps = self.c.steps.clone();
    for (ix, s) in steps.iter().enumerate() {
      self.rec(Cev::StepBegin { idx: ix as u32 });
      self.step(s);
      self.rec(Cev::StepEnd { idx: ix as u32 });
    }
    self.drop_data(false);
    self.drop_ctl(false);
    self.rec(Cev::Closed);
  }
  fn step(&mut self, s: &Step) {
    match s {
      Step::Sleep(us) => sleep(*us),
      Step::Connect => {
        self.drop_data(false);
        self.drop_ctl(false);
        let mut ok = false;
        for _ in 0..3000 {
          g().point();
          if g().net.ports.contains_key(&self.c.port) {
            if let Some(s) = self.conn(self.c.port, 65536) {
              self.ctl = Some(s);
              ok = true;
              break;
            }
          }
          sleep(10_000);
        }
        if !ok {
          self.rec(Cev::ConnectFailed);
          return;
        }
        self.rec(Cev::Connected);
        self.replies(1);
      }
      Step::Cmd { line, quiet } => {
        self.think();
        if self.send_line(line) {
          self.replies(1);
          if *quiet {
            self.quiet(QUIET);
          }
        }
      }
      Step::Raw { bytes, finals, quiet } => {
        self.think();
        let b = g().blob_get(*bytes);
        let l = String::from_utf8_lossy(&b).into_owned();
        if self.ctl.is_some() {
          self.rec(Cev::Sent { line: l });
          if self.send_ctl(&b) {
            self.replies(*finals);
            if *quiet {
              self.quiet(QUIET);
            }
          }
        }
      }
      Step::Stor { path, data, mode, end, peek, quiet } => self.stor(path, *data, mode, end, peek, *quiet),
      Step::Retr { path, mode, stop_at, quiet } => self.fetch(&format!("RETR {}", path), mode, *stop_at, *quiet),
      Step::List { line, mode, quiet } => self.fetch(line, mode, None, *quiet),
      Step::Quiet(us) => self.quiet(*us),
      Step::Close(rst) => {
        g().point();
        self.drop_data(*rst);
        self.drop_ctl(*rst);
      }
      Step::Barrier(n) => {
        let g = g();
        let total = g.spec.clients.len() as u32;
        let c = g.barriers.entry(*n).or_insert(0);
        *c += 1;
        if *c >= total {
          for i in 0..g.threads.len() {
            if g.threads[i].st == St::Block && g.threads[i].wait == Wait::Barrier(*n) {
              g.wake_thread(i);
            }
          }
        } else {
          while g.barriers[n] < total {
            g.block(Wait::Barrier(*n), None);
          }
        }
      }
      Step::Peek(v) => self.peek(v),
      Step::OpenData { mode } => {
        if self.setup(mode) {
          self.connect_data(mode);
        }
      }
      Step::CloseData { rst } => {
        g().point();
        self.drop_data(*rst)
      }
      Step::DropNoData { mode } => {
        self.setup(mode);
      }
    }
  }
  fn conn(&mut self, port: u16, rcvbuf: usize) -> Option<u64> {
    let g = g();
    let s = g.net.new_sock(self.c.v6, true);
    g.net.socks.get_mut(&s).unwrap().rcvbuf = rcvbuf.max(1);
    if net::establish(g, s, port) {
      // server side of the connection: segments towards the server
      Some(s)
    } else {
      g.net.socks.remove(&s);
      None
    }
  }
  /// Send all bytes, in segments. False if the connection broke.
  fn send_seg(&mut self, s: u64, b: &[u8], seg: u32) -> Result<u64, i32> {
    let mut o = 0usize;
    while o < b.len() {
      g().point();
      let n = if seg == 0 { b.len() - o } else { 1 + self.rng.below(seg as u64) as usize };
      let e = (o + n).min(b.len());
      match net::send(g(), s, &b[o..e]) {
        Ok(k) => o += k,
        Err(libc::EAGAIN) => {
          let d = g().now + 300_000_000_000;
          if g().block(Wait::Io(s), Some(d)) {
            return Err(libc::ETIMEDOUT);
          }
        }
        Err(e) => return Err(e),
      }
      if o < b.len() {
        self.think();
      }
    }
    Ok(o as u64)
  }
  fn send_ctl(&mut self, b: &[u8]) -> bool {
    match self.ctl {
      Some(s) => {
        let seg = self.c.seg;
        // a failed send is noticed when reading the reply
        let _ = self.send_seg(s, b, seg);
        true
      }
      None => false,
    }
  }
  fn send_line(&mut self, line: &str) -> bool {
    if self.ctl.is_none() {
      return false;
    }
    self.rec(Cev::Sent { line: line.to_string() });
    let mut v = line.as_bytes().to_vec();
    v.extend_from_slice(b"\r\n");
    self.send_ctl(&v)
  }
  /// Next complete reply within the deadline; Ok(None) = time-out, Err(rst) = connection ended.
  fn next_reply(&mut self, deadline: u64) -> Result<Option<(u32, String)>, bool> {
    loop {
      while let Some(p) = self.buf.iter().position(|c| *c == b'\n') {
        let mut l: Vec<u8> = self.buf.drain(..=p).collect();
        l.pop();
        if l.last() == Some(&b'\r') {
          l.pop();
        }
        let s = String::from_utf8_lossy(&l).into_owned();
        let code: Option<u32> = if l.len() >= 3 && l[..3].iter().all(|c| c.is_ascii_digit()) { s[..3].parse().ok() } else { None };
        let sep = l.get(3).copied();
        match (&mut self.in_reply, code) {
          (Some((c, t)), x) => {
            t.push('\n');
            t.push_str(&s);
            if x == Some(*c) && sep == Some(b' ') {
              return Ok(self.in_reply.take());
            }
          }
          (None, Some(c)) => {
            if sep == Some(b'-') {
              self.in_reply = Some((c, s));
            } else {
              return Ok(Some((c, s)));
            }
          }
          (None, None) => return Ok(Some((0, s))),
        }
      }
      let s = match self.ctl {
        Some(s) => s,
        None => return Err(false),
      };
      match net::recv(g(), s, 4096, false) {
        Ok(v) if v.is_empty() => return Err(false),
        Ok(v) => self.buf.extend_from_slice(&v),
        Err(libc::EAGAIN) => {
          if g().now >= deadline || g().block(Wait::Io(s), Some(deadline)) {
            return Ok(None);
          }
        }
        Err(_) => return Err(true),
      }
    }
  }
  /// Collect `finals` final replies. Returns the last final code.
  fn replies(&mut self, finals: u32) -> Option<u32> {
    let mut left = finals;
    let mut last = None;
    while left > 0 {
      let dl = g().now + TMO * 1000;
      match self.next_reply(dl) {
        Ok(Some((code, text))) => {
          let fin = !(100..200).contains(&code);
          self.rec(Cev::Reply { code, text, fin });
          if fin {
            left -= 1;
            last = Some(code);
          }
        }
        Ok(None) => {
          self.rec(Cev::Timeout);
          return None;
        }
        Err(rst) => {
          self.rec(Cev::Eof { rst });
          self.drop_data(false);
          self.drop_ctl(false);
          return None;
        }
      }
    }
    last
  }
  /// First reply (preliminary or final).
  fn one(&mut self) -> Option<u32> {
    let dl = g().now + TMO * 1000;
    match self.next_reply(dl) {
      Ok(Some((code, text))) => {
        let fin = !(100..200).contains(&code);
        self.rec(Cev::Reply { code, text, fin });
        Some(code)
      }
      Ok(None) => {
        self.rec(Cev::Timeout);
        None
      }
      Err(rst) => {
        self.rec(Cev::Eof { rst });
        self.drop_data(false);
        self.drop_ctl(false);
        None
      }
    }
  }
  fn quiet(&mut self, us: u64) {
    if self.ctl.is_none() {
      return;
    }
    let dl = g().now + us * 1000;
    loop {
      match self.next_reply(dl) {
        Ok(Some((code, text))) => {
          let fin = !(100..200).contains(&code);
          self.rec(Cev::Reply { code, text, fin });
        }
        Ok(None) => {
          self.rec(Cev::Quiet);
          return;
        }
        Err(rst) => {
          self.rec(Cev::Eof { rst });
          self.drop_data(false);
          self.drop_ctl(false);
          return;
        }
      }
    }
  }
  fn peek(&mut self, v: &[String]) {
    for p in v {
      let g = g();
      let st = match g.vfs.resolve(ROOT, p.as_bytes(), true) {
        Ok(r) => match r.ino {
          None => PeekState::Absent,
          Some(i) => match &g.vfs.node(i).k {
            IK::Dir(_) => PeekState::Dir,
            IK::File(d) => {
              let d = d.clone();
              PeekState::File(g.blob_put(&d))
            }
            _ => PeekState::Other,
          },
        },
        Err(_) => PeekState::Absent,
      };
      self.rec(Cev::Peek { path: p.clone(), state: st });
    }
  }
  /// Negotiate the data connection. For passive modes remembers the port in `lst` via text.
  fn setup(&mut self, mode: &Mode) -> bool {
    self.think();
    self.drop_data(false);
    match mode {
      Mode::Passive => self.send_line("PASV") && self.last_port(227),
      Mode::Epsv => self.send_line("EPSV") && self.last_port(229),
      Mode::Active => {
        if self.ctl.is_none() {
          return false;
        }
        let g = g();
        let l = g.net.new_sock(self.c.v6, true);
        if net::bind(g, l, 0).is_err() || net::listen(g, l).is_err() {
          return false;
        }
        let p = g.net.socks[&l].lport;
        self.lst = Some(l);
        let line = format!("PORT 127,0,0,1,{},{}", p >> 8, p & 255);
        self.send_line(&line) && self.replies(1) == Some(200)
      }
    }
  }
  fn last_port(&mut self, want: u32) -> bool {
    if self.replies(1) != Some(want) {
      return false;
    }
    let txt = g().cev[self.i].iter().rev().find_map(|e| match &e.ev {
      Cev::Reply { code, text, .. } if *code == want => Some(text.clone()),
      _ => None,
    });
    let t = match txt {
      Some(t) => t,
      None => return false,
    };
    let inner = match (t.find('('), t.rfind(')')) {
      (Some(a), Some(b)) if a < b => t[a + 1..b].to_string(),
      _ => t.clone(),
    };
    let nums: Vec<u32> = inner.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
    let port = if want == 227 {
      if nums.len() < 2 {
        return false;
      }
      nums[nums.len() - 2] * 256 + nums[nums.len() - 1]
    } else {
      match nums.last() {
        Some(p) => *p,
        None => return false,
      }
    };
    self.pport = port as u16;
    true
  }
  fn connect_data(&mut self, mode: &Mode) -> bool {
    self.think();
    match mode {
      Mode::Passive | Mode::Epsv => {
        let w = self.c.window as usize;
        let p = self.pport;
        self.data = self.conn(p, if w == 0 { 65536 } else { w });
      }
      Mode::Active => {
        let l = match self.lst {
          Some(l) => l,
          None => return false,
        };
        let end = g().now + 60_000_000_000;
        loop {
          if let Ok(c) = net::accept(g(), l) {
            let w = self.c.window as usize;
            g().net.socks.get_mut(&c).unwrap().rcvbuf = if w == 0 { 65536 } else { w };
            self.data = Some(c);
            break;
          }
          // a reply instead of a connection ends the wait
          let got = self.ctl.and_then(|s| g().net.socks.get(&s)).map(|s| !s.rx.is_empty() || s.rx_fin || s.rst).unwrap_or(true);
          if got || g().now > end {
            // the connection may have been queued together with the reply
            if let Ok(c) = net::accept(g(), l) {
              self.data = Some(c);
            }
            break;
          }
          sleep(1000);
        }
      }
    }
    let ok = self.data.is_some();
    self.rec(Cev::DataOpen { ok });
    ok
  }
  fn begin(&mut self, line: &str, mode: &Mode, open: bool) -> bool {
    if self.data.is_none() && !self.setup(mode) {
      return false;
    }
    let early = *mode != Mode::Active && open && self.data.is_none() && self.rng.chance(700);
    if early {
      self.connect_data(mode);
    }
    self.think();
    if !self.send_line(line) {
      return false;
    }
    if !early && open && self.data.is_none() {
      self.connect_data(mode);
    }
    true
  }
  fn stor(&mut self, path: &str, data: Blob, mode: &Mode, end: &DataEnd, peek: &[String], quiet: bool) {
    if !self.begin(&format!("STOR {}", path), mode, *end != DataEnd::NeverOpen) {
      return;
    }
    let d = g().blob_get(data);
    let mut code = None;
    if self.data.is_some() {
      // wait for the go-ahead in most cases, sometimes push data at once
      if self.rng.chance(800) {
        code = self.one();
      }
      let (n, how) = match end {
        DataEnd::Fin | DataEnd::NeverOpen => (d.len(), 0),
        DataEnd::RstAt(n) => ((*n as usize).min(d.len()), 1),
        DataEnd::FinAt(n) => ((*n as usize).min(d.len()), 0),
        DataEnd::DropAllAt(n) => ((*n as usize).min(d.len()), 2),
      };
      let go = code.map(|c| (100..200).contains(&c)).unwrap_or(true);
      if go {
        if let Some(s) = self.data {
          let chunk = *self.rng.pick(&[0u32, 700, 4096, 30000]);
          let chunk = if chunk != 0 && n / (chunk as usize) > 400 { (n / 400) as u32 } else { chunk };
          let sent = self.send_seg(s, &d[..n], chunk);
          let ok = sent.is_ok();
          self.rec(Cev::DataSent { bytes: sent.unwrap_or(0), complete: ok && n == d.len() && how == 0 });
        }
      }
      self.think();
      self.drop_data(how != 0);
      if how == 2 {
        self.drop_ctl(true);
      }
    } else {
      self.drop_data(false);
    }
    if code.map(|c| (100..200).contains(&c)).unwrap_or(true) {
      self.replies(1);
    }
    self.peek(peek);
    if quiet {
      self.quiet(QUIET);
    }
  }
  fn fetch(&mut self, line: &str, mode: &Mode, stop_at: Option<u64>, quiet: bool) {
    if !self.begin(line, mode, true) {
      return;
    }
    let mut code = None;
    if self.rng.chance(700) || self.data.is_none() {
      code = self.one();
    }
    if let (Some(s), true) = (self.data, code.map(|c| (100..200).contains(&c)).unwrap_or(true)) {
      let mut out = Vec::new();
      let mut eof = false;
      let end = g().now + TMO * 1000;
      loop {
        self.think();
        let max = 1 + self.rng.below(65536) as usize;
        match net::recv(g(), s, max, false) {
          Ok(v) if v.is_empty() => {
            eof = true;
            break;
          }
          Ok(v) => out.extend_from_slice(&v),
          Err(libc::EAGAIN) => {
            if g().now > end || g().block(Wait::Io(s), Some(end)) {
              break;
            }
          }
          Err(_) => break,
        }
        if let Some(n) = stop_at {
          if out.len() as u64 >= n {
            break;
          }
        }
      }
      let b = g().blob_put(&out);
      self.rec(Cev::DataRecv { data: b, eof });
      let unread = g().net.socks.get(&s).map(|k| k.st == SS::Conn && !k.rx.is_empty()).unwrap_or(false);
      self.drop_data(unread || !eof);
    } else {
      self.drop_data(false);
    }
    if code.map(|c| (100..200).contains(&c)).unwrap_or(true) {
      self.replies(1);
    }
    if quiet {
      self.quiet(QUIET);
    }
  }
}
