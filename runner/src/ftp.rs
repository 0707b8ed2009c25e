//! Properties of the FTP server (C20–C28): embedftp alone (`ftpdrv`) and inside
//! `dnglab ftpserver`, driven by simulated clients.
use crate::conv::*;
use crate::dng::*;
use crate::engine::*;
use crate::sim::*;
use crate::world::*;
use serde_json::json;
use simspec::*;
use std::collections::{BTreeMap, BTreeSet};

pub const ROOT: &str = "/srv/ftp";
const PORT: u16 = 2121;

// ------------------------------------------------------------ client scripts
fn client(r: &mut Rng, steps: Vec<Step>) -> Client {
  Client {
    port: PORT,
    v6: false,
    seed: r.next(),
    seg: *r.pick(&[0, 0, 1, 2, 7, 30]),
    window: *r.pick(&[0, 0, 1024, 5000]),
    think: *r.pick(&[0, 300, 20_000]),
    steps,
  }
}
fn cmd(l: impl Into<String>) -> Step {
  Step::Cmd { line: l.into(), quiet: false }
}
fn anon() -> Vec<Step> {
  vec![Step::Connect, cmd("USER anonymous"), cmd("PASS me@example.com")]
}
fn mode(r: &mut Rng) -> Mode {
  r.pick(&[Mode::Passive, Mode::Passive, Mode::Epsv, Mode::Active]).clone()
}
fn stor(r: &mut Rng, path: &str, data: Blob, peek: &[&str]) -> Step {
  Step::Stor { path: path.into(), data, mode: mode(r), end: DataEnd::Fin, peek: peek.iter().map(|s| s.to_string()).collect(), quiet: false }
}
fn retr(r: &mut Rng, path: &str) -> Step {
  Step::Retr { path: path.into(), mode: mode(r), stop_at: None, quiet: false }
}
fn list(r: &mut Rng, line: &str) -> Step {
  Step::List { line: line.into(), mode: mode(r), quiet: false }
}
/// Content that shows where every byte came from.
fn content(r: &mut Rng, n: u64) -> Vec<u8> {
  let tag = r.next();
  let mut q = Rng::new(tag);
  let mut v = Vec::with_capacity(n as usize + 8);
  while (v.len() as u64) < n {
    v.extend_from_slice(&q.next().to_le_bytes());
  }
  v.truncate(n as usize);
  v
}
fn size(r: &mut Rng) -> u64 {
  match r.below(8) {
    0 => 0,
    1 => 1,
    2 => r.below(2000),
    3 => 4096 * r.range(1, 5),
    4 => r.below(300_000),
    _ => r.below(30_000),
  }
}
fn drv(root: &str, anonymous: bool, users: &[(&str, &str)], spec: Spec) -> Run {
  let mut a = vec![root.to_string(), PORT.to_string(), "127.0.0.1".into(), if anonymous { "1".into() } else { "0".to_string() }];
  for (n, p) in users {
    a.push(format!("{}:{}", n, p));
  }
  Run { bin: "ftpdrv".into(), args: a, env: vec![], spec, carry: false, put: vec![] }
}
fn server(r: &mut Rng, w: &World, clients: Vec<Client>) -> Spec {
  let mut s = benign(r);
  s.cwd = "/srv".into();
  s.fs = w.nodes.clone();
  s.server = true;
  s.settle_us = 2_000_000;
  s.sndbuf = *r.pick(&[0, 0, 0, 64]);
  s.clients = clients;
  s.max_vtime_us = 14_400_000_000;
  s
}
fn ended_srv(r: &Res) -> Option<Viol> {
  // a fault at start-up is answered by a clean refusal to start
  let greeted = r.out.clients.iter().flatten().any(|e| matches!(&e.ev, Cev::Connected));
  if matches!(r.out.exit, Exit::Code(n) if n != 0) && !greeted && r.out.fired.iter().any(|n| *n > 0) {
    return None;
  }
  if let Some(x) = ended(r) {
    return Some(x);
  }
  match &r.out.exit {
    Exit::ServerDone | Exit::Killed => None,
    e => Some(v("server-exit", format!("the server process ended: {:?}: {}", e, tail(r)))),
  }
}

// ---------------------------------------------------------------- histories
#[derive(Clone, Debug, Default)]
pub struct Rep {
  pub code: u32,
  pub text: String,
  pub fin: bool,
  pub seq: u64,
  pub t: u64,
}
/// One command of a session and everything that followed it.
#[derive(Clone, Debug, Default)]
pub struct Tx {
  pub session: u32,
  pub step: usize,
  pub line: String,
  pub seq: u64,
  pub t: u64,
  pub reps: Vec<Rep>,
  pub eof: Option<bool>,
  pub eof_t: u64,
  pub timeout: bool,
  pub quiet: bool,
  pub recv: Option<(Vec<u8>, bool)>,
  pub sent: Option<(u64, bool)>,
  pub peeks: Vec<(String, PeekState, u64)>,
  /// The client ended this session (close or script end) after this command.
  pub closed: bool,
}
impl Tx {
  pub fn fin(&self) -> Option<&Rep> {
    self.reps.iter().find(|r| r.fin)
  }
  pub fn finals(&self) -> usize {
    self.reps.iter().filter(|r| r.fin).count()
  }
  pub fn code(&self) -> u32 {
    self.fin().map(|r| r.code).unwrap_or(0)
  }
  pub fn ok(&self) -> bool {
    (200..300).contains(&self.code())
  }
  pub fn bad(&self) -> bool {
    (400..600).contains(&self.code())
  }
  pub fn verb(&self) -> String {
    self.line.split([' ', '\r', '\n']).next().unwrap_or("").to_uppercase()
  }
  pub fn arg(&self) -> &str {
    self.line.split_once(' ').map(|x| x.1).unwrap_or("")
  }
}
pub fn history(r: &Res, i: usize) -> Vec<Tx> {
  let mut v: Vec<Tx> = vec![];
  let mut sess = 0;
  let mut step = 0usize;
  for e in &r.out.clients[i] {
    match &e.ev {
      Cev::StepBegin { idx } => step = *idx as usize,
      Cev::Connected => {
        sess += 1;
        v.push(Tx { session: sess, step, line: String::new(), seq: e.seq, t: e.t, ..Default::default() });
      }
      Cev::ConnectFailed => v.push(Tx { session: sess + 1, step, line: "!connect".into(), seq: e.seq, t: e.t, ..Default::default() }),
      Cev::Sent { line } => v.push(Tx { session: sess, step, line: line.clone(), seq: e.seq, t: e.t, ..Default::default() }),
      o => {
        if let Some(x) = v.last_mut() {
          match o {
            Cev::Reply { code, text, fin } => x.reps.push(Rep { code: *code, text: text.clone(), fin: *fin, seq: e.seq, t: e.t }),
            Cev::Eof { rst } => {
              x.eof = Some(*rst);
              x.eof_t = e.t;
            }
            Cev::Timeout => x.timeout = true,
            Cev::Quiet => x.quiet = true,
            Cev::DataSent { bytes, complete } => x.sent = Some((*bytes, *complete)),
            Cev::DataRecv { data, eof } => x.recv = Some((r.get(*data).to_vec(), *eof)),
            Cev::Peek { path, state } => x.peeks.push((path.clone(), state.clone(), e.seq)),
            Cev::Closed => x.closed = true,
            _ => {}
          }
        }
      }
    }
  }
  v
}
fn steps(c: &Case, run: usize, i: usize) -> &[Step] {
  &c.runs[run].spec.clients[i].steps
}
fn blob(c: &Case, b: Blob) -> &[u8] {
  &c.blob[b.0 as usize..(b.0 + b.1) as usize]
}
fn show(b: &[u8]) -> String {
  let s: String = String::from_utf8_lossy(&b[..b.len().min(60)]).chars().map(|c| if c.is_control() { '.' } else { c }).collect();
  format!("{} bytes {:?}", b.len(), s)
}

// --------------------------------------------------------- C20 containment
const OUT_DIRS: [&str; 3] = ["/srv/other", "/srv/ftpx", "/etc/app"];
fn hostile_world(r: &mut Rng) -> World {
  let mut w = World::default();
  w.dir(ROOT);
  w.file("/srv/secret.txt", b"SECRET0 top");
  w.file("/srv/other/SECRETfile.txt", b"SECRET1 other");
  w.file("/srv/other/sub/SECRETdeep.bin", b"SECRET2 deep");
  w.file("/srv/other/SECRET.CR2", b"SECRET5 raw");
  // a sibling whose name starts with the root's name
  w.file("/srv/ftpx/SECRETsib.txt", b"SECRET3 sibling");
  w.file("/etc/app/SECRETpasswd", b"SECRET4 root:x:0:0");
  // names no client ever mentions: seen in a listing, they come from outside
  for d in ["/srv", "/srv/other", "/srv/other/sub", "/srv/ftpx", "/etc/app"] {
    w.file(&format!("{}/OUTSIDEmark", d), b"SECRET6 mark");
    w.dir(&format!("{}/OUTSIDEdir", d));
  }
  w.file("/srv/ftp/a.txt", b"public");
  w.file("/srv/ftp/d/b.txt", b"public b");
  w.dir("/srv/ftp/d/e");
  w.link("/srv/ftp/out", "/srv/other");
  w.link("/srv/ftp/outf", "/srv/other/SECRETfile.txt");
  w.link("/srv/ftp/dang", "/srv/other/created.txt");
  w.link("/srv/ftp/d/up", "../..");
  w.link("/srv/ftp/d/rel", "../../other/sub");
  w.link("/srv/ftp/in", "d");
  w.link("/srv/ftp/inf.txt", "d/b.txt");
  w.link("/srv/ftp/sib", "/srv/ftpx");
  w.link("/srv/ftp/chain", "out/sub");
  if r.chance(300) {
    w.link("/srv/ftp/loop", "loop");
  }
  w
}
fn hostile_path(r: &mut Rng) -> String {
  const FIXED: [&str; 34] = [
    "..", "../", "/..", "../secret.txt", "/../secret.txt", "../../etc/app/SECRETpasswd", "/srv/secret.txt", "/etc/app/SECRETpasswd", "//etc/app", "d/../../secret.txt", "./../other", "d/e/../../../other/sub",
    "../ftpx", "../ftpx/SECRETsib.txt", "../ftpx/new.txt", "out", "out/", "out/SECRETfile.txt", "out/new.txt", "out/sub", "out/newdir", "outf", "dang", "d/up", "d/up/secret.txt", "d/rel/SECRETdeep.bin",
    "sib/SECRETsib.txt", "chain/SECRETdeep.bin", "chain/x.bin", "in/b.txt", "inf.txt", "../ftp/a.txt", "../ftp", "/",
  ];
  if r.chance(600) {
    return r.pick(&FIXED).to_string();
  }
  let mut v = vec![];
  for _ in 0..r.range(1, 5) {
    v.push(*r.pick(&["..", "..", ".", "", "d", "e", "out", "in", "up", "rel", "sub", "other", "srv", "ftp", "ftpx", "secret.txt", "SECRETfile.txt", "new", "a.txt", "..\\..", "%2e%2e", "....", "~", "..;"]));
  }
  let p = v.join("/");
  if r.chance(300) {
    format!("/{}", p)
  } else {
    p
  }
}
fn gen_c20(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = hostile_world(r);
  let mut clients = vec![];
  for _ in 0..r.range(1, 3) {
    let mut s = anon();
    for _ in 0..r.range(6, 22) {
      let p = hostile_path(r);
      s.push(match r.below(13) {
        0 => cmd(format!("CWD {}", p)),
        1 => cmd("CDUP"),
        2 => cmd(format!("MKD {}", p)),
        3 => cmd(format!("RMD {}", p)),
        4 => cmd(format!("DELE {}", p)),
        5 | 6 => {
          let d = content(r, 40);
          let b = w.st.put(&d);
          stor(r, &p, b, &[])
        }
        7 | 8 => retr(r, &p),
        9 => list(r, &format!("LIST {}", p)),
        10 => {
          let l = match r.below(4) {
            0 => format!("NLST {}/*", p),
            1 => "NLST *".into(),
            2 => format!("NLST {}*", p),
            _ => format!("NLST {}", p),
          };
          list(r, &l)
        }
        11 => list(r, "LIST"),
        _ => cmd("PWD"),
      });
    }
    clients.push(client(r, s));
  }
  let root = r.pick(&["/srv/ftp", "/srv/ftp/", "ftp", "./ftp", "/srv/../srv/ftp", "/srv/lnk"]).to_string();
  w.link("/srv/lnk", "/srv/ftp");
  let spec = server(r, &w, clients);
  let run = drv(&root, true, &[], spec);
  Ok(vec![ctx.case(vec![run], json!({}), w.st)])
}
fn gen_c20_conv(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = hostile_world(r);
  let img = good_img(r, 48, false).build();
  let b = w.st.put(&img);
  let mut s = anon();
  for _ in 0..r.range(2, 5) {
    if r.chance(500) {
      let d = hostile_path(r);
      s.push(cmd(format!("CWD {}", d)));
    }
    let p = hostile_path(r);
    let e = ext(r);
    let p = match r.below(4) {
      0 => format!("{}/x.{}", p, e),
      1 => format!("{}.{}", p, e),
      2 => format!("out/SECRET.{}", e),
      _ => format!("d/y.{}", e),
    };
    s.push(stor(r, &p, b, &[]));
  }
  let cl = client(r, s);
  let spec = server(r, &w, vec![cl]);
  let mut run = ftpserver(r.chance(500), spec);
  run.args.push(ROOT.into());
  Ok(vec![ctx.case(vec![run], json!({}), w.st)])
}
fn outside(fs: &Fs) -> BTreeMap<String, String> {
  fs.iter()
    .filter(|(p, _)| !p.starts_with("/srv/ftp/"))
    .map(|(p, e)| {
      (
        p.clone(),
        match &e.ent {
          Ent::Dir => "dir".to_string(),
          Ent::File(b) => format!("file {}", hex(&md5(b))),
          Ent::Link(t) => format!("link {}", t),
        },
      )
    })
    .collect()
}
fn has(hay: &[u8], needle: &[u8]) -> bool {
  hay.windows(needle.len()).any(|w| w == needle)
}
fn ora_c20(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let mut out = vec![];
  if let Some(x) = ended_srv(&rs[0]) {
    out.push(x);
  }
  if rs[0].hang {
    return out;
  }
  let a = outside(&init_fs(c));
  let b = outside(&rs[0].fs());
  for (p, e) in &a {
    match b.get(p) {
      None => out.push(v("outside-removed", format!("{} outside of the served directory is gone", p))),
      Some(x) if x != e => out.push(v("outside-changed", format!("{} outside of the served directory was changed", p))),
      _ => {}
    }
  }
  for p in b.keys() {
    if !a.contains_key(p) && !p.starts_with("/proc") && !p.starts_with("/dev") {
      out.push(v("outside-created", format!("{} was created outside of the served directory", p)));
    }
  }
  // short-lived effects
  for m in &rs[0].out.muts {
    if m.env || matches!(m.op, Op::Open) {
      continue;
    }
    for p in [&m.path, &m.path2] {
      if OUT_DIRS.iter().any(|d| p.starts_with(&format!("{}/", d))) || p.as_str() == "/srv/secret.txt" {
        out.push(v("outside-changed", format!("{:?} on {} outside of the served directory", m.op, p)));
      }
    }
  }
  let mut n = 0;
  for i in 0..rs[0].out.clients.len() {
    for x in history(&rs[0], i) {
      if let Some((d, _)) = &x.recv {
        n += 1;
        let names = matches!(x.verb().as_str(), "LIST" | "NLST");
        if has(d, b"OUTSIDE") || !names && (b'0'..=b'9').any(|k| has(d, &[&b"SECRET"[..], &[k]].concat())) {
          out.push(v("outside-read", format!("the answer to {:?} contains data from outside of the served directory: {}", x.line, show(d))));
        }
      }
    }
  }
  tally("data_connections_checked", n);
  out
}

// --------------------------------------------------------------- C21 login
fn gen_c21(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir(ROOT);
  w.file("/srv/ftp/doc.txt", b"PRIVATE document");
  w.file("/srv/ftp/dir/PRIVATEname.txt", b"PRIVATE other");
  let mut users: Vec<(&str, &str)> = vec![("alice", "wonder land")];
  if r.chance(700) {
    users.push(("bob", "b0b"));
  }
  if r.chance(250) {
    users.push(("guest", ""));
  }
  if r.chance(200) {
    users.push(("anonymous", "hunter2"));
  }
  if r.chance(250) {
    users.push((*r.pick(&["carol", "Zoë", "a b"]), *r.pick(&[" ", "  ", "pässword", "x ", "-"])));
  }
  let anonymous = r.chance(250);
  let mut clients = vec![];
  for _ in 0..r.range(1, 3) {
    let mut s = vec![Step::Connect];
    for _ in 0..r.range(5, 18) {
      let d = w.st.put(b"intruder data");
      s.push(match r.below(30) {
        0..=6 => {
          let n = *r.pick(&["alice", "alice", "bob", "guest", "anonymous", "mallory", "ALICE", "alice ", "", "root", "carol", "Zoë", "a b"]);
          cmd(if r.chance(100) { "USER".into() } else { format!("USER {}", n) })
        }
        7..=13 => {
          let p = *r.pick(&["wonder land", "wonder land", "b0b", "b0b", "", "WONDER LAND", "wonder", "wonder land ", "hunter2", "x", " ", "  ", "pässword", "x ", "-"]);
          cmd(if r.chance(100) { "PASS".into() } else { format!("PASS {}", p) })
        }
        14 => cmd("PWD"),
        15 => cmd("CWD dir"),
        16 => cmd("MKD made"),
        17 => cmd("DELE doc.txt"),
        18 => cmd("RMD dir"),
        19 => cmd("PASV"),
        20 => cmd("EPSV"),
        21 => cmd("CDUP"),
        22 => stor(r, "evil.txt", d, &[]),
        23 => retr(r, "doc.txt"),
        24 => list(r, "LIST"),
        25 => list(r, "NLST"),
        26 => cmd("PORT 127,0,0,1,150,3"),
        27 => cmd(*r.pick(&["STOR x", "RETR doc.txt", "LIST", "NLST"])),
        28 => cmd(*r.pick(&["NOOP", "SYST", "FEAT", "TYPE I", "AUTH TLS", "SITE X"])),
        _ => {
          if r.chance(500) {
            Step::Connect
          } else {
            cmd("QUIT")
          }
        }
      });
      // a passive announcement nobody connects to must not stall this script
      if matches!(s.last(), Some(Step::Cmd { line, .. }) if line == "PASV" || line == "EPSV") && r.chance(700) {
        s.push(Step::Connect);
      }
    }
    clients.push(client(r, s));
  }
  let spec = server(r, &w, clients);
  let run = drv(ROOT, anonymous, &users, spec);
  Ok(vec![ctx.case(vec![run], json!({}), w.st)])
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tri {
  No,
  Maybe,
  Yes,
}
fn ora_c21(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let mut out = vec![];
  if let Some(x) = ended_srv(&rs[0]) {
    return vec![x];
  }
  let a = &c.runs[0].args;
  let anonymous = a[3] == "1";
  let users: Vec<(&str, &str)> = a[4..].iter().filter_map(|u| u.split_once(':')).collect();
  let mut anyone = false;
  const NEED: [&str; 14] = ["CWD", "LIST", "NLST", "MKD", "RMD", "DELE", "STOR", "RETR", "PWD", "CDUP", "PASV", "EPSV", "PORT", "SIZE"];
  for i in 0..rs[0].out.clients.len() {
    let h = history(&rs[0], i);
    let mut logged = Tri::No;
    // account the next password is for: None = none, Some(Err) = unclear
    let mut pend: Option<Result<&str, ()>> = None;
    let mut quit = false;
    for x in &h {
      if x.line.is_empty() {
        logged = Tri::No;
        pend = None;
        quit = false;
        continue;
      }
      if x.fin().is_none() || quit {
        // the session is over (only after QUIT or a vanished client)
        continue;
      }
      let verb = x.verb();
      let has_arg = x.line.contains(' ');
      match verb.as_str() {
        "QUIT" => quit = true,
        "USER" if has_arg => {
          let n = x.arg();
          let acc: Vec<&(&str, &str)> = users.iter().filter(|u| u.0 == n).collect();
          if anonymous && n == "anonymous" {
            logged = Tri::Maybe;
            pend = Some(Err(()));
            if x.bad() {
              out.push(v("login-refused", format!("anonymous access is enabled but {:?} got {}", x.line, x.code())));
            }
          } else if let Some(u) = acc.first() {
            if u.1.is_empty() {
              // no password configured: the name alone is the login
              logged = if x.ok() { Tri::Yes } else { Tri::Maybe };
              pend = Some(Err(()));
            } else {
              if x.ok() {
                out.push(v("login-without-password", format!("{:?} alone logged in: {}", x.line, x.code())));
              }
              logged = Tri::No;
              pend = Some(Ok(u.0));
            }
          } else {
            if x.ok() {
              out.push(v("login-unknown", format!("{:?} is no account but got {}", x.line, x.code())));
            }
            if logged == Tri::Yes {
              logged = Tri::Maybe;
            }
            pend = if pend.is_some() || logged != Tri::No { Some(Err(())) } else { None };
            if logged == Tri::No {
              // a pending name may survive, but only its password may log in
              if let Some(Err(())) = pend {
                pend = Some(Err(()));
              }
            }
          }
        }
        "PASS" if has_arg => match (logged, pend) {
          (Tri::No, Some(Ok(n))) => {
            let good = users.iter().any(|u| u.0 == n && u.1 == x.arg());
            if good {
              if !x.ok() {
                out.push(v("login-refused", format!("the right password of {} got {}", n, x.code())));
              }
              logged = Tri::Yes;
              anyone = true;
            } else if x.ok() {
              out.push(v("login-wrong-password", format!("a wrong password for {} was accepted ({})", n, x.code())));
            }
          }
          (Tri::No, None) => {
            if x.ok() {
              out.push(v("login-without-user", format!("a password without a valid user name was accepted ({})", x.code())));
            }
          }
          _ => {
            // whoever is meant: only a configured password (or anonymous access) can work
            let possible = anonymous || users.iter().any(|u| u.1 == x.arg());
            if logged == Tri::No && !possible && x.ok() {
              out.push(v("login-wrong-password", format!("no account has this password, but it was accepted ({})", x.code())));
            }
            if possible && x.ok() {
              logged = Tri::Maybe;
              anyone = true;
            }
          }
        },
        o if NEED.contains(&o) => {
          if logged == Tri::No {
            tally("refusals_checked", 1);
            let shown = x.reps.iter().any(|r| r.code < 400) || x.recv.as_ref().map(|d| !d.0.is_empty()).unwrap_or(false);
            if shown {
              out.push(v("no-login-needed", format!("without a login {:?} was answered {:?}", x.line, x.reps.iter().map(|r| r.code).collect::<Vec<_>>())));
            }
          } else if logged == Tri::Yes && x.code() == 530 {
            out.push(v("login-forgotten", format!("after a valid login {:?} got 530", x.line)));
          }
        }
        _ => {}
      }
      if logged != Tri::No {
        anyone = true;
      }
    }
  }
  if !anyone {
    let f = |fs: &Fs| -> Vec<(String, Option<Vec<u8>>)> { fs.iter().filter(|(p, _)| p.starts_with(ROOT)).map(|(p, e)| (p.clone(), e.bytes().map(|b| b.to_vec()))).collect() };
    if f(&init_fs(c)) != f(&rs[0].fs()) {
      out.push(v("no-login-needed", "files changed although nobody ever logged in".to_string()));
    }
    for i in 0..rs[0].out.clients.len() {
      for x in history(&rs[0], i) {
        if let Some((d, _)) = &x.recv {
          if has(d, b"PRIVATE") {
            out.push(v("no-login-needed", format!("without a login {:?} delivered data", x.line)));
          }
        }
      }
    }
  } else {
    tally("cases_with_login", 1);
  }
  out
}

// -------------------------------------------------------- C22 byte-exactness
#[derive(Clone, Debug)]
struct W {
  val: Option<Vec<u8>>,
  b: u64,
  e: u64,
  ok: bool,
  who: String,
}
/// Values a register may hold during [b, e].
fn allowed(ws: &[W], b: u64, e: u64) -> Vec<&W> {
  ws.iter().filter(|w| w.b < e && !ws.iter().any(|o| o.ok && o.b > w.e && o.e < b)).collect()
}
/// All writes (uploads, deletions) to every path, in the namespace of the simulated disk.
fn writes(c: &Case, run: usize, res: &Res, base: &Fs) -> BTreeMap<String, Vec<W>> {
  let mut m: BTreeMap<String, Vec<W>> = BTreeMap::new();
  for (p, e) in base {
    if let (true, Some(b)) = (p.starts_with(ROOT), e.bytes()) {
      m.insert(p.clone(), vec![W { val: Some(b.to_vec()), b: 0, e: 0, ok: true, who: "initial".into() }]);
    }
  }
  for i in 0..res.out.clients.len() {
    for x in history(res, i) {
      let (seq, e) = (x.seq, x.fin().map(|r| r.seq).unwrap_or(u64::MAX));
      let path = match x.verb().as_str() {
        "STOR" | "DELE" => format!("{}/{}", ROOT, x.arg().trim_start_matches('/')),
        _ => continue,
      };
      let ws = m.entry(path).or_insert_with(|| vec![W { val: None, b: 0, e: 0, ok: true, who: "initially absent".into() }]);
      if x.verb() == "DELE" {
        ws.push(W { val: None, b: seq, e, ok: x.ok(), who: format!("client {} DELE", i) });
        continue;
      }
      if let Some(Step::Stor { data, end, .. }) = steps(c, run, i).get(x.step) {
        let d = blob(c, *data);
        let val = match end {
          DataEnd::Fin => d.to_vec(),
          DataEnd::FinAt(n) => d[..(*n as usize).min(d.len())].to_vec(),
          // reset connections are failed uploads; nothing but the full data could ever be right
          _ => d.to_vec(),
        };
        ws.push(W { val: Some(val), b: seq, e, ok: x.ok(), who: format!("client {} step {}", i, x.step) });
      }
    }
  }
  m
}
fn explain(ws: &[&W], got: Option<&[u8]>, all: &[W]) -> String {
  let mut s = match got {
    None => "is absent".to_string(),
    Some(g) => {
      let mut k = format!("holds {} bytes", g.len());
      for w in all {
        if let Some(x) = &w.val {
          if x == g {
            k.push_str(&format!(" (those of {})", w.who));
          } else if !g.is_empty() && x.len() > g.len() && x.starts_with(g) {
            k.push_str(&format!(" (a truncated copy of {})", w.who));
          }
        }
      }
      k
    }
  };
  s.push_str("; possible: ");
  s.push_str(&ws.iter().map(|w| format!("{} ({})", w.who, w.val.as_ref().map(|x| x.len().to_string()).unwrap_or("absent".into()))).collect::<Vec<_>>().join(", "));
  s
}
fn check_reg(out: &mut Vec<Viol>, key: &str, what: &str, ws: &[W], got: Option<&[u8]>, b: u64, e: u64) {
  let al = allowed(ws, b, e);
  if !al.iter().any(|w| w.val.as_deref() == got) {
    out.push(v(key, format!("{} {}", what, explain(&al, got, ws))));
  }
}
fn xfer_case(ctx: &mut Ctx, aborts: bool) -> Case {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir("/srv/ftp/d");
  let names = ["/x.bin", "/y.jpg", "/d/x.bin", "/readme"];
  for n in names {
    if r.chance(400) {
      let k = size(r);
      let d = content(r, k);
      w.file(&format!("{}{}", ROOT, n), &d);
    }
  }
  let nc = r.range(1, 4);
  let hot = r.chance(600);
  let mut clients = vec![];
  for _ in 0..nc {
    let mut s = anon();
    if r.chance(500) {
      s.push(cmd(*r.pick(&["TYPE I", "TYPE A"])));
    }
    for _ in 0..r.range(1, 5) {
      if r.chance(60) {
        // an announced data connection that is given up for a new one
        s.push(Step::DropNoData { mode: mode(r) });
      }
      let n = if hot { names[0] } else { *r.pick(&names) };
      let full = format!("{}{}", ROOT, n);
      match r.below(10) {
        0..=4 => {
          let k = size(r);
          let d = content(r, k);
          let b = w.st.put(&d);
          let mut st = stor(r, n, b, &[&full]);
          if aborts && r.chance(400) {
            if let Step::Stor { end, .. } = &mut st {
              let at = r.below(k + 1);
              *end = match r.below(5) {
                0 | 1 => DataEnd::RstAt(at),
                2 => DataEnd::FinAt(at),
                3 => DataEnd::DropAllAt(at),
                _ => DataEnd::NeverOpen,
              };
            }
          }
          let drop = matches!(&st, Step::Stor { end: DataEnd::DropAllAt(_), .. });
          s.push(st);
          if drop {
            s.extend(anon());
          }
        }
        5..=7 => {
          let mut st = retr(r, n);
          if aborts && r.chance(200) {
            if let Step::Retr { stop_at, .. } = &mut st {
              *stop_at = Some(r.below(20_000));
            }
          }
          s.push(st);
        }
        8 => s.push(cmd(format!("DELE {}", n))),
        _ => s.push(Step::Peek(vec![full])),
      }
    }
    clients.push(client(r, s));
  }
  let spec = server(r, &w, clients);
  let run = drv(ROOT, true, &[], spec);
  ctx.case(vec![run], json!({"clean": !aborts}), w.st)
}
fn gen_c22(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  Ok(vec![xfer_case(ctx, false)])
}
/// Files as large as real pictures.
fn gen_c22_bulk(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let thorough = ctx.thorough;
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir(ROOT);
  let n = if thorough { r.range(1 << 20, 120 << 20) } else { r.range(1 << 20, 72 << 20) };
  let d = content(r, n);
  let b = w.st.put(&d);
  let mut s = anon();
  s.push(stor(r, "/large.bin", b, &["/srv/ftp/large.bin"]));
  s.push(retr(r, "/large.bin"));
  s.push(cmd("QUIT"));
  let mut c = client(r, s);
  c.seg = 0;
  c.window = 0;
  c.think = 0;
  let mut spec = server(r, &w, vec![c]);
  spec.short_read_pm = spec.short_read_pm.min(20);
  spec.short_write_pm = spec.short_write_pm.min(20);
  spec.sndbuf = 0;
  let run = drv(ROOT, true, &[], spec);
  Ok(vec![ctx.case(vec![run], json!({"clean": true}), w.st)])
}
fn gen_c22_abort(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  Ok(vec![xfer_case(ctx, true)])
}
fn data_op(op: Op, p: &str) -> bool {
  (p.starts_with(ROOT) && matches!(op, Op::Open | Op::Create | Op::Read | Op::Write | Op::Fsync | Op::Rename | Op::Close | Op::Truncate | Op::Unlink | Op::Link | Op::Fstat | Op::Stat | Op::Realpath))
    || (p.starts_with("data") && matches!(op, Op::Recv | Op::Send))
}
fn gen_c22_fault(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let ab = ctx.rng.chance(300);
  let base = xfer_case(ctx, ab);
  fault_cases(ctx, &base, 4, data_op)
}
fn gen_c22_disk(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let mut c = xfer_case(ctx, false);
  c.runs[0].spec.disk_free = Some(ctx.rng.below(60_000));
  c.runs[0].spec.disk_prefix = ROOT.into();
  c.meta["clean"] = false.into();
  Ok(vec![c])
}
fn ora_c22(c: &Case, rs: &[Res]) -> Vec<Viol> {
  if let Some(x) = ended_srv(&rs[0]) {
    return vec![x];
  }
  let mut out = vec![];
  let clean = c.meta["clean"].as_bool().unwrap_or(false);
  let m = writes(c, 0, &rs[0], &init_fs(c));
  for i in 0..rs[0].out.clients.len() {
    for x in history(&rs[0], i) {
      for (p, st, seq) in &x.peeks {
        let absent = vec![W { val: None, b: 0, e: 0, ok: true, who: "initially absent".into() }];
        let ws = m.get(p).unwrap_or(&absent);
        let got = match st {
          PeekState::File(b) => Some(rs[0].get(*b)),
          _ => None,
        };
        tally("file_states_checked", 1);
        let key = if x.verb() == "STOR" && x.ok() { "stored-bytes" } else { "file-state" };
        check_reg(&mut out, key, &format!("after {:?} ({}) of client {} the file", x.line, x.code(), i), ws, got, *seq, *seq + 1);
      }
      match x.verb().as_str() {
        "STOR" => {
          if let Some(Step::Stor { data, end, .. }) = steps(c, 0, i).get(x.step) {
            let len = data.1;
            let cut = match end {
              DataEnd::RstAt(n) | DataEnd::DropAllAt(n) => *n < len,
              DataEnd::NeverOpen => true,
              _ => false,
            };
            if x.ok() && cut {
              out.push(v("ack-aborted", format!("{:?} of client {} was acknowledged ({}) although the data connection was broken off", x.line, i, x.code())));
            }
            let short = matches!(end, DataEnd::Fin) && !matches!(x.sent, Some((_, true)));
            if x.ok() && short {
              out.push(v("ack-incomplete", format!("{:?} of client {} was acknowledged although not all data had been sent", x.line, i)));
            }
            if clean && matches!(end, DataEnd::Fin) && x.fin().is_some() && !x.ok() {
              out.push(v("refused", format!("without any fault {:?} of client {} got {:?}", x.line, i, x.reps)));
            }
          }
          if x.ok() {
            tally("uploads_acknowledged", 1);
          } else {
            tally("uploads_failed", 1);
          }
        }
        "RETR" => {
          let p = format!("{}/{}", ROOT, x.arg().trim_start_matches('/'));
          let absent = vec![W { val: None, b: 0, e: 0, ok: true, who: "initially absent".into() }];
          let ws = m.get(&p).unwrap_or(&absent);
          let e = x.fin().map(|r| r.seq).unwrap_or(u64::MAX);
          let stopped = matches!(steps(c, 0, i).get(x.step), Some(Step::Retr { stop_at: Some(_), .. }));
          if x.ok() && !stopped {
            tally("downloads_checked", 1);
            match &x.recv {
              Some((d, true)) => check_reg(&mut out, "sent-bytes", &format!("download {:?} of client {} was reported complete and", x.line, i), ws, Some(d), x.seq, e),
              _ => out.push(v("sent-bytes", format!("download {:?} of client {} was reported complete without a complete data connection", x.line, i))),
            }
          } else if clean && x.fin().is_some() && !x.ok() {
            let al = allowed(ws, x.seq, e);
            if al.iter().all(|w| w.val.is_some()) {
              out.push(v("refused", format!("without any fault {:?} of client {} got {:?}", x.line, i, x.reps)));
            }
          }
        }
        _ => {}
      }
    }
  }
  // nothing but complete versions at the end
  let fs = rs[0].fs();
  for (p, ws) in &m {
    check_reg(&mut out, "file-state", &format!("at the end {}", p), ws, fs.get(p).and_then(|e| e.bytes()), u64::MAX - 1, u64::MAX);
  }
  out.extend(strays(c, 0, &rs[0], &init_fs(c)));
  out
}

/// Files nobody asked for, once every upload has been answered.
fn strays(c: &Case, run: usize, res: &Res, before: &Fs) -> Vec<Viol> {
  let mut asked = std::collections::BTreeSet::new();
  for i in 0..res.out.clients.len() {
    for x in history(res, i) {
      if x.verb() == "STOR" {
        if x.fin().is_none() {
          return vec![];
        }
        let path = format!("{}/{}", ROOT, x.arg().trim_start_matches('/'));
        let (d, name) = split(&path);
        asked.insert(format!("{}/{}.dng", d, stem_of(&name)));
        asked.insert(path);
      }
    }
  }
  if fault_fired(c, run, res, Op::Unlink) {
    return vec![];
  }
  tally("leftovers_checked", 1);
  res
    .fs()
    .iter()
    .filter(|(p, e)| p.starts_with(ROOT) && e.bytes().is_some() && !before.contains_key(*p) && !asked.contains(*p))
    .map(|(p, _)| v("left-behind", format!("all uploads are answered, but {} nobody uploaded is still there", p)))
    .collect()
}

// ------------------------------------------------------ C23 one final reply
const PIPE: [(&str, &[u32]); 22] = [
  ("NOOP", &[200]),
  ("noop", &[200]),
  ("PWD", &[257]),
  ("SYST", &[215]),
  ("TYPE I", &[200]),
  ("Type A", &[200]),
  ("FEAT", &[211]),
  ("CDUP", &[200, 250]),
  ("XYZZY", &[500, 502]),
  ("SITE CHMOD 1 x", &[500, 502, 504]),
  ("", &[500, 501, 502]),
  (" ", &[500, 501, 502]),
  ("CWD nosuch", &[550, 553, 501]),
  ("CWD d", &[250]),
  ("CWD", &[500, 501, 504]),
  ("TYPE", &[500, 501, 504]),
  ("TYPE X", &[500, 501, 504]),
  ("PORT 1,2,3", &[500, 501, 504]),
  ("DELE nosuch", &[450, 550, 553]),
  ("RETR", &[500, 501, 504]),
  ("MKD", &[500, 501, 504]),
  ("USER", &[500, 501, 504, 530]),
];
fn want(line: &str) -> Option<&'static [u32]> {
  PIPE.iter().find(|x| x.0 == line).map(|x| x.1)
}
fn gen_c23(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.file("/srv/ftp/x.bin", b"hello");
  w.file("/srv/ftp/d/y.bin", b"hello y");
  w.link("/srv/ftp/dang", "nowhere");
  let mut clients = vec![];
  let nc = r.range(1, 2);
  for k in 0..nc {
    let mut s = if r.chance(150) { vec![Step::Connect] } else { anon() };
    for j in 0..r.range(4, 14) {
      let q = true;
      match r.below(12) {
        0..=2 => {
          let n = r.range(1, 8);
          let mut b = vec![];
          for _ in 0..n {
            b.extend_from_slice(r.pick(&PIPE).0.as_bytes());
            b.extend_from_slice(b"\r\n");
          }
          let bl = w.st.put(&b);
          s.push(Step::Raw { bytes: bl, finals: n as u32, quiet: q });
        }
        3 => {
          let b: &[u8] = match r.below(13) {
            8 => b"NOOP a\rb\r\n",
            9 => b"PWD\rPWD\r\n",
            10 => b"CWD nosuch\r\r\n",
            11 => b"\rNOOP\r\n",
            12 => b"DELE no\rsuch\r\n",
            0 => b"CWD \xff\xfe\r\n",
            1 => b"\xff\xff\r\n",
            2 => b"USER \xff\r\n",
            3 => b"MKD a\nb\r\n",
            4 => b"CWD x\n226 fake\r\n",
            5 => b"NOO\0P\r\n",
            6 => b"DELE a\0b\r\n",
            _ => b"STOR \xff\r\n",
          };
          let bl = w.st.put(b);
          s.push(Step::Raw { bytes: bl, finals: 1, quiet: q });
        }
        4 => {
          let l = match r.below(26) {
            0 => "RETR x.bin".into(),
            1 => "STOR n.bin".into(),
            2 => "LIST".into(),
            3 => "NLST".into(),
            4 => "LIST nosuch".into(),
            5 => "RETR nosuch".into(),
            6 => "EPSV ALL".into(),
            7 => "EPSV 1".into(),
            8 => "EPSV 2".into(),
            9 => "PORT 127,0,0,1,3,1".into(),
            10 => "PORT 127,0,0,1,200,9".into(),
            11 => "PORT a,b,c,d,e,f".into(),
            12 => format!("MKD m{}{}", k, j),
            13 => "RMD nosuch".into(),
            14 => "RMD x.bin".into(),
            15 => "DELE d".into(),
            16 => "PASS again".into(),
            17 => "USER anonymous".into(),
            18 => "USER nobody".into(),
            19 => "USER ".into(),
            20 => "RMD /".into(),
            21 => "CWD ..".into(),
            22 => "MKD /".into(),
            23 => "AUTH TLS".into(),
            24 => "PASV".into(),
            _ => "EPSV".into(),
          };
          s.push(Step::Cmd { line: l, quiet: q });
        }
        5 => {
          let p = *r.pick(&["x.bin", "new.bin", "../up.bin", "nodir/x", "d", "/d/z.bin", "a/../b", "/", "", "."]);
          let n = size(r) % 5000;
          let d = content(r, n);
          let b = w.st.put(&d);
          let mut st = stor(r, p, b, &[]);
          if let Step::Stor { end, quiet, .. } = &mut st {
            *quiet = q;
            if r.chance(350) {
              *end = match r.below(3) {
                0 => DataEnd::RstAt(r.below(n + 1)),
                1 => DataEnd::FinAt(r.below(n + 1)),
                _ => DataEnd::NeverOpen,
              };
            }
          }
          s.push(st);
        }
        6 => {
          let p = *r.pick(&["x.bin", "d/y.bin", "nosuch", "d", "../x", "dang", "/", ""]);
          s.push(Step::Retr { path: p.into(), mode: mode(r), stop_at: if r.chance(150) { Some(2) } else { None }, quiet: q });
        }
        7 => {
          let l = *r.pick(&["LIST", "LIST d", "LIST nosuch", "LIST ..", "LIST x.bin", "NLST", "NLST *", "NLST nosuch", "NLST ***", "NLST [", "NLST /", "NLST d", "LIST dang", "LIST -la"]);
          s.push(Step::List { line: l.into(), mode: mode(r), quiet: q });
        }
        8 => s.push(Step::DropNoData { mode: mode(r) }),
        9 => {
          s.push(Step::OpenData { mode: r.pick(&[Mode::Passive, Mode::Epsv]).clone() });
          match r.below(4) {
            0 => s.push(Step::CloseData { rst: r.chance(500) }),
            1 => s.push(Step::Cmd { line: (*r.pick(&["PASV", "EPSV", "NOOP", "PWD"])).into(), quiet: q }),
            _ => {}
          }
        }
        10 => s.push(Step::Quiet(400_000)),
        _ => s.push(Step::Cmd { line: r.pick(&PIPE).0.to_string(), quiet: q }),
      }
    }
    if r.chance(300) {
      s.push(Step::Cmd { line: "QUIT".into(), quiet: true });
    }
    clients.push(client(r, s));
  }
  let spec = server(r, &w, clients);
  let run = drv(ROOT, true, &[], spec);
  Ok(vec![ctx.case(vec![run], json!({}), w.st)])
}
fn gen_c23_fault(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let base = gen_c23(ctx)?.remove(0);
  fault_cases(ctx, &base, 4, |op, p| {
    (p.starts_with(ROOT) && io_op(op)) || (p.starts_with("data") && matches!(op, Op::Recv | Op::Send)) || (p.starts_with("pasv") && matches!(op, Op::Bind | Op::Listen | Op::Socket))
  })
}
fn ora_c23(c: &Case, rs: &[Res]) -> Vec<Viol> {
  if let Some(x) = ended_srv(&rs[0]) {
    return vec![x];
  }
  let mut out = vec![];
  for i in 0..rs[0].out.clients.len() {
    let h = history(&rs[0], i);
    let mut quit: BTreeMap<u32, bool> = BTreeMap::new();
    let mut authed: BTreeMap<u32, bool> = BTreeMap::new();
    for (k, x) in h.iter().enumerate() {
      if x.line == "!connect" {
        out.push(v("no-connection", "the server does not accept connections".to_string()));
        continue;
      }
      let q = quit.entry(x.session).or_insert(false);
      let was_quit = *q;
      let lines: Vec<&str> = if x.line.ends_with("\r\n") { x.line[..x.line.len() - 2].split("\r\n").collect() } else { vec![&x.line] };
      if lines.iter().any(|l| l.eq_ignore_ascii_case("QUIT")) {
        *q = true;
      }
      if was_quit {
        continue;
      }
      let label = if x.line.is_empty() { "the greeting".to_string() } else { format!("{:?}", x.line) };
      let st = steps(c, 0, i).get(x.step);
      let want_n = lines.len();
      let n = x.finals();
      tally("commands_checked", want_n as u64);
      if x.reps.iter().any(|r| r.code < 100 || r.code > 599) {
        out.push(v("bad-reply-line", format!("{}: broken reply line {:?}", label, x.reps.iter().map(|r| r.text.clone()).collect::<Vec<_>>())));
        break;
      }
      if n > want_n {
        out.push(v("extra-reply", format!("{} got {} final replies: {:?}", label, n, x.reps.iter().map(|r| r.code).collect::<Vec<_>>())));
        break;
      }
      let alive = x.eof.is_none();
      if n < want_n {
        if x.timeout && matches!(st, Some(Step::Cmd { .. } | Step::Raw { .. })) && x.reps.last().is_some_and(|r| !r.fin && r.code < 200) {
          // a transfer over a data connection this client never uses: its own fault
          break;
        }
        if x.timeout {
          out.push(v("no-reply", format!("{} got {} of {} final replies within 600 s: {:?}", label, n, want_n, x.reps.iter().map(|r| r.code).collect::<Vec<_>>())));
          break;
        }
        if !alive && !*q {
          out.push(v("session-dropped", format!("the server ended the session instead of answering {}", label)));
          break;
        }
        // the script went on or ended while waiting (client side): nothing to say
        continue;
      }
      if !alive && !*q {
        out.push(v("session-dropped", format!("the server ended the session after {}", label)));
        break;
      }
      // order of pipelined replies
      let a = authed.entry(x.session).or_insert(false);
      if matches!(st, Some(Step::Raw { .. })) && want_n > 0 && *a {
        let fin: Vec<u32> = x.reps.iter().filter(|r| r.fin).map(|r| r.code).collect();
        for (l, code) in lines.iter().zip(&fin) {
          // a malformed user command may or may not end the login
          if l.to_uppercase().starts_with("USER") {
            *a = false;
          }
          if !*a {
            break;
          }
          if let Some(w) = want(l) {
            if !w.contains(code) && !(w.contains(&250) || w.contains(&257) || w.contains(&550)) {
              out.push(v("reply-order", format!("pipelined {:?} got {:?}: {:?} is not answered by {}", lines, fin, l, code)));
              break;
            }
          }
        }
      }
      match x.verb().as_str() {
        "PASS" if x.ok() => *a = true,
        "USER" => *a = false,
        _ => {}
      }
      if x.verb() == "QUIT" && x.code() != 221 {
        out.push(v("quit", format!("QUIT got {:?}", x.reps)));
      }
      let _ = k;
    }
  }
  out
}

// -------------------------------------------------------- C24 isolation
fn good_session(r: &mut Rng, w: &mut World, i: usize) -> Vec<Step> {
  let mut s = anon();
  let n = size(r);
  let d = content(r, n);
  let b = w.st.put(&d);
  let dir = format!("g{}", i);
  s.push(cmd(format!("MKD {}", dir)));
  s.push(cmd(format!("CWD {}", dir)));
  for _ in 0..r.range(1, 3) {
    let f = "f.bin".to_string();
    s.push(stor(r, &f, b, &[]));
    s.push(list(r, "LIST"));
    s.push(retr(r, &f));
    s.push(cmd("PWD"));
    if r.chance(500) {
      s.push(Step::Sleep(r.below(40_000_000)));
    }
    s.push(cmd(format!("DELE {}", f)));
  }
  if r.chance(400) {
    // and once more from the start
    s.push(cmd("QUIT"));
    s.extend(anon());
    s.push(cmd(format!("CWD {}", dir)));
    s.push(stor(r, "f.bin", b, &[]));
    s.push(retr(r, "f.bin"));
  }
  s.push(cmd("QUIT"));
  s
}
fn bad_session(r: &mut Rng, w: &mut World) -> Vec<Step> {
  let mut s = if r.chance(800) { anon() } else { vec![Step::Connect] };
  for _ in 0..r.range(1, 8) {
    let n = size(r);
    let d = content(r, n);
    let b = w.st.put(&d);
    match r.below(16) {
      0 => {
        let end = match r.below(4) {
          0 => DataEnd::RstAt(r.below(n + 1)),
          1 => DataEnd::DropAllAt(r.below(n + 1)),
          2 => DataEnd::FinAt(r.below(n + 1)),
          _ => DataEnd::NeverOpen,
        };
        s.push(Step::Stor { path: format!("bad{}.bin", r.below(3)), data: b, mode: mode(r), end, peek: vec![], quiet: false });
      }
      1 => s.push(Step::Retr { path: "/big.bin".into(), mode: mode(r), stop_at: Some(r.below(30_000)), quiet: false }),
      2 => {
        s.push(Step::DropNoData { mode: mode(r) });
        s.push(Step::Sleep(r.below(100_000_000)));
      }
      3 => {
        s.push(Step::OpenData { mode: mode(r) });
        s.push(Step::Sleep(r.below(100_000_000)));
        s.push(Step::CloseData { rst: r.chance(500) });
      }
      4 => {
        // one endless line
        let n = *r.pick(&[3000u64, 20_000, 200_000]);
        let g = vec![b'A' + r.below(26) as u8; n as usize];
        let bl = w.st.put(&g);
        s.push(Step::Raw { bytes: bl, finals: 0, quiet: false });
        s.push(Step::Sleep(r.below(5_000_000)));
      }
      5 => {
        let n = r.below(600);
        let g: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        let bl = w.st.put(&g);
        s.push(Step::Raw { bytes: bl, finals: 0, quiet: false });
        s.push(Step::Sleep(100_000));
      }
      6 => s.push(Step::Close(true)),
      7 => s.push(Step::Close(false)),
      8 => s.push(Step::Connect),
      9 => {
        s.push(Step::Connect);
        s.push(Step::Close(r.chance(500)));
        s.push(Step::Connect);
      }
      10 => {
        let g = b"LIST\r\nRETR x\r\nPASV\r\nSTOR y\r\nEPSV\r\nPWD\r\n".repeat(r.range(1, 10) as usize);
        let bl = w.st.put(&g);
        s.push(Step::Raw { bytes: bl, finals: 0, quiet: false });
      }
      11 => s.push(cmd(*r.pick(&["RMD nosuch", "CWD ..", "PORT 127,0,0,1,4,1", "QUIT", "USER x", "STOR", "TYPE"]))),
      12 => s.push(Step::Sleep(r.below(200_000_000))),
      13 => s.push(Step::Stor { path: "slow.bin".into(), data: b, mode: mode(r), end: DataEnd::Fin, peek: vec![], quiet: false }),
      14 => s.push(list(r, "NLST *")),
      _ => s.push(Step::Close(true)),
    }
    if r.chance(200) {
      s.extend(anon());
    }
  }
  if r.chance(500) {
    s.push(Step::Close(r.chance(600)));
  }
  s
}
fn gen_c24(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let thorough = ctx.thorough;
  let r = &mut ctx.rng;
  let mut w = World::default();
  let big = content(r, 200_000);
  w.file("/srv/ftp/big.bin", &big);
  let mut clients = vec![];
  let mut good = vec![];
  for i in 0..r.range(1, 2) {
    let s = good_session(r, &mut w, i as usize);
    let mut c = client(r, s);
    c.window = 0;
    c.think = c.think.min(300);
    good.push(c.seed);
    clients.push(c);
  }
  for _ in 0..r.range(1, if thorough { 8 } else { 4 }) {
    let s = bad_session(r, &mut w);
    let mut c = client(r, s);
    if r.chance(300) {
      c.window = *r.pick(&[1, 10, 100]);
      c.think = 500_000;
    }
    clients.push(c);
  }
  let mut spec = server(r, &w, clients);
  spec.short_read_pm = spec.short_read_pm.min(100);
  spec.short_write_pm = spec.short_write_pm.min(100);
  if r.chance(500) {
    for _ in 0..r.range(1, 2) {
      let e = errno(r, Op::Accept);
      spec.faults.push(Fault { op: Op::Accept, path: "listen".into(), nth: r.below(4) as u32, count: *r.pick(&[1, 1, 3, 10]), act: Act::Err(e) });
    }
  }
  let run = drv(ROOT, true, &[], spec);
  Ok(vec![ctx.case(vec![run], json!({"good": good}), w.st)])
}
/// Sessions that come and go by the dozen, each ending badly.
fn storm(r: &mut Rng, w: &mut World, n: u64) -> Vec<Step> {
  let mut s = vec![];
  let raw = w.st.put(b"PASV\r\nLIST\r\n");
  let half = w.st.put(b"US");
  let long = w.st.put(&vec![b'x'; 20_000]);
  let file = w.st.put(b"some bytes");
  for _ in 0..n {
    if r.chance(500) {
      s.extend(anon());
    } else {
      s.push(Step::Connect);
    }
    match r.below(9) {
      0 => s.push(Step::Raw { bytes: raw, finals: 0, quiet: false }),
      1 => s.push(Step::Raw { bytes: half, finals: 0, quiet: false }),
      2 => s.push(Step::Raw { bytes: long, finals: 0, quiet: false }),
      3 => s.push(Step::DropNoData { mode: mode(r) }),
      4 => s.push(Step::OpenData { mode: mode(r) }),
      5 => s.push(Step::Stor { path: "n.bin".into(), data: file, mode: mode(r), end: DataEnd::DropAllAt(r.below(11)), peek: vec![], quiet: false }),
      _ => {}
    }
    s.push(Step::Close(r.chance(800)));
  }
  s
}
fn gen_c24_storm(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir(ROOT);
  let mut clients = vec![];
  let mut s = vec![Step::Sleep(600_000_000)];
  s.extend(good_session(r, &mut w, 0));
  let mut g = client(r, s);
  g.window = 0;
  g.think = 0;
  let good = vec![g.seed];
  clients.push(g);
  for _ in 0..r.range(1, 4) {
    let n = r.range(10, 70);
    let s = storm(r, &mut w, n);
    let mut c = client(r, s);
    c.seg = 0;
    c.think = c.think.min(300);
    clients.push(c);
  }
  let mut spec = server(r, &w, clients);
  spec.short_read_pm = spec.short_read_pm.min(50);
  spec.short_write_pm = spec.short_write_pm.min(50);
  let run = drv(ROOT, true, &[], spec);
  Ok(vec![ctx.case(vec![run], json!({"good": good}), w.st)])
}
/// Next to clients that upload files the converter chokes on.
fn gen_c24_conv(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir(ROOT);
  let mut clients = vec![];
  let s = good_session(r, &mut w, 0);
  let mut g = client(r, s);
  g.window = 0;
  g.think = g.think.min(300);
  let good = vec![g.seed];
  clients.push(g);
  for k in 0..r.range(1, 3) {
    let mut s = anon();
    for j in 0..r.range(1, 4) {
      let img = if r.chance(700) { bad_img(r) } else { good_img(r, 60, true) };
      let mut d = if r.chance(500) { damaged(r) } else { img.build() };
      if r.chance(150) {
        let n = r.below(d.len() as u64 + 1) as usize;
        d.truncate(n);
      }
      let b = w.st.put(&d);
      let e = ext(r);
      let n = format!("bad{}-{}.{}", k, j, e);
      s.push(stor(r, &n, b, &[]));
    }
    clients.push(client(r, s));
  }
  let spec = server(r, &w, clients);
  let mut run = ftpserver(r.chance(500), spec);
  run.args.push(ROOT.into());
  Ok(vec![ctx.case(vec![run], json!({"good": good}), w.st)])
}
fn ora_c24(c: &Case, rs: &[Res]) -> Vec<Viol> {
  if too_big(&rs[0]) {
    tally("claimed_more_than_memory", 1);
    return vec![];
  }
  if let Some(x) = ended_srv(&rs[0]) {
    return vec![x];
  }
  let mut out = vec![];
  let good: Vec<u64> = c.meta["good"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
  for i in 0..rs[0].out.clients.len() {
    let cl = &c.runs[0].spec.clients[i];
    if !good.contains(&cl.seed) {
      continue;
    }
    let mut cur: Option<Vec<u8>> = None;
    // the minimiser may have removed steps: only promise what follows from the commands really sent
    let mut ready: BTreeMap<u32, (bool, bool)> = BTreeMap::new();
    let mut made = false;
    for x in history(&rs[0], i) {
      let name = if x.line.is_empty() { "connecting".to_string() } else { format!("{:?}", x.line) };
      if x.line == "!connect" || x.eof.is_some() && x.verb() != "QUIT" || x.timeout || x.fin().is_none() {
        out.push(v("disturbed", format!("well-behaved client: {} was not answered (eof {:?}, time-out {})", name, x.eof, x.timeout)));
        break;
      }
      let f = x.fin().unwrap();
      let took = f.t.saturating_sub(x.t) / 1_000_000;
      if took > 20_000 {
        out.push(v("delayed", format!("well-behaved client: {} took {} ms", name, took)));
        break;
      }
      let st = ready.entry(x.session).or_insert((false, false));
      let mut need = |ok: bool| {
        if !ok {
          out.push(v("disturbed", format!("well-behaved client: {} got {:?}", name, x.reps)));
        }
      };
      match x.verb().as_str() {
        "" => need(x.code() == 220),
        "PASS" => {
          st.0 = x.ok();
        }
        _ if !st.0 => {}
        "MKD" => {
          need(x.code() == 257 || made);
          made = true;
        }
        "CWD" => {
          if made {
            need(x.ok());
            st.1 = true;
          }
        }
        "PWD" | "PASV" | "EPSV" | "PORT" | "QUIT" => need(x.ok()),
        _ if !st.1 => {}
        "STOR" => {
          need(x.ok());
          if let Some(Step::Stor { data, .. }) = cl.steps.get(x.step) {
            cur = Some(blob(c, *data).to_vec());
          }
        }
        "RETR" => {
          if let Some(d) = &cur {
            need(x.ok());
            if x.recv.as_ref().map(|r| &r.0) != Some(d) {
              out.push(v("disturbed", format!("well-behaved client: download differs: {:?}", x.recv.as_ref().map(|r| r.0.len()))));
            }
          }
        }
        "LIST" => {
          need(x.ok());
          if let Some(d) = &cur {
            let t = x.recv.as_ref().map(|r| String::from_utf8_lossy(&r.0).into_owned()).unwrap_or_default();
            if !t.lines().any(|l| l.ends_with(" f.bin") && l.contains(&format!(" {} ", d.len()))) {
              out.push(v("disturbed", format!("well-behaved client: the file is missing in the listing {:?}", t)));
            }
          }
        }
        "DELE" => {
          if cur.is_some() {
            need(x.ok());
          }
          cur = None;
        }
        _ => {}
      }
      tally("good_commands", 1);
    }
  }
  out
}

// ----------------------------------------------------- C25 conversion server
fn ftpserver(keep: bool, spec: Spec) -> Run {
  let mut a: Vec<String> = vec!["ftpserver".into(), "--port".into(), PORT.to_string()];
  a.push("--keep-original".into());
  a.push(keep.to_string());
  Run { bin: "dnglab".into(), args: a, env: vec![], spec, carry: false, put: vec![] }
}
fn conv_meta(m: &Conv, a: &mut Vec<String>) {
  let mut p = |s: &str| a.push(s.to_string());
  if !m.lossless {
    p("-c");
    p("uncompressed");
  }
  if !m.embed {
    p("--embed-raw");
    p("false");
  }
  if !m.thumb {
    p("--dng-thumbnail");
    p("false");
  }
  if !m.preview {
    p("--dng-preview");
    p("false");
  }
  if m.keep_mtime {
    p("--keep-mtime");
    p("true");
  }
}
fn conv_case(ctx: &mut Ctx, collide: bool, bad_pm: u32) -> Case {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir("/srv/ftp/d");
  let mut m = Conv { clean: true, lossless: r.chance(600), embed: r.chance(600), thumb: r.chance(500), preview: r.chance(400), pred: 1, keep_mtime: r.chance(400), ..Default::default() };
  let keep = r.chance(400);
  let nc = if collide { r.range(2, 3) } else { r.range(1, 2) };
  let mut clients = vec![];
  let shared = format!("IMG_{}", r.below(9));
  for _ in 0..nc {
    let mut s = anon();
    for _ in 0..r.range(1, 2) {
      let dir = *r.pick(&["/", "/d/"]);
      let dir = if collide { "/" } else { dir };
      if r.chance(150) {
        let k = size(r) % 9000;
        let d = content(r, k);
        let b = w.st.put(&d);
        // names that are not those of raw files, some of them almost
        let n = match r.below(3) {
          0 => format!("{}p{}.{}", dir, r.below(4), r.pick(&["jpg", "JPG", "xmp", "txt"])),
          1 => format!("{}p{}{}", dir, r.below(4), r.pick(&[".", ".n", ".NE", ".C", ".cr", ".NEFF", ".xnef", ".NEF.part", "NEF", ".dng_", ".r-w", ".NEF ", ""])),
          _ => format!("{}{}", dir, r.pick(&[".NEF", ".CR2", "NEF", "raw", "..NEF.txt"])),
        };
        let (d, b) = if r.chance(300) {
          let d = good_img(r, 40, true).build();
          let b = w.st.put(&d);
          (d, b)
        } else {
          (d, b)
        };
        let _ = d;
        let full = format!("{}{}", ROOT, n);
        s.push(stor(r, &n, b, &[&full]));
        continue;
      }
      let bad = r.chance(bad_pm);
      let img = if bad { bad_img(r) } else { good_img(r, if collide { 60 } else { 90 }, m.thumb || m.preview) };
      let mut d = if !bad && r.chance(200) { crate::cams::Cam::gen(r, if collide { 60 } else { 90 }).build() } else { img.build() };
      // files of a usual size: bytes after the image which no directory names
      if r.chance(150) {
        let n = r.range(60_000, 200_000);
        d.extend(content(r, n));
      }
      let st = if collide { shared.clone() } else { stem(r) };
      let e = loop {
        let e = ext(r);
        // an upload called .dng is its own output
        if e.to_uppercase() != "DNG" {
          break e;
        }
      };
      let n = format!("{}{}.{}", dir, st, e);
      let out = format!("{}{}{}.dng", ROOT, dir, st);
      let full = format!("{}{}", ROOT, n);
      if bad {
        m.bad.push(hex(&md5(&d)));
      }
      if r.chance(200) && !w.has(&out) {
        let old = content(r, 500);
        w.file(&out, &old);
      }
      let b = w.st.put(&d);
      s.push(stor(r, &n, b, &[&out, &full]));
    }
    clients.push(client(r, s));
  }
  let spec = server(r, &w, clients);
  let mut run = ftpserver(keep, spec);
  conv_meta(&m, &mut run.args);
  run.args.push(ROOT.into());
  let mut meta = serde_json::to_value(&m).unwrap();
  meta["keep_orig"] = keep.into();
  ctx.case(vec![run], meta, w.st)
}
fn gen_c25(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  Ok(vec![conv_case(ctx, false, 200)])
}
fn gen_c25_same(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  Ok(vec![conv_case(ctx, true, 100)])
}
fn gen_c25_fault(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let same = ctx.rng.chance(300);
  let base = conv_case(ctx, same, 100);
  fault_cases(ctx, &base, 4, |op, p| data_op(op, p) || (p.starts_with(ROOT) && io_op(op)))
}
fn gen_c25_disk(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let mut c = conv_case(ctx, false, 0);
  c.runs[0].spec.disk_free = Some(ctx.rng.below(60_000));
  c.runs[0].spec.disk_prefix = ROOT.into();
  c.meta["clean"] = false.into();
  Ok(vec![c])
}
fn ora_c25(c: &Case, rs: &[Res]) -> Vec<Viol> {
  if let Some(x) = ended_srv(&rs[0]) {
    return vec![x];
  }
  let mut out = conv_check(c, 0, &rs[0], &init_fs(c), c.meta["clean"].as_bool().unwrap_or(false));
  out.extend(strays(c, 0, &rs[0], &init_fs(c)));
  out
}
/// Uploads that keep the capture time.
pub fn gen_c12_ftp(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir(ROOT);
  let keep = r.chance(850);
  let (tz, local) = machine_zone(r);
  let mut want = serde_json::Map::new();
  let mut clients = vec![];
  for k in 0..r.range(1, 2) {
    let mut s = anon();
    for j in 0..r.range(1, 3) {
      let (im, t) = dated(r, local);
      let b = w.st.put(&im.build());
      let n = format!("I{}{}.NEF", k, j);
      want.insert(n.clone(), t.into());
      s.push(stor(r, &n, b, &[]));
    }
    clients.push(client(r, s));
  }
  let mut spec = server(r, &w, clients);
  spec.start_ns = *r.pick(&[T0, 86_400_000_000_000, 4_000_000_000_000_000_000]);
  let mut run = ftpserver(r.chance(300), spec);
  run.args.extend(["--keep-mtime".to_string(), keep.to_string(), ROOT.into()]);
  if let Some(z) = tz {
    run.env.push(("TZ".into(), z));
  }
  Ok(vec![ctx.case(vec![run], json!({"ftp": true, "keep": keep, "want": want}), w.st)])
}
pub fn ora_c12_ftp(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let r = &rs[0];
  if let Some(x) = ended_srv(r) {
    return vec![x];
  }
  let mut out = vec![];
  let after = r.fs();
  for i in 0..r.out.clients.len() {
    for x in history(r, i).iter().filter(|x| x.verb() == "STOR" && x.ok()) {
      let p = format!("{}/{}.dng", ROOT, stem_of(x.arg()));
      let o = match after.get(&p) {
        Some(o) => o,
        None => {
          out.push(v("missing-output", p));
          continue;
        }
      };
      match c.meta["want"][x.arg()].as_i64() {
        Some(t) if c.meta["keep"].as_bool() == Some(true) => {
          tally("exif_dates_checked", 1);
          if o.mtime != (t, 0) {
            out.push(v("wrong-mtime", format!("{} has mtime {:?}, the upload's EXIF date is {}", p, o.mtime, t)));
          }
        }
        _ => {
          let st = c.runs[0].spec.start_ns / 1_000_000_000;
          if (o.mtime.0 - st).abs() > 14_400 {
            out.push(v("mtime-without-request", format!("{} has mtime {:?}, a new file was expected", p, o.mtime)));
          }
        }
      }
    }
  }
  out
}
/// Uploads through the conversion server: every DNG and original in `res` must be explained.
fn conv_check(c: &Case, run: usize, res: &Res, before: &Fs, clean: bool) -> Vec<Viol> {
  let mut out = vec![];
  let m = meta(c);
  let keep = c.meta["keep_orig"].as_bool().unwrap_or(false);
  struct Up {
    name: String,
    dng: Option<String>,
    path: String,
    data: Vec<u8>,
    good: bool,
    b: u64,
    e: u64,
    ok: bool,
    fin: bool,
    full: bool,
  }
  let mut ups = vec![];
  let mut looks = vec![];
  for i in 0..res.out.clients.len() {
    for x in history(res, i) {
      for (p, st, seq) in &x.peeks {
        let got = match st {
          PeekState::File(b) => Some(res.get(*b).to_vec()),
          _ => None,
        };
        looks.push((p.clone(), got, *seq, format!("after {:?} ({}) of client {}", x.line, x.code(), i)));
      }
      if x.verb() != "STOR" {
        continue;
      }
      if let Some(Step::Stor { data, end, .. }) = steps(c, run, i).get(x.step) {
        let path = format!("{}/{}", ROOT, x.arg().trim_start_matches('/'));
        let (d, name) = split(&path);
        let mut data = blob(c, *data).to_vec();
        if let DataEnd::FinAt(n) = end {
          data.truncate(*n as usize);
        }
        let dng = if supported(&name) { Some(format!("{}/{}.dng", d, stem_of(&name))) } else { None };
        let good = !m.bad.contains(&hex(&md5(&data))) && !matches!(end, DataEnd::FinAt(_));
        ups.push(Up {
          name,
          dng,
          path,
          good,
          data,
          b: x.seq,
          e: x.fin().map(|r| r.seq).unwrap_or(u64::MAX),
          ok: x.ok(),
          fin: x.fin().is_some(),
          full: matches!(end, DataEnd::Fin),
        });
        if x.ok() {
          tally("uploads_acknowledged", 1);
        } else {
          tally("uploads_failed", 1);
        }
      }
    }
  }
  for u in &ups {
    if u.ok && u.dng.is_some() && !u.good {
      out.push(v("bad-acknowledged", format!("the upload of the unusable raw file {} was acknowledged", u.path)));
    }
    if clean && u.full && u.fin && !u.ok && (u.good || u.dng.is_none()) {
      out.push(v("refused", format!("without any fault the upload of {} failed", u.path)));
    }
  }
  for (p, e) in res.fs() {
    if let (true, Some(b)) = (p.starts_with(ROOT), e.bytes()) {
      looks.push((p.clone(), Some(b.to_vec()), u64::MAX - 1, "at the end".into()));
    }
  }
  for p in ups.iter().flat_map(|u| u.dng.iter().chain(Some(&u.path))) {
    if !res.fs().contains_key(p) {
      looks.push((p.clone(), None, u64::MAX - 1, "at the end".into()));
    }
  }
  for (p, got, seq, when) in &looks {
    // uploads that write this path, as DNG or as plain file
    let dngs: Vec<&Up> = ups.iter().filter(|u| u.dng.as_deref() == Some(p)).collect();
    let plain: Vec<&Up> = ups.iter().filter(|u| u.path == *p && (u.dng.is_none() || keep)).collect();
    if dngs.is_empty() && ups.iter().all(|u| u.path != *p) {
      continue;
    }
    tally("file_states_checked", 1);
    let done = |u: &Up| u.ok && u.e < *seq;
    // writers definitely finished before another acknowledged one began are overwritten
    let live = |u: &&&Up, all: &[&Up]| u.b < *seq && !all.iter().any(|o| done(o) && o.b > u.e);
    let old = before.get(p).and_then(|e| e.bytes());
    let old_ok = !dngs.iter().chain(&plain).any(|u| done(u));
    match got {
      None => {
        if !(old_ok && old.is_none()) {
          out.push(v("missing", format!("{} {} does not exist although its upload was acknowledged (or it existed before)", when, p)));
        }
      }
      Some(g) => {
        if old_ok && old == Some(&g[..]) {
          continue;
        }
        if plain.iter().any(|u| u.b < *seq && u.data == *g) {
          continue;
        }
        let mut why = "nothing was uploaded under this name".to_string();
        let mut fits = false;
        for u in dngs.iter().filter(|u| live(u, &dngs)) {
          if !u.good {
            why = "the uploaded file is unusable".into();
            continue;
          }
          let s = Src { path: u.path.clone(), name: u.name.clone(), odir: String::new(), ostem: String::new(), bytes: u.data.clone(), good: true };
          match verify(&s, g, &m, true) {
            Ok(()) => {
              fits = true;
              break;
            }
            Err(e) => why = e,
          }
        }
        if !fits {
          let key = if dngs.is_empty() { if plain.is_empty() { "original-kept" } else { "stored-bytes" } } else { "incomplete-dng" };
          out.push(v(key, format!("{} {} holds {} bytes: {}", when, p, g.len(), why)));
        }
      }
    }
  }
  out
}

// --------------------------------------------------------------- C26 model
#[derive(Clone, Debug, PartialEq)]
enum N {
  D,
  F(Vec<u8>),
}
#[derive(Clone)]
struct Model {
  t: BTreeMap<Vec<String>, N>,
  cwd: Vec<String>,
}
impl Model {
  /// Resolve like a file system: every component but the last must be a directory. Err = no such thing or outside.
  fn walk(&self, path: &str) -> Result<Vec<String>, ()> {
    let mut cur = if path.starts_with('/') { vec![] } else { self.cwd.clone() };
    if !self.t.contains_key(&cur) {
      return Err(());
    }
    for c in path.split('/') {
      if !matches!(self.t.get(&cur), Some(N::D)) {
        return Err(());
      }
      match c {
        "" | "." => {}
        ".." => {
          if cur.pop().is_none() {
            return Err(());
          }
        }
        x => {
          cur.push(x.to_string());
          if !self.t.contains_key(&cur) {
            return Err(());
          }
        }
      }
    }
    Ok(cur)
  }
  fn parent(&self, path: &str) -> Result<(Vec<String>, String), ()> {
    let p = bare(path);
    let (d, n) = match p.rsplit_once('/') {
      Some(("", n)) => ("/", n),
      Some((d, n)) => (d, n),
      None => ("", p),
    };
    if n.is_empty() || n == "." || n == ".." {
      return Err(());
    }
    let d = if d.is_empty() { self.walk("")? } else { self.walk(d)? };
    match self.t.get(&d) {
      Some(N::D) => Ok((d, n.to_string())),
      _ => Err(()),
    }
  }
  fn kids(&self, d: &[String]) -> Vec<(String, &N)> {
    self.t.iter().filter(|(p, _)| p.len() == d.len() + 1 && p.starts_with(d)).map(|(p, n)| (p.last().unwrap().clone(), n)).collect()
  }
  fn show(&self) -> String {
    format!("/{}", self.cwd.join("/"))
  }
}
/// Without slashes and dots at the end.
fn bare(path: &str) -> &str {
  let mut p = path.trim_end_matches('/');
  while let Some(q) = p.strip_suffix("/.") {
    p = q.trim_end_matches('/');
  }
  p
}
const NAMES: [&str; 18] = ["a", "b", "sub", "x.bin", "y.jpg", "z.jpg", "with space", "Ünï", "a[1]", "q\"uote", "a", "sub", "x.bin", ".hidden", "b*", "tail.", " lead", "trail "];
fn model_path(r: &mut Rng) -> String {
  let mut v: Vec<String> = vec![];
  for _ in 0..r.range(1, 3) {
    v.push(match r.below(12) {
      0 => "..".into(),
      1 => ".".into(),
      _ => r.pick(&NAMES).to_string(),
    });
  }
  let mut p = v.join("/");
  if r.chance(300) {
    p = format!("/{}", p);
  }
  if r.chance(60) {
    p.push('/');
  }
  p
}
fn gen_c26(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let long = ctx.thorough;
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir(ROOT);
  if r.chance(700) {
    w.file("/srv/ftp/x.bin", b"first");
    w.file("/srv/ftp/sub/y.jpg", b"second one");
    w.dir("/srv/ftp/sub/a");
    w.dir("/srv/ftp/a[1]");
    w.file("/srv/ftp/a[1]/z.jpg", b"in brackets");
    w.dir("/srv/ftp/q\"uote");
  }
  let mut s = anon();
  for _ in 0..r.range(8, if long { 80 } else { 30 }) {
    let p = model_path(r);
    s.push(match r.below(20) {
      0..=3 => cmd(format!("CWD {}", p)),
      4 => cmd("CDUP"),
      5 => cmd("PWD"),
      6..=8 => cmd(format!("MKD {}", p)),
      9 => cmd(format!("RMD {}", p)),
      10 | 11 => cmd(format!("DELE {}", p)),
      12 | 13 => {
        let k = r.below(3000);
        let d = content(r, k);
        let b = w.st.put(&d);
        // parent references in uploads are not promised either way
        let p = p.split('/').filter(|c| *c != ".." && *c != ".").collect::<Vec<_>>().join("/");
        let p = p.trim_end_matches('/').to_string();
        let p = if p.is_empty() { "x.bin".into() } else { p };
        stor(r, &p, b, &[])
      }
      14 => retr(r, &p),
      15 => list(r, "LIST"),
      16 => list(r, &format!("LIST {}", p)),
      17 => list(r, "NLST"),
      18 => {
        let l = format!("NLST {}", r.pick(&["*.jpg", "*", "x*", "*b*", "*.none"]));
        list(r, &l)
      }
      _ => cmd(*r.pick(&["LIST", "NLST", "RETR x.bin", "STOR x.bin", "PWD"])),
    });
    if r.chance(120) {
      s.push(cmd("PWD"));
    }
  }
  let root = r.pick(&["/srv/ftp", "/srv/ftp", "/srv/ftp/", "ftp", "./ftp", "/srv/lnk"]).to_string();
  w.link("/srv/lnk", "/srv/ftp");
  let mut cl = client(r, s);
  cl.window = 0;
  let spec = server(r, &w, vec![cl]);
  let run = drv(&root, true, &[], spec);
  Ok(vec![ctx.case(vec![run], json!({}), w.st)])
}
fn star(pat: &str, s: &str) -> bool {
  match pat.find('*') {
    None => pat == s,
    Some(i) => s.starts_with(&pat[..i]) && (i..=s.len()).any(|k| s.is_char_boundary(k) && star(&pat[i + 1..], &s[k..])),
  }
}
fn tree(fs: &Fs) -> BTreeMap<Vec<String>, N> {
  let mut t = BTreeMap::new();
  for (p, e) in fs {
    if p == ROOT {
      t.insert(vec![], N::D);
    } else if let Some(x) = p.strip_prefix(&format!("{}/", ROOT)) {
      let k: Vec<String> = x.split('/').map(|s| s.to_string()).collect();
      match &e.ent {
        Ent::Dir => t.insert(k, N::D),
        Ent::File(b) => t.insert(k, N::F(b.clone())),
        _ => None,
      };
    }
  }
  t
}
fn ora_c26(c: &Case, rs: &[Res]) -> Vec<Viol> {
  if let Some(x) = ended_srv(&rs[0]) {
    return vec![x];
  }
  let mut out = vec![];
  let mut m = Model { t: tree(&init_fs(c)), cwd: vec![] };
  let mut auth = false;
  let mut user = false;
  for x in history(&rs[0], 0) {
    let verb = x.verb();
    if verb == "USER" {
      user = x.code() == 331;
    }
    if verb == "PASS" {
      auth = user && x.ok();
    }
    if !auth || verb == "PASS" || x.line.is_empty() {
      continue;
    }
    if x.fin().is_none() {
      out.push(v("no-reply", format!("{:?} was not answered", x.line)));
      break;
    }
    let p = x.arg().to_string();
    let st = steps(c, 0, 0).get(x.step);
    let data = !matches!(st, Some(Step::Cmd { .. }));
    let before = m.clone();
    // expected outcome; None = not promised
    let mut expect = Some(false);
    match verb.as_str() {
      "PASV" | "EPSV" | "PORT" => continue,
      "CWD" => {
        if let Ok(d) = m.walk(&p) {
          if m.t.get(&d) == Some(&N::D) {
            m.cwd = d;
            expect = Some(true);
          }
        }
      }
      "CDUP" => {
        m.cwd.pop();
        expect = Some(true);
      }
      "PWD" => {
        expect = Some(true);
        let t = &x.fin().unwrap().text;
        let q = format!("\"{}\"", m.show().replace('"', "\"\""));
        if x.code() == 257 && !t[3..].trim_start().starts_with(&q) {
          out.push(v("pwd", format!("PWD says {:?}, the model {}", t, q)));
        }
      }
      "MKD" => {
        if let Ok((d, n)) = m.parent(&p) {
          let mut k = d;
          k.push(n);
          if !m.t.contains_key(&k) {
            m.t.insert(k, N::D);
            expect = Some(true);
          }
        }
      }
      "RMD" => {
        if let Ok(d) = m.walk(&p) {
          if !d.is_empty() && m.t.get(&d) == Some(&N::D) {
            m.t.retain(|q, _| !q.starts_with(&d));
            expect = Some(true);
          }
        }
      }
      "DELE" => {
        if let Ok(f) = m.walk(&p) {
          if matches!(m.t.get(&f), Some(N::F(_))) && !p.ends_with('/') {
            m.t.remove(&f);
            expect = Some(true);
          }
        }
      }
      "STOR" => {
        if data {
          if let Ok((d, n)) = m.parent(&p) {
            let mut k = d;
            k.push(n);
            if m.t.get(&k) != Some(&N::D) {
              if let Some(Step::Stor { data, .. }) = st {
                m.t.insert(k, N::F(blob(c, *data).to_vec()));
                expect = Some(true);
              }
            }
          }
        }
      }
      "RETR" => {
        if data {
          if let Ok(f) = m.walk(&p) {
            if let (Some(N::F(b)), false) = (m.t.get(&f), p.ends_with('/')) {
              expect = Some(true);
              if x.ok() && x.recv.as_ref().map(|r| &r.0) != Some(b) {
                out.push(v("content", format!("{:?} delivered {:?} bytes, the model has {}", x.line, x.recv.as_ref().map(|r| r.0.len()), b.len())));
              }
            }
          }
        }
      }
      "LIST" | "NLST" if data => {
        let t = x.recv.as_ref().map(|r| String::from_utf8_lossy(&r.0).into_owned()).unwrap_or_default();
        let mut got: Vec<String> = vec![];
        let mut want: Vec<String> = vec![];
        if verb == "LIST" {
          let target = if p.is_empty() { m.walk("") } else { m.walk(&p) };
          if let Ok(d) = target {
            expect = Some(true);
            let kids = match m.t.get(&d) {
              Some(N::D) => m.kids(&d),
              Some(f) => vec![(d.last().cloned().unwrap_or_default(), f)],
              None => vec![],
            };
            if matches!(m.t.get(&d), Some(N::F(_))) && p.ends_with('/') {
              expect = None;
            }
            for (n, k) in kids {
              want.push(match k {
                N::D => format!("d {}/", n),
                N::F(b) => format!("- {} {}", b.len(), n),
              });
            }
            for l in t.split("\r\n").filter(|l| !l.is_empty()) {
              let f: Vec<&str> = l.splitn(9, ' ').collect();
              if f.len() != 9 {
                got.push(format!("? {}", l));
              } else if l.starts_with('d') {
                got.push(format!("d {}", f[8]));
              } else {
                got.push(format!("- {} {}", f[4], f[8]));
              }
            }
          }
        } else if let Ok(d) = m.walk("") {
          expect = Some(true);
          for (n, k) in m.kids(&d) {
            if star(if p.is_empty() { "*" } else { &p }, &n) {
              want.push(format!("{}{}", n, if *k == N::D { "/" } else { "" }));
            }
          }
          got = t.split("\r\n").filter(|l| !l.is_empty()).map(|s| s.to_string()).collect();
          // whether directories are marked in name lists is a matter of taste
          for x in got.iter_mut().chain(want.iter_mut()) {
            *x = x.trim_end_matches('/').to_string();
          }
        }
        got.sort();
        want.sort();
        if x.ok() && expect == Some(true) && got != want {
          out.push(v("listing", format!("{:?} in {} lists {:?}, the model has {:?}", x.line, m.show(), got, want)));
        }
        tally("listings_checked", 1);
      }
      "LIST" | "NLST" => {}
      _ => expect = None,
    }
    // making a removed current directory anew: either answer will do
    if verb == "MKD" && bare(&p) == "." && !m.t.contains_key(&m.cwd) && m.t.get(&m.cwd[..m.cwd.len() - 1]) == Some(&N::D) {
      expect = None;
      if x.ok() {
        m.t.insert(m.cwd.clone(), N::D);
      }
    }
    // listing it after it was removed or replaced by a file: the same
    if matches!(verb.as_str(), "LIST" | "NLST") && before.t.get(&before.cwd) != Some(&N::D) && bare(&p) == p {
      expect = None;
    }
    // a file spelt like a directory: either answer will do
    let bare = bare(&p);
    if bare != p {
      if let Ok(f) = before.walk(bare) {
        if matches!(before.t.get(&f), Some(N::F(_))) && matches!(verb.as_str(), "LIST" | "RETR" | "DELE") {
          expect = None;
          if verb == "DELE" && x.ok() {
            m.t.remove(&f);
          }
        }
      }
    }
    tally("model_steps", 1);
    match expect {
      Some(true) => {
        tally("model_steps_succeeding", 1);
        if !x.ok() {
          out.push(v("refused", format!("{:?} in {} must succeed, got {:?}", x.line, before.show(), x.reps.iter().map(|r| &r.text).collect::<Vec<_>>())));
          break;
        }
      }
      Some(false) => {
        if !x.bad() {
          out.push(v("accepted", format!("{:?} in {} must fail, got {:?}", x.line, before.show(), x.reps.iter().map(|r| &r.text).collect::<Vec<_>>())));
          break;
        }
      }
      None => {}
    }
    if !out.is_empty() {
      break;
    }
  }
  if out.is_empty() {
    let t = tree(&rs[0].fs());
    if t != m.t {
      let a: BTreeSet<_> = t.iter().map(|(p, n)| format!("/{}{}", p.join("/"), if let N::F(b) = n { format!(" ({})", hex(&md5(b))) } else { "/".into() })).collect();
      let b: BTreeSet<_> = m.t.iter().map(|(p, n)| format!("/{}{}", p.join("/"), if let N::F(b) = n { format!(" ({})", hex(&md5(b))) } else { "/".into() })).collect();
      out.push(v("tree", format!("the served tree differs from the model: only on disk {:?}, only in the model {:?}", a.difference(&b).collect::<Vec<_>>(), b.difference(&a).collect::<Vec<_>>())));
    }
  }
  out
}

// --------------------------------------------------------------- C27 crash
fn crash_cases(ctx: &mut Ctx, base: &Case, n: usize, second: impl Fn(&Run) -> Run) -> Result<Vec<Case>, SimErr> {
  let d = ctx.dry(base)?;
  let st = sites(&d, |op, p| (p.starts_with(ROOT) && !matches!(op, Op::Stat)) || p.starts_with("data") || p.starts_with("ctl"));
  let mut out = vec![];
  if st.is_empty() {
    return Ok(out);
  }
  let mut kinds: Vec<Op> = st.iter().map(|x| x.0).collect();
  kinds.sort();
  kinds.dedup();
  let muts: Vec<Op> = kinds.iter().copied().filter(|o| matches!(o, Op::Write | Op::Rename | Op::Create | Op::Truncate | Op::Unlink | Op::Close | Op::Fsync)).collect();
  for _ in 0..n {
    let kd = if !muts.is_empty() && ctx.rng.chance(600) { *ctx.rng.pick(&muts) } else { *ctx.rng.pick(&kinds) };
    let of: Vec<&(Op, String, u32)> = st.iter().filter(|x| x.0 == kd).collect();
    let (op, p, nth) = (*ctx.rng.pick(&of)).clone();
    let mut c = base.clone();
    let act = if op == Op::Write && ctx.rng.chance(600) { Act::TornKill(ctx.rng.below(5000) as usize) } else { Act::Kill };
    c.runs[0].spec.faults.push(Fault { op, path: p, nth, count: 1, act });
    let nx = second(&c.runs[0]);
    c.runs.push(nx);
    out.push(c);
  }
  Ok(out)
}
fn after_crash(r: &mut Rng, names: &[String], fresh: Blob, run: &Run) -> Run {
  let mut s = anon();
  for n in names {
    s.push(retr(r, n));
  }
  s.push(list(r, "LIST"));
  s.push(stor(r, "/after.txt", fresh, &[&format!("{}/after.txt", ROOT)]));
  for n in names.iter().take(2) {
    s.push(stor(r, n, fresh, &[]));
  }
  let mut cl = client(r, s);
  cl.window = 0;
  let mut n = run.clone();
  n.carry = true;
  n.spec.faults.clear();
  n.spec.fs.clear();
  n.spec.clients = vec![cl];
  n
}
fn gen_c27(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let mut base = xfer_case(ctx, false);
  let mut r = ctx.rng.fork(5);
  let fresh = {
    let o = base.blob.len() as u64;
    base.blob.extend_from_slice(b"fresh after the restart");
    Blob(o, 23)
  };
  let names: Vec<String> = ["/x.bin", "/y.jpg", "/d/x.bin", "/readme"].iter().map(|s| s.to_string()).collect();
  let sec = after_crash(&mut r, &names, fresh, &base.runs[0]);
  crash_cases(ctx, &base, 4, |_| sec.clone())
}
fn gen_c27_conv(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let same = ctx.rng.chance(400);
  let mut base = conv_case(ctx, same, 0);
  let mut r = ctx.rng.fork(5);
  let fresh = {
    let o = base.blob.len() as u64;
    base.blob.extend_from_slice(b"fresh after the restart");
    Blob(o, 23)
  };
  let sec = after_crash(&mut r, &[], fresh, &base.runs[0]);
  crash_cases(ctx, &base, 3, |_| sec.clone())
}
fn ora_c27(c: &Case, rs: &[Res]) -> Vec<Viol> {
  for r in rs {
    if let Some(x) = ended_srv(r) {
      return vec![x];
    }
  }
  let mut out = vec![];
  let before = init_fs(c);
  if c.runs[0].bin == "dnglab" {
    out.extend(conv_check(c, 0, &rs[0], &before, false).into_iter().map(|x| v("after-crash", format!("[{}] {}", x.key, x.msg))));
  } else {
    let m = writes(c, 0, &rs[0], &before);
    let fs = rs[0].fs();
    for (p, ws) in &m {
      tally("file_states_checked", 1);
      check_reg(&mut out, "after-crash", &format!("after the crash {}", p), ws, fs.get(p).and_then(|e| e.bytes()), u64::MAX - 1, u64::MAX);
    }
  }
  if rs[0].out.exit == Exit::Killed {
    tally("crashes", 1);
    let acked = (0..rs[0].out.clients.len()).flat_map(|i| history(&rs[0], i)).filter(|x| x.verb() == "STOR" && x.ok()).count();
    tally("uploads_acknowledged_before_crash", acked as u64);
  }
  if rs.len() > 1 && !rs[1].out.clients.is_empty() {
    let fs = rs[0].fs();
    let mut auth = false;
    for x in history(&rs[1], 0) {
      if x.verb() == "PASS" {
        auth = x.ok();
      }
      if x.line == "!connect" || x.timeout || x.eof.is_some() {
        out.push(v("restart", format!("after the restart {:?} is not answered", x.line)));
        break;
      }
      if !auth {
        continue;
      }
      match x.verb().as_str() {
        "STOR" | "LIST" if !x.ok() => out.push(v("restart", format!("after the restart {:?} got {:?}", x.line, x.reps))),
        "STOR" => {
          if let (Some((p, st, _)), Some(Step::Stor { data, .. })) = (x.peeks.first(), steps(c, 1, 0).get(x.step)) {
            let ok = matches!(st, PeekState::File(b) if rs[1].get(*b) == blob(c, *data));
            if !ok {
              out.push(v("restart", format!("after the restart the upload {} is wrong", p)));
            }
          }
        }
        "RETR" => {
          let p = format!("{}/{}", ROOT, x.arg().trim_start_matches('/'));
          let have = fs.get(&p).and_then(|e| e.bytes());
          let got = if x.ok() { x.recv.as_ref().map(|r| &r.0[..]) } else { None };
          if have != got {
            out.push(v("restart", format!("after the restart {:?} delivers {:?} bytes, the disk has {:?}", x.line, got.map(|b| b.len()), have.map(|b| b.len()))));
          }
        }
        _ => {}
      }
    }
  }
  out
}

// ----------------------------------------------------------- C28 resources
fn gen_c28(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  let big = content(r, 150_000);
  w.file("/srv/ftp/big.bin", &big);
  let mut polite = anon();
  let fb = w.st.put(b"a file");
  polite.push(stor(r, "a.bin", fb, &[]));
  polite.push(cmd("QUIT"));
  let pc = client(r, polite);
  let mut calm_spec = server(r, &w, vec![pc]);
  calm_spec.settle_us = 1_000_000_000;
  let mut clients = vec![];
  for _ in 0..r.range(1, 5) {
    let mut s = vec![];
    for _ in 0..r.range(1, 3) {
      s.extend(if r.chance(850) { anon() } else { vec![Step::Connect] });
      let n = size(r);
      let d = content(r, n);
      let b = w.st.put(&d);
      match r.below(12) {
        0 => s.push(Step::DropNoData { mode: mode(r) }),
        1 => s.push(Step::OpenData { mode: mode(r) }),
        2 => {
          s.push(Step::OpenData { mode: mode(r) });
          s.push(Step::CloseData { rst: r.chance(500) });
        }
        3 => s.push(Step::Stor { path: "n.bin".into(), data: b, mode: mode(r), end: DataEnd::NeverOpen, peek: vec![], quiet: false }),
        4 => s.push(Step::Stor { path: "n.bin".into(), data: b, mode: mode(r), end: DataEnd::DropAllAt(r.below(n + 1)), peek: vec![], quiet: false }),
        5 => s.push(Step::Stor { path: "n.bin".into(), data: b, mode: mode(r), end: DataEnd::RstAt(r.below(n + 1)), peek: vec![], quiet: false }),
        6 => s.push(Step::Retr { path: "big.bin".into(), mode: mode(r), stop_at: Some(r.below(100_000)), quiet: false }),
        7 => {
          s.push(Step::DropNoData { mode: mode(r) });
          s.push(Step::DropNoData { mode: mode(r) });
        }
        8 => {
          let g = w.st.put(*r.pick(&[&b"PWD\r\nLI"[..], b"PASV\r\nLIST\r\n", b"PASV\r\nPASV\r\nSTOR q\r\n", b"EPSV\r\n", b"USER x\r\nPASV\r\nQUIT\r\nPASV\r\n", b"QUIT\r\n"]));
          s.push(Step::Raw { bytes: g, finals: 0, quiet: false });
        }
        9 => {
          s.push(cmd(*r.pick(&["LIST", "RETR big.bin", "STOR z", "EPSV ALL", "NOOP"])));
        }
        10 => {
          s.push(list(r, "LIST"));
          s.push(Step::OpenData { mode: mode(r) });
          s.push(cmd("NLST"));
        }
        _ => {
          s.push(Step::Sleep(r.below(90_000_000)));
          s.push(Step::DropNoData { mode: mode(r) });
        }
      }
      if r.chance(300) {
        s.push(Step::Sleep(r.below(90_000_000)));
      }
      if r.chance(250) {
        s.push(Step::Raw { bytes: w.st.put(b"QUIT\r\n"), finals: 0, quiet: false });
      }
      s.push(Step::Close(r.chance(500)));
    }
    let mut c = client(r, s);
    c.think = c.think.min(300);
    clients.push(c);
  }
  let mut spec = server(r, &w, clients);
  spec.settle_us = 1_000_000_000;
  let faulty = r.chance(250);
  if faulty {
    let op = *r.pick(&[Op::Bind, Op::Listen, Op::Recv, Op::Send, Op::Connect]);
    let e = errno(r, op);
    spec.faults.push(Fault { op, path: r.pick(&["data", "pasv", "ctl", "sock"]).to_string(), nth: r.below(6) as u32, count: 1, act: Act::Err(e) });
  }
  calm_spec.fs = w.nodes.clone();
  let a = drv(ROOT, true, &[], calm_spec);
  let b = drv(ROOT, true, &[], spec);
  Ok(vec![ctx.case(vec![a, b], json!({}), w.st)])
}
fn gen_c28_storm(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir(ROOT);
  let mut polite = anon();
  let fb = w.st.put(b"a file");
  polite.push(stor(r, "a.bin", fb, &[]));
  polite.push(cmd("QUIT"));
  let pc = client(r, polite);
  let mut calm_spec = server(r, &w, vec![pc]);
  calm_spec.settle_us = 1_000_000_000;
  let n = r.range(20, 120);
  let s = storm(r, &mut w, n);
  let mut c = client(r, s);
  c.seg = 0;
  c.think = c.think.min(300);
  let mut spec = server(r, &w, vec![c]);
  spec.settle_us = 1_000_000_000;
  spec.short_read_pm = spec.short_read_pm.min(50);
  spec.short_write_pm = spec.short_write_pm.min(50);
  let a = drv(ROOT, true, &[], calm_spec);
  let b = drv(ROOT, true, &[], spec);
  Ok(vec![ctx.case(vec![a, b], json!({}), w.st)])
}
fn ora_c28(_: &Case, rs: &[Res]) -> Vec<Viol> {
  for r in rs {
    if let Some(x) = ended_srv(r) {
      return vec![x];
    }
  }
  let mut out = vec![];
  let (a, b) = (&rs[0].out.stats, &rs[1].out.stats);
  tally("sessions", rs[1].out.clients.iter().flatten().filter(|e| matches!(e.ev, Cev::Connected)).count() as u64);
  if b.open_socks > a.open_socks {
    out.push(v("socket-leak", format!("1000 s after the last client left the server holds {} sockets, {} after a polite session", b.open_socks, a.open_socks)));
  }
  if b.open_fds > a.open_fds && out.is_empty() {
    out.push(v("descriptor-leak", format!("1000 s after the last client left the server holds {} descriptors, {} after a polite session", b.open_fds, a.open_fds)));
  }
  out
}

pub const C20: Prop = Prop { id: "C20", families: &[("paths", 6, gen_c20), ("conversion", 1, gen_c20_conv)], oracle: ora_c20, min_rounds: 60, rule: "1–3 sessions of 6–22 file commands over hostile paths (.., absolute, symlinks leading outside, dangling links, sibling with the root's name as prefix, glob patterns) in the embedded server and in `dnglab ftpserver`, any schedule and chunking; the oracle compares everything outside of the root, the mutation log and every byte sent; distinct by event-history hash" };
pub const C21: Prop = Prop { id: "C21", families: &[("login", 1, gen_c21)], oracle: ora_c21, min_rounds: 60, rule: "1–3 sessions mixing user names, passwords, re-logins, reconnects and file commands in any order, with and without anonymous access, empty and shared passwords; non-trivial = refusals or logins were checked; distinct by event-history hash" };
pub const C22: Prop = Prop { id: "C22", families: &[("clean", 18, gen_c22), ("aborts", 18, gen_c22_abort), ("faults", 18, gen_c22_fault), ("disk", 6, gen_c22_disk), ("bulk", 1, gen_c22_bulk)], oracle: ora_c22, min_rounds: 60, rule: "1–4 concurrent clients upload, download, delete and observe shared names; aborted data connections, I/O errors at operations taken from a dry run, full disks; every observed state and downloaded body is checked against the set of values a linearisable register may hold; distinct by event-history hash" };
pub const C23: Prop = Prop { id: "C23", families: &[("sessions", 3, gen_c23), ("faults", 1, gen_c23_fault)], oracle: ora_c23, min_rounds: 60, rule: "sessions of pipelined, split, malformed, oversized and out-of-order commands plus transfers that fail at every stage; every command's final replies are counted; distinct by event-history hash" };
pub const C24: Prop = Prop { id: "C24", families: &[("isolation", 5, gen_c24), ("storm", 1, gen_c24_storm), ("conversion", 1, gen_c24_conv)], oracle: ora_c24, min_rounds: 60, rule: "1–2 well-behaved sessions next to 1–8 that break off, reset, stall, flood or send garbage, plus failing accepts; distinct by event-history hash" };
pub const C25: Prop = Prop { id: "C25", families: &[("uploads", 2, gen_c25), ("same-stem", 2, gen_c25_same), ("faults", 2, gen_c25_fault), ("disk", 1, gen_c25_disk)], oracle: ora_c25, min_rounds: 40, rule: "uploads of valid, damaged and foreign files to `dnglab ftpserver` with faults on the disk and the network; published DNGs are compared with those of `dnglab convert`; distinct by event-history hash" };
pub const C26: Prop = Prop { id: "C26", families: &[("model", 1, gen_c26)], oracle: ora_c26, min_rounds: 60, rule: "random command sequences against a reference model of the directory tree, one client at a time; distinct by event-history hash" };
pub const C27: Prop = Prop { id: "C27", families: &[("plain", 3, gen_c27), ("conversion", 2, gen_c27_conv)], oracle: ora_c27, min_rounds: 40, rule: "uploads observed at every moment by peeking after each reply and by other clients; distinct by event-history hash" };
pub const C28: Prop = Prop { id: "C28", families: &[("leaks", 5, gen_c28), ("storm", 1, gen_c28_storm)], oracle: ora_c28, min_rounds: 60, rule: "sessions that end in every way (quit, reset, half-open data connections, announced but unused ones); descriptors and sockets counted after settling; distinct by event-history hash" };
