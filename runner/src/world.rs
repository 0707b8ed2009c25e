//! Building blocks for cases: simulated machines, schedules, fault placement.
use crate::sim::*;
use simspec::*;

#[derive(Default, Clone)]
pub struct World {
  pub st: Store,
  pub nodes: Vec<Node>,
}
impl World {
  pub fn dir(&mut self, p: &str) {
    if p.is_empty() || p == "/" || self.nodes.iter().any(|n| n.path == p) {
      return;
    }
    if let Some((up, _)) = p.rsplit_once('/') {
      self.dir(up);
    }
    self.nodes.push(Node { path: p.into(), kind: Kind::Dir, mtime_s: 1_600_000_000, mtime_n: 0, mode: 0o755, ino: 0 });
  }
  pub fn file_t(&mut self, p: &str, d: &[u8], mtime: i64) {
    if let Some((up, _)) = p.rsplit_once('/') {
      self.dir(up);
    }
    let b = self.st.put(d);
    self.nodes.retain(|n| n.path != p);
    self.nodes.push(Node { path: p.into(), kind: Kind::File(b), mtime_s: mtime, mtime_n: 123_000_000, mode: 0o644, ino: 0 });
  }
  pub fn file(&mut self, p: &str, d: &[u8]) {
    self.file_t(p, d, 1_650_000_000);
  }
  pub fn link(&mut self, p: &str, target: &str) {
    if let Some((up, _)) = p.rsplit_once('/') {
      self.dir(up);
    }
    self.nodes.push(Node { path: p.into(), kind: Kind::Link(target.into()), mtime_s: 1_600_000_000, mtime_n: 0, mode: 0o777, ino: 0 });
  }
  pub fn bytes_of(&self, p: &str) -> Option<Vec<u8>> {
    self.nodes.iter().find(|n| n.path == p).and_then(|n| match &n.kind {
      Kind::File(b) => Some(self.st.0[b.0 as usize..(b.0 + b.1) as usize].to_vec()),
      _ => None,
    })
  }
  pub fn has(&self, p: &str) -> bool {
    self.nodes.iter().any(|n| n.path == p)
  }
}

pub const T0: i64 = 1_700_000_000_000_000_000;

/// A machine with no disturbances.
pub fn calm(seed: u64) -> Spec {
  Spec {
    cwd: "/w".into(),
    fs: vec![],
    sched: Sched::Random { seed, p_switch: 60, malloc_mean: 0 },
    seed,
    cpus: 4,
    start_ns: T0,
    tick_ns: 1000,
    faults: vec![],
    short_read_pm: 0,
    short_write_pm: 0,
    eintr_pm: 0,
    shuffle_dirs: false,
    dt_unknown: false,
    disk_free: None,
    disk_prefix: String::new(),
    clients: vec![],
    actors: vec![],
    server: false,
    settle_us: 0,
    max_points: 4_000_000,
    max_vtime_us: 7_200_000_000,
    want_ops: false,
    trace: false,
    spurious_pm: 0,
    sndbuf: 0,
  }
}
pub fn sched(r: &mut Rng) -> Sched {
  let seed = r.next();
  match r.below(6) {
    0 => Sched::Random { seed, p_switch: 20, malloc_mean: 0 },
    1 => Sched::Random { seed, p_switch: 200, malloc_mean: 400 },
    2 => Sched::Random { seed, p_switch: 500, malloc_mean: 2000 },
    3 => Sched::Pct { seed, depth: 3, len: 1500, malloc_mean: 3000 },
    4 => Sched::Pct { seed, depth: 8, len: 1000, malloc_mean: 0 },
    _ => Sched::Random { seed, p_switch: 100, malloc_mean: 100 },
  }
}
/// A machine with benign disturbances: every operation succeeds, but in any
/// order, size and interleaving the OS is allowed to choose.
pub fn benign(r: &mut Rng) -> Spec {
  let mut s = calm(r.next());
  s.sched = sched(r);
  s.cpus = *r.pick(&[1u32, 2, 4, 4, 8, 16]);
  if r.chance(500) {
    s.short_read_pm = r.below(300) as u32;
    s.short_write_pm = r.below(300) as u32;
  }
  if r.chance(300) {
    s.eintr_pm = r.below(100) as u32;
  }
  if r.chance(300) {
    s.spurious_pm = r.below(200) as u32;
  }
  s.shuffle_dirs = r.chance(600);
  s.dt_unknown = r.chance(200);
  s
}
pub fn run(bin: &str, args: &[&str], spec: Spec) -> Run {
  Run { bin: bin.into(), args: args.iter().map(|s| s.to_string()).collect(), env: vec![], spec, carry: false, put: vec![] }
}

/// Operations of a dry run as possible fault sites: (op, path, occurrence).
pub fn sites(r: &Res, keep: impl Fn(Op, &str) -> bool) -> Vec<(Op, String, u32)> {
  let mut seen: std::collections::HashMap<(Op, u32), u32> = Default::default();
  let mut v = vec![];
  // occurrences are counted the way the simulator matches faults: by path substring
  for e in &r.out.ops {
    let p = &r.out.paths[e.path as usize];
    let n = seen.entry((e.op, e.path)).or_insert(0);
    if keep(e.op, p) {
      v.push((e.op, p.clone(), *n));
    }
    *n += 1;
  }
  // a path may be contained in another one (A.dng in A.dng.tmp): recount exactly
  let mut out = vec![];
  for (op, p, n) in v {
    let mut cnt = 0;
    let mut own = 0;
    let mut nth = None;
    for e in &r.out.ops {
      if e.op == op {
        let q = &r.out.paths[e.path as usize];
        if q.contains(p.as_str()) {
          if *q == p {
            if own == n {
              nth = Some(cnt);
              break;
            }
            own += 1;
          }
          cnt += 1;
        }
      }
    }
    if let Some(k) = nth {
      out.push((op, p, k));
    }
  }
  out
}
/// A plausible errno for this operation.
pub fn errno(r: &mut Rng, op: Op) -> i32 {
  use libc::*;
  match op {
    Op::Open | Op::Create => *r.pick(&[EACCES, EMFILE, EIO, ENOSPC, EROFS]),
    Op::Write => *r.pick(&[ENOSPC, EIO, EDQUOT]),
    Op::Read => EIO,
    Op::Seek => EIO,
    Op::Stat | Op::Fstat | Op::Readlink | Op::Realpath => *r.pick(&[EIO, EACCES]),
    Op::Opendir => *r.pick(&[EACCES, EMFILE]),
    Op::Readdir => EIO,
    Op::Mkdir => *r.pick(&[ENOSPC, EACCES, EROFS]),
    Op::Mmap => *r.pick(&[ENOMEM, ENODEV]),
    Op::Utimens => *r.pick(&[EPERM, EIO]),
    Op::Flock => *r.pick(&[EAGAIN, ENOLCK]),
    Op::Close => EIO,
    Op::Fsync => EIO,
    Op::Unlink | Op::Rename | Op::Truncate => *r.pick(&[EACCES, EIO, EROFS]),
    Op::Accept => *r.pick(&[EMFILE, ENFILE, ECONNABORTED, ENOBUFS]),
    Op::Connect => *r.pick(&[ECONNREFUSED, ETIMEDOUT]),
    Op::Recv | Op::Send => *r.pick(&[ECONNRESET, EPIPE]),
    Op::Socket | Op::Bind | Op::Listen => *r.pick(&[EMFILE, EADDRINUSE]),
    _ => EIO,
  }
}
