//! Data exchanged between the runner (orchestrator) and simos (the simulated
//! operating system preloaded into the program under test).
use serde::{Deserialize, Serialize};

/// Byte range in the blob section of a spec/result file.
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
pub struct Blob(pub u64, pub u64);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
  Dir,
  File(Blob),
  Link(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Node {
  pub path: String,
  pub kind: Kind,
  #[serde(default)]
  pub mtime_s: i64,
  #[serde(default)]
  pub mtime_n: u32,
  #[serde(default)]
  pub mode: u32,
  #[serde(default)]
  pub ino: u64,
}

/// Kinds of simulated system calls (fault sites and op-log entries).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Op {
  Open,
  Create,
  Read,
  Write,
  Seek,
  Stat,
  Fstat,
  Close,
  Fsync,
  Truncate,
  Unlink,
  Rmdir,
  Mkdir,
  Rename,
  Link,
  Symlink,
  Readlink,
  Realpath,
  Opendir,
  Readdir,
  Mmap,
  Madvise,
  Utimens,
  Chmod,
  Flock,
  Dup,
  Stdout,
  Stderr,
  Socket,
  Bind,
  Listen,
  Accept,
  Connect,
  Recv,
  Send,
  Shutdown,
  SockOpt,
  EpollWait,
  EpollCtl,
  EventFd,
  Futex,
  Sleep,
  Yield,
  Spawn,
  Join,
  Random,
  Misc,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
  /// Fail with this errno.
  Err(i32),
  /// Transfer at most n bytes.
  Short(usize),
  /// Whole-process kill before the operation takes effect.
  Kill,
  /// Jump of the realtime clock (seconds, may be negative), op proceeds.
  ClockJump(i64),
  /// Stall the calling thread for this many virtual microseconds, op proceeds.
  Stall(u64),
  /// Flip one bit of the data returned by a read/mmap (offset modulo length).
  Flip(u64),
  /// An environment action happens right before this operation.
  Env(Vec<EnvAct>),
  /// Kill after a prefix of n bytes of this write reached the file.
  TornKill(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EnvAct {
  WriteFile { path: String, data: Blob },
  /// O_EXCL semantics: create only if absent.
  CreateFile { path: String, data: Blob },
  Unlink { path: String },
  Mkdir { path: String },
  Symlink { path: String, target: String },
  Rename { from: String, to: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
  pub op: Op,
  /// Substring of the path (or socket class) the operation is on; "" = any.
  #[serde(default)]
  pub path: String,
  /// 0-based occurrence among matching operations.
  pub nth: u32,
  /// How many consecutive matching operations are hit (0 = 1).
  #[serde(default)]
  pub count: u32,
  pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
  /// Uniform random choice; switch probability per syscall point in 1/1000,
  /// mean number of allocations between additional preemption points.
  Random { seed: u64, p_switch: u32, malloc_mean: u32 },
  /// Priority based (PCT): random priorities, `depth` priority change points over `len` points.
  Pct { seed: u64, depth: u32, len: u64, malloc_mean: u32 },
  /// Never pre-empt; the listed deviations override the default choice.
  Explicit { dev: Vec<Dev> },
}

/// Deviation from the default schedule: at point `at` (S = syscall point
/// counter, M = allocation counter) switch to thread `to`.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Dev {
  pub m: bool,
  pub at: u64,
  pub to: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
  Passive,
  Epsv,
  Active,
}

/// How a data connection ends (client view).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DataEnd {
  Fin,
  /// Reset after n bytes.
  RstAt(u64),
  /// Graceful close after n bytes.
  FinAt(u64),
  /// Reset the control connection (and data) after n bytes.
  DropAllAt(u64),
  /// Never open the data connection although it was announced.
  NeverOpen,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
  Sleep(u64),
  Connect,
  /// Send one command line (without CRLF) and collect replies.
  Cmd { line: String, quiet: bool },
  /// Send raw bytes (may contain several commands), then collect `finals` final replies.
  Raw { bytes: Blob, finals: u32, quiet: bool },
  Stor { path: String, data: Blob, mode: Mode, end: DataEnd, peek: Vec<String>, quiet: bool },
  Retr { path: String, mode: Mode, stop_at: Option<u64>, quiet: bool },
  List { line: String, mode: Mode, quiet: bool },
  /// Wait until this many virtual microseconds pass with no further reply.
  Quiet(u64),
  /// Close control connection (true = reset).
  Close(bool),
  /// Barrier: wait until all clients reached barrier n.
  Barrier(u32),
  /// Record the state of these files.
  Peek(Vec<String>),
  /// Open a passive data connection and use it (no transfer command yet).
  OpenData { mode: Mode },
  CloseData { rst: bool },
  DropNoData { mode: Mode },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
  pub port: u16,
  pub v6: bool,
  pub seed: u64,
  /// Maximum bytes per segment sent on the control connection.
  pub seg: u32,
  /// Receive window towards the client on data connections.
  pub window: u32,
  /// Upper bound of random think time between actions (virtual µs).
  pub think: u64,
  pub steps: Vec<Step>,
}

/// Client-side history.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cev {
  Connected,
  ConnectFailed,
  Sent { line: String },
  Reply { code: u32, text: String, fin: bool },
  /// Control connection ended (eof or reset) while waiting.
  Eof { rst: bool },
  Timeout,
  Quiet,
  DataOpen { ok: bool },
  DataSent { bytes: u64, complete: bool },
  DataRecv { data: Blob, eof: bool },
  Peek { path: String, state: PeekState },
  StepBegin { idx: u32 },
  StepEnd { idx: u32 },
  Closed,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PeekState {
  Absent,
  Dir,
  File(Blob),
  Other,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CevAt {
  pub seq: u64,
  pub t: u64,
  pub ev: Cev,
}

/// A second process acting on the file system.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FsActor {
  pub acts: Vec<(u64, EnvAct)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
  pub cwd: String,
  pub fs: Vec<Node>,
  pub sched: Sched,
  pub seed: u64,
  pub cpus: u32,
  /// Realtime clock at process start (ns since epoch).
  pub start_ns: i64,
  /// Virtual ns added per simulated operation.
  pub tick_ns: u64,
  #[serde(default)]
  pub faults: Vec<Fault>,
  /// Chance in 1/1000 of short file reads / writes.
  #[serde(default)]
  pub short_read_pm: u32,
  #[serde(default)]
  pub short_write_pm: u32,
  /// Chance in 1/1000 of EINTR on read/write/epoll.
  #[serde(default)]
  pub eintr_pm: u32,
  #[serde(default)]
  pub shuffle_dirs: bool,
  #[serde(default)]
  pub dt_unknown: bool,
  /// Free bytes on the simulated disk.
  #[serde(default)]
  pub disk_free: Option<u64>,
  /// Prefix of paths the quota applies to.
  #[serde(default)]
  pub disk_prefix: String,
  #[serde(default)]
  pub clients: Vec<Client>,
  #[serde(default)]
  pub actors: Vec<FsActor>,
  /// Server program: end the run when all clients are done and the program is idle.
  #[serde(default)]
  pub server: bool,
  /// Extra virtual seconds to let a server settle after the clients are done.
  #[serde(default)]
  pub settle_us: u64,
  pub max_points: u64,
  pub max_vtime_us: u64,
  #[serde(default)]
  pub want_ops: bool,
  #[serde(default)]
  pub trace: bool,
  /// Spurious futex wakeups (1/1000).
  #[serde(default)]
  pub spurious_pm: u32,
  /// Send buffer towards clients for control connections.
  #[serde(default)]
  pub sndbuf: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Exit {
  Code(i32),
  Abort,
  Signal(i32),
  /// Simulated kill.
  Killed,
  /// All clients finished and the server is idle.
  ServerDone,
  Deadlock(String),
  PointLimit,
  TimeLimit,
  /// The simulator met something it does not model.
  Unsupported(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mutn {
  pub seq: u64,
  pub env: bool,
  pub op: Op,
  pub path: String,
  pub path2: String,
  pub ino: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpEnt {
  pub op: Op,
  pub path: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
  pub points: u64,
  pub switches: u64,
  pub mallocs: u64,
  /// Size of the last request for 256 MiB or more.
  #[serde(default)]
  pub big_req: u64,
  pub vtime_ns: u64,
  pub threads: u32,
  pub short_reads: u64,
  pub short_writes: u64,
  pub eintrs: u64,
  pub spurious: u64,
  pub clock_jumps: u64,
  pub enospc: u64,
  pub open_fds: u32,
  pub open_socks: u32,
  pub live_threads: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Outcome {
  pub exit: Exit,
  pub stdout: Blob,
  pub stderr: Blob,
  pub fs: Vec<Node>,
  pub muts: Vec<Mutn>,
  pub clients: Vec<Vec<CevAt>>,
  pub stats: Stats,
  /// How often each configured fault fired (same order as spec.faults).
  pub fired: Vec<u32>,
  pub ops: Vec<OpEnt>,
  pub paths: Vec<String>,
  /// Hash over every event (operations, results, switches).
  pub hash: u64,
  /// Hash over scheduling decisions only.
  pub sched_hash: u64,
  pub dev: Vec<Dev>,
  pub trace: Vec<String>,
  /// Paths opened for reading at least once / anything looked up.
  pub seed: u64,
}

/// Paths are strings in specs and results: a byte that is not UTF-8 is written as the character U+F700 + byte.
pub fn path_bytes(s: &str) -> Vec<u8> {
  let mut v = Vec::with_capacity(s.len());
  for c in s.chars() {
    match c as u32 {
      u @ 0xF780..=0xF7FF => v.push((u - 0xF700) as u8),
      _ => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
    }
  }
  v
}
pub fn path_str(b: &[u8]) -> String {
  let mut s = String::with_capacity(b.len());
  for ch in b.utf8_chunks() {
    s.push_str(ch.valid());
    for &x in ch.invalid() {
      s.push(char::from_u32(0xF700 + x as u32).unwrap_or('?'));
    }
  }
  s
}
/// What remains of a name where only text can be stored.
pub fn lossy(s: &str) -> String {
  String::from_utf8_lossy(&path_bytes(s)).into_owned()
}
pub fn pack(json: &[u8], blob: &[u8]) -> Vec<u8> {
  let mut v = Vec::with_capacity(8 + json.len() + blob.len());
  v.extend_from_slice(&(json.len() as u64).to_le_bytes());
  v.extend_from_slice(json);
  v.extend_from_slice(blob);
  v
}
pub fn unpack(data: &[u8]) -> Option<(&[u8], &[u8])> {
  if data.len() < 8 {
    return None;
  }
  let n = u64::from_le_bytes(data[..8].try_into().ok()?) as usize;
  if data.len() < 8 + n {
    return None;
  }
  Some((&data[8..8 + n], &data[8 + n..]))
}

/// Small deterministic PRNG (splitmix64 seeded xorshift).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  /// Uniform in 0..n (n > 0).
  pub fn below(&mut self, n: u64) -> u64 {
    self.next() % n
  }
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.below(hi - lo + 1)
  }
  pub fn chance(&mut self, pm: u32) -> bool {
    pm > 0 && self.below(1000) < pm as u64
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.below(v.len() as u64) as usize]
  }
  pub fn fork(&mut self, tag: u64) -> Rng {
    Rng::new(self.next() ^ tag.wrapping_mul(0xD6E8_FEB8_6659_FD93))
  }
}
