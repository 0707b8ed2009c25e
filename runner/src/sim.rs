//! Running the program under test inside the simulated operating system.
use simspec::*;
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
  pub bin: String,
  pub args: Vec<String>,
  #[serde(default)]
  pub env: Vec<(String, String)>,
  pub spec: Spec,
  /// Take the file system of the previous run of the case.
  #[serde(default)]
  pub carry: bool,
  /// Additional files placed on top of the carried file system.
  #[serde(default)]
  pub put: Vec<Node>,
}

#[derive(Clone)]
pub enum Ent {
  Dir,
  File(Vec<u8>),
  Link(String),
}
#[derive(Clone)]
pub struct FsEnt {
  pub ent: Ent,
  pub mtime: (i64, u32),
  pub ino: u64,
}
impl FsEnt {
  pub fn bytes(&self) -> Option<&[u8]> {
    match &self.ent {
      Ent::File(b) => Some(b),
      _ => None,
    }
  }
}
pub type Fs = BTreeMap<String, FsEnt>;

pub struct Res {
  pub out: Outcome,
  pub blob: Vec<u8>,
  pub hang: bool,
}
impl Res {
  pub fn get(&self, b: Blob) -> &[u8] {
    &self.blob[b.0 as usize..(b.0 + b.1) as usize]
  }
  pub fn stdout(&self) -> &[u8] {
    self.get(self.out.stdout)
  }
  pub fn stderr(&self) -> String {
    String::from_utf8_lossy(self.get(self.out.stderr)).into_owned()
  }
  pub fn fs(&self) -> Fs {
    nodes_to_fs(&self.out.fs, &self.blob)
  }
  pub fn code(&self) -> Option<i32> {
    match self.out.exit {
      Exit::Code(c) => Some(c),
      _ => None,
    }
  }
}
pub fn nodes_to_fs(n: &[Node], blob: &[u8]) -> Fs {
  let mut m = Fs::new();
  for x in n {
    let ent = match &x.kind {
      Kind::Dir => Ent::Dir,
      Kind::File(b) => Ent::File(blob[b.0 as usize..(b.0 + b.1) as usize].to_vec()),
      Kind::Link(t) => Ent::Link(t.clone()),
    };
    m.insert(x.path.clone(), FsEnt { ent, mtime: (x.mtime_s, x.mtime_n), ino: x.ino });
  }
  m
}

/// Appending store for file contents of a case.
#[derive(Default, Clone)]
pub struct Store(pub Vec<u8>);
impl Store {
  pub fn put(&mut self, d: &[u8]) -> Blob {
    let o = self.0.len() as u64;
    self.0.extend_from_slice(d);
    Blob(o, d.len() as u64)
  }
}

pub struct Env {
  pub verif: PathBuf,
  pub scratch: PathBuf,
  pub so: PathBuf,
  pub bins: PathBuf,
  pub keep: bool,
}
static SEQ: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_RUNS: AtomicU64 = AtomicU64::new(0);
pub static HARNESS_ERRS: Mutex<Vec<String>> = Mutex::new(Vec::new());

impl Env {
  pub fn new() -> Env {
    let verif = PathBuf::from(std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into()));
    let base = if Path::new("/dev/shm").is_dir() && std::fs::write("/dev/shm/.dst_probe", b"x").is_ok() {
      let _ = std::fs::remove_file("/dev/shm/.dst_probe");
      PathBuf::from("/dev/shm")
    } else {
      std::env::temp_dir()
    };
    let scratch = base.join(format!("dst.{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    Env { so: verif.join("target/release/libsimos.so"), bins: verif.join("sut/target/debug"), verif, scratch, keep: false }
  }
  pub fn cleanup(&self) {
    if !self.keep {
      let _ = std::fs::remove_dir_all(&self.scratch);
    }
  }
}

pub enum SimErr {
  Harness(String),
}

/// Run a case: a sequence of program runs, each optionally on the file system the previous one left.
pub fn exec_case(env: &Env, runs: &[Run], blob: &[u8]) -> Result<Vec<Res>, SimErr> {
  let mut out: Vec<Res> = Vec::new();
  for r in runs {
    let prev = if r.carry { out.last() } else { None };
    out.push(exec_run(env, r, blob, prev)?);
  }
  Ok(out)
}

pub fn exec_run(env: &Env, run: &Run, blob: &[u8], prev: Option<&Res>) -> Result<Res, SimErr> {
  TOTAL_RUNS.fetch_add(1, Ordering::Relaxed);
  let id = SEQ.fetch_add(1, Ordering::Relaxed);
  let sp = env.scratch.join(format!("s{}", id));
  let op = env.scratch.join(format!("o{}", id));
  let mut spec = run.spec.clone();
  let packed = if let Some(p) = prev {
    let off = blob.len() as u64;
    let mut fs = p.out.fs.clone();
    for n in fs.iter_mut() {
      if let Kind::File(b) = &mut n.kind {
        b.0 += off;
      }
    }
    for n in &run.put {
      fs.retain(|x| x.path != n.path);
      fs.push(n.clone());
    }
    spec.fs = fs;
    let mut b = blob.to_vec();
    b.extend_from_slice(&p.blob);
    pack(&serde_json::to_vec(&spec).unwrap(), &b)
  } else {
    spec.fs.extend(run.put.iter().cloned());
    pack(&serde_json::to_vec(&spec).unwrap(), blob)
  };
  std::fs::write(&sp, &packed).map_err(|e| SimErr::Harness(format!("write spec: {}", e)))?;
  drop(packed);
  let mut c = Command::new(env.bins.join(&run.bin));
  c.args(run.args.iter().map(|a| <std::ffi::OsString as std::os::unix::ffi::OsStringExt>::from_vec(path_bytes(a)))).env_clear();
  c.env("LD_PRELOAD", &env.so).env("SIMOS_SPEC", &sp).env("SIMOS_OUT", &op);
  c.env("TZ", "UTC").env("PATH", "/usr/bin").env("HOME", "/home/sim").env("MALLOC_ARENA_MAX", "1");
  for (k, v) in &run.env {
    c.env(k, v);
  }
  c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
  unsafe {
    c.pre_exec(|| {
      libc::personality(0x0040000);
      let l = libc::rlimit { rlim_cur: 40, rlim_max: 41 };
      libc::setrlimit(libc::RLIMIT_CPU, &l);
      let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
      libc::setrlimit(libc::RLIMIT_CORE, &l);
      let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
      libc::setrlimit(libc::RLIMIT_DATA, &l);
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      Ok(())
    });
  }
  let mut child = c.spawn().map_err(|e| SimErr::Harness(format!("spawn {}: {}", run.bin, e)))?;
  let mut err = child.stderr.take().unwrap();
  let th = std::thread::spawn(move || {
    let mut s = Vec::new();
    let _ = err.read_to_end(&mut s);
    String::from_utf8_lossy(&s).into_owned()
  });
  let t0 = Instant::now();
  let mut pause = 200u64;
  let st = loop {
    match child.try_wait() {
      Ok(Some(s)) => break s,
      Ok(None) => {
        if t0.elapsed() > Duration::from_secs(400) {
          let _ = child.kill();
          let _ = child.wait();
          let _ = std::fs::remove_file(&sp);
          let _ = std::fs::remove_file(&op);
          return Err(SimErr::Harness(format!("wall-clock limit for {} {:?}", run.bin, run.args)));
        }
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause + pause / 4).min(4000);
      }
      Err(e) => return Err(SimErr::Harness(format!("wait: {}", e))),
    }
  };
  let errtxt = th.join().unwrap_or_default();
  let data = std::fs::read(&op).ok();
  if !env.keep {
    let _ = std::fs::remove_file(&sp);
    let _ = std::fs::remove_file(&op);
  }
  if st.signal() == Some(libc::SIGXCPU) {
    // the program computes forever without reaching a simulated operation
    let o = Outcome {
      exit: Exit::Signal(libc::SIGXCPU),
      stdout: Blob(0, 0),
      stderr: Blob(0, 0),
      fs: vec![],
      muts: vec![],
      clients: vec![],
      stats: Stats::default(),
      fired: vec![],
      ops: vec![],
      paths: vec![],
      hash: 0,
      sched_hash: 0,
      dev: vec![],
      trace: vec![],
      seed: spec.seed,
    };
    return Ok(Res { out: o, blob: vec![], hang: true });
  }
  let data = match data {
    Some(d) => d,
    None => return Err(SimErr::Harness(format!("no result ({:?}) {} {:?}: {}", st, run.bin, run.args, errtxt))),
  };
  let (j, b) = unpack(&data).ok_or_else(|| SimErr::Harness("bad result".into()))?;
  let out: Outcome = serde_json::from_slice(j).map_err(|e| SimErr::Harness(format!("result: {}", e)))?;
  if let Exit::Unsupported(s) = &out.exit {
    return Err(SimErr::Harness(format!("unsupported operation in the simulator: {}", s)));
  }
  Ok(Res { out, blob: b.to_vec(), hang: false })
}
