//! simos: a deterministic simulated operating system, preloaded into the
//! program under test. Every thread of the program runs real code under a
//! baton; files, sockets, clocks, randomness and scheduling are simulated.
#![allow(static_mut_refs, non_upper_case_globals, invalid_runtime_symbol_definitions, clippy::missing_safety_doc)]
mod alloc;
mod clients;
mod core;
mod hooks;
mod net;
mod raw;
mod vfs;

use crate::core::*;
use simspec::*;
use std::collections::BTreeMap;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

#[link_section = ".init_array"]
#[used]
static INIT: extern "C" fn(i32, *const *const i8, *const *const i8) = init;

extern "C" fn on_exit_cb(code: i32, _a: *mut libc::c_void) {
  unsafe {
    if ACTIVE {
      g().finish(Exit::Code(code));
    }
  }
}
extern "C" {
  fn on_exit(f: extern "C" fn(i32, *mut libc::c_void), a: *mut libc::c_void) -> i32;
}
extern "C" fn on_signal(sig: i32) {
  unsafe {
    if ACTIVE {
      g().finish(Exit::Signal(sig));
    }
  }
  raw::die("simos: fatal signal inside the simulator")
}

extern "C" fn init(_argc: i32, _argv: *const *const i8, envp: *const *const i8) {
  unsafe {
    let mut spec_path = None;
    let mut p = envp;
    while !p.is_null() && !(*p).is_null() {
      let s = std::ffi::CStr::from_ptr(*p).to_bytes();
      if let Some(v) = s.strip_prefix(b"SIMOS_SPEC=") {
        spec_path = std::ffi::CString::new(v).ok();
      } else if let Some(v) = s.strip_prefix(b"SIMOS_OUT=") {
        OUT_PATH = std::ffi::CString::new(v).ok();
      }
      p = p.add(1);
    }
    let spec_path = match spec_path {
      Some(s) => s,
      None => return,
    };
    let data = raw::read_file(&spec_path).unwrap_or_else(|| raw::die("simos: cannot read spec"));
    let (j, blob) = unpack(&data).unwrap_or_else(|| raw::die("simos: bad spec"));
    let spec: Spec = match serde_json::from_slice(j) {
      Ok(s) => s,
      Err(e) => raw::die(&format!("simos: bad spec: {}", e)),
    };
    hooks::resolve();
    let sseed = match &spec.sched {
      Sched::Random { seed, .. } | Sched::Pct { seed, .. } => *seed,
      _ => 0,
    };
    let explicit = matches!(spec.sched, Sched::Explicit { .. });
    let mut devmap = BTreeMap::new();
    if let Sched::Explicit { dev } = &spec.sched {
      for d in dev {
        devmap.insert((d.m, d.at), d.to);
      }
    }
    let mut srng = Rng::new(sseed);
    let mut pct_points = vec![];
    if let Sched::Pct { depth, len, .. } = &spec.sched {
      for _ in 0..*depth {
        pct_points.push(srng.below((*len).max(1)) + 1);
      }
    }
    let nf = spec.faults.len();
    let nclients = spec.clients.len();
    let seed = spec.seed;
    let gg = Box::new(G {
      blob: blob.to_vec(),
      out: Vec::new(),
      threads: Vec::new(),
      cur: 0,
      now: 0,
      real_off: 0,
      next_dl: u64::MAX,
      points: 0,
      seq: 0,
      srng,
      rng: Rng::new(seed ^ 0x11),
      nrng: Rng::new(seed ^ 0x22),
      grng: Rng::new(seed ^ 0x33),
      vfs: vfs::Vfs::new(),
      net: net::Net::new(seed),
      stdout: Vec::new(),
      stderr: Vec::new(),
      muts: Vec::new(),
      fhits: vec![0; nf],
      fired: vec![0; nf],
      ops: Vec::new(),
      paths: Vec::new(),
      path_ix: BTreeMap::new(),
      hash: 0xcbf29ce484222325,
      shash: 0xcbf29ce484222325,
      dev: Vec::new(),
      devmap,
      explicit,
      trace: Vec::new(),
      stats: Stats::default(),
      cev: vec![Vec::new(); nclients],
      clients_left: nclients as u32,
      clients_done_at: None,
      exiting: 0,
      pct_points,
      pct_low: 1 << 40,
      wseq: 0,
      barriers: BTreeMap::new(),
      pid: raw::getpid(),
      env_mut: false,
      unsupported: None,
      spec,
    });
    G_PTR = Box::into_raw(gg);
    let gg = g();
    vfs::load(gg);
    let t = gg.add_thread(true);
    debug_assert!(t == 0);
    gg.threads[0].pthread = libc::pthread_self() as u64;
    for i in 0..nclients {
      hooks::spawn_env(clients::Env::Client(i));
    }
    for i in 0..gg.spec.actors.len() {
      hooks::spawn_env(clients::Env::Actor(i));
    }
    on_exit(on_exit_cb, std::ptr::null_mut());
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP] {
      hooks::install_signal(s, on_signal as *const () as usize);
    }
    ACTIVE = true;
    gg.arm_malloc();
  }
}
