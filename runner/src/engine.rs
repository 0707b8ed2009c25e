//! Seeded search: case generation, execution, oracles, minimisation, replay, evidence.
use crate::sim::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simspec::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
  pub prop: String,
  pub family: String,
  pub seed: u64,
  pub runs: Vec<Run>,
  pub meta: Value,
  #[serde(default)]
  pub hash: Vec<u64>,
  #[serde(default)]
  pub violation: String,
  #[serde(skip)]
  pub blob: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Viol {
  pub key: String,
  pub msg: String,
}
pub fn v(key: &str, msg: impl Into<String>) -> Viol {
  Viol { key: key.to_string(), msg: msg.into() }
}
pub type Oracle = fn(&Case, &[Res]) -> Vec<Viol>;
pub type Gen = fn(&mut Ctx) -> Result<Vec<Case>, SimErr>;
pub struct Prop {
  pub id: &'static str,
  pub families: &'static [(&'static str, u32, Gen)],
  pub oracle: Oracle,
  /// Minimum number of generator rounds of a quick run.
  pub min_rounds: u64,
  pub rule: &'static str,
}
pub struct Ctx<'a> {
  pub env: &'a Env,
  pub rng: Rng,
  pub seed: u64,
  pub idx: u64,
  pub prop: &'a Prop,
  pub family: &'static str,
  pub thorough: bool,
}
impl Ctx<'_> {
  pub fn case(&self, runs: Vec<Run>, meta: Value, store: Store) -> Case {
    Case { prop: self.prop.id.into(), family: self.family.into(), seed: self.seed, runs, meta, hash: vec![], violation: String::new(), blob: store.0 }
  }
  /// Run the first program run of the case without faults to learn its operations.
  pub fn dry(&mut self, c: &Case) -> Result<Res, SimErr> {
    let mut r = c.runs[0].clone();
    r.spec.want_ops = true;
    exec_run(self.env, &r, &c.blob, None)
  }
}
thread_local! {
  static TALLY: RefCell<BTreeMap<String, u64>> = const { RefCell::new(BTreeMap::new()) };
}
/// Count something the oracle saw (makes vacuous runs visible in the evidence).
pub fn tally(k: &str, n: u64) {
  TALLY.with(|t| *t.borrow_mut().entry(k.to_string()).or_insert(0) += n);
}

pub fn mix(a: u64, b: u64) -> u64 {
  let mut r = Rng::new(a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15));
  r.next()
}
fn hstr(s: &str) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  h
}

#[derive(Default)]
struct Agg {
  cases: u64,
  runs: u64,
  rounds: u64,
  fams: BTreeMap<String, u64>,
  exits: BTreeMap<String, u64>,
  faults: BTreeMap<String, u64>,
  tallies: BTreeMap<String, u64>,
  vtime_ns: u128,
  points: u64,
  switches: u64,
  seeds: HashSet<u64>,
  scheds: HashSet<u64>,
  hashes: HashSet<u64>,
  nondet: u64,
  nondet_seeds: Vec<u64>,
  det_checked: u64,
  samples: Vec<Value>,
  max_points: u64,
  threads: u32,
}
impl Agg {
  fn add(&mut self, c: &Case, rs: &[Res]) {
    self.cases += 1;
    *self.fams.entry(c.family.clone()).or_insert(0) += 1;
    self.seeds.insert(c.seed);
    let mut nontriv = false;
    let mut hh = 0u64;
    for (run, r) in c.runs.iter().zip(rs) {
      self.runs += 1;
      let o = &r.out;
      let e = match &o.exit {
        Exit::Code(c) => format!("exit {}", c),
        Exit::Deadlock(_) => "deadlock".into(),
        o => format!("{:?}", o),
      };
      *self.exits.entry(e).or_insert(0) += 1;
      self.vtime_ns += o.stats.vtime_ns as u128;
      self.points += o.stats.points;
      self.switches += o.stats.switches;
      self.scheds.insert(o.sched_hash);
      self.max_points = self.max_points.max(o.stats.points);
      self.threads = self.threads.max(o.stats.threads);
      hh = mix(hh, o.hash);
      for (f, n) in run.spec.faults.iter().zip(&o.fired) {
        if *n > 0 {
          nontriv = true;
          *self.faults.entry(fault_name(f)).or_insert(0) += *n as u64;
        }
      }
      for (k, n) in [
        ("short read", o.stats.short_reads),
        ("short write", o.stats.short_writes),
        ("interrupted call (EINTR)", o.stats.eintrs),
        ("spurious futex wake-up", o.stats.spurious),
        ("disk full (quota)", o.stats.enospc),
      ] {
        if n > 0 {
          nontriv = true;
          *self.faults.entry(k.into()).or_insert(0) += n;
        }
      }
      let n = o.clients.iter().flatten().filter(|e| matches!(e.ev, Cev::Eof { .. })).count() as u64;
      if n > 0 {
        *self.faults.entry("control connection ended".into()).or_insert(0) += n;
      }
      for cl in &run.spec.clients {
        for s in &cl.steps {
          let k = match s {
            Step::Stor { end: DataEnd::RstAt(_), .. } => "data connection reset by client",
            Step::Stor { end: DataEnd::DropAllAt(_), .. } => "client vanishes during upload",
            Step::Stor { end: DataEnd::NeverOpen, .. } | Step::DropNoData { .. } => "data connection never opened",
            Step::Retr { stop_at: Some(_), .. } => "client aborts download",
            Step::Close(true) => "control connection reset by client",
            _ => continue,
          };
          nontriv = true;
          *self.faults.entry(k.into()).or_insert(0) += 1;
        }
      }
      if o.stats.switches > 2 {
        nontriv = true;
      }
    }
    if nontriv {
      self.hashes.insert(hh);
    }
    if self.samples.len() < 3 {
      self.samples.push(json!({
        "family": c.family, "seed": c.seed,
        "args": c.runs.iter().map(|r| format!("{} {}", r.bin, r.args.join(" "))).collect::<Vec<_>>(),
        "sched": c.runs.iter().map(|r| format!("{:?}", r.spec.sched).chars().take(120).collect::<String>()).collect::<Vec<_>>(),
        "faults": c.runs.iter().map(|r| format!("{:?}", r.spec.faults).chars().take(300).collect::<String>()).collect::<Vec<_>>(),
        "exit": rs.iter().map(|r| format!("{:?}", r.out.exit)).collect::<Vec<_>>(),
        "points": rs.iter().map(|r| r.out.stats.points).collect::<Vec<_>>(),
      }));
    }
  }
}
fn fault_name(f: &Fault) -> String {
  let a = match &f.act {
    Act::Err(e) => format!(
      "errno {}",
      match *e {
        libc::EIO => "EIO".to_string(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EACCES => "EACCES".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EPERM => "EPERM".into(),
        libc::EROFS => "EROFS".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::ECONNABORTED => "ECONNABORTED".into(),
        libc::ECONNRESET => "ECONNRESET".into(),
        e => e.to_string(),
      }
    ),
    Act::Short(_) => "short transfer".into(),
    Act::Kill => "kill".into(),
    Act::TornKill(_) => "kill with torn write".into(),
    Act::ClockJump(_) => "clock jump".into(),
    Act::Stall(_) => "thread stall".into(),
    Act::Flip(_) => "bit flip".into(),
    Act::Env(_) => "concurrent file system change".into(),
  };
  format!("{:?}: {}", f.op, a)
}

pub fn run_case(env: &Env, p: &Prop, c: &Case) -> Result<(Vec<Res>, Vec<Viol>), SimErr> {
  let rs = exec_case(env, &c.runs, &c.blob)?;
  let v = (p.oracle)(c, &rs);
  Ok((rs, v))
}

// ---------------------------------------------------------------- replay
pub fn save_case(c: &Case, path: &Path) -> std::io::Result<()> {
  if let Some(d) = path.parent() {
    std::fs::create_dir_all(d)?;
  }
  std::fs::write(path, pack(&serde_json::to_vec(c).unwrap(), &c.blob))
}
pub fn load_case(path: &Path) -> Option<Case> {
  let d = std::fs::read(path).ok()?;
  let (j, b) = unpack(&d)?;
  let mut c: Case = serde_json::from_slice(j).ok()?;
  c.blob = b.to_vec();
  Some(c)
}

// ----------------------------------------------------------- minimisation
struct Min<'a> {
  env: &'a Env,
  p: &'a Prop,
  key: String,
  end: Instant,
  tries: u32,
}
impl Min<'_> {
  fn ok(&mut self, c: &Case) -> bool {
    if Instant::now() > self.end {
      return false;
    }
    self.tries += 1;
    match run_case(self.env, self.p, c) {
      Ok((_, v)) => v.iter().any(|x| x.key == self.key),
      Err(_) => false,
    }
  }
  fn attempt(&mut self, c: &mut Case, f: impl FnOnce(&mut Case) -> bool) -> bool {
    let mut n = c.clone();
    if !f(&mut n) {
      return false;
    }
    if self.ok(&n) {
      *c = n;
      true
    } else {
      false
    }
  }
  fn run(&mut self, c: &mut Case) {
    for r in 0..c.runs.len() {
      let mut i = c.runs[r].spec.faults.len();
      while i > 0 {
        i -= 1;
        self.attempt(c, |n| {
          n.runs[r].spec.faults.remove(i);
          true
        });
      }
      self.attempt(c, |n| {
        let s = &mut n.runs[r].spec;
        let had = s.short_read_pm + s.short_write_pm + s.eintr_pm + s.spurious_pm > 0 || s.shuffle_dirs || s.dt_unknown || s.disk_free.is_some();
        s.short_read_pm = 0;
        s.short_write_pm = 0;
        s.eintr_pm = 0;
        s.spurious_pm = 0;
        s.shuffle_dirs = false;
        s.dt_unknown = false;
        s.disk_free = None;
        had
      });
      for k in 0..5 {
        self.attempt(c, |n| {
          let s = &mut n.runs[r].spec;
          let x = match k {
            0 => &mut s.short_read_pm,
            1 => &mut s.short_write_pm,
            2 => &mut s.eintr_pm,
            3 => &mut s.spurious_pm,
            _ => {
              let h = s.shuffle_dirs;
              s.shuffle_dirs = false;
              return h;
            }
          };
          let had = *x > 0;
          *x = 0;
          had
        });
      }
      // clients and their steps
      let mut i = c.runs[r].spec.clients.len();
      while i > 0 {
        i -= 1;
        if c.runs[r].spec.clients.len() > 1 {
          self.attempt(c, |n| {
            n.runs[r].spec.clients.remove(i);
            true
          });
        }
      }
      for ci in 0..c.runs[r].spec.clients.len() {
        let mut i = c.runs[r].spec.clients[ci].steps.len();
        while i > 0 {
          i -= 1;
          self.attempt(c, |n| {
            n.runs[r].spec.clients[ci].steps.remove(i);
            true
          });
        }
      }
      // files
      let mut i = c.runs[r].spec.fs.len();
      while i > 0 {
        i -= 1;
        let path = c.runs[r].spec.fs[i].path.clone();
        if matches!(c.runs[r].spec.fs[i].kind, Kind::Dir) || c.runs.iter().any(|q| q.args.contains(&path)) {
          continue;
        }
        self.attempt(c, |n| {
          for q in n.runs.iter_mut() {
            q.spec.fs.retain(|x| x.path != path);
          }
          true
        });
      }
    }
    // schedule: explicit deviations, then fewer of them
    for r in 0..c.runs.len() {
      if matches!(c.runs[r].spec.sched, Sched::Explicit { .. }) {
        continue;
      }
      let dev = match exec_case(self.env, &c.runs, &c.blob) {
        Ok(rs) => rs[r].out.dev.clone(),
        Err(_) => return,
      };
      if self.attempt(c, |n| {
        n.runs[r].spec.sched = Sched::Explicit { dev: vec![] };
        true
      }) {
        continue;
      }
      if !self.attempt(c, |n| {
        n.runs[r].spec.sched = Sched::Explicit { dev: dev.clone() };
        true
      }) {
        continue;
      }
      let mut cur = dev;
      let mut step = cur.len().div_ceil(2).max(1);
      loop {
        let mut i = 0;
        while i < cur.len() {
          let mut t = cur.clone();
          t.drain(i..(i + step).min(t.len()));
          let tt = t.clone();
          if self.attempt(c, |n| {
            n.runs[r].spec.sched = Sched::Explicit { dev: tt };
            true
          }) {
            cur = t;
          } else {
            i += step;
          }
          if Instant::now() > self.end {
            return;
          }
        }
        if step == 1 {
          break;
        }
        step = (step / 2).max(1);
      }
    }
  }
}

// ----------------------------------------------------------- known findings
#[derive(Deserialize, Clone)]
pub struct Known {
  pub property: String,
  pub status: String,
  #[serde(default)]
  pub key: String,
  #[serde(default)]
  pub what: String,
}
pub fn known(env: &Env) -> Vec<Known> {
  let p = env.verif.join("known-findings.txt");
  let t = std::fs::read_to_string(p).unwrap_or_default();
  t.lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}

// ------------------------------------------------------------------- check
pub struct Opts {
  pub thorough: bool,
  pub seed: u64,
  pub secs: u64,
  pub threads: usize,
  pub family: Option<String>,
  pub rounds: Option<u64>,
  pub keep_going: bool,
}
pub fn check(env: &Env, p: &Prop, o: &Opts) -> i32 {
  let t0 = Instant::now();
  let kn: Vec<Known> = known(env).into_iter().filter(|k| k.property == p.id && k.status == "known").collect();
  let agg = Mutex::new(Agg::default());
  let next = AtomicU64::new(0);
  let stop = AtomicBool::new(false);
  let found: Mutex<Vec<(u64, Case, Viol)>> = Mutex::new(vec![]);
  let seen_known: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
  let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
  let total_w: u32 = p.families.iter().map(|f| f.1).sum();
  let min_rounds = if o.thorough { p.min_rounds * 4 } else { p.min_rounds };
  std::thread::scope(|s| {
    for _ in 0..o.threads {
      s.spawn(|| {
        loop {
          if stop.load(Ordering::SeqCst) {
            break;
          }
          let idx = next.fetch_add(1, Ordering::SeqCst);
          let el = t0.elapsed();
          if let Some(r) = o.rounds {
            if idx >= r {
              break;
            }
          } else {
            let enough = idx >= min_rounds && el >= Duration::from_secs(o.secs);
            if enough || el > Duration::from_secs(o.secs * 3 + 60) {
              break;
            }
          }
          // weighted round robin, spread so that every family appears early
          let mut w = (idx.wrapping_mul(7) % total_w as u64) as u32;
          if total_w % 7 == 0 {
            w = (idx % total_w as u64) as u32;
          }
          let mut fam = &p.families[0];
          for f in p.families {
            if w < f.1 {
              fam = f;
              break;
            }
            w -= f.1;
          }
          if let Some(n) = &o.family {
            match p.families.iter().find(|f| f.0 == n) {
              Some(f) => fam = f,
              None => {
                errs.lock().unwrap().push(format!("no family {}", n));
                stop.store(true, Ordering::SeqCst);
                break;
              }
            }
          }
          let seed = mix(mix(o.seed, hstr(p.id)), idx);
          let mut ctx = Ctx { env, rng: Rng::new(seed), seed, idx, prop: p, family: fam.0, thorough: o.thorough };
          let cases = match (fam.2)(&mut ctx) {
            Ok(c) => c,
            Err(SimErr::Harness(e)) => {
              errs.lock().unwrap().push(e);
              continue;
            }
          };
          for c in cases {
            if stop.load(Ordering::SeqCst) {
              break;
            }
            TALLY.with(|t| t.borrow_mut().clear());
            match run_case(env, p, &c) {
              Err(SimErr::Harness(e)) => errs.lock().unwrap().push(format!("[{} seed {}] {}", c.family, c.seed, e)),
              Ok((rs, vs)) => {
                let mut c = c;
                let twin = idx % 8 == 3 && c.hash.is_empty();
                if twin {
                  if let Ok(again) = exec_case(env, &c.runs, &c.blob) {
                    c.hash = again.iter().map(|r| r.out.hash).collect();
                  }
                }
                let mut a = agg.lock().unwrap();
                a.add(&c, &rs);
                TALLY.with(|t| {
                  for (k, n) in t.borrow().iter() {
                    *a.tallies.entry(k.clone()).or_insert(0) += n;
                  }
                });
                if !c.hash.is_empty() {
                  a.det_checked += 1;
                  if c.hash.iter().zip(&rs).any(|(h, r)| *h != r.out.hash) {
                    a.nondet += 1;
                    if a.nondet_seeds.len() < 8 {
                      a.nondet_seeds.push(c.seed);
                    }
                  }
                  if twin {
                    c.hash.clear();
                  }
                }
                drop(a);
                let mut fresh = vec![];
                for x in vs {
                  if kn.iter().any(|k| k.key == x.key) {
                    seen_known.lock().unwrap().insert(x.key.clone(), x.msg.clone());
                  } else {
                    fresh.push(x);
                  }
                }
                if let Some(x) = fresh.into_iter().next() {
                  found.lock().unwrap().push((idx, c.clone(), x));
                  if !o.keep_going {
                    stop.store(true, Ordering::SeqCst);
                  }
                }
              }
            }
          }
          agg.lock().unwrap().rounds += 1;
        }
      });
    }
  });
  // determinism spot check: the first samples are executed a second time by generators via `hash`
  let a = agg.into_inner().unwrap();
  let errs = errs.into_inner().unwrap();
  let mut found = found.into_inner().unwrap();
  found.sort_by_key(|f| f.0);
  let mut rc = 0;
  let mut nviol = 0;
  if o.keep_going {
    let mut by: BTreeMap<String, (u32, u64, String, String)> = BTreeMap::new();
    for (_, c, x) in &found {
      let e = by.entry(x.key.clone()).or_insert((0, c.seed, c.family.clone(), x.msg.clone()));
      e.0 += 1;
    }
    for (k, (n, seed, fam, msg)) in by {
      println!("  key={} n={} seed={} family={} :: {}", k, n, seed, fam, msg);
    }
    // the same by text, without the parts that differ from case to case
    let mut by: BTreeMap<String, (u32, u64)> = BTreeMap::new();
    for (_, c, x) in &found {
      let t = x.msg.rsplit_once("conversion of ").map(|y| y.1).unwrap_or(&x.msg);
      let t = t.split_once(": ").map(|y| y.1).unwrap_or(t);
      let t: String = t.chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
      by.entry(format!("{} {}", x.key, t)).or_insert((0, c.seed)).0 += 1;
    }
    for (k, (n, seed)) in by {
      println!("    {} x {} (seed {})", n, k, seed);
    }
  }
  for k in &kn {
    println!("KNOWN-FINDING: property={} {}{}", p.id, k.what, if seen_known.lock().unwrap().contains_key(&k.key) { " (met in this run)" } else { "" });
  }
  let mut lost = vec![];
  let mut keys_done = HashSet::new();
  for (_, c, x) in found {
    if !keys_done.insert(x.key.clone()) {
      continue;
    }
    // must reproduce before it is reported
    let mut min = c.clone();
    let again = run_case(env, p, &min);
    match again {
      Ok((_, vs)) if vs.iter().any(|y| y.key == x.key) => {}
      _ => {
        lost.push(format!("violation {} (seed {}) did not reproduce", x.key, c.seed));
        continue;
      }
    }
    let mut m = Min { env, p, key: x.key.clone(), end: Instant::now() + Duration::from_secs(if o.thorough { 240 } else { 60 }), tries: 0 };
    m.run(&mut min);
    let tries = m.tries;
    let (rs, vs) = match run_case(env, p, &min) {
      Ok(r) => r,
      Err(_) => {
        lost.push("minimised case failed".into());
        continue;
      }
    };
    let msg = vs.iter().find(|y| y.key == x.key).map(|y| y.msg.clone()).unwrap_or(x.msg.clone());
    min.hash = rs.iter().map(|r| r.out.hash).collect();
    min.violation = format!("{}: {}", x.key, msg);
    let path = env.verif.join(format!("replays/{}-{:016x}.dst", p.id, c.seed));
    if let Err(e) = save_case(&min, &path) {
      lost.push(format!("cannot write replay: {}", e));
    }
    println!("violated: {} [{}] family={} seed={} (minimised in {} executions)", msg, x.key, c.family, c.seed, tries);
    for (i, r) in min.runs.iter().enumerate() {
      println!("  run {}: {} {} exit={:?}", i, r.bin, r.args.join(" "), rs[i].out.exit);
      println!("    sched={}", format!("{:?}", r.spec.sched).chars().take(300).collect::<String>());
      println!("    faults={:?}", r.spec.faults);
    }
    println!("VIOLATION property={} replay={}", p.id, path.display());
    nviol += 1;
    rc = 1;
    break;
  }
  let wall = t0.elapsed().as_secs_f64();
  for e in errs.iter().take(5) {
    eprintln!("harness: {}", e);
  }
  for e in &lost {
    eprintln!("harness: {}", e);
  }
  if rc == 0 && (!lost.is_empty() || errs.len() as u64 * 20 > a.cases || a.cases == 0) {
    eprintln!("harness: {} problems in {} cases", errs.len() + lost.len(), a.cases);
    rc = 2;
  }
  let ev = json!({
    "property": p.id,
    "tier": if o.thorough { "thorough" } else { "quick" },
    "seed": o.seed,
    "level": "exploration",
    "wall_s": wall,
    "violations": nviol,
    "assumptions": [
      "the simulated operating system (files, sockets, clock, futexes) behaves like Linux for the calls the program makes",
      "a kill loses nothing the program already wrote (process crash, not power loss)",
      "threads are interleaved at system calls, futex operations and sampled allocations, not at every memory access"
    ],
    "coverage": {
      "evaluations": a.cases,
      "distinct_nontrivial": a.hashes.len(),
      "rule": p.rule,
      "samples": a.samples,
      "simulated_program_runs": a.runs,
      "generator_rounds": a.rounds,
      "distinct_seeds": a.seeds.len(),
      "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
      "seeds_per_hour": (a.seeds.len() as f64 / wall * 3600.0) as u64,
      "simulated_seconds": (a.vtime_ns / 1_000_000) as f64 / 1000.0,
      "scheduling_points": a.points,
      "context_switches": a.switches,
      "distinct_interleavings": a.scheds.len(),
      "distinct_interleavings_measure": "hash of the sequence of (from, to) context switches of a run",
      "distinct_histories": a.hashes.len(),
      "max_threads": a.threads,
      "max_points_in_a_run": a.max_points,
      "faults_injected": a.faults,
      "exits": a.exits,
      "families": a.fams,
      "oracle_counters": a.tallies,
      "determinism_pairs_checked": a.det_checked,
      "determinism_pairs_different": a.nondet,
      "determinism_seeds_different": a.nondet_seeds,
      "harness_errors": errs.len(),
      "real_code": "the whole dnglab program (command line, job engine, rawler, embedftp, tokio, rayon, std) as compiled from /repo",
      "stubbed": "kernel interface: file system, sockets, epoll, clocks, timers, randomness, thread scheduling (simos); FTP clients and concurrent file system actors are simulated parties"
    }
  });
  let evp = env.verif.join(format!("evidence/{}.json", p.id));
  let _ = std::fs::create_dir_all(evp.parent().unwrap());
  if let Err(e) = std::fs::write(&evp, serde_json::to_vec_pretty(&ev).unwrap()) {
    eprintln!("harness: cannot write evidence: {}", e);
    rc = if rc == 1 { 1 } else { 2 };
  }
  println!(
    "{} {}: {} cases, {} runs, {} distinct interleavings, {} violations, nondet {}/{}, {:.1}s",
    p.id,
    if o.thorough { "thorough" } else { "quick" },
    a.cases,
    a.runs,
    a.scheds.len(),
    nviol,
    a.nondet,
    a.det_checked,
    wall
  );
  rc
}
