//! Properties of the other commands and of all commands together (C03, C04, C10, C11, C13–C15).
use crate::conv::*;
use crate::dng::*;
use crate::engine::*;
use crate::sim::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use simspec::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cmd {
  pub sub: String,
  pub src: String,
  pub dst: String,
  pub dir: bool,
  pub recursive: bool,
  pub over: bool,
  pub skip: bool,
  pub keep_mtime: bool,
  pub opts: Vec<String>,
  /// makedng: inputs and roles.
  pub inputs: Vec<String>,
  pub maps: Vec<String>,
  /// Files the command reads.
  pub reads: Vec<String>,
  /// Output paths the command would use.
  pub outs: Vec<String>,
  /// Inputs that cannot be processed.
  pub bad: Vec<String>,
  /// Some inputs are damaged in an unknown way.
  #[serde(default)]
  pub hurt: bool,
  pub ex: Vec<ExSrc>,
  pub clean: bool,
  /// Undisturbed output of the same command.
  pub want: Option<Blob>,
}
/// One DNG to extract from.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ExSrc {
  pub path: String,
  pub name: String,
  pub out: String,
  pub orig: Blob,
  /// Stored data and digest are as they should be.
  pub intact: bool,
  /// The stored digest belongs to the original.
  pub digest_ok: bool,
  /// Damaged in an unknown way: nothing is known about what becomes of it.
  #[serde(default)]
  pub open: bool,
}
impl Cmd {
  pub fn args(&self) -> Vec<String> {
    let mut a = vec![self.sub.clone()];
    if self.recursive {
      a.push("-r".into());
    }
    if self.over {
      a.push("-f".into());
    }
    if self.skip {
      a.push("--skipchecks".into());
    }
    if self.keep_mtime {
      a.push("--keep-mtime".into());
      a.push("true".into());
    }
    a.extend(self.opts.iter().cloned());
    if self.sub == "makedng" {
      a.push("-o".into());
      a.push(self.dst.clone());
      a.push("-i".into());
      a.extend(self.inputs.iter().cloned());
      if !self.maps.is_empty() {
        a.push("--map".into());
        a.extend(self.maps.iter().cloned());
      }
    } else {
      a.push(self.src.clone());
      if self.sub != "analyze" {
        a.push(self.dst.clone());
      }
    }
    a
  }
}
fn mkc(ctx: &Ctx, w: &World, m: &Cmd, mut spec: Spec) -> Case {
  spec.fs = w.nodes.clone();
  let run = Run { bin: "dnglab".into(), args: m.args(), env: vec![], spec, carry: false, put: vec![] };
  ctx.case(vec![run], serde_json::to_value(m).unwrap(), w.st.clone())
}
fn cmeta(c: &Case) -> Cmd {
  serde_json::from_value(c.meta.clone()).unwrap_or_default()
}
/// Random bytes that look like a raw file of some camera.
fn original_bytes(r: &mut Rng) -> Vec<u8> {
  match r.below(6) {
    0 => vec![],
    1 => good_img(r, 64, true).build(),
    2 => (0..65536).map(|i| (i % 251) as u8).collect(),
    3 => {
      let n = 65536 * r.range(1, 3) + r.below(3) - 1;
      let mut q = r.fork(1);
      (0..n).map(|_| q.next() as u8).collect()
    }
    _ => {
      let n = r.range(1, 40_000);
      let mut q = r.fork(2);
      (0..n).map(|_| q.next() as u8).collect()
    }
  }
}
fn emb_img(r: &mut Rng, e: Emb) -> Img {
  let mut i = good_img(r, 32, true);
  i.emb = Some(e);
  i
}
fn orig_name(r: &mut Rng, k: u64) -> String {
  let e = ext(r);
  match r.below(4) {
    0 => format!("IMG {} {}.{}", k, r.below(100), e),
    1 => format!("ä{}_{}.{}", k, r.below(100), e),
    2 => format!("raw.{}.{}", k, e),
    _ => format!("DSC{}{:04}.{}", k, r.below(9999), e),
  }
}

// --------------------------------------------------- a world for any command
/// Inputs in /w/in, output in /w/out; `outs` are the paths the command will create.
fn any_world(r: &mut Rng, sub: &str) -> (World, Cmd) {
  let mut w = World::default();
  w.dir("/w/in");
  w.dir("/w/out");
  let mut m = Cmd { sub: sub.into(), clean: true, ..Default::default() };
  m.dir = r.chance(400) && sub != "makedng" && sub != "analyze";
  let n = if m.dir { r.range(1, 3) } else { 1 };
  m.src = "/w/in".into();
  m.dst = "/w/out".into();
  match sub {
    "convert" | "process-raw" => {
      let oext = if sub == "convert" { "dng" } else { "tif" };
      m.recursive = m.dir && r.chance(500);
      m.keep_mtime = r.chance(200);
      if sub == "convert" {
        if r.chance(500) {
          m.opts.extend(["--embed-raw".into(), "false".into()]);
        }
        if r.chance(500) {
          m.opts.extend(["--dng-preview".into(), "false".into()]);
        }
        if r.chance(300) {
          m.opts.extend(["-c".into(), "uncompressed".into()]);
        }
      }
      for k in 0..n {
        let sd = if m.dir && m.recursive && r.chance(400) { "sub/" } else { "" };
        let st = format!("P{}_{}", k, any_stem(r));
        // convert passes the name through text, process-raw does not
        let ost = if oext == "dng" { lossy(&st) } else { st.clone() };
        let p = format!("/w/in/{}{}.{}", sd, st, ext(r));
        w.file_t(&p, &good_img(r, 60, true).build(), 1_500_000_000 + r.below(100_000_000) as i64);
        m.reads.push(p.clone());
        if m.dir {
          m.outs.push(format!("/w/out/{}{}.{}", sd, ost, oext));
        } else {
          m.src = p;
          m.dst = match r.below(3) {
            0 => "/w/out".into(),
            1 => format!("/w/out/result.{}", oext),
            _ => format!("out/x.{}", oext),
          };
          m.outs.push(if m.dst == "/w/out" { format!("/w/out/{}.{}", ost, oext) } else { abs(&m.dst) });
        }
      }
    }
    "extract" => {
      for k in 0..n {
        let o = original_bytes(r);
        let name = orig_name(r, k);
        let p = format!("/w/in/E{}.{}", k, r.pick(&["dng", "DNG", "Dng"]));
        w.file(&p, &emb_img(r, Emb::good(&name, &o)).build());
        m.reads.push(p.clone());
        if m.dir {
          m.outs.push(format!("/w/out/{}", name));
        } else {
          m.src = p;
          m.dst = r.pick(&["/w/out", "/w/out/orig.raw", "out/orig.raw"]).to_string();
          m.outs.push(if m.dst == "/w/out" { format!("/w/out/{}", name) } else { abs(&m.dst) });
        }
      }
    }
    "makedng" => {
      let p = "/w/in/base.NEF".to_string();
      w.file(&p, &good_img(r, 60, true).build());
      m.inputs.push(p.clone());
      m.reads.push(p);
      m.maps = vec!["0:raw".into()];
      if r.chance(500) {
        let q = "/w/in/pre.ppm".to_string();
        w.file(&q, &ppm_img(r, false).0);
        m.inputs.push(q.clone());
        m.reads.push(q);
        m.maps.push("1:preview".into());
        m.maps.push("1:thumbnail".into());
      }
      if r.chance(500) {
        m.maps.push("0:exif".into());
      }
      m.dst = r.pick(&["/w/out/made.dng", "out/made.dng"]).to_string();
      m.outs.push(abs(&m.dst));
    }
    _ => {
      let p = "/w/in/look.NEF".to_string();
      w.file(&p, &good_img(r, 60, true).build());
      m.src = p.clone();
      m.reads.push(p);
      m.opts.push(r.pick(&["--meta", "--structure", "--raw-checksum", "--raw-pixel", "--srgb"]).to_string());
    }
  }
  (w, m)
}
fn ppm_img(r: &mut Rng, wide: bool) -> (Vec<u8>, u32, u32, Vec<u16>) {
  let (w, h) = (r.range(16, 80) as u32 & !1, r.range(16, 60) as u32 & !1);
  let mut q = r.fork(9);
  let px: Vec<u16> = (0..w * h * 3).map(|i| if wide { q.next() as u16 } else { (i as u16 / 3 + (q.next() % 9) as u16) & 255 }).collect();
  (ppm(w, h, &px, wide), w, h, px)
}
/// Every command that writes files, on a sequential machine and on two others.
pub fn gen_c07_cmds(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let sub = *ctx.rng.pick(&["process-raw", "process-raw", "extract", "makedng", "makedng"]);
  let (w, m) = any_world(&mut ctx.rng, sub);
  let mut s = calm(1);
  s.sched = Sched::Explicit { dev: vec![] };
  s.cpus = 1;
  let mut base = mkc(ctx, &w, &m, s);
  for _ in 0..2 {
    let mut s = benign(&mut ctx.rng);
    s.fs = w.nodes.clone();
    let mut r = base.runs[0].clone();
    r.spec = s;
    if ctx.rng.chance(300) {
      r.env.push(("RAYON_NUM_THREADS".into(), ctx.rng.range(1, 7).to_string()));
    }
    base.runs.push(r);
  }
  Ok(vec![base])
}
/// The other commands, killed and repeated.
pub fn gen_c09_cmds(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let sub = *ctx.rng.pick(&["process-raw", "extract", "makedng"]);
  let (w, mut m) = any_world(&mut ctx.rng, sub);
  let mut wo = w.clone();
  m.over = ctx.rng.chance(500);
  if m.over {
    for o in m.outs.clone() {
      if ctx.rng.chance(600) {
        let n = ctx.rng.below(90_000) as usize;
        wo.file_t(&o, &vec![0x5a; n], 1_444_000_000);
      }
    }
  }
  let s = benign(&mut ctx.rng);
  let base = mkc(ctx, &wo, &m, s);
  let m2 = Cmd { over: true, ..m.clone() };
  let mut v = crate::conv::kill_cases(ctx, &base, 3)?;
  for c in v.iter_mut() {
    let s2 = benign(&mut ctx.rng);
    c.runs.push(Run { bin: "dnglab".into(), args: m2.args(), env: vec![], spec: s2, carry: true, put: vec![] });
    let mut s3 = benign(&mut ctx.rng);
    s3.fs = w.nodes.clone();
    c.runs.push(Run { bin: "dnglab".into(), args: m2.args(), env: vec![], spec: s3, carry: false, put: vec![] });
  }
  Ok(v)
}
const SUBS: [&str; 4] = ["convert", "process-raw", "extract", "makedng"];

// --------------------------------------------------------------- C03
fn gen_c03_there(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let sub = *ctx.rng.pick(&SUBS);
  let (mut w, m) = any_world(&mut ctx.rng, sub);
  let mut any = false;
  for o in &m.outs {
    if ctx.rng.chance(700) {
      any = true;
      let old = old_bytes(&mut ctx.rng);
      if ctx.rng.chance(150) {
        w.file("/w/vault/kept", &old);
        w.link(o, "/w/vault/kept");
      } else {
        w.file_t(o, &old, 1_444_000_000);
      }
    }
  }
  if !any {
    let o = &m.outs[0];
    w.file_t(o, b"precious", 1_444_000_000);
  }
  let s = benign(&mut ctx.rng);
  let base = mkc(ctx, &w, &m, s);
  let mut v = fault_cases(ctx, &base, 2, |op, p| io_op(op) && p.starts_with("/w") && op != Op::Stat)?;
  v[0].hash.clear();
  Ok(v)
}
fn old_bytes(r: &mut Rng) -> Vec<u8> {
  match r.below(3) {
    0 => b"precious".to_vec(),
    1 => vec![],
    _ => good_img(r, 40, true).build(),
  }
}
/// Another program creates the output path at some instant of the run.
fn gen_c03_race(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let sub = *ctx.rng.pick(&SUBS);
  let (mut w, m) = any_world(&mut ctx.rng, sub);
  let theirs = w.st.put(&old_bytes(&mut ctx.rng));
  for o in &m.outs {
    w.dir(&split(o).0);
  }
  let s = benign(&mut ctx.rng);
  let base = mkc(ctx, &w, &m, s);
  let d = ctx.dry(&base)?;
  let mut v = vec![];
  for _ in 0..4 {
    let out = ctx.rng.pick(&m.outs).clone();
    // instants before the output is created; mostly the last ones
    let all = sites(&d, |_, p| p.starts_with("/w"));
    let upto = all.iter().position(|x| x.0 == Op::Create && x.1 == out).map(|i| i + 1).unwrap_or(all.len());
    if upto == 0 {
      break;
    }
    let near: Vec<usize> = (0..upto).filter(|i| all[*i].1 == out).collect();
    let k = if !near.is_empty() && ctx.rng.chance(700) { near[near.len() - 1 - ctx.rng.below((near.len() as u64).min(3)) as usize] } else { ctx.rng.below(upto as u64) as usize };
    let (op, path, nth) = all[k].clone();
    let mut c = base.clone();
    c.runs[0].spec.faults.push(Fault { op, path, nth, count: 1, act: Act::Env(vec![EnvAct::CreateFile { path: out.clone(), data: theirs }]) });
    // sometimes something else goes wrong afterwards
    if ctx.rng.chance(300) {
      let f: Vec<_> = all[..].iter().filter(|x| matches!(x.0, Op::Read | Op::Write | Op::Mmap | Op::Fstat)).collect();
      if !f.is_empty() {
        let (op, path, nth) = (*ctx.rng.pick(&f)).clone();
        let e = errno(&mut ctx.rng, op);
        c.runs[0].spec.faults.push(Fault { op, path, nth, count: 1, act: Act::Err(e) });
      }
    }
    v.push(c);
  }
  Ok(v)
}
fn ora_c03(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = cmeta(c);
  let before = init_fs(c);
  let r = &rs[0];
  if let Some(x) = ended(r) {
    return vec![x];
  }
  let after = r.fs();
  let mut out = vec![];
  for (p, e) in &before {
    if matches!(e.ent, Ent::Dir) {
      continue;
    }
    tally("existing_files_checked", 1);
    match after.get(p) {
      None => out.push(v("removed-existing", format!("{} existed before {} without --override and is gone ({:?})", p, m.sub, r.out.exit))),
      Some(a) => {
        let same = match (&e.ent, &a.ent) {
          (Ent::File(x), Ent::File(y)) => x == y && e.mtime == a.mtime,
          (Ent::Link(x), Ent::Link(y)) => x == y,
          _ => false,
        };
        if !same {
          out.push(v("changed-existing", format!("{} existed before {} without --override and was changed ({:?})", p, m.sub, r.out.exit)));
        }
      }
    }
  }
  for x in r.out.muts.iter().filter(|x| x.op != Op::Open && !x.env && before.get(&x.path).map(|e| !matches!(e.ent, Ent::Dir)).unwrap_or(false)) {
    out.push(v("changed-existing", format!("{:?} on the existing file {}", x.op, x.path)));
  }
  // files another program created meanwhile
  let mut conflict = m.outs.iter().any(|o| before.contains_key(o));
  for e in r.out.muts.iter().filter(|x| x.env && x.op == Op::Create) {
    tally("raced_creations", 1);
    conflict |= m.outs.contains(&e.path);
    for x in r.out.muts.iter().filter(|x| x.op != Op::Open && !x.env && x.ino == e.ino) {
      out.push(v("changed-raced", format!("{} was created by another program, then {} did {:?} on it ({:?})", e.path, m.sub, x.op, r.out.exit)));
    }
    if after.get(&e.path).map(|a| a.ino) != Some(e.ino) {
      out.push(v("changed-raced", format!("{} was created by another program and is not that file any more ({:?})", e.path, r.out.exit)));
    }
  }
  if conflict && !failed(r) {
    out.push(v("silent-conflict", format!("{} met an existing output without --override but the exit status is 0", m.sub)));
  }
  out
}

// --------------------------------------------------------------- C04
fn gen_c04_faults(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let sub = *ctx.rng.pick(&["convert", "process-raw", "extract", "makedng", "analyze"]);
  let (mut w, mut m) = any_world(&mut ctx.rng, sub);
  m.over = ctx.rng.chance(500) && sub != "analyze";
  if m.over && ctx.rng.chance(600) {
    for o in &m.outs {
      let old = old_bytes(&mut ctx.rng);
      w.file(o, &old);
    }
  }
  if ctx.rng.chance(300) {
    w.file("/w/in/neighbour.txt", b"leave me alone");
    m.reads.push("/w/in/neighbour.txt".into());
  }
  let s = benign(&mut ctx.rng);
  let base = mkc(ctx, &w, &m, s);
  fault_cases(ctx, &base, 3, |op, p| io_op(op) && p.starts_with("/w"))
}
/// Output paths that name an input or lie in the input directory.
fn gen_c04_alias(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let sub = *r.pick(&SUBS);
  let (mut w, mut m) = any_world(r, sub);
  m.over = r.chance(700);
  let outs = std::mem::take(&mut m.outs);
  // a link left in the output directory, in the place of one result, leads to the source of another
  let cross = m.dir && sub != "makedng" && !outs.is_empty() && r.chance(300);
  match sub {
    _ if cross => {
      let o = r.pick(&outs).clone();
      let t = r.pick(&m.reads).clone();
      w.link(&o, &t);
    }
    "makedng" => {
      let p = r.pick(&m.inputs).clone();
      m.dst = alias_of(r, &mut w, &p);
    }
    "extract" => {
      if m.dir {
        // in place; one of the stored names may be a DNG of the same directory
        m.dst = r.pick(&["/w/in", "/w/in/.", "/w/out/../in"]).to_string();
        let names: Vec<String> = m.reads.iter().map(|p| split(p).1).collect();
        let o = original_bytes(r);
        let nm = r.pick(&names).clone();
        let im = emb_img(r, Emb::good(&nm, &o)).build();
        w.file("/w/in/Z.dng", &im);
        m.reads.push("/w/in/Z.dng".into());
      } else if r.chance(500) {
        m.dst = alias_of(r, &mut w, &m.src.clone());
      } else {
        // the stored name is the name of the DNG itself
        let o = original_bytes(r);
        let im = emb_img(r, Emb::good(&split(&m.src).1, &o)).build();
        w.file(&m.src, &im);
        m.dst = "/w/in".into();
      }
    }
    _ => {
      if m.dir {
        m.dst = r.pick(&["/w/in", "in", "/w/in/"]).to_string();
        if sub == "convert" {
          // a DNG among the sources, perhaps with the name another source's output gets
          let st = if r.chance(600) { stem_of(&split(&m.reads[0]).1) } else { "D".into() };
          let p = format!("/w/in/{}.{}", st, r.pick(&["dng", "DNG"]));
          if !m.reads.contains(&p) {
            w.file(&p, &good_img(r, 40, true).build());
            m.reads.push(p);
          }
        }
      } else {
        if sub == "convert" && r.chance(600) {
          let p = format!("/w/in/S.{}", r.pick(&["dng", "DNG"]));
          w.file(&p, &good_img(r, 40, true).build());
          m.src = p.clone();
          m.reads = vec![p];
        }
        let s = m.src.clone();
        m.dst = if r.chance(300) { "/w/in".into() } else { alias_of(r, &mut w, &s) };
      }
    }
  }
  let mut v = vec![];
  let mut s = benign(&mut ctx.rng);
  s.shuffle_dirs = true;
  let base = mkc(ctx, &w, &m, s);
  if ctx.rng.chance(300) {
    v.extend(fault_cases(ctx, &base, 2, |op, p| io_op(op) && p.starts_with("/w"))?);
  } else {
    v.push(base);
  }
  Ok(v)
}
fn alias_of(r: &mut Rng, w: &mut World, p: &str) -> String {
  let (d, n) = split(p);
  match r.below(6) {
    0 => {
      w.link("/w/lnk.dng", p);
      "/w/lnk.dng".into()
    }
    1 => {
      w.link("/w/indir", &d);
      format!("/w/indir/{}", n)
    }
    2 => format!("{}/../{}/{}", d, split(&d).1, n),
    3 => format!("{}/./{}", d, n),
    4 => p.strip_prefix("/w/").unwrap_or(p).to_string(),
    _ => p.to_string(),
  }
}
fn ora_c04(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = cmeta(c);
  let before = init_fs(c);
  let r = &rs[0];
  if let Some(x) = ended(r) {
    return vec![x];
  }
  let after = r.fs();
  let mut out = vec![];
  for p in &m.reads {
    let e = match before.get(p) {
      Some(e) => e,
      None => continue,
    };
    tally("inputs_checked", 1);
    match after.get(p) {
      None => out.push(v("input-removed", format!("{} removed its input {} ({:?})", m.sub, p, r.out.exit))),
      Some(a) if a.bytes() != e.bytes() => out.push(v("input-changed", format!("{} changed its input {} from {} to {} bytes ({:?})", m.sub, p, e.bytes().map(|b| b.len()).unwrap_or(0), a.bytes().map(|b| b.len()).unwrap_or(0), r.out.exit))),
      Some(a) if a.mtime != e.mtime => out.push(v("input-touched", format!("{} changed the modification time of {}", m.sub, p))),
      _ => {}
    }
    for x in r.out.muts.iter().filter(|x| x.op != Op::Open && !x.env && (x.path == *p || x.path2 == *p)) {
      out.push(v("input-changed", format!("{} did {:?} on its input {}", m.sub, x.op, p)));
    }
  }
  // nothing new in the input tree unless the output is there
  let din = norm(&abs(&m.dst));
  if !din.starts_with("/w/in") && !din.starts_with("/w/lnk") && !din.starts_with("/w/indir") {
    for p in after.keys().filter(|p| p.starts_with("/w/in/") && !before.contains_key(*p)) {
      out.push(v("stray-in-input", format!("{} created {} in the input directory", m.sub, p)));
    }
  }
  if m.sub == "analyze" && r.out.muts.iter().any(|x| x.op != Op::Open && !x.env) {
    out.push(v("analyze-writes", "analyze changed the file system"));
  }
  out
}
fn norm(p: &str) -> String {
  let mut v: Vec<&str> = vec![];
  for c in p.split('/') {
    match c {
      "" | "." => {}
      ".." => {
        v.pop();
      }
      c => v.push(c),
    }
  }
  format!("/{}", v.join("/"))
}

// --------------------------------------------------------------- C10
fn ex_world(r: &mut Rng, bad_pm: u32, names: Option<&dyn Fn(&mut Rng, u64) -> Vec<u8>>) -> (World, Cmd) {
  let mut w = World::default();
  w.dir("/w/in");
  w.dir("/w/out");
  let mut m = Cmd { sub: "extract".into(), clean: true, src: "/w/in".into(), dst: "/w/out".into(), ..Default::default() };
  m.dir = r.chance(500);
  m.recursive = m.dir && r.chance(500);
  m.over = r.chance(250);
  m.skip = r.chance(150);
  let many = m.dir && r.chance(80);
  let n = if many { r.range(9, 24) } else if m.dir { r.range(1, 5) } else { 1 };
  for k in 0..n {
    let mut o = original_bytes(r);
    if many {
      o.truncate(3000);
    }
    let name = match names {
      Some(f) => f(r, k),
      None => orig_name(r, k).into_bytes(),
    };
    let mut e = Emb::good("", &o);
    e.name = Some(name.clone());
    let mut s = ExSrc { intact: true, digest_ok: true, ..Default::default() };
    if r.chance(bad_pm) {
      s.intact = false;
      let d = e.data.as_mut().unwrap();
      match r.below(9) {
        0 => {
          // one bit of the compressed data
          let lo = 8.min(d.len() - 29);
          let i = r.range(lo as u64, d.len() as u64 - 29) as usize;
          d[i] ^= 1 << r.below(8);
        }
        1 => {
          let i = r.below(d.len() as u64 - 28) as usize;
          d[i] ^= 1 << r.below(8);
        }
        2 => {
          // the same bit in data and checksum of the block cannot be told from valid data by zlib
          let mut o2 = o.clone();
          if o2.is_empty() {
            o2.push(1);
          } else {
            let i = r.below(o2.len() as u64) as usize;
            o2[i] ^= 1 << r.below(8);
          }
          *d = make_original(&o2);
        }
        3 => {
          let n = r.below(d.len() as u64 - 28) as usize;
          d.truncate(n);
        }
        4 => {
          let x = e.digest.as_mut().unwrap();
          let i = r.below(16) as usize;
          x[i] ^= 1 << r.below(8);
          s.digest_ok = false;
        }
        5 => {
          e.digest = None;
          s.digest_ok = false;
        }
        6 => {
          e.digest = Some(vec![1, 2, 3]);
          s.digest_ok = false;
        }
        7 => {
          e.data = None;
          s.digest_ok = false;
        }
        _ => {
          // blocks swapped or dropped
          if o.len() > 65536 {
            let mut o2 = o.clone();
            let h = 65536.min(o2.len() - 65536);
            for i in 0..h {
              o2.swap(i, 65536 + i);
            }
            if o2 == o {
              o2[0] ^= 1;
            }
            *d = make_original(&o2);
          } else {
            *d = make_original(&o[..o.len() / 2]);
            if o.is_empty() {
              *d = make_original(b"x");
            }
          }
        }
      }
    }
    let sd = if m.recursive && r.chance(400) { "sub/" } else { "" };
    let tag = if r.chance(150) { any_stem(r) } else { String::new() };
    s.path = format!("/w/in/{}E{}{}.{}", sd, k, tag, r.pick(&["dng", "DNG", "Dng"]));
    if r.chance(bad_pm / 4) {
      // not a DNG at all
      s.intact = false;
      s.digest_ok = false;
      w.file(&s.path, b"II*\0garbage that is not a directory");
    } else {
      w.file(&s.path, &emb_img(r, e).build());
    }
    s.name = String::from_utf8_lossy(&name).into_owned();
    s.orig = w.st.put(&o);
    if m.dir {
      s.out = format!("/w/out/{}{}", sd, s.name);
      if !sd.is_empty() && r.chance(500) {
        w.dir("/w/out/sub");
      }
    } else {
      m.src = s.path.clone();
      m.dst = r.pick(&["/w/out", "/w/out/orig.raw", "out/orig.raw"]).to_string();
      s.out = if m.dst == "/w/out" { format!("/w/out/{}", s.name) } else { abs(&m.dst) };
    }
    m.reads.push(s.path.clone());
    m.outs.push(s.out.clone());
    m.ex.push(s);
  }
  if m.dir && r.chance(300) {
    w.file("/w/in/readme.txt", b"no");
    w.file("/w/in/other.NEF", b"no");
  }
  if m.over && r.chance(500) {
    for o in m.outs.clone() {
      if r.chance(600) {
        w.file(&o, &vec![0xAAu8; r.range(1, 90_000) as usize]);
      }
    }
  }
  (w, m)
}
fn gen_c10(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let bad = *ctx.rng.pick(&[0, 300, 600]);
  let (w, m) = ex_world(&mut ctx.rng, bad, None);
  let s = benign(&mut ctx.rng);
  Ok(vec![mkc(ctx, &w, &m, s)])
}
/// Some of the DNGs are damaged anywhere.
fn gen_c10_damaged(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, mut m) = ex_world(&mut ctx.rng, 0, None);
  let r = &mut ctx.rng;
  let n = m.ex.len();
  for (k, s) in m.ex.iter_mut().enumerate() {
    if r.chance(400) || k + 1 == n {
      s.open = true;
      let b = init_bytes(&w, &s.path);
      let kind = r.below(6);
      let b = if r.chance(850) { damage(r, b, kind) } else { damaged(r) };
      w.file(&s.path, &b);
    }
  }
  let s = benign(&mut ctx.rng);
  Ok(vec![mkc(ctx, &w, &m, s)])
}
fn init_bytes(w: &World, p: &str) -> Vec<u8> {
  w.bytes_of(p).unwrap_or_default()
}
fn gen_c10_io(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m) = ex_world(&mut ctx.rng, 100, None);
  let s = benign(&mut ctx.rng);
  let base = mkc(ctx, &w, &m, s);
  let mut v = fault_cases(ctx, &base, 4, |op, p| io_op(op) && op != Op::Stat && p.starts_with("/w"))?;
  let total: u64 = new_files(&init_fs(&base), &ctx.dry(&base)?.fs()).iter().map(|x| x.1.len() as u64).sum();
  if total > 0 {
    let mut c = base.clone();
    c.runs[0].spec.disk_free = Some(ctx.rng.below(total));
    c.runs[0].spec.disk_prefix = "/w/out".into();
    c.meta["clean"] = false.into();
    v.push(c);
  }
  // the stored data is damaged between disk and memory
  if ctx.rng.chance(600) {
    let d = ctx.dry(&base)?;
    let st = sites(&d, |op, p| op == Op::Read && p.starts_with("/w/in"));
    if !st.is_empty() {
      let (op, path, nth) = ctx.rng.pick(&st).clone();
      let mut c = base.clone();
      c.runs[0].spec.faults.push(Fault { op, path, nth, count: 1, act: Act::Flip(ctx.rng.next()) });
      c.meta["clean"] = false.into();
      v.push(c);
    }
  }
  Ok(v)
}
/// What dnglab embeds, dnglab restores.
fn gen_c10_round(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, mut m) = world(&mut ctx.rng, &Knobs { dir_pm: 500, files: (1, 3), maxdim: 350, keep_pm: 0, ..K });
  m.embed = true;
  w.dir("/w/back");
  if m.dir {
    m.recursive = false;
  } else {
    m.dst = "/w/out/conv.dng".into();
  }
  let s = benign(&mut ctx.rng);
  let mut c = mk(ctx, &w, &m, s);
  let srcs = sources(&init_fs(&c), &m);
  let names: std::collections::BTreeSet<_> = srcs.iter().map(|s| &s.name).collect();
  if names.len() < srcs.len() {
    return Ok(vec![]);
  }
  let mut x = Cmd { sub: "extract".into(), clean: true, src: if m.dir { "/w/out".into() } else { m.dst.clone() }, dst: "/w/back".into(), dir: m.dir, ..Default::default() };
  for s in srcs {
    // dot-names have no extension
    x.ex.push(ExSrc { path: format!("{}/{}.dng", s.odir, s.ostem), out: format!("/w/back/{}", s.name), name: s.name.clone(), orig: w.st.put(&s.bytes), intact: true, digest_ok: true, open: false });
  }
  c.blob = w.st.0.clone();
  let s2 = benign(&mut ctx.rng);
  c.runs.push(Run { bin: "dnglab".into(), args: x.args(), env: vec![], spec: s2, carry: true, put: vec![] });
  c.meta = serde_json::to_value(&x).unwrap();
  Ok(vec![c])
}
/// Links that lead in circles, and directories below the input that cannot be read.
fn walk_cases(ctx: &mut Ctx, mut w: World, m: &Cmd, finish: impl Fn(&mut Ctx, &World) -> Case) -> Result<Vec<Case>, SimErr> {
  w.dir("/w/in/lost+found");
  if ctx.rng.chance(500) {
    let (p, t) = ctx.rng.pick(&[("/w/in/loop", "."), ("/w/in/lost+found/up", ".."), ("/w/in/lost+found/top", "/w/in"), ("/w/in/gone", "/nowhere/at/all")]);
    w.link(p, t);
  }
  let base = finish(ctx, &w);
  let d = ctx.dry(&base)?;
  let st = sites(&d, |op, p| matches!(op, Op::Opendir | Op::Readdir) && p.starts_with(&format!("{}/", m.src)));
  let mut b = base.clone();
  b.hash = vec![d.out.hash];
  let mut v = vec![b];
  for _ in 0..2.min(st.len()) {
    let (op, path, nth) = ctx.rng.pick(&st).clone();
    let mut c = base.clone();
    let act = Act::Err(*ctx.rng.pick(&[libc::EACCES, libc::EIO]));
    c.runs[0].spec.faults.push(Fault { op, path, nth, count: 1, act });
    c.meta["clean"] = false.into();
    v.push(c);
  }
  Ok(v)
}
/// Directories below the input that could not be read in the last run.
fn blind(c: &Case, m: &Cmd, r: &Res) -> Vec<String> {
  let f = &c.runs.last().unwrap().spec.faults;
  let f = if c.runs.len() > 1 && c.runs[0].spec.faults.len() > f.len() { &c.runs[0].spec.faults } else { f };
  f.iter().zip(&r.out.fired).filter(|(f, n)| **n > 0 && matches!(f.op, Op::Opendir | Op::Readdir) && f.path.starts_with(&format!("{}/", m.src))).map(|(f, _)| format!("{}/", f.path)).collect()
}
fn gen_c10_walk(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m) = loop {
    let (w, m) = ex_world(&mut ctx.rng, 0, None);
    if m.recursive {
      break (w, m);
    }
  };
  walk_cases(ctx, w, &m, |ctx, w| {
    let s = benign(&mut ctx.rng);
    mkc(ctx, w, &m, s)
  })
}
/// Several DNGs of one directory carry originals of one name.
fn gen_c10_same(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let n = r.range(1, 3);
  let f: &dyn Fn(&mut Rng, u64) -> Vec<u8> = &|r, _| format!("DSC_{}.NEF", r.below(n)).into_bytes();
  let (w, m) = loop {
    let (mut w, m) = ex_world(r, 0, Some(f));
    if m.dir && m.ex.len() > 1 {
      w.nodes.retain(|n| !n.path.starts_with("/w/out/") || matches!(n.kind, Kind::Dir));
      break (w, m);
    }
  };
  let s = benign(&mut ctx.rng);
  Ok(vec![mkc(ctx, &w, &m, s)])
}
/// One original of a name is restored, the others are refused.
fn ora_same(c: &Case, m: &Cmd, r: &Res) -> Vec<Viol> {
  let after = r.fs();
  let mut out = vec![];
  let Some(s) = summary(&r.stderr()) else {
    return vec![v("no-summary", format!("no summary ({:?}; {})", r.out.exit, tail(r)))];
  };
  let names: BTreeSet<&String> = m.ex.iter().map(|s| &s.out).collect();
  for n in &names {
    let won: Vec<&ExSrc> = m.ex.iter().filter(|x| x.out == **n && !s.failed.contains(&lossy(&x.path))).collect();
    let now = after.get(*n).and_then(|e| e.bytes());
    if won.len() > 1 {
      out.push(v("wrong-content", format!("{:?} count as extracted, but all to {}", won.iter().map(|x| &x.path).collect::<Vec<_>>(), n)));
    } else if won.is_empty() {
      out.push(v("not-restored", format!("nothing was extracted to {} ({:?}; {})", n, r.out.exit, tail(r))));
    } else if now != Some(blob(c, won[0].orig)) {
      out.push(v("wrong-content", format!("{} does not hold the original of {}", n, won[0].path)));
    }
  }
  tally("shared_names", (m.ex.len() - names.len()) as u64);
  if s.total != m.ex.len() as u64 || s.ok != names.len() as u64 {
    out.push(v("wrong-counts", format!("summary says {}/{}, really {}/{}", s.ok, s.total, names.len(), m.ex.len())));
  }
  if (names.len() < m.ex.len()) != failed(r) {
    out.push(v("silent-failure", format!("{} of {} extracted but {:?}", names.len(), m.ex.len(), r.out.exit)));
  }
  out
}
fn blob<'a>(c: &'a Case, b: Blob) -> &'a [u8] {
  &c.blob[b.0 as usize..(b.0 + b.1) as usize]
}
/// The minimiser removed an input: no verdict.
fn gone(c: &Case, m: &Cmd) -> bool {
  let fs = init_fs(c);
  m.reads.iter().any(|p| !fs.contains_key(&norm(&abs(p))))
}
fn ora_c10(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = cmeta(c);
  if gone(c, &m) {
    return vec![];
  }
  for r in rs {
    if let Some(x) = ended(r) {
      return vec![x];
    }
  }
  let r = &rs[rs.len() - 1];
  if m.ex.iter().any(|s| s.open) && too_big(r) {
    tally("claimed_more_than_memory", 1);
    return vec![];
  }
  let before = if rs.len() > 1 { rs[rs.len() - 2].fs() } else { init_fs(c) };
  if rs.len() > 1 && failed(&rs[0]) {
    return vec![v("spurious-failure", format!("conversion failed: {:?} {}", rs[0].out.exit, tail(&rs[0])))];
  }
  if m.dir && m.clean && m.ex.iter().all(|s| s.intact && !s.open) && m.ex.iter().map(|s| &s.out).collect::<BTreeSet<_>>().len() < m.ex.len() {
    return ora_same(c, &m, r);
  }
  let after = r.fs();
  let mut out = vec![];
  let mut done = BTreeSet::new();
  let unlink_failed = fault_fired(c, rs.len() - 1, r, Op::Unlink);
  let listed = summary(&r.stderr()).map(|s| s.failed).unwrap_or_default();
  // outputs of damaged files: their stored names are unknown
  let mut strays = 0;
  for (i, s) in m.ex.iter().enumerate() {
    if s.open {
      tally("damaged_sources", 1);
      if if m.dir { !listed.contains(&lossy(&s.path)) } else { !failed(r) } {
        done.insert(i);
        strays += 1;
      }
      continue;
    }
    let orig = blob(c, s.orig);
    let was = before.get(&s.out).and_then(|e| e.bytes());
    let now = after.get(&s.out).and_then(|e| e.bytes());
    let touched = r.out.muts.iter().any(|x| x.op != Op::Open && !x.env && (x.path == s.out || x.path2 == s.out));
    match now {
      Some(b) if touched => {
        if m.skip {
          if b == orig || !s.intact {
            done.insert(i);
          } else if s.intact && !unlink_failed {
            out.push(v("wrong-content", format!("{} holds {} bytes that are not the original of {} ({:?})", s.out, b.len(), s.path, r.out.exit)));
          }
        } else if b != orig || !s.digest_ok {
          if !unlink_failed {
            out.push(v(
              if failed(r) { "leftover" } else { "wrong-content" },
              format!("after {:?} {} holds {} bytes although the embedded original of {} {}", r.out.exit, s.out, b.len(), s.path, if s.digest_ok { "is different" } else { "cannot be verified" }),
            ));
          }
        } else {
          done.insert(i);
        }
      }
      _ => {
        let _ = was;
      }
    }
    if m.clean && s.intact && !done.contains(&i) {
      out.push(v("not-restored", format!("{} is intact but was not extracted to {} ({:?}; {})", s.path, s.out, r.out.exit, tail(r))));
    }
    if !m.clean && !failed(r) && !done.contains(&i) {
      out.push(v("silent-failure", format!("{} was not extracted but the exit status is 0", s.path)));
    }
    if !s.intact && !failed(r) && !m.skip && !done.contains(&i) {
      out.push(v("silent-failure", format!("{} cannot be restored but the exit status is 0", s.path)));
    }
  }
  tally("originals_restored", done.len() as u64);
  tally("refused", (m.ex.len() - done.len()) as u64);
  for (p, b) in after.iter().filter_map(|(p, e)| e.bytes().map(|b| (p.clone(), b))) {
    if !m.ex.iter().any(|s| s.out == p && !s.open) && before.get(&p).and_then(|e| e.bytes()) != Some(b) {
      if strays > 0 && (p.starts_with("/w/out/") || p == abs(&m.dst)) {
        strays -= 1;
        continue;
      }
      out.push(v("stray-output", format!("{} ({} bytes) belongs to no source", p, b.len())));
    }
  }
  if done.len() < m.ex.len() && !failed(r) {
    out.push(v("silent-failure", format!("{} of {} extracted but exit status 0", done.len(), m.ex.len())));
  }
  let blind = if m.dir && !m.clean { blind(c, &m, r) } else { vec![] };
  if !blind.is_empty() && c.runs.last().unwrap().spec.faults.len() == 1 {
    tally("unreadable_directories", blind.len() as u64);
    for (i, s) in m.ex.iter().enumerate() {
      if s.intact && !s.open && !done.contains(&i) && !blind.iter().any(|b| s.path.starts_with(b.as_str())) {
        out.push(v("batch-stopped", format!("{} is intact but was not extracted, only {:?} could not be read ({:?}; {})", s.path, blind, r.out.exit, tail(r))));
      }
    }
    if !failed(r) {
      out.push(v("silent-failure", format!("{:?} could not be read but the exit status is 0", blind)));
    }
  }
  if m.dir {
    let faulty_dir = c.runs.last().unwrap().spec.faults.iter().any(|f| matches!(f.op, Op::Opendir | Op::Readdir | Op::Realpath));
    match summary(&r.stderr()) {
      None if faulty_dir && failed(r) => {}
      None => out.push(v("no-summary", format!("no summary ({:?}; {})", r.out.exit, tail(r)))),
      Some(s) if !faulty_dir && !unlink_failed => {
        if s.total != m.ex.len() as u64 || s.ok != done.len() as u64 {
          out.push(v("wrong-counts", format!("summary says {}/{}, really {}/{}", s.ok, s.total, done.len(), m.ex.len())));
        }
        let want: BTreeSet<String> = m.ex.iter().enumerate().filter(|(i, _)| !done.contains(i)).map(|(_, s)| lossy(&s.path)).collect();
        let got: BTreeSet<String> = s.failed.iter().cloned().collect();
        if want != got {
          out.push(v("wrong-failed-list", format!("listed as failed {:?}, really {:?}", got, want)));
        }
      }
      _ => {}
    }
  }
  out
}

// --------------------------------------------------------------- C11
fn hostile(r: &mut Rng, k: u64) -> Vec<u8> {
  let base = r.pick(&["evil", "precious.txt", "E0.dng", "passwd", "sub"]).to_string();
  let s = match r.below(16) {
    0 => format!("../{}", base),
    1 => format!("../../{}", base),
    2 => format!("/w/{}", base),
    3 => format!("/w/other/{}", base),
    4 => format!("a/../../other/{}", base),
    5 => "..".into(),
    6 => ".".into(),
    7 => "".into(),
    8 => format!("sub/{}", base),
    9 => "/".into(),
    10 => format!("./../other/./{}", base),
    11 => format!("../in/E{}.dng", k),
    12 => format!("..//..//w//other//{}", base),
    13 => format!("../other/{}/", base),
    14 => format!("..\\{}", base),
    _ => return [b"ok\0".as_slice(), format!("../other/{}", base).as_bytes()].concat(),
  };
  s.into_bytes()
}
fn gen_c11(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let f: &dyn Fn(&mut Rng, u64) -> Vec<u8> = &|r, k| if r.chance(800) { hostile(r, k) } else { orig_name(r, k).into_bytes() };
  let (mut w, mut m) = ex_world(&mut ctx.rng, 50, Some(f));
  m.over = ctx.rng.chance(600);
  w.nodes.retain(|n| !(n.path.starts_with("/w/out/") && !matches!(n.kind, Kind::Dir)));
  for p in ["/w/other/precious.txt", "/w/precious.txt", "/w/other/evil", "/precious.txt", "/w/other/passwd"] {
    if ctx.rng.chance(700) {
      w.file(p, b"must survive");
    }
  }
  w.dir("/w/other");
  if ctx.rng.chance(400) {
    w.dir("/w/out/sub");
  }
  if ctx.rng.chance(200) {
    w.dir("/w/out/evil");
  }
  if !m.over && ctx.rng.chance(300) {
    // dangling and live links in the output directory
    w.link("/w/out/evil", "/w/other/through-link");
    w.link("/w/out/precious.txt", "/w/other/precious.txt");
  }
  if !m.dir && ctx.rng.chance(600) {
    m.dst = "/w/out".into();
  }
  let s = benign(&mut ctx.rng);
  let base = mkc(ctx, &w, &m, s);
  if ctx.rng.chance(300) {
    return fault_cases(ctx, &base, 2, |op, p| io_op(op) && p.starts_with("/w"));
  }
  Ok(vec![base])
}
fn ora_c11(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = cmeta(c);
  let before = init_fs(c);
  let r = &rs[0];
  if let Some(x) = ended(r) {
    return vec![x];
  }
  let after = r.fs();
  let dst = norm(&abs(&m.dst));
  let isdir = matches!(before.get(&dst).map(|e| &e.ent), Some(Ent::Dir));
  let inside = |p: &str| if isdir { p.starts_with(&format!("{}/", dst)) } else { p == dst };
  let mut out = vec![];
  for x in r.out.muts.iter().filter(|x| x.op != Op::Open && !x.env) {
    tally("writes_checked", 1);
    if !inside(&x.path) || (x.op == Op::Rename && !inside(&x.path2)) {
      out.push(v("write-outside", format!("{:?} on {} {} although the output is {}", x.op, x.path, x.path2, dst)));
    }
  }
  for (p, e) in &before {
    if inside(p) && m.over {
      continue;
    }
    if let Some(b) = e.bytes() {
      if after.get(p).and_then(|a| a.bytes()) != Some(b) {
        out.push(v("write-outside", format!("{} was changed or removed", p)));
      }
    }
  }
  for p in after.keys().filter(|p| !before.contains_key(*p) && !inside(p)) {
    out.push(v("write-outside", format!("{} was created although the output is {}", p, dst)));
  }
  out
}

// --------------------------------------------------------------- C13
/// One colour all over, so that a mix-up of inputs shows.
fn flat_ppm(r: &mut Rng) -> Vec<u8> {
  let (w, h) = (r.range(16, 400) as u32, r.range(16, 300) as u32);
  let c = [r.next() as u8 as u16, r.next() as u8 as u16, r.next() as u8 as u16];
  let px: Vec<u16> = (0..w * h).flat_map(|_| c).collect();
  ppm(w, h, &px, false)
}
/// A JPEG that carries nothing but metadata.
fn meta_jpeg(r: &mut Rng) -> Vec<u8> {
  let mut j = vec![0xff, 0xd8];
  let mut seg = |m: u8, d: &[u8]| {
    j.extend([0xff, m]);
    j.extend(((d.len() + 2) as u16).to_be_bytes());
    j.extend(d);
  };
  if r.chance(300) {
    seg(0xe0, b"JFIF\0\x01\x01\0\0\x48\0\x48\0\0");
  }
  seg(0xe1, &[&b"Exif\0\0"[..], &good_exif(r)].concat());
  if r.chance(700) {
    seg(0xe1, &[&b"http://ns.adobe.com/xap/1.0/\0"[..], format!("<x:xmpmeta xmlns:x='adobe:ns:meta/'>{}</x:xmpmeta>", r.below(1 << 40)).as_bytes()].concat());
  }
  if r.chance(300) {
    seg(0xfe, b"comment");
  }
  j.extend([0xff, 0xd9]);
  j
}
const MATRICES: [(&str, [f64; 9]); 4] = [
  ("XYZ_sRGB_D50", [3.1338561, -1.6168667, -0.4906146, -0.9787684, 1.9161415, 0.0334540, 0.0719453, -0.2289914, 1.4052427]),
  ("XYZ_sRGB_D65", [3.2404542, -1.5371385, -0.4985314, -0.9692660, 1.8760108, 0.0415560, 0.0556434, -0.2040259, 1.0572252]),
  ("XYZ_AdobeRGB_D50", [1.9624274, -0.6105343, -0.3413404, -0.9787684, 1.9161415, 0.0334540, 0.0286869, -0.1406752, 1.3487655]),
  ("XYZ_AdobeRGB_D65", [2.0413690, -0.5649464, -0.3446944, -0.9692660, 1.8760108, 0.0415560, 0.0134474, -0.1183897, 1.0154096]),
];
const ILLUMINANTS: [(&str, u32); 8] = [("Unknown", 0), ("A", 17), ("B", 18), ("C", 19), ("D50", 23), ("D55", 20), ("D65", 21), ("D75", 22)];
fn floats(s: &str) -> Vec<f64> {
  s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}
fn made_world(r: &mut Rng) -> (World, Cmd, Option<Vec<u8>>) {
  let mut w = World::default();
  w.dir("/w/in");
  w.dir("/w/out");
  let mut m = Cmd { sub: "makedng".into(), clean: true, ..Default::default() };
  let raw = if r.chance(400) { ppm_img(r, r.0 & 1 == 0).0 } else { good_img(r, 200, false).build() };
  let is_ppm = raw.starts_with(b"P6");
  // (path, content, roles)
  let rn = if is_ppm { "/w/in/raw.ppm".to_string() } else { format!("/w/in/raw.{}", ext(r)) };
  let mut ins: Vec<(String, Vec<u8>, Vec<&str>)> = vec![(rn, raw.clone(), vec!["raw"])];
  if r.chance(400) {
    ins.push(("/w/in/preview.ppm".into(), flat_ppm(r), vec!["preview"]));
  }
  if r.chance(400) {
    ins.push(("/w/in/thumb.ppm".into(), flat_ppm(r), vec!["thumbnail"]));
  }
  if r.chance(400) {
    let mut i = good_img(r, 40, true);
    i.datetime = Some(format!("20{:02}:0{}:1{} 0{}:1{}:2{}", r.range(10, 24), r.range(1, 9), r.below(10), r.below(10), r.below(10), r.below(10)));
    match r.below(3) {
      0 if !is_ppm => ins[0].2.push("exif"),
      1 => ins.push(("/w/in/meta.jpg".into(), meta_jpeg(r), if r.chance(700) { vec!["exif", "xmp"] } else { vec!["exif"] })),
      _ => ins.push(("/w/in/meta.NEF".into(), i.build(), vec!["exif"])),
    }
  } else if r.chance(200) {
    ins.push(("/w/in/side.jpg".into(), meta_jpeg(r), vec!["xmp"]));
  }
  if r.chance(300) {
    // not mapped: ignored, whatever it is
    let d = match r.below(3) {
      0 => flat_ppm(r),
      1 => good_img(r, 40, true).build(),
      _ => b"no picture at all".to_vec(),
    };
    ins.push(("/w/in/other.ppm".into(), d, vec![]));
  }
  for k in (1..ins.len()).rev() {
    ins.swap(k, r.below(k as u64 + 1) as usize);
  }
  for (k, (p, d, roles)) in ins.iter().enumerate() {
    w.file(p, d);
    m.reads.push(p.clone());
    m.inputs.push(p.clone());
    for x in roles {
      let at = r.below(m.maps.len() as u64 + 1) as usize;
      m.maps.insert(at, format!("{}:{}", k, x));
    }
  }
  for (o, val) in [("--artist", "A. Body"), ("--make", "Mk"), ("--model", "Md"), ("--unique-camera-model", "Uq 1")] {
    if r.chance(400) {
      m.opts.push(o.into());
      m.opts.push(val.into());
    }
  }
  let mut v6 = false;
  if r.chance(500) {
    let k = r.below(7);
    v6 = k == 6;
    m.opts.push(format!("--dng-backward-version=1.{}", k));
  }
  for n in 1..=3 {
    if r.chance(350) && (n < 3 || v6) {
      let mx = if r.chance(500) {
        r.pick(&MATRICES).0.to_string()
      } else {
        (0..9).map(|_| format!("{:.4}", (r.below(40_000) as f64 - 20_000.0) / 10_000.0)).collect::<Vec<_>>().join(",")
      };
      m.opts.push(format!("--matrix{}={}", n, mx));
      m.opts.push(format!("--illuminant{}={}", n, r.pick(&ILLUMINANTS).0));
    }
  }
  if r.chance(300) {
    m.opts.push(format!("--colorimetric-reference={}", r.pick(&["scene", "output"])));
  }
  match r.below(5) {
    0 => m.opts.push(format!("--wb=0.{:04},1,{:.3}", r.below(10_000), 0.2 + r.below(2000) as f64 / 1000.0)),
    1 => m.opts.push(format!("--white-xy={}", r.pick(&["D50", "D65", "0.3127,0.329", "0.41, 0.25"]))),
    _ => {}
  }
  if is_ppm && r.chance(350) {
    let t = match r.below(4) {
      0 => (0..r.range(2, 300)).map(|_| (r.next() as u16).to_string()).collect::<Vec<_>>().join(","),
      1 => format!("{}bit_gamma{}", r.pick(&["8", "16"]), r.pick(&["1.8", "2.0", "2.2", "2.4"])),
      2 => format!("{}bit_gamma{}_invert", r.pick(&["8", "16"]), r.pick(&["1.8", "2.0", "2.2", "2.4"])),
      _ => format!("{}bit_sRGB{}", r.pick(&["8", "16"]), r.pick(&["", "_invert"])),
    };
    m.opts.push(format!("--linearization={}", t));
  }
  m.over = r.chance(300);
  m.dst = r.pick(&["/w/out/made.dng", "out/made.dng", "/w/out/made"]).to_string();
  if m.over && r.chance(600) {
    w.file(&abs(&m.dst), &vec![0x55u8; r.range(1, 200_000) as usize]);
  }
  m.outs.push(abs(&m.dst));
  (w, m, Some(raw))
}
/// Input with this role.
fn role<'a>(m: &'a Cmd, name: &str) -> Option<&'a String> {
  m.maps.iter().filter_map(|x| x.split_once(':')).find(|x| x.1 == name).and_then(|x| m.inputs.get(x.0.parse::<usize>().ok()?))
}
/// Width, height, samples and whether they are 16 bit wide.
fn read_ppm(d: &[u8]) -> (usize, usize, Vec<u16>, bool) {
  let mut it = d.split(|x| *x == b'\n');
  it.next();
  let dim: Vec<usize> = String::from_utf8_lossy(it.next().unwrap()).split(' ').map(|x| x.parse().unwrap()).collect();
  let wide = it.next().unwrap() == b"65535";
  let off = d.len() - dim[0] * dim[1] * 3 * if wide { 2 } else { 1 };
  let px = if wide { d[off..].chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect() } else { d[off..].iter().map(|x| *x as u16).collect() };
  (dim[0], dim[1], px, wide)
}
/// What the options ask for is in the file.
fn made_options(m: &Cmd, t: &Tiff, raw: &Ifd, ppm16: Option<bool>) -> Vec<Viol> {
  let mut out = vec![];
  let root = &t.chain[0];
  let opt = |k: &str| m.opts.iter().find_map(|x| x.strip_prefix(&format!("--{}=", k)));
  let rat = |i: &Ifd, tag: u16| -> Option<Vec<f64>> {
    let e = i.tags.get(&tag)?;
    if e.ty != 5 && e.ty != 10 {
      return None;
    }
    let u = |b: &[u8]| if t.big { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) } else { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) };
    Some(e.raw.chunks_exact(8).map(|b| if e.ty == 5 { u(b) as f64 / u(&b[4..]) as f64 } else { u(b) as i32 as f64 / u(&b[4..]) as i32 as f64 }).collect())
  };
  let mut near = |what: &str, got: Option<Vec<f64>>, want: &[f64]| {
    let ok = got.as_ref().map_or(false, |g| g.len() == want.len() && g.iter().zip(want).all(|(a, b)| (a - b).abs() < 1.1e-4));
    if !ok {
      out.push(v("wrong-option", format!("{} is {:?} instead of {:?}", what, got, want)));
    }
  };
  for (n, mt, _) in [(1, 50721, 50778), (2, 50722, 50779), (3, 52531, 52529)] {
    if let Some(x) = opt(&format!("matrix{}", n)) {
      let want = MATRICES.iter().find(|q| q.0 == x).map(|q| q.1.to_vec()).unwrap_or_else(|| floats(x));
      near(&format!("colour matrix {}", n), rat(root, mt), &want);
    }
  }
  if let Some(x) = opt("wb") {
    near("white balance", rat(root, 50728), &floats(x));
  }
  if let Some(x) = opt("white-xy") {
    let want = match x {
      "D50" => vec![0.34567, 0.35850],
      "D65" => vec![0.31271, 0.32902],
      _ => floats(x),
    };
    near("white point", rat(root, 50729), &want);
  }
  if opt("wb").is_some() && root.tags.contains_key(&50729) || opt("white-xy").is_some() && root.tags.contains_key(&50728) {
    out.push(v("wrong-option", "both AsShotNeutral and AsShotWhiteXY are present"));
  }
  let mut ints = |what: &str, i: &Ifd, tag: u16, want: Vec<u32>| {
    let got = t.ints(i, tag).unwrap_or_default();
    if got != want {
      out.push(v("wrong-option", format!("{} is {:?} instead of {:?}", what, &got[..got.len().min(9)], &want[..want.len().min(9)])));
    }
  };
  for (n, it) in [(1, 50778), (2, 50779), (3, 52529)] {
    if let (Some(_), Some(x)) = (opt(&format!("matrix{}", n)), opt(&format!("illuminant{}", n))) {
      ints(&format!("illuminant {}", n), root, it, vec![ILLUMINANTS.iter().find(|q| q.0 == x).map_or(255, |q| q.1)]);
    }
  }
  let ver = opt("dng-backward-version").and_then(|x| x.strip_prefix("1.")).and_then(|x| x.parse().ok()).unwrap_or(4);
  ints("backward version", root, 50707, vec![1, ver, 0, 0]);
  ints("colorimetric reference", root, 50879, vec![(opt("colorimetric-reference") == Some("output")) as u32]);
  if let Some(wide) = ppm16 {
    let lin = opt("linearization");
    ints("white level", raw, 50717, vec![if wide || lin.is_some() { 65535 } else { 255 }; 3]);
    ints("black level", raw, 50714, vec![0; 3]);
    if let Some(x) = lin {
      if x.contains("bit_") {
        let n: usize = if x.starts_with('8') { 256 } else { 65536 };
        let inv = x.ends_with("_invert");
        let k = x.split('_').nth(1).unwrap();
        let f = |i: usize| -> f64 {
          let q = i as f64 / (n - 1) as f64;
          65535.0
            * match (k.strip_prefix("gamma"), inv) {
              (Some(g), false) => q.powf(1.0 / g.parse::<f64>().unwrap()),
              (Some(g), true) => q.powf(g.parse::<f64>().unwrap()),
              (None, false) => if q <= 0.0031308 { q * 12.92 } else { 1.055 * q.powf(1.0 / 2.4) - 0.055 },
              (None, true) => if q <= 0.04045 { q / 12.92 } else { ((q + 0.055) / 1.055).powf(2.4) },
            }
        };
        let got = t.ints(raw, 50712).unwrap_or_default();
        let bad = if got.len() != n { Some(0) } else { (0..n).find(|i| (got[*i] as f64 - f(*i)).abs() > 12.0) };
        if let Some(i) = bad {
          out.push(v("wrong-option", format!("linearization table {} ({} entries): entry {} is {:?}, expected about {:.0}", x, got.len(), i, got.get(i), f(i))));
        }
      } else {
        ints("linearization table", raw, 50712, x.split(',').map(|q| q.parse().unwrap()).collect());
      }
    } else if raw.tags.contains_key(&50712) {
      out.push(v("wrong-option", "a linearization table nobody asked for"));
    }
  }
  out
}
/// Metadata blocks of a JPEG: Exif (TIFF) and XMP.
fn jpeg_meta(d: &[u8]) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
  let (mut e, mut x) = (None, None);
  let mut p = 2;
  while p + 4 <= d.len() && d[p] == 0xff && d[p + 1] != 0xd9 {
    let n = u16::from_be_bytes([d[p + 2], d[p + 3]]) as usize;
    let b = &d[p + 4..p + 2 + n];
    if let Some(q) = b.strip_prefix(b"Exif\0\0") {
      e = Some(q.to_vec());
    }
    if let Some(q) = b.strip_prefix(b"http://ns.adobe.com/xap/1.0/\0") {
      x = Some(q.to_vec());
    }
    p += 2 + n;
  }
  (e, x)
}
fn gen_c13(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m, _) = made_world(&mut ctx.rng);
  let s = benign(&mut ctx.rng);
  Ok(vec![mkc(ctx, &w, &m, s)])
}
fn gen_c13_io(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, mut m, _) = made_world(&mut ctx.rng);
  let s = benign(&mut ctx.rng);
  let mut base = mkc(ctx, &w, &m, s);
  let d = ctx.dry(&base)?;
  let made = d.fs().get(&m.outs[0]).and_then(|e| e.bytes()).map(|b| b.to_vec());
  if let (Some(b), false) = (&made, failed(&d)) {
    m.want = Some(w.st.put(b));
    base.blob = w.st.0.clone();
    base.meta = serde_json::to_value(&m).unwrap();
  }
  let mut v = fault_cases(ctx, &base, 4, |op, p| io_op(op) && p.starts_with("/w"))?;
  v.remove(0);
  if let Some(b) = made {
    for _ in 0..2 {
      let mut c = base.clone();
      c.runs[0].spec.disk_free = Some(if ctx.rng.chance(500) { ctx.rng.below(b.len() as u64) } else { (b.len() as u64).saturating_sub(1 + ctx.rng.below(300)) });
      c.runs[0].spec.disk_prefix = "/w/out".into();
      c.meta["clean"] = false.into();
      v.push(c);
    }
  }
  Ok(v)
}
/// Some of the inputs are damaged.
fn gen_c13_damaged(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, mut m, _) = made_world(&mut ctx.rng);
  let r = &mut ctx.rng;
  let roles: Vec<usize> = m.maps.iter().filter_map(|x| x.split(':').next().unwrap().parse().ok()).collect();
  for _ in 0..r.range(1, 3) {
    let p = m.inputs[*r.pick(&roles)].clone();
    let b = if r.chance(500) {
      damaged(r)
    } else {
      let b = init_bytes(&w, &p);
      let kind = r.below(5);
      damage(r, b, kind)
    };
    w.file(&p, &b);
  }
  m.hurt = true;
  let s = benign(&mut ctx.rng);
  Ok(vec![mkc(ctx, &w, &m, s)])
}
fn gen_c13_bad(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, mut m, _) = made_world(&mut ctx.rng);
  // one input with a role that must be decoded is unusable
  let roles: Vec<usize> = m.maps.iter().filter(|x| !x.ends_with("exif") && !x.ends_with("xmp")).filter_map(|x| x.split(':').next().unwrap().parse().ok()).collect();
  let k = *ctx.rng.pick(&roles);
  let p = m.inputs[k].clone();
  match ctx.rng.below(4) {
    0 => w.nodes.retain(|n| n.path != p),
    1 => w.file(&p, b""),
    2 => w.file(&p, b"P6\n40 40\n255\nshort"),
    _ => {
      let g: Vec<u8> = (0..500).map(|_| ctx.rng.next() as u8).collect();
      w.file(&p, &g);
    }
  }
  m.bad.push(p);
  let s = benign(&mut ctx.rng);
  Ok(vec![mkc(ctx, &w, &m, s)])
}
fn ora_c13(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = cmeta(c);
  if gone(c, &m) {
    return vec![];
  }
  let before = init_fs(c);
  let r = &rs[0];
  if let Some(x) = ended(r) {
    return vec![x];
  }
  if m.hurt {
    tally("damaged_inputs", 1);
    if too_big(r) {
      tally("claimed_more_than_memory", 1);
      return vec![];
    }
  }
  let after = r.fs();
  let mut out = vec![];
  let o = &m.outs[0];
  let got = after.get(o).and_then(|e| e.bytes());
  for (p, _) in new_files(&before, &after) {
    if p != *o {
      out.push(v("stray-output", format!("{} was created", p)));
    }
  }
  if failed(r) {
    tally("failed_runs", 1);
    if m.clean && m.bad.is_empty() && !m.hurt {
      out.push(v("spurious-failure", format!("valid inputs, no fault: {:?} {}", r.out.exit, tail(r))));
    }
    let touched = r.out.muts.iter().any(|x| x.op != Op::Open && !x.env && x.path == *o);
    if touched && got.is_some() && !fault_fired(c, 0, r, Op::Unlink) {
      out.push(v("leftover", format!("after {:?} {} ({} bytes) is left", r.out.exit, o, got.unwrap().len())));
    }
    return out;
  }
  if !m.bad.is_empty() {
    out.push(v("bad-input-accepted", format!("{} is unusable but the exit status is 0", m.bad[0])));
    return out;
  }
  let b = match got {
    Some(b) => b,
    None => return vec![v("missing-output", format!("exit 0 but no {}", o))],
  };
  if let Some(wb) = m.want {
    if blob(c, wb) != b {
      out.push(v("incomplete-output", format!("exit 0 but {} ({} bytes) differs from the undisturbed result ({} bytes)", o, b.len(), wb.1)));
    }
  }
  if m.hurt {
    // what a damaged input shows is open, but the file must be whole
    match Tiff::parse(b) {
      Ok(t) => {
        if let Err(e) = t.chain.iter().try_for_each(|i| i.well_formed()) {
          out.push(v("incomplete-output", format!("exit 0 but {}: {}", o, e)));
        }
      }
      Err(e) => out.push(v("incomplete-output", format!("exit 0 but {}: {}", o, e))),
    }
    return out;
  }
  let d = match read_dng(b) {
    Ok(d) => d,
    Err(e) => return vec![v("incomplete-output", format!("exit 0 but {}: {}", o, e))],
  };
  tally("outputs_verified", 1);
  let raw = match role(&m, "raw") {
    Some(p) => before[p].bytes().unwrap(),
    None => return out,
  };
  let mut ppm16 = None;
  if raw.starts_with(b"P6") {
    let (pw, ph, px, wide) = read_ppm(raw);
    ppm16 = Some(wide);
    if (d.raw.w, d.raw.h, d.raw.cpp) != (pw, ph, 3) || d.raw.px != px {
      out.push(v("wrong-samples", format!("raw image {}x{}x{} does not carry the samples of the input image", d.raw.w, d.raw.h, d.raw.cpp)));
    }
  } else if let Ok(i) = read_dng(raw) {
    if d.raw.px != i.raw.px || d.raw.w != i.raw.w {
      out.push(v("wrong-samples", "raw samples differ from the input"));
    }
  }
  let t = Tiff::parse(b).unwrap();
  if let Err(e) = t.chain.iter().try_for_each(|i| i.well_formed()) {
    out.push(v("incomplete-output", format!("exit 0 but {}: {}", o, e)));
  }
  for i in t.all_ifds() {
    if t.int(i, 254).unwrap_or(0) & 1 == 0 && i.tags.contains_key(&273) | i.tags.contains_key(&324) {
      out.extend(made_options(&m, &t, i, ppm16));
    }
  }
  if let Some(p) = role(&m, "preview") {
    let (pw, ph, ..) = read_ppm(before[p].bytes().unwrap());
    let ok = t.all_ifds().iter().any(|i| t.int(i, 254).unwrap_or(0) & 1 == 1 && t.int(i, 259) == Ok(7) && (t.int(i, 256), t.int(i, 257)) == (Ok(pw as u32), Ok(ph as u32)));
    if !d.preview || !ok {
      out.push(v("missing-part", format!("{} ({}x{}) was mapped as preview but is not there", p, pw, ph)));
    }
  }
  if let Some(p) = role(&m, "thumbnail") {
    let (pw, ph, px, _) = read_ppm(before[p].bytes().unwrap());
    let k = (240.0 / pw as f64).min(120.0 / ph as f64);
    match t.image(&t.chain[0]) {
      Ok(i) if d.thumb => {
        let fits = (i.w as f64 - pw as f64 * k).abs() <= 1.5 && (i.h as f64 - ph as f64 * k).abs() <= 1.5;
        if !fits || i.px.chunks(3).any(|c| c != &px[..3]) {
          out.push(v("missing-part", format!("the thumbnail ({}x{}) does not show {} ({}x{})", i.w, i.h, p, pw, ph)));
        }
      }
      _ => out.push(v("missing-part", format!("{} was mapped as thumbnail but is missing", p))),
    }
  }
  if let Some(p) = role(&m, "exif") {
    let src = before[p].bytes().unwrap();
    let tiff = if src.starts_with(&[0xff, 0xd8]) { jpeg_meta(src).0.unwrap_or_default() } else { src.to_vec() };
    if let Ok(st) = Tiff::parse(&tiff) {
      if let Some(se) = &st.chain[0].exif {
        for tag in [33434, 34855, 36867] {
          let (a, b) = (se.tags.get(&tag), t.chain[0].exif.as_ref().and_then(|e| e.tags.get(&tag)));
          let val = |t: &Tiff, e: &TagEnt| if e.ty == 5 { e.raw.chunks(4).map(|b| if t.big { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) } else { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }).collect() } else { t.ent_ints(e) };
          if let Some(a) = a {
            if b.map(|b| val(&t, b)) != Some(val(&st, a)) {
              out.push(v("wrong-metadata", format!("Exif tag {} of {} is missing or different", tag, p)));
            }
          }
        }
      }
    }
  }
  if let Some(p) = role(&m, "xmp") {
    let x = jpeg_meta(before[p].bytes().unwrap()).1;
    let got = t.chain[0].tags.get(&700).map(|e| e.raw.clone());
    if x.is_some() && got != x {
      out.push(v("wrong-metadata", format!("the XMP packet of {} is missing or different", p)));
    }
  }
  for (k, tag) in [("--artist", 315), ("--make", 271), ("--model", 272), ("--unique-camera-model", 50708)] {
    if let Some(i) = m.opts.iter().position(|x| x == k) {
      // metadata taken from another file may set make and model again
      if (tag == 271 || tag == 272 || tag == 50708) && m.maps.iter().any(|x| x.ends_with("exif")) {
        continue;
      }
      if t.text(&t.chain[0], tag).as_deref() != Some(m.opts[i + 1].as_str()) {
        out.push(v("missing-tag", format!("{} is {:?}", k, t.text(&t.chain[0], tag))));
      }
    }
  }
  out
}

// --------------------------------------------------------------- C14
fn gen_c14_with(ctx: &mut Ctx, bad_pm: u32, collide: bool) -> Result<(World, Cmd, Case), SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir("/w/in");
  w.dir("/w/out");
  let mut m = Cmd { sub: "process-raw".into(), clean: true, src: "/w/in".into(), dst: "/w/out".into(), ..Default::default() };
  m.dir = r.chance(800);
  m.recursive = m.dir && r.chance(500);
  m.over = r.chance(200);
  m.keep_mtime = r.chance(200);
  if r.chance(200) {
    m.opts.extend(["--crop".into(), r.pick(&["best", "activearea", "none"]).to_string()]);
  }
  let many = m.dir && r.chance(40);
  let n = if many { r.range(9, 18) } else if m.dir { r.range(1, 4) } else { 1 };
  for k in 0..n {
    let hurt = bad_pm > 1000 && r.chance(500);
    let bad = hurt || r.chance(bad_pm % 1000);
    let im = if bad { bad_img(r) } else { good_img(r, if many { 24 } else { 90 }, true) };
    let sd = if m.recursive && r.chance(300) { "sub/" } else { "" };
    let st = if collide && r.chance(600) { "FOO".to_string() } else { format!("Q{}{}", k, any_stem(r)) };
    let p = format!("/w/in/{}{}.{}", sd, st, ext(r));
    if w.has(&p) {
      continue;
    }
    let bytes = if hurt { damaged(r) } else { im.build() };
    w.file_t(&p, &bytes, 1_500_000_000);
    if bad {
      m.bad.push(p.clone());
    }
    m.reads.push(p.clone());
    if !m.dir {
      m.src = p;
      m.dst = r.pick(&["/w/out", "/w/out/dev.tif", "/w/out/n/dev.tif"]).to_string();
    }
  }
  if m.dir && r.chance(300) {
    w.file("/w/in/skip.txt", b"x");
  }
  let s = benign(r);
  let mut c = mkc(ctx, &w, &m, s);
  // every source alone on an undisturbed machine
  for (k, p) in m.reads.iter().enumerate() {
    let mut solo = Cmd { dir: false, recursive: false, over: false, src: p.clone(), dst: format!("/w/solo{}.tif", k), ..m.clone() };
    solo.reads.clear();
    let mut s = calm(1);
    s.sched = Sched::Explicit { dev: vec![] };
    s.cpus = 1;
    s.fs = w.nodes.clone();
    c.runs.push(Run { bin: "dnglab".into(), args: solo.args(), env: vec![], spec: s, carry: false, put: vec![] });
  }
  Ok((w, m, c))
}
fn gen_c14(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  Ok(vec![gen_c14_with(ctx, 0, true)?.2])
}
/// Damaged files among the sources: whatever they become alone is what they become in company.
fn gen_c14_damaged(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  Ok(vec![gen_c14_with(ctx, 2000, false)?.2])
}
fn gen_c14_bad(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  Ok(vec![gen_c14_with(ctx, 350, false)?.2])
}
fn gen_c14_io(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (_, m, c) = gen_c14_with(ctx, 80, false)?;
  fault_cases(ctx, &c, 3, |op, p| {
    matches!(op, Op::Open | Op::Create | Op::Read | Op::Write | Op::Seek | Op::Mmap | Op::Utimens | Op::Fstat) && (m.reads.iter().any(|s| s == p) || p.starts_with("/w/out/"))
  })
}
fn gen_c14_walk(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m, c) = loop {
    let x = gen_c14_with(ctx, 80, false)?;
    if x.1.recursive {
      break x;
    }
  };
  walk_cases(ctx, w, &m, |_, w| {
    let mut c = c.clone();
    for r in &mut c.runs {
      r.spec.fs = w.nodes.clone();
    }
    c
  })
}
fn ora_c14(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = cmeta(c);
  if gone(c, &m) {
    return vec![];
  }
  let before = init_fs(c);
  for r in rs {
    if let Some(x) = ended(r) {
      return vec![x];
    }
  }
  if !m.bad.is_empty() && rs.iter().any(too_big) {
    tally("claimed_more_than_memory", 1);
    return vec![];
  }
  let r = &rs[0];
  let after = r.fs();
  let mut out = vec![];
  let mut want: Vec<Option<Vec<u8>>> = vec![];
  for (k, p) in m.reads.iter().enumerate() {
    let s = match rs.get(k + 1) {
      Some(s) => s,
      None => return vec![],
    };
    if failed(s) {
      if !m.bad.contains(p) {
        out.push(v("spurious-failure", format!("{} alone, undisturbed: {:?} {}", p, s.out.exit, tail(s))));
      }
      if s.fs().contains_key(&format!("/w/solo{}.tif", k)) {
        out.push(v("leftover", format!("{} failed but left its output", p)));
      }
      want.push(None);
    } else {
      let b = s.fs().get(&format!("/w/solo{}.tif", k)).and_then(|e| e.bytes()).map(|b| b.to_vec());
      if b.is_none() {
        out.push(v("missing-output", format!("{} alone: exit 0 but no output", p)));
      }
      if let Some(b) = &b {
        match Tiff::parse(b).and_then(|t| t.image(&t.chain[0]).map(|x| (x.w, x.h, x.cpp))) {
          Err(e) => out.push(v("incomplete-output", format!("{} alone: {}", p, e))),
          Ok(_) => tally("tiffs_parsed", 1),
        }
      }
      want.push(b);
    }
  }
  let nf = new_files(&before, &after);
  let mut owner: BTreeMap<usize, Vec<String>> = BTreeMap::new();
  let hit: Vec<String> = c.runs[0].spec.faults.iter().zip(&r.out.fired).filter(|(_, n)| **n > 0).map(|(f, _)| f.path.clone()).collect();
  let unlink_failed = fault_fired(c, 0, r, Op::Unlink);
  for (p, b) in &nf {
    let st = stem_of(&split(p).1);
    // outputs of sources that share a name may carry a suffix
    let cand: Vec<usize> = m
      .reads
      .iter()
      .enumerate()
      .filter(|(_, s)| {
        let (ss, sdir) = (lossy(&stem_of(&split(s).1)), split(s).0.replacen("/w/in", "/w/out", 1));
        // a name that is not UTF-8 may be kept or spelled as text
        let st = lossy(&st);
        if m.dir {
          split(p).0 == sdir && (st == ss || st.strip_prefix(&format!("{}_", ss)).map(|x| x.parse::<u32>().is_ok()).unwrap_or(false))
        } else if m.dst == "/w/out" {
          lossy(p) == format!("/w/out/{}.tif", ss)
        } else {
          *p == m.dst
        }
      })
      .map(|x| x.0)
      .collect();
    let mut done = false;
    for k in &cand {
      if want[*k].as_deref() == Some(b) && !owner.contains_key(k) {
        owner.entry(*k).or_default().push(p.clone());
        done = true;
        break;
      }
    }
    if !done && !unlink_failed {
      out.push(v(
        if cand.is_empty() { "stray-output" } else if failed(r) { "leftover" } else { "wrong-output" },
        format!("after {:?} {} ({} bytes) is not what its source gives alone", r.out.exit, p, b.len()),
      ));
    }
  }
  tally("outputs_verified", owner.len() as u64);
  let blind = if m.dir { blind(c, &m, r) } else { vec![] };
  let unseen = |p: &str| blind.iter().any(|b| p.starts_with(b.as_str()));
  if !blind.is_empty() && !failed(r) {
    out.push(v("silent-failure", format!("{:?} could not be read but the exit status is 0", blind)));
  }
  for (k, p) in m.reads.iter().enumerate() {
    let touched = unseen(p) || hit.iter().any(|h| h == p || (h.starts_with("/w/out/") && lossy(&stem_of(&split(h).1)).starts_with(lossy(&stem_of(&split(p).1)).as_str())) || (!m.dir && h.starts_with("/w/out")));
    if want[k].is_some() && !touched && !owner.contains_key(&k) {
      out.push(v("batch-stopped", format!("{} is valid and untouched but has no output ({:?}; {})", p, r.out.exit, tail(r))));
    }
  }
  if owner.len() < m.reads.len() && !failed(r) {
    out.push(v("silent-failure", format!("{} of {} processed but exit status 0", owner.len(), m.reads.len())));
  }
  if owner.len() == m.reads.len() && failed(r) && hit.is_empty() {
    out.push(v("spurious-failure", format!("everything was processed but {:?}", r.out.exit)));
  }
  if !unlink_failed {
    match summary(&r.stderr()) {
      None => out.push(v("no-summary", format!("{:?} {}", r.out.exit, tail(r)))),
      Some(s) => {
        // what is no source, but could not be examined, may be listed as failed, too
        let other = |p: &String| blind.iter().any(|b| lossy(b) == format!("{}/", p));
        let others = s.failed.iter().filter(|p| other(p)).count();
        let hidden = m.reads.iter().enumerate().filter(|(i, p)| unseen(p) && !owner.contains_key(i) && !s.failed.contains(&lossy(p))).count();
        let n = m.reads.len() + others - hidden;
        if s.total != n as u64 || s.ok != owner.len() as u64 {
          out.push(v("wrong-counts", format!("summary says {}/{}, really {}/{}", s.ok, s.total, owner.len(), n)));
        }
        let want: BTreeSet<String> = m.reads.iter().enumerate().filter(|(i, p)| !owner.contains_key(i) && (!unseen(p) || s.failed.contains(&lossy(p)))).map(|(_, s)| lossy(s)).collect();
        let got: BTreeSet<String> = s.failed.iter().filter(|p| !other(p)).cloned().collect();
        if want != got {
          out.push(v("wrong-failed-list", format!("listed as failed {:?}, really {:?}", got, want)));
        }
      }
    }
  }
  out
}

// --------------------------------------------------------------- C15
const MODES: [&str; 11] =
  ["--meta", "--structure", "--raw-checksum", "--raw-pixel", "--srgb", "--full-checksum", "--full-pixel", "--preview-pixel", "--preview-checksum", "--thumbnail-pixel", "--thumbnail-checksum"];
fn gen_c15(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  let mode = if r.chance(200) { "--meta".into() } else { r.pick(&MODES).to_string() };
  let mut im = if r.chance(100) { bad_img(r) } else { good_img(r, 150, true) };
  if im.defect == 0 && r.chance(500) {
    crate::rich::shape(r, &mut im);
  }
  let p = format!("/w/in/{}.{}", any_stem(r), ext(r));
  let hurt = r.chance(200);
  let cam = im.defect == 0 && mode != "--structure" && r.chance(250);
  let bytes = if hurt {
    damaged(r)
  } else if cam {
    crate::cams::Cam::gen(r, 150).build()
  } else {
    im.build()
  };
  w.file(&p, &bytes);
  let mut m = Cmd { sub: "analyze".into(), clean: true, src: p.clone(), opts: vec![mode], hurt, ..Default::default() };
  if r.chance(200) {
    m.opts.push("--yaml".into());
  }
  if im.defect != 0 || hurt {
    m.bad.push(p);
  }
  let mut s = calm(1);
  s.sched = Sched::Explicit { dev: vec![] };
  s.cpus = 1;
  let mut c = mkc(ctx, &w, &m, s);
  let mut add = |s: Spec| {
    let mut q = c.runs[0].clone();
    q.spec = s;
    q.spec.fs = w.nodes.clone();
    c.runs.push(q);
  };
  let mut b = benign(&mut ctx.rng);
  b.short_write_pm = ctx.rng.below(400) as u32;
  add(b.clone());
  let r = &mut ctx.rng;
  for _ in 0..3 {
    let mut s = benign(r);
    let f = match r.below(5) {
      0 => Fault { op: *r.pick(&[Op::Open, Op::Mmap, Op::Fstat, Op::Read, Op::Stat]), path: "/w/in".into(), nth: r.below(3) as u32, count: *r.pick(&[1, 1000]), act: Act::Err(*r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM])) },
      _ => Fault { op: Op::Stdout, path: "stdout".into(), nth: if r.chance(500) { r.below(3) as u32 } else { r.below(40) as u32 }, count: *r.pick(&[1, 100_000, 100_000]), act: Act::Err(*r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE])) },
    };
    s.faults.push(f);
    add(s);
  }
  if !hurt && !cam && im.defect == 0 {
    let mut s = calm(2);
    s.sched = Sched::Explicit { dev: vec![] };
    add(s);
    let q = c.runs.last_mut().unwrap();
    for a in q.args.iter_mut().filter(|a| MODES.contains(&a.as_str())) {
      *a = "--srgb".into();
    }
  }
  Ok(vec![c])
}
/// Width, height and samples of a binary PPM.
fn ppm_out(b: &[u8]) -> Option<(u32, u32, u32, &[u8])> {
  let n = b.iter().position(|x| *x == b'\n')?;
  let h: Vec<&str> = std::str::from_utf8(&b[..n]).ok()?.split(' ').collect();
  let (w, ht, max) = (h.get(1)?.parse().ok()?, h.get(2)?.parse().ok()?, h.get(3)?.parse().ok()?);
  let d = &b[n + 1..];
  let want = w as usize * ht as usize * 3 * if max > 255 { 2 } else { 1 };
  if h[0] == "P6" && d.len() == want {
    Some((w, ht, max, d))
  } else {
    None
  }
}
/// Pictures: the stored thumbnail, or else the developed image; the checksum is that of the picture.
fn picture(mode: &str, file: &[u8], want: &[u8], c: &Case, rs: &[Res]) -> Result<(), String> {
  let t = Tiff::parse(file)?;
  let i0 = &t.chain[0];
  let stored = if mode.starts_with("--thumbnail") && t.int(i0, 254) == Ok(1) { Some(t.image(i0)?) } else { None };
  let srgb = c.runs.iter().position(|r| r.args.iter().any(|a| a == "--srgb")).map(|k| &rs[k]).ok_or("no picture to compare with")?;
  if failed(srgb) {
    return Err(format!("--srgb fails: {:?}", srgb.out.exit));
  }
  let (w, h, max, d) = ppm_out(srgb.stdout()).filter(|x| x.2 == 65535).ok_or("--srgb prints no complete picture")?;
  let _ = max;
  let wide: Vec<u16> = d.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
  if mode.ends_with("-checksum") {
    let sum = match &stored {
      Some(p) => md5(&p.px.iter().map(|x| *x as u8).collect::<Vec<_>>()),
      None => md5(&wide.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
    };
    if want != format!("{}\n", hex(&sum)).as_bytes() {
      return Err(format!("{} is {} instead of {}", mode, String::from_utf8_lossy(want), hex(&sum)));
    }
    tally("picture_checksums", 1);
    return Ok(());
  }
  if mode == "--srgb" {
    return Ok(());
  }
  let (gw, gh, gmax, got) = ppm_out(want).ok_or_else(|| format!("{} prints no complete picture", mode))?;
  let (ew, eh, e): (u32, u32, Vec<u8>) = match &stored {
    Some(p) => (p.w as u32, p.h as u32, p.px.iter().map(|x| *x as u8).collect()),
    None => (w, h, wide.iter().map(|x| ((*x as u32 + 128) / 257) as u8).collect()),
  };
  if (gw, gh, gmax) != (ew, eh, 255) {
    return Err(format!("{} is {}x{} up to {} instead of {}x{}", mode, gw, gh, gmax, ew, eh));
  }
  if got.len() != e.len() || got.iter().zip(&e).any(|(a, b)| a.abs_diff(*b) > stored.is_none() as u8) {
    return Err(format!("{} is another picture than {}", mode, if stored.is_some() { "the stored one" } else { "the developed one" }));
  }
  tally("pictures_compared", 1);
  Ok(())
}
fn ora_c15(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = cmeta(c);
  if gone(c, &m) {
    return vec![];
  }
  for r in rs {
    if let Some(x) = ended(r) {
      return vec![x];
    }
  }
  if m.hurt {
    tally("damaged_inputs", 1);
    if rs.iter().any(too_big) {
      tally("claimed_more_than_memory", 1);
      return vec![];
    }
  }
  let mut out = vec![];
  let want = rs[0].stdout();
  let before = init_fs(c);
  if failed(&rs[0]) && m.bad.is_empty() {
    out.push(v("spurious-failure", format!("undisturbed {:?}: {:?} {}", m.opts, rs[0].out.exit, tail(&rs[0]))));
  }
  if !failed(&rs[0]) && !m.hurt {
    // the answer itself, where it follows from the file alone
    let file = before[&m.src].bytes().unwrap();
    let same = crate::cams::equivalent(file);
    let input = same.as_deref().unwrap_or(file);
    if let Ok(i) = read_dng(input) {
      let le = |px: &[u16]| -> Vec<u8> { px.iter().flat_map(|p| p.to_le_bytes()).collect() };
      // C01's finding: lossless Nikon samples come out dithered
      let px: Vec<u16> = match crate::cams::dithered(file) {
        Some(d) if m.opts[0] == "--raw-checksum" && want == format!("{}\n", hex(&md5(&le(&d)))).as_bytes() => d,
        Some(d) if m.opts[0] == "--raw-pixel" && want.ends_with(&d.iter().flat_map(|p| p.to_be_bytes()).collect::<Vec<_>>()) => d,
        _ => i.raw.px.clone(),
      };
      let what = crate::cams::kind(file);
      match m.opts[0].as_str() {
        "--raw-checksum" => {
          if want != format!("{}\n", hex(&md5(&le(&px)))).as_bytes() {
            out.push(v("wrong-answer", format!("{}: raw checksum {} instead of {}", what, String::from_utf8_lossy(want), hex(&md5(&le(&px))))));
          }
        }
        "--raw-pixel" => {
          let mut e = format!("{} {} {} 65535\n", if i.raw.cpp == 3 { "P6" } else { "P5" }, i.raw.w, i.raw.h).into_bytes();
          px.iter().for_each(|p| e.extend_from_slice(&p.to_be_bytes()));
          if want != e {
            out.push(v("wrong-answer", format!("{}: raw pixel dump differs from the raw image", what)));
          }
        }
        "--meta" | "--structure" if !m.opts.iter().any(|o| o == "--yaml") => match serde_json::from_slice::<serde_json::Value>(want) {
          Err(e) => out.push(v("wrong-answer", format!("not JSON: {}", e))),
          Ok(j) => {
            let f = &j["file"];
            let name = lossy(&split(&m.src).1);
            if f["fileSize"].as_u64() != Some(file.len() as u64) || f["fileName"].as_str() != Some(name.as_str()) || f["digest"].as_str() != Some(hex(&md5(file)).as_str()) {
              out.push(v("wrong-answer", format!("file is {}, really {} bytes {:?} {}", f, file.len(), name, hex(&md5(file)))));
            }
            let e = if m.opts[0] == "--structure" {
              if same.is_none() {
                crate::rich::says_structure(&j, file)
              } else {
                Ok(())
              }
            } else {
              crate::rich::says_meta(&j, input)
            };
            if let Err(e) = e {
              out.push(v("wrong-answer", format!("{}: {}", what, e)));
            }
          }
        },
        _ => {
          if want.is_empty() {
            out.push(v("wrong-answer", format!("{:?} printed nothing", m.opts)));
          }
          if same.is_none() && m.opts[0] != "--meta" && m.opts[0] != "--structure" {
            if let Err(e) = picture(&m.opts[0], file, want, c, rs) {
              out.push(v("wrong-answer", e));
            }
          }
        }
      }
      tally("answers_checked", 1);
    }
  }
  for (k, r) in rs.iter().enumerate().skip(1).filter(|(k, _)| c.runs[*k].args == c.runs[0].args) {
    let fired: u32 = r.out.fired.iter().sum();
    if fired > 0 {
      tally("faults_met", 1);
    }
    if !failed(r) {
      if r.stdout() != want || failed(&rs[0]) {
        out.push(v("incomplete-answer", format!("run {} exits 0 with {} bytes on stdout, the undisturbed run printed {} ({:?})", k, r.stdout().len(), want.len(), rs[0].out.exit)));
      } else {
        tally("answers_compared", 1);
      }
      if fault_fired(c, k, r, Op::Stdout) {
        out.push(v("lost-output", format!("run {}: writing stdout failed but the exit status is 0", k)));
      }
    } else if fired == 0 && !failed(&rs[0]) {
      out.push(v("spurious-failure", format!("run {}: {:?} {}", k, r.out.exit, tail(r))));
    }
  }
  out
}

pub static C03: Prop = Prop {
  id: "C03",
  families: &[("existing", 1, gen_c03_there), ("race", 2, gen_c03_race)],
  oracle: ora_c03,
  min_rounds: 80,
  rule: "convert, process-raw, extract or makedng without --override on outputs that exist, are links, or are created by another program before a seeded operation, optionally with a later failure; distinct by event-history hash",
};
pub static C04: Prop = Prop {
  id: "C04",
  families: &[("faults", 1, gen_c04_faults), ("alias", 2, gen_c04_alias)],
  oracle: ora_c04,
  min_rounds: 80,
  rule: "every command with outputs that alias inputs (same path, links, dot paths, in-place directories) with and without --override, and with failing operations; distinct by event-history hash",
};
pub static C10: Prop = Prop {
  id: "C10",
  families: &[("stored", 3, gen_c10), ("io", 3, gen_c10_io), ("roundtrip", 1, gen_c10_round), ("damaged", 2, gen_c10_damaged), ("same-name", 1, gen_c10_same), ("walk", 1, gen_c10_walk)],
  oracle: ora_c10,
  min_rounds: 80,
  rule: "DNGs with intact or damaged embedded originals and digests, single or in batches, with failing operations, full disk and bits flipping while reading; also convert followed by extract; distinct by event-history hash",
};
pub static C11: Prop = Prop {
  id: "C11",
  families: &[("hostile", 1, gen_c11)],
  oracle: ora_c11,
  min_rounds: 100,
  rule: "DNGs whose stored original name is absolute, has parent references, separators, terminators or is empty; every output mapping, with and without --override, links in the output directory, failing operations; distinct by event-history hash",
};
pub static C13: Prop = Prop {
  id: "C13",
  families: &[("make", 2, gen_c13), ("io", 3, gen_c13_io), ("bad", 1, gen_c13_bad), ("damaged", 1, gen_c13_damaged)],
  oracle: ora_c13,
  min_rounds: 80,
  rule: "makedng with raw, preview, thumbnail and EXIF roles from DNG and PPM inputs, unusable inputs, failing operations and full disk; distinct by event-history hash",
};
pub static C14: Prop = Prop {
  id: "C14",
  families: &[("batch", 2, gen_c14), ("bad", 2, gen_c14_bad), ("io", 2, gen_c14_io), ("damaged", 1, gen_c14_damaged), ("walk", 1, gen_c14_walk)],
  oracle: ora_c14,
  min_rounds: 60,
  rule: "process-raw on single files and batches (colliding names, broken sources, failing operations), each source compared with its own undisturbed solo run; distinct by event-history hash",
};
pub static C15: Prop = Prop {
  id: "C15",
  families: &[("analyze", 1, gen_c15)],
  oracle: ora_c15,
  min_rounds: 60,
  rule: "each analyze mode undisturbed, with split and interrupted I/O, and with failing reads or writes of standard output; stdout compared byte for byte; distinct by event-history hash",
};
