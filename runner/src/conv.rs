//! Properties of `dnglab convert` (C01–C09, C12).
use crate::dng::*;
use crate::engine::*;
use crate::sim::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use simspec::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Conv {
  pub src: String,
  pub dst: String,
  pub dir: bool,
  pub recursive: bool,
  pub over: bool,
  pub embed: bool,
  pub lossless: bool,
  pub thumb: bool,
  pub preview: bool,
  pub pred: u8,
  pub keep_mtime: bool,
  pub artist: Option<String>,
  /// Default crop: best, activearea or none; empty: not given.
  #[serde(default)]
  pub crop: String,
  pub jobs: u32,
  pub index_all: bool,
  pub verbose: bool,
  /// Inputs that cannot be converted.
  pub bad: Vec<String>,
  /// Damaged inputs: they may convert or fail.
  #[serde(default)]
  pub open: Vec<String>,
  /// No error is injected: everything convertible must be converted.
  pub clean: bool,
}
impl Conv {
  pub fn args(&self) -> Vec<String> {
    let mut a: Vec<String> = vec!["convert".into()];
    let mut p = |s: &str| a.push(s.to_string());
    if self.recursive {
      p("-r");
    }
    if self.over {
      p("-f");
    }
    if self.verbose {
      p("-v");
    }
    if !self.embed {
      p("--embed-raw");
      p("false");
    }
    if !self.lossless {
      p("-c");
      p("uncompressed");
    }
    if !self.thumb {
      p("--dng-thumbnail");
      p("false");
    }
    if !self.preview {
      p("--dng-preview");
      p("false");
    }
    if self.pred != 1 {
      p("--ljpeg92-predictor");
      p(&self.pred.to_string());
    }
    if self.keep_mtime {
      p("--keep-mtime");
      p("true");
    }
    if let Some(x) = &self.artist {
      p("--artist");
      p(x);
    }
    if !self.crop.is_empty() {
      p("--crop");
      p(&self.crop);
    }
    if self.jobs > 0 {
      p("-j");
      p(&self.jobs.to_string());
    }
    if self.index_all {
      p("--image-index");
      p("all");
    }
    p(&self.src);
    p(&self.dst);
    a
  }
}
pub const EXTS: [&str; 30] = [
  "ARI", "ARW", "CR2", "CR3", "CRM", "CRW", "DCR", "DCS", "DNG", "ERF", "IIQ", "KDC", "MEF", "MOS", "MRW", "NEF", "NRW", "ORF", "ORI", "PEF", "RAF", "RAW", "RW2", "RWL", "SRW", "3FR", "FFF", "X3F",
  "QTK", "NEF",
];
pub fn ext(r: &mut Rng) -> String {
  let e = r.pick(&EXTS).to_string();
  match r.below(3) {
    0 => e.to_lowercase(),
    1 => e,
    _ => {
      let mut s = e.to_lowercase();
      s.replace_range(..1, &e[..1]);
      s
    }
  }
}
pub fn stem(r: &mut Rng) -> String {
  match r.below(10) {
    0 => "FOO".into(),
    1 => "FOO_1".into(),
    2 => format!("with space {}", r.below(9)),
    3 => format!("a.b.{}", r.below(9)),
    4 => format!("Ünï{}", r.below(9)),
    5 => format!("_MG_{}", r.below(99)),
    _ => format!("IMG_{:04}", r.below(40)),
  }
}
/// Also names that are not UTF-8.
pub fn any_stem(r: &mut Rng) -> String {
  if r.chance(80) {
    let b = *r.pick(&['\u{F7E4}', '\u{F7FF}', '\u{F7C3}']);
    match r.below(3) {
      0 => format!("B{}r {}", b, r.below(9)),
      1 => format!("{}{}", r.below(99), b),
      _ => format!("{}\u{F7FE}x{}", b, r.below(9)),
    }
  } else {
    stem(r)
  }
}
#[derive(Clone, Copy)]
pub struct Knobs {
  pub dir_pm: u32,
  pub files: (u64, u64),
  pub maxdim: u32,
  pub bad_pm: u32,
  pub over_pm: u32,
  pub keep_pm: u32,
  /// Inputs may share an output name.
  pub collide: bool,
  pub plain_opts: bool,
  /// Sources with rich metadata and unusual geometry, chance per mille.
  pub rich_pm: u32,
  /// Sources with something after the image, near a multiple of the embedding block size, chance per mille.
  pub tail_pm: u32,
  /// Files of real camera models instead of DNGs, chance per mille.
  pub cams_pm: u32,
}
pub const K: Knobs = Knobs { dir_pm: 500, files: (1, 4), maxdim: 300, bad_pm: 0, over_pm: 200, keep_pm: 200, collide: false, plain_opts: false, rich_pm: 0, tail_pm: 0, cams_pm: 60 };

pub fn bad_img(r: &mut Rng) -> Img {
  let mut i = Img::gen(r, 96);
  i.defect = 1 + r.below(DEFECTS as u64) as u32;
  i
}
pub fn good_img(r: &mut Rng, max: u32, rendered: bool) -> Img {
  loop {
    let i = Img::gen(r, max);
    // rendering monochrome raws is not implemented
    if i.photo != Photo::Bw || !rendered {
      return i;
    }
  }
}
/// A machine with input files and a conversion request.
pub fn world(r: &mut Rng, k: &Knobs) -> (World, Conv) {
  let mut w = World::default();
  let mut m = Conv { clean: true, ..Default::default() };
  m.dir = r.chance(k.dir_pm);
  m.over = r.chance(k.over_pm);
  m.keep_mtime = r.chance(k.keep_pm);
  m.lossless = r.chance(700);
  m.embed = r.chance(700);
  m.thumb = r.chance(750);
  m.preview = r.chance(600);
  m.pred = if r.chance(600) { 1 } else { r.range(1, 7) as u8 };
  m.artist = if r.chance(200) { Some(r.pick(&["A. Body", "A. Body", "Zoë Müller", "abc", "abcd", "x", "名前 太郎", "O'Neil, \"Q\" & Co; <x@y.example>"]).to_string()) } else { None };
  m.jobs = *r.pick(&[0, 0, 1, 2, 3, 8]);
  m.verbose = r.chance(200);
  if k.rich_pm > 0 {
    m.crop = r.pick(&["", "", "best", "activearea", "none"]).to_string();
  }
  if k.plain_opts {
    m.pred = 1;
    m.artist = None;
  }
  w.dir("/w/in");
  w.dir("/w/out");
  // now and then more files than any pool or block of jobs takes at once
  let many = m.dir && k.files.1 > 5 && r.chance(60);
  let n = if many { r.range(9, 24) } else if m.dir { r.range(k.files.0, k.files.1) } else { 1 };
  let k = &Knobs { maxdim: if many { 40 } else { k.maxdim }, ..*k };
  m.recursive = m.dir && r.chance(600);
  let mut used = BTreeSet::new();
  for i in 0..n {
    let mut img = if r.chance(k.bad_pm) { bad_img(r) } else { good_img(r, k.maxdim, m.thumb || m.preview) };
    if k.rich_pm > 0 && r.chance(k.rich_pm) {
      crate::rich::shape(r, &mut img);
    }
    let mut bytes = img.build();
    if img.defect == 0 && r.chance(k.cams_pm) {
      bytes = crate::cams::Cam::gen(r, k.maxdim).build();
    }
    if k.tail_pm > 0 && r.chance(k.tail_pm) {
      // something after the image, up to or just beyond the next full block of the embedded original
      let len = (bytes.len() as i64 + 65535) / 65536 * 65536 + *r.pick(&[-1, 0, 1, 2]);
      let mut n = bytes.len();
      bytes.resize_with((len as usize).max(n), || {
        n += 1;
        n as u8
      });
    }
    for _ in 0..50 {
      let d = if m.dir && r.chance(400) { r.pick(&["sub", "sub/deep", "s p", "x.NEF", "d\u{F7FF}"]).to_string() } else { String::new() };
      let mut s = any_stem(r);
      if i > 0 && k.collide && r.chance(500) {
        s = "FOO".into();
      }
      let e = ext(r);
      let rel = if d.is_empty() { format!("{}.{}", s, e) } else { format!("{}/{}.{}", d, s, e) };
      let outkey = if k.collide { rel.clone() } else { format!("{}/{}", d, lossy(&s)) };
      // a directory must not stand where an output goes
      if !used.insert(outkey) || w.has(&format!("/w/in/{}", rel)) {
        continue;
      }
      let path = format!("/w/in/{}", rel);
      w.file_t(&path, &bytes, 1_500_000_000 + r.below(100_000_000) as i64);
      if img.defect != 0 {
        m.bad.push(path.clone());
      }
      if !m.dir {
        m.src = path;
      }
      break;
    }
  }
  if m.dir {
    m.src = "/w/in".into();
    m.dst = "/w/out".into();
    if r.chance(300) {
      w.file("/w/in/notes.txt", b"not a raw file");
      w.file("/w/in/Thumbs.db", &[7u8; 99]);
      w.file("/w/in/noext", b"x");
      w.file("/w/in/pic.jpg", b"\xff\xd8\xff\xd9");
    }
    if r.chance(200) {
      w.dir("/w/in/empty");
    }
  } else {
    m.dst = match r.below(4) {
      0 => "/w/out".into(),
      1 => "/w/out/result.dng".into(),
      2 => "out/named.dng".into(),
      _ => "/w/out/new/sub/result.dng".into(),
    };
  }
  (w, m)
}
pub fn mk(ctx: &Ctx, w: &World, m: &Conv, mut spec: Spec) -> Case {
  spec.fs = w.nodes.clone();
  let run = Run { bin: "dnglab".into(), args: m.args(), env: vec![], spec, carry: false, put: vec![] };
  ctx.case(vec![run], serde_json::to_value(m).unwrap(), w.st.clone())
}
pub fn meta(c: &Case) -> Conv {
  serde_json::from_value(c.meta.clone()).unwrap_or_default()
}
pub fn init_fs(c: &Case) -> Fs {
  nodes_to_fs(&c.runs[0].spec.fs, &c.blob)
}

// ------------------------------------------------------------------ oracle
#[derive(Clone)]
pub struct Src {
  pub path: String,
  pub name: String,
  /// Directory of the output and output stem.
  pub odir: String,
  pub ostem: String,
  pub bytes: Vec<u8>,
  pub good: bool,
}
pub fn split(p: &str) -> (String, String) {
  match p.rsplit_once('/') {
    Some((a, b)) => (a.to_string(), b.to_string()),
    None => (String::new(), p.to_string()),
  }
}
pub fn stem_of(n: &str) -> String {
  match n.rfind('.') {
    Some(0) | None => n.to_string(),
    Some(i) => n[..i].to_string(),
  }
}
pub fn supported(name: &str) -> bool {
  match name.rfind('.') {
    Some(i) if i > 0 => EXTS.contains(&name[i + 1..].to_uppercase().as_str()),
    _ => false,
  }
}
pub fn abs(p: &str) -> String {
  if p.starts_with('/') {
    p.to_string()
  } else {
    format!("/w/{}", p)
  }
}
pub fn sources(fs: &Fs, m: &Conv) -> Vec<Src> {
  let mut v = vec![];
  if m.dir {
    for (p, e) in fs {
      let rel = match p.strip_prefix(&format!("{}/", m.src)) {
        Some(r) => r,
        None => continue,
      };
      let (d, name) = split(rel);
      if let Some(b) = e.bytes() {
        if supported(&name) && (m.recursive || d.is_empty()) {
          let odir = if d.is_empty() { m.dst.clone() } else { format!("{}/{}", m.dst, d) };
          v.push(Src { path: p.clone(), ostem: lossy(&stem_of(&name)), name: lossy(&name), odir, bytes: b.to_vec(), good: !m.bad.contains(p) });
        }
      }
    }
  } else if let Some(b) = fs.get(&m.src).and_then(|e| e.bytes()) {
    let name = split(&m.src).1;
    let dst = abs(&m.dst);
    let (odir, ostem) = if matches!(fs.get(&dst).map(|e| &e.ent), Some(Ent::Dir)) { (dst, stem_of(&name)) } else { (split(&dst).0, stem_of(&split(&dst).1)) };
    v.push(Src { path: m.src.clone(), name: lossy(&name), odir, ostem: lossy(&ostem), bytes: b.to_vec(), good: !m.bad.contains(&m.src) });
  }
  v
}
/// A listed finding: the samples of losslessly compressed Nikon files come out with a dither, and only they may.
fn dithered(s: &Src, px: &[u16]) -> bool {
  crate::cams::dithered(&s.bytes).is_some_and(|x| x == px)
}
/// Is `out` a complete DNG made from this source with these options?
pub fn verify(s: &Src, out: &[u8], m: &Conv, strict: bool) -> Result<(), String> {
  let d = read_dng(out)?;
  Tiff::parse(out)?.chain.iter().try_for_each(|i| i.well_formed())?;
  // a camera's own format is compared by means of a DNG that says the same
  let same = crate::cams::equivalent(&s.bytes);
  let input = same.as_deref().unwrap_or(&s.bytes);
  let i = read_dng(input).map_err(|e| format!("(input) {}", e))?;
  if (d.raw.w, d.raw.h, d.raw.cpp) != (i.raw.w, i.raw.h, i.raw.cpp) {
    return Err(format!("image is {}x{}x{}, source {}x{}x{}", d.raw.w, d.raw.h, d.raw.cpp, i.raw.w, i.raw.h, i.raw.cpp));
  }
  if d.raw.px != i.raw.px && !dithered(s, &d.raw.px) {
    let k = d.raw.px.iter().zip(&i.raw.px).position(|(a, b)| a != b).unwrap_or(0);
    let n = d.raw.px.iter().zip(&i.raw.px).filter(|(a, b)| a != b).count();
    return Err(format!("{} {} of {} samples differ from the source, first at {}: {} instead of {}", crate::cams::kind(&s.bytes), n, i.raw.px.len(), k, d.raw.px[k], i.raw.px[k]));
  }
  if d.photo != i.photo {
    return Err(format!("photometric {} instead of {}", d.photo, i.photo));
  }
  crate::rich::same_meta(input, out, if m.crop.is_empty() { "best" } else { &m.crop }, m.artist.is_some()).map_err(|e| if same.is_some() { format!("{}: {}", crate::cams::kind(&s.bytes), e) } else { e })?;
  if d.compression != if m.lossless { 7 } else { 1 } {
    return Err(format!("compression {}", d.compression));
  }
  if m.lossless {
    crate::rich::jpeg_params(out, m.pred)?;
  }
  if m.embed {
    match &d.original {
      None => return Err("embedded original missing".into()),
      Some(o) if *o != s.bytes => return Err("embedded original differs from the source file".into()),
      _ => {}
    }
    if d.digest.as_deref() != Some(&md5(&s.bytes)[..]) {
      return Err("digest of the embedded original is wrong".into());
    }
    if d.original_name.as_deref() != Some(s.name.as_str()) {
      return Err(format!("original file name {:?} instead of {:?}", d.original_name, s.name));
    }
  } else if d.original.is_some() {
    return Err("original embedded although not requested".into());
  }
  if strict {
    if m.thumb != d.thumb {
      return Err(format!("thumbnail present: {}, requested: {}", d.thumb, m.thumb));
    }
    if m.preview != d.preview {
      return Err(format!("preview present: {}, requested: {}", d.preview, m.preview));
    }
  }
  if let Some(a) = &m.artist {
    if d.artist.as_deref() != Some(a) {
      return Err(format!("artist {:?}", d.artist));
    }
  }
  if d.model != i.model {
    return Err(format!("camera model {:?} instead of {:?}", d.model, i.model));
  }
  Ok(())
}
/// Files in the final tree that were not there before (or changed).
pub fn new_files(before: &Fs, after: &Fs) -> Vec<(String, Vec<u8>)> {
  after
    .iter()
    .filter_map(|(p, e)| {
      let b = e.bytes()?;
      match before.get(p) {
        Some(o) if o.bytes() == Some(b) && o.ino == e.ino => None,
        Some(o) if o.bytes() == Some(b) && o.ino == 0 => None,
        _ => Some((p.clone(), b.to_vec())),
      }
    })
    .collect()
}
/// Match every new file to the source it was made from. Returns source index -> outputs and files that belong to nobody.
pub fn pair(srcs: &[Src], files: &[(String, Vec<u8>)], m: &Conv, strict: bool) -> (BTreeMap<usize, Vec<String>>, Vec<(String, String)>) {
  let mut by: BTreeMap<usize, Vec<String>> = BTreeMap::new();
  let mut odd = vec![];
  for (p, b) in files {
    let (d, name) = split(p);
    let st = stem_of(&name);
    let mut why = String::from("no source maps to this path");
    let mut hit = None;
    for (i, s) in srcs.iter().enumerate() {
      if s.odir != d || !name.to_lowercase().ends_with(".dng") {
        continue;
      }
      let fits = st == s.ostem || st.strip_prefix(&format!("{}_", s.ostem)).map(|x| x.parse::<u32>().is_ok()).unwrap_or(false);
      if !fits {
        continue;
      }
      match verify(s, b, m, strict) {
        Ok(()) => {
          hit = Some(i);
          break;
        }
        Err(e) => why = format!("not a complete conversion of {}: {}", s.name, e),
      }
    }
    match hit {
      Some(i) => by.entry(i).or_default().push(p.clone()),
      None => odd.push((p.clone(), why)),
    }
  }
  (by, odd)
}
pub fn ended(r: &Res) -> Option<Viol> {
  if r.hang {
    return Some(v("hang", "the program computes forever"));
  }
  match &r.out.exit {
    Exit::Deadlock(s) => Some(v("hang", format!("deadlock: no thread can ever run again: {}", s))),
    Exit::PointLimit | Exit::TimeLimit => Some(v("hang", format!("no end within the step bound: {:?}", r.out.exit))),
    _ => None,
  }
}
/// A damaged header claims an image that needs more memory than the simulated machine has: no statement about that.
pub fn too_big(r: &Res) -> bool {
  r.out.exit == Exit::Abort && r.out.stats.big_req > 0
}
/// Non-zero exit status in any form.
pub fn failed(r: &Res) -> bool {
  r.out.exit != Exit::Code(0)
}
pub fn fault_fired(c: &Case, r: usize, res: &Res, op: Op) -> bool {
  c.runs[r].spec.faults.iter().zip(&res.out.fired).any(|(f, n)| *n > 0 && f.op == op)
}
pub fn tail(r: &Res) -> String {
  let s = r.stderr();
  let l: Vec<&str> = s.lines().filter(|l| !l.is_empty()).collect();
  l[l.len().saturating_sub(3)..].join(" | ")
}

// --- C01
fn gen_c01(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let big = ctx.rng.chance(if ctx.thorough { 300 } else { 120 });
  let k = Knobs { maxdim: if big { 900 } else { 400 }, files: (1, 4), tail_pm: 150, ..K };
  let (w, m) = world(&mut ctx.rng, &k);
  let mut v = vec![];
  for _ in 0..2 {
    let s = benign(&mut ctx.rng);
    v.push(mk(ctx, &w, &m, s));
  }
  Ok(v)
}
/// Sources that describe their image in unusual and detailed ways.
fn gen_c01_meta(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let k = Knobs { maxdim: 200, files: (1, 3), dir_pm: 300, rich_pm: 900, tail_pm: 100, ..K };
  let (w, m) = world(&mut ctx.rng, &k);
  let s = benign(&mut ctx.rng);
  Ok(vec![mk(ctx, &w, &m, s)])
}
/// Files in camera formats.
fn gen_c01_cams(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let k = Knobs { maxdim: if ctx.rng.chance(100) { 500 } else { 150 }, files: (1, 4), dir_pm: 400, cams_pm: 950, rich_pm: 1, tail_pm: 100, ..K };
  let (w, m) = world(&mut ctx.rng, &k);
  let s = benign(&mut ctx.rng);
  Ok(vec![mk(ctx, &w, &m, s)])
}
/// Convert, then convert the result again: exercises reading back compressed data.
fn gen_c01_chain(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, mut m) = world(&mut ctx.rng, &Knobs { dir_pm: 0, ..K });
  w.dir("/w/out2");
  m.dst = "/w/out/first.dng".into();
  let mut m2 = m.clone();
  m2.src = "/w/out/first.dng".into();
  m2.dst = "/w/out2/second.dng".into();
  m2.lossless = ctx.rng.chance(500);
  m2.pred = ctx.rng.range(1, 7) as u8;
  m2.thumb = ctx.rng.chance(500);
  let s1 = benign(&mut ctx.rng);
  let s2 = benign(&mut ctx.rng);
  let mut c = mk(ctx, &w, &m, s1);
  c.runs.push(Run { bin: "dnglab".into(), args: m2.args(), env: vec![], spec: s2, carry: true, put: vec![] });
  c.meta["second"] = serde_json::to_value(&m2).unwrap();
  Ok(vec![c])
}
fn ora_c01(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = meta(c);
  let before = init_fs(c);
  let mut out = vec![];
  if let Some(x) = ended(&rs[0]) {
    return vec![x];
  }
  let srcs = sources(&before, &m);
  let after = rs[0].fs();
  if failed(&rs[0]) {
    if m.clean && srcs.iter().all(|s| s.good) && !before.keys().any(|p| p.starts_with("/w/out/")) {
      out.push(v("spurious-failure", format!("valid input, no error injected, but {:?}: {}", rs[0].out.exit, tail(&rs[0]))));
    }
    return out;
  }
  let nf = new_files(&before, &after);
  let (by, odd) = pair(&srcs, &nf, &m, m.clean);
  for (i, o) in &by {
    let dit = crate::cams::dithered(&srcs[*i].bytes).filter(|x| Some(x) != crate::cams::exact(&srcs[*i].bytes).as_ref());
    if dit.is_some_and(|x| o.iter().any(|p| after.get(p).and_then(|e| e.bytes()).and_then(|b| read_dng(b).ok()).is_some_and(|d| d.raw.px == x))) {
      out.push(v("nef-lossless-dithered", format!("{}: the samples of the losslessly compressed NEF come out dithered (most of them are one too low)", srcs[*i].name)));
    }
  }
  for (p, why) in odd {
    out.push(v("incomplete-output", format!("exit 0 but {}: {}", p, why)));
  }
  for (i, s) in srcs.iter().enumerate() {
    let n = by.get(&i).map(|x| x.len()).unwrap_or(0);
    tally("outputs_verified", n as u64);
    if n == 0 {
      out.push(v("missing-output", format!("exit 0 but {} has no complete DNG", s.path)));
    }
  }
  if let (Some(m2), Some(r2)) = (c.meta.get("second"), rs.get(1)) {
    let m2: Conv = serde_json::from_value(m2.clone()).unwrap();
    if let Some(x) = ended(r2) {
      return vec![x];
    }
    if out.is_empty() {
      if failed(r2) {
        // dnglab cannot read monochrome DNGs without a colour pattern: outside of this property
        let photo = after.get("/w/out/first.dng").and_then(|e| e.bytes()).and_then(|b| read_dng(b).ok()).map(|d| d.photo);
        if photo != Some(1) {
          out.push(v("spurious-failure", format!("re-conversion failed: {:?}: {}", r2.out.exit, tail(r2))));
        }
      } else {
        let s2 = sources(&after, &m2);
        let a2 = r2.fs();
        let got = a2.get("/w/out2/second.dng").and_then(|e| e.bytes());
        match (s2.first(), got) {
          (Some(s), Some(b)) => {
            tally("reconverted", 1);
            if let Err(e) = verify(s, b, &m2, false) {
              out.push(v("incomplete-output", format!("re-conversion: {}", e)));
            }
          }
          _ => out.push(v("missing-output", "re-conversion: exit 0 but no output")),
        }
      }
    }
  }
  out
}

// --- C02: failure leaves nothing behind
/// Error faults on the operations of a conversion.
pub fn fault_cases(ctx: &mut Ctx, base: &Case, n: usize, keep: impl Fn(Op, &str) -> bool) -> Result<Vec<Case>, SimErr> {
  let d = ctx.dry(base)?;
  let st = sites(&d, keep);
  let mut v = vec![];
  let mut b = base.clone();
  b.hash = vec![d.out.hash];
  v.push(b);
  if st.is_empty() {
    return Ok(v);
  }
  // operations of one kind can outnumber all others: choose the kind first
  let mut kinds: Vec<Op> = st.iter().map(|x| x.0).collect();
  kinds.sort();
  kinds.dedup();
  for _ in 0..n {
    let kd = *ctx.rng.pick(&kinds);
    let of: Vec<&(Op, String, u32)> = st.iter().filter(|x| x.0 == kd).collect();
    let (op, p, nth) = (*ctx.rng.pick(&of)).clone();
    let e = errno(&mut ctx.rng, op);
    let mut c = base.clone();
    let count = if ctx.rng.chance(400) { 100_000 } else { 1 };
    c.runs[0].spec.faults.push(Fault { op, path: p, nth, count, act: Act::Err(e) });
    c.meta["clean"] = false.into();
    v.push(c);
  }
  Ok(v)
}
pub fn io_op(op: Op) -> bool {
  matches!(
    op,
    Op::Open | Op::Create | Op::Read | Op::Write | Op::Seek | Op::Stat | Op::Fstat | Op::Mmap | Op::Utimens | Op::Flock | Op::Mkdir | Op::Opendir | Op::Readdir | Op::Realpath | Op::Fsync | Op::Rename | Op::Truncate
  )
}
fn gen_c02(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m) = world(&mut ctx.rng, &Knobs { files: (1, 3), maxdim: 200, bad_pm: 150, keep_pm: 400, ..K });
  let s = benign(&mut ctx.rng);
  let base = mk(ctx, &w, &m, s);
  // a failing stat of the output makes "is it a directory" unknowable: no promise about the name then
  fault_cases(ctx, &base, 5, |op, p| io_op(op) && p.starts_with("/w") && !(op == Op::Stat && (!m.dir || p.starts_with("/w/out"))))
}
fn gen_c02_disk(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m) = world(&mut ctx.rng, &Knobs { files: (1, 3), maxdim: 250, ..K });
  let s = benign(&mut ctx.rng);
  let base = mk(ctx, &w, &m, s);
  let d = ctx.dry(&base)?;
  let total: u64 = new_files(&init_fs(&base), &d.fs()).iter().map(|x| x.1.len() as u64).sum();
  let mut v = vec![];
  for _ in 0..4 {
    let mut c = base.clone();
    let left = match ctx.rng.below(3) {
      0 => total.saturating_sub(1 + ctx.rng.below(600)),
      1 => ctx.rng.below(64),
      _ => ctx.rng.below(total.max(1)),
    };
    c.runs[0].spec.disk_free = Some(left);
    c.runs[0].spec.disk_prefix = "/w/out".into();
    c.meta["clean"] = false.into();
    v.push(c);
  }
  Ok(v)
}
fn gen_c02_bad(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m) = world(&mut ctx.rng, &Knobs { dir_pm: 200, files: (1, 3), maxdim: 120, bad_pm: 700, ..K });
  let s = benign(&mut ctx.rng);
  Ok(vec![mk(ctx, &w, &m, s)])
}
/// The input shrinks or is replaced while it is being read.
fn ora_c02(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = meta(c);
  let before = init_fs(c);
  if let Some(x) = ended(&rs[0]) {
    return vec![x];
  }
  let srcs = sources(&before, &m);
  let after = rs[0].fs();
  let nf = new_files(&before, &after);
  let (by, odd) = pair(&srcs, &nf, &m, false);
  let mut out = vec![];
  let unlink_failed = fault_fired(c, 0, &rs[0], Op::Unlink);
  if failed(&rs[0]) {
    tally("failed_runs", 1);
  }
  if !unlink_failed {
    for (p, why) in &odd {
      out.push(v(
        if failed(&rs[0]) { "leftover" } else { "silent-failure" },
        format!("after {:?} the file {} ({} bytes) is left: {}", rs[0].out.exit, p, after[p].bytes().map(|b| b.len()).unwrap_or(0), why),
      ));
    }
  }
  let missing = srcs.iter().enumerate().filter(|(i, _)| !by.contains_key(i)).count();
  if missing > 0 {
    tally("sources_not_converted", missing as u64);
    if !failed(&rs[0]) {
      out.push(v("silent-failure", format!("{} of {} sources have no complete DNG but the exit status is 0", missing, srcs.len())));
    }
  }
  out
}

// --- C03 is shared with the other commands, see cmds.rs

// --- C05: batches
fn gen_c05(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, mut m) = world(&mut ctx.rng, &Knobs { dir_pm: 1000, files: (3, 7), maxdim: 120, bad_pm: 300, keep_pm: 100, ..K });
  m.index_all = ctx.rng.chance(120);
  let s = benign(&mut ctx.rng);
  Ok(vec![mk(ctx, &w, &m, s)])
}
/// Some of the files are damaged.
fn gen_c05_damaged(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let (mut w, mut m) = world(r, &Knobs { dir_pm: 1000, files: (1, 3), maxdim: 64, bad_pm: 50, keep_pm: 300, ..K });
  m.index_all = r.chance(300);
  for i in 0..r.range(1, 4) {
    let b = damaged(r);
    let p = format!("/w/in/{}D{}.{}", if r.chance(300) { "sub/" } else { "" }, i, ext(r));
    w.file(&p, &b);
    m.open.push(p);
  }
  let s = benign(r);
  Ok(vec![mk(ctx, &w, &m, s)])
}
fn gen_c05_faults(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m) = world(&mut ctx.rng, &Knobs { dir_pm: 1000, files: (3, 6), maxdim: 120, bad_pm: 100, keep_pm: 300, ..K });
  let s = benign(&mut ctx.rng);
  let base = mk(ctx, &w, &m, s);
  // faults that concern one file: reading the source, writing the output
  let srcs: Vec<String> = sources(&init_fs(&base), &m).iter().map(|s| s.path.clone()).collect();
  fault_cases(ctx, &base, 4, |op, p| {
    matches!(op, Op::Open | Op::Create | Op::Read | Op::Write | Op::Seek | Op::Mmap | Op::Utimens | Op::Flock | Op::Fstat) && (srcs.iter().any(|s| s == p) || p.starts_with("/w/out/"))
  })
}
/// Directories and entries the walk cannot look into, links that lead nowhere or in circles.
fn gen_c05_walk(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, mut m) = world(&mut ctx.rng, &Knobs { dir_pm: 1000, files: (2, 6), maxdim: 64, bad_pm: 50, keep_pm: 100, ..K });
  let r = &mut ctx.rng;
  m.recursive = true;
  w.dir("/w/in/lost+found");
  if r.chance(500) {
    let b = good_img(r, 48, true).build();
    w.file("/w/in/lost+found/Q1.NEF", &b);
  }
  if r.chance(500) {
    let (p, t) = r.pick(&[("/w/in/loop", "."), ("/w/in/lost+found/up", ".."), ("/w/in/lost+found/top", "/w/in"), ("/w/in/0", "0"), ("/w/in/self.NEF", "self.NEF"), ("/w/in/gone.NEF", "nothing"), ("/w/in/gone", "/nowhere/at/all")]);
    w.link(p, t);
  }
  let s = benign(r);
  let base = mk(ctx, &w, &m, s);
  let d = ctx.dry(&base)?;
  let st = sites(&d, |op, p| matches!(op, Op::Stat | Op::Opendir | Op::Readdir | Op::Realpath) && p.starts_with("/w/in/"));
  let mut b = base.clone();
  b.hash = vec![d.out.hash];
  let mut v = vec![b];
  for _ in 0..3.min(st.len()) {
    // directories are rarer than files
    let dirs: Vec<_> = st.iter().filter(|x| matches!(x.0, Op::Opendir | Op::Readdir)).collect();
    let (op, path, nth) = if ctx.rng.chance(500) && !dirs.is_empty() { (*ctx.rng.pick(&dirs)).clone() } else { ctx.rng.pick(&st).clone() };
    let mut c = base.clone();
    let act = Act::Err(*ctx.rng.pick(&[libc::EACCES, libc::EIO, libc::ELOOP]));
    c.runs[0].spec.faults.push(Fault { op, path, nth, count: 1, act });
    c.meta["clean"] = false.into();
    v.push(c);
  }
  Ok(v)
}
pub struct Summary {
  pub ok: u64,
  pub total: u64,
  pub failed: Vec<String>,
}
/// "Converted 2/3 files, 1 failed:" followed by the indented list of inputs.
pub fn summary(err: &str) -> Option<Summary> {
  let lines: Vec<&str> = err.lines().collect();
  for (i, l) in lines.iter().enumerate() {
    let w: Vec<&str> = l.split_whitespace().collect();
    if w.len() >= 3 && w[2].starts_with("files") {
      if let Some((a, b)) = w[1].split_once('/') {
        if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
          let mut f = vec![];
          for x in lines.iter().skip(i + 1) {
            if let Some(p) = x.strip_prefix("   ") {
              f.push(p.to_string());
            } else {
              break;
            }
          }
          return Some(Summary { ok: a, total: b, failed: f });
        }
      }
    }
  }
  None
}
fn ora_c05(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = meta(c);
  let before = init_fs(c);
  if let Some(x) = ended(&rs[0]) {
    return vec![x];
  }
  if !m.open.is_empty() && too_big(&rs[0]) {
    tally("claimed_more_than_memory", 1);
    return vec![];
  }
  let srcs = sources(&before, &m);
  let nf = new_files(&before, &rs[0].fs());
  // nothing is known about what a damaged file becomes
  let mut made = BTreeMap::new();
  let mut nf = nf;
  for (i, s) in srcs.iter().enumerate().filter(|(_, s)| m.open.contains(&s.path)) {
    let mine = |p: &str| split(p).0 == s.odir && stem_of(&split(p).1) == s.ostem;
    let got: Vec<String> = nf.iter().filter(|f| mine(&f.0)).map(|f| f.0.clone()).collect();
    nf.retain(|f| !mine(&f.0));
    if !got.is_empty() {
      made.insert(i, got);
    }
    tally("damaged_sources", 1);
  }
  let (mut by, odd) = pair(&srcs, &nf, &m, false);
  by.extend(made);
  let mut out = vec![];
  // sources touched by an injected error
  let hit: Vec<String> = c.runs[0].spec.faults.iter().zip(&rs[0].out.fired).filter(|(_, n)| **n > 0).map(|(f, _)| f.path.clone()).collect();
  // nobody can know what is in a directory that cannot be read
  let blind: Vec<String> = hit.iter().filter(|h| matches!(before.get(*h).map(|e| &e.ent), Some(Ent::Dir)) && h.starts_with(&format!("{}/", m.src))).map(|h| format!("{}/", h)).collect();
  let unseen = |i: usize| blind.iter().any(|b| srcs[i].path.starts_with(b.as_str()));
  for (i, s) in srcs.iter().enumerate() {
    if unseen(i) {
      tally("sources_in_unreadable_directories", 1);
      continue;
    }
    let touched = hit.iter().any(|h| *h == s.path || (split(h).0 == s.odir && (stem_of(&split(h).1) == s.ostem || stem_of(&split(h).1).starts_with(&format!("{}_", s.ostem)))) || h.contains("thread"));
    if m.open.contains(&s.path) {
      continue;
    }
    if s.good && !touched && !by.contains_key(&i) {
      out.push(v("batch-stopped", format!("{} is valid and untouched by any fault but was not converted ({:?}; {})", s.path, rs[0].out.exit, tail(&rs[0]))));
    }
    if s.good && !touched {
      tally("unaffected_sources", 1);
    } else {
      tally("failing_sources", 1);
    }
  }
  for (p, why) in odd {
    out.push(v("tainted-output", format!("{}: {}", p, why)));
  }
  match summary(&rs[0].stderr()) {
    None => out.push(v("no-summary", format!("no summary printed ({:?}; {})", rs[0].out.exit, tail(&rs[0])))),
    Some(s) => {
      let okn = by.len() as u64;
      // what is no source, but could not be examined, may be listed as failed, too
      let other = |p: &String| !srcs.iter().any(|s| lossy(&s.path) == *p) && (hit.iter().any(|h| lossy(h) == *p) || matches!(before.get(p).map(|e| &e.ent), Some(Ent::Link(_))));
      let others = s.failed.iter().filter(|p| other(p)).count() as u64;
      let hidden = (0..srcs.len()).filter(|i| unseen(*i) && !by.contains_key(i) && !s.failed.contains(&lossy(&srcs[*i].path))).count() as u64;
      let n = srcs.len() as u64 + others - hidden;
      if s.total != n || s.ok != okn {
        out.push(v("wrong-counts", format!("summary says {}/{}, really {}/{} converted", s.ok, s.total, okn, n)));
      }
      let mut want: Vec<String> = srcs.iter().enumerate().filter(|(i, s2)| !by.contains_key(i) && (!unseen(*i) || s.failed.contains(&lossy(&s2.path)))).map(|(_, s)| lossy(&s.path)).collect();
      let mut got: Vec<String> = s.failed.iter().filter(|p| !other(p)).cloned().collect();
      want.sort();
      got.sort();
      if want != got {
        out.push(v("wrong-failed-list", format!("summary lists {:?} as failed, really failed: {:?}", s.failed, want)));
      }
      if (s.ok < s.total) != failed(&rs[0]) {
        out.push(v("wrong-exit", format!("{}/{} converted but {:?}", s.ok, s.total, rs[0].out.exit)));
      }
    }
  }
  if (by.len() < srcs.len() || !blind.is_empty()) && !failed(&rs[0]) {
    out.push(v("wrong-exit", "failures but exit status 0"));
  }
  out
}

// --- C06: mapping
fn gen_c06(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, m) = world(&mut ctx.rng, &Knobs { dir_pm: 1000, files: (3, 8), maxdim: 60, collide: true, plain_opts: true, over_pm: 300, ..K });
  if ctx.rng.chance(300) {
    // a link to a raw file outside counts as an input file
    let b = good_img(&mut ctx.rng, 60, true).build();
    w.file("/w/elsewhere/L.NEF", &b);
    w.link("/w/in/linked.NEF", "/w/elsewhere/L.NEF");
  }
  let mut s = benign(&mut ctx.rng);
  s.shuffle_dirs = true;
  Ok(vec![mk(ctx, &w, &m, s)])
}
fn ora_c06(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = meta(c);
  let before = init_fs(c);
  if let Some(x) = ended(&rs[0]) {
    return vec![x];
  }
  let mut srcs = sources(&before, &m);
  for (p, e) in &before {
    if let Ent::Link(t) = &e.ent {
      if let Some(b) = before.get(t).and_then(|x| x.bytes()) {
        let (d, name) = split(p.strip_prefix("/w/in/").unwrap_or(p));
        if d.is_empty() && supported(&name) {
          srcs.push(Src { path: p.clone(), ostem: lossy(&stem_of(&name)), name: lossy(&name), odir: m.dst.clone(), bytes: b.to_vec(), good: true });
        }
      }
    }
  }
  let after = rs[0].fs();
  let nf = new_files(&before, &after);
  let (by, odd) = pair(&srcs, &nf, &m, false);
  let mut out = vec![];
  for (p, why) in odd {
    out.push(v("stray-output", format!("{}: {}", p, why)));
  }
  for (i, s) in srcs.iter().enumerate() {
    let n = by.get(&i).map(|x| x.len()).unwrap_or(0);
    tally("sources_mapped", n as u64);
    if n != 1 {
      out.push(v(if n == 0 { "lost-source" } else { "duplicate-output" }, format!("{} has {} outputs {:?} ({:?}; {})", s.path, n, by.get(&i), rs[0].out.exit, tail(&rs[0]))));
    }
    // no other source wants this name: no suffix may appear
    if srcs.iter().filter(|t| t.odir == s.odir && (t.ostem == s.ostem || t.ostem.starts_with(&format!("{}_", s.ostem)) || s.ostem.starts_with(&format!("{}_", t.ostem)))).count() == 1 {
      if let Some(x) = by.get(&i).and_then(|x| x.first()) {
        if *x != format!("{}/{}.dng", s.odir, s.ostem) {
          out.push(v("renamed-output", format!("{} became {}", s.path, x)));
        }
      }
    }
  }
  // a group that shares one name uses exactly base, base_1, base_2, ...
  let mut groups: BTreeMap<(String, String), u32> = BTreeMap::new();
  for s in &srcs {
    *groups.entry((s.odir.clone(), s.ostem.clone())).or_insert(0) += 1;
  }
  for ((d, st), n) in &groups {
    if !after.contains_key(&format!("{}/{}.dng", d, st)) {
      out.push(v("renamed-output", format!("{} sources named {} but no {}/{}.dng", n, st, d, st)));
    }
    if *n > 1 {
      tally("name_collisions", 1);
    }
  }
  for (p, e) in &after {
    if matches!(e.ent, Ent::Dir) && !before.contains_key(p) && !srcs.iter().any(|s| s.odir == *p || s.odir.starts_with(&format!("{}/", p))) {
      out.push(v("stray-directory", format!("{} was created", p)));
    }
  }
  out
}

// --- C07: determinism of the result
fn gen_c07(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let big = ctx.rng.chance(250);
  let (w, m) = world(&mut ctx.rng, &Knobs { files: (1, 3), maxdim: if big { 800 } else { 350 }, over_pm: 0, rich_pm: if big { 0 } else { 400 }, ..K });
  let mut base = mk(ctx, &w, &m, calm(1));
  base.runs[0].spec.sched = Sched::Explicit { dev: vec![] };
  base.runs[0].spec.cpus = 1;
  for _ in 0..2 {
    let mut s = benign(&mut ctx.rng);
    s.fs = w.nodes.clone();
    let mut m2 = m.clone();
    m2.jobs = *ctx.rng.pick(&[0, 1, 2, 4, 16]);
    m2.verbose = ctx.rng.chance(300);
    let mut r = base.runs[0].clone();
    r.spec = s;
    r.args = m2.args();
    if ctx.rng.chance(300) {
      r.env.push(("RAYON_NUM_THREADS".into(), ctx.rng.range(1, 7).to_string()));
    }
    base.runs.push(r);
  }
  Ok(vec![base])
}
/// Many tiles or blocks at once: work split across the pool must not show in the result.
fn gen_c07_tiles(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let r = &mut ctx.rng;
  let mut w = World::default();
  w.dir("/w/in");
  w.dir("/w/out");
  let mut img = good_img(r, 100, true);
  img.w = r.range(400, 1000) as u32 & !1;
  img.h = r.range(400, 1000) as u32 & !1;
  img.layout = Layout::Strips(img.h);
  img.crop = None;
  img.active = None;
  w.file_t("/w/in/A.NEF", &img.build(), 1_500_000_000);
  let m = Conv { clean: true, src: "/w/in/A.NEF".into(), dst: "/w/out/a.dng".into(), lossless: r.chance(800), embed: r.chance(400), pred: *r.pick(&[1, 1, 1, 2, 4, 5, 7]), ..Default::default() };
  let mut base = mk(ctx, &w, &m, calm(1));
  base.runs[0].spec.sched = Sched::Explicit { dev: vec![] };
  base.runs[0].spec.cpus = 1;
  for _ in 0..3 {
    let mut s = benign(&mut ctx.rng);
    s.fs = w.nodes.clone();
    let mut r = base.runs[0].clone();
    r.spec = s;
    if ctx.rng.chance(300) {
      r.env.push(("RAYON_NUM_THREADS".into(), ctx.rng.range(2, 9).to_string()));
    }
    base.runs.push(r);
  }
  Ok(vec![base])
}
/// Conversion options that must not matter: overwriting, location, other files in the batch.
fn ora_c07(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let before = init_fs(c);
  let mut out = vec![];
  for r in rs {
    if let Some(x) = ended(r) {
      return vec![x];
    }
  }
  let a = new_files(&before, &rs[0].fs());
  tally("files_compared", a.len() as u64 * (rs.len() as u64 - 1));
  for (k, r) in rs.iter().enumerate().skip(1) {
    let b = new_files(&before, &r.fs());
    if a != b {
      let mut why = String::new();
      for (p, x) in &a {
        match b.iter().find(|y| y.0 == *p) {
          None => why = format!("{} missing in run {}", p, k),
          Some((_, y)) if x != y => {
            let at = x.iter().zip(y).position(|(s, t)| s != t).unwrap_or(x.len().min(y.len()));
            why = format!("{} differs at byte {} (sizes {} and {})", p, at, x.len(), y.len());
          }
          _ => {}
        }
      }
      if why.is_empty() {
        why = format!("run {} produced other files", k);
      }
      out.push(v("result-differs", why));
    }
    if r.code() != rs[0].code() {
      out.push(v("status-differs", format!("{:?} and {:?}", rs[0].out.exit, r.out.exit)));
    }
  }
  out
}

// --- C08: kill
pub fn kill_cases(ctx: &mut Ctx, base: &Case, n: usize) -> Result<Vec<Case>, SimErr> {
  let d = ctx.dry(base)?;
  let all = sites(&d, |_, p| p.starts_with("/w"));
  let on_out: Vec<_> = all.iter().filter(|s| s.1.starts_with("/w/out")).cloned().collect();
  let mut v = vec![];
  for i in 0..n {
    let pool = if ctx.rng.chance(800) && !on_out.is_empty() { &on_out } else { &all };
    if pool.is_empty() {
      break;
    }
    // the end of the output file is where directories and header go
    let k = if i % 2 == 0 { pool.len() - 1 - ctx.rng.below((pool.len() as u64).min(12)) as usize } else { ctx.rng.below(pool.len() as u64) as usize };
    let (op, p, nth) = pool[k].clone();
    let act = if op == Op::Write && ctx.rng.chance(500) { Act::TornKill(*ctx.rng.pick(&[0usize, 1, 3, 4, 100, 4000, 8191])) } else { Act::Kill };
    let mut c = base.clone();
    c.runs[0].spec.faults.push(Fault { op, path: p, nth, count: 1, act });
    v.push(c);
  }
  Ok(v)
}
fn gen_c08(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (mut w, m) = world(&mut ctx.rng, &Knobs { files: (1, 3), maxdim: 250, ..K });
  if m.over {
    // something older stands at the output
    for s in sources(&nodes_to_fs(&w.nodes.clone(), &w.st.0.clone()), &m) {
      if ctx.rng.chance(600) {
        let old = Img::gen(&mut ctx.rng, 64).build();
        w.file(&format!("{}/{}.dng", s.odir, s.ostem), &old);
      }
    }
  }
  let mut s = benign(&mut ctx.rng);
  s.short_write_pm = 0; // a process dies between pages, not inside a small write
  let base = mk(ctx, &w, &m, s);
  kill_cases(ctx, &base, 6)
}
fn ora_c08(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let m = meta(c);
  let before = init_fs(c);
  if let Some(x) = ended(&rs[0]) {
    return vec![x];
  }
  let killed = rs[0].out.exit == Exit::Killed;
  if killed {
    tally("kills", 1);
  }
  let srcs = sources(&before, &m);
  let nf = new_files(&before, &rs[0].fs());
  let (_, odd) = pair(&srcs, &nf, &m, false);
  tally("partial_files_seen", if killed { odd.len() as u64 } else { 0 });
  let mut out = vec![];
  for (p, why) in odd {
    let b = &nf.iter().find(|x| x.0 == p).unwrap().1;
    if looks_finished(b) {
      out.push(v("partial-passes-as-finished", format!("after a kill {} ({} bytes) has a valid header and main directory but is {}", p, b.len(), why)));
    }
  }
  out
}

// --- C09: recovery
fn gen_c09(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let (w, m) = world(&mut ctx.rng, &Knobs { files: (1, 3), maxdim: 200, ..K });
  let mut m2 = m.clone();
  m2.over = true;
  let mut wo = w.clone();
  let old = m.over && ctx.rng.chance(500);
  if old {
    // an older and mostly longer result stands in the place of the new one
    for s in sources(&nodes_to_fs(&w.nodes.clone(), &w.st.0.clone()), &m) {
      if ctx.rng.chance(600) {
        let mut o = Img::gen(&mut ctx.rng, 64).build();
        let n = o.len() + ctx.rng.below(400_000) as usize;
        o.resize(n, 0x5a);
        wo.file(&format!("{}/{}.dng", s.odir, s.ostem), &o);
      }
    }
  }
  let s = benign(&mut ctx.rng);
  let base = mk(ctx, &wo, &m, s);
  let mut v = kill_cases(ctx, &base, 3)?;
  for c in v.iter_mut() {
    let s2 = benign(&mut ctx.rng);
    c.runs.push(Run { bin: "dnglab".into(), args: m2.args(), env: vec![], spec: s2, carry: true, put: vec![] });
    let mut s3 = benign(&mut ctx.rng);
    s3.fs = w.nodes.clone();
    c.runs.push(Run { bin: "dnglab".into(), args: m2.args(), env: vec![], spec: s3, carry: false, put: vec![] });
  }
  Ok(v)
}
/// The machine is interrupted several times before a run gets through.
fn gen_c09_twice(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let mut v = gen_c09(ctx)?;
  for c in v.iter_mut() {
    let mut again = c.runs[1].clone();
    again.spec.faults = c.runs[0].spec.faults.clone();
    if let Some(f) = again.spec.faults.first_mut() {
      f.nth /= 2;
    }
    c.runs.insert(1, again);
  }
  Ok(v)
}
fn ora_c09(c: &Case, rs: &[Res]) -> Vec<Viol> {
  let before = init_fs(c);
  for r in rs {
    if let Some(x) = ended(r) {
      return vec![x];
    }
  }
  let n = rs.len();
  if n < 3 {
    return vec![];
  }
  let (rec, clean) = (&rs[n - 2], &rs[n - 1]);
  let mut out = vec![];
  if failed(clean) {
    return vec![v("spurious-failure", format!("undisturbed run failed: {:?} {}", clean.out.exit, tail(clean)))];
  }
  if failed(rec) {
    return vec![v("no-recovery", format!("repeating the interrupted conversion with --override failed: {:?} {}", rec.out.exit, tail(rec)))];
  }
  tally("recoveries", rs[..n - 2].iter().any(|r| r.out.exit == Exit::Killed) as u64);
  let strip = |f: Fs| -> BTreeMap<String, Option<Vec<u8>>> {
    f.into_iter().filter(|(p, _)| p.starts_with("/w/out") || p.starts_with("/w/") && !before.contains_key(p)).map(|(p, e)| (p, e.bytes().map(|b| b.to_vec()))).collect()
  };
  let (a, b) = (strip(rec.fs()), strip(clean.fs()));
  if a != b {
    let mut d: Vec<String> = vec![];
    for (p, x) in &a {
      match b.get(p) {
        None => d.push(format!("{} is left over", p)),
        Some(y) if x != y => d.push(format!("{} differs", p)),
        _ => {}
      }
    }
    b.keys().filter(|p| !a.contains_key(*p)).for_each(|p| d.push(format!("{} is missing", p)));
    out.push(v("recovery-differs", format!("after recovery: {}", d.join(", "))));
  }
  out
}

// --- C12: modification time
/// A source with some date and time zone; the moment its metadata names, for a machine whose local time is `local` seconds east.
pub fn dated(r: &mut Rng, local: i64) -> (Img, Option<i64>) {
  let mut im = good_img(r, 80, true);
  im.photo = Photo::Cfa([0, 1, 1, 2]);
  im.datetime = None;
  if r.chance(250) {
    return (im, None);
  }
  if r.chance(130) {
    im.datetime = Some(r.pick(&["0000:00:00 00:00:00", "    :  :     :  :  ", "2020:13:01 00:00:00", "2021:02:29 10:00:00", "2020-01-01T00:00:00", "x"]).to_string());
    return (im, None);
  }
  let y = if r.chance(700) { r.range(1990, 2037) } else { r.range(1902, 2100) } as i64;
  let (mo, d) = if y % 4 == 0 && y % 100 != 0 && r.chance(200) { (2, 29) } else { (r.range(1, 12) as i64, r.range(1, 28) as i64) };
  let (h, mi, se) = (r.below(24) as i64, r.below(60) as i64, r.below(60) as i64);
  im.datetime = Some(format!("{}:{:02}:{:02} {:02}:{:02}:{:02}", y, mo, d, h, mi, se));
  let t = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se;
  let mut off = local;
  match r.below(8) {
    0 | 1 => {
      let (neg, hh, mm) = (r.chance(500), r.below(13) as i64, *r.pick(&[0, 0, 30, 45]) as i64);
      im.offset_time = Some(format!("{}{:02}:{:02}", if neg { '-' } else { '+' }, hh, mm));
      off = (hh * 3600 + mm * 60) * if neg { -1 } else { 1 };
    }
    2 => im.offset_time = Some(r.pick(&["   :  ", "local", "?"]).to_string()),
    3 => {
      // one value belongs to the original date only
      im.tz = vec![r.range(0, 24) as i16 - 11];
      if r.chance(500) {
        im.offset_time = Some("+03:00".into());
        off = 3 * 3600;
      }
    }
    4 => {
      im.tz = vec![r.range(0, 24) as i16 - 11, r.range(0, 24) as i16 - 11];
      off = im.tz[1] as i64 * 3600;
      if r.chance(300) {
        im.offset_time = Some("+03:00".into());
      }
    }
    5 => im.tz = vec![1, *r.pick(&[100, -100, 30_000])],
    _ => {}
  }
  (im, Some(t - off))
}
pub fn machine_zone(r: &mut Rng) -> (Option<String>, i64) {
  match r.below(5) {
    0 => (Some("IST-5:30".into()), 19_800),
    1 => (Some("PST8".into()), -28_800),
    2 => (Some("NZT-12".into()), 43_200),
    _ => (None, 0),
  }
}
fn c12_case(ctx: &mut Ctx) -> Case {
  let mut w = World::default();
  w.dir("/w/in");
  w.dir("/w/out");
  let r = &mut ctx.rng;
  let dir = r.chance(500);
  let n = if dir { r.range(1, 3) } else { 1 };
  let mut m = Conv { src: "/w/in".into(), dst: "/w/out".into(), dir, embed: r.chance(300), lossless: r.chance(500), thumb: r.chance(500), preview: false, pred: 1, keep_mtime: r.chance(850), clean: true, ..Default::default() };
  m.over = r.chance(300);
  let render = r.chance(250);
  let (tz, local) = machine_zone(r);
  let mut want = serde_json::Map::new();
  for i in 0..n {
    let (im, t) = dated(r, local);
    let p = format!("/w/in/I{}.NEF", i);
    w.file_t(&p, &im.build(), 1_000_000_000 + r.below(600_000_000) as i64);
    want.insert(p.clone(), t.into());
    if !dir {
      m.src = p;
      m.dst = if render { "/w/out/I0.tif".into() } else { "/w/out/I0.dng".into() };
    }
  }
  let mut s = benign(r);
  s.start_ns = *r.pick(&[T0, 0, 86_400_000_000_000, 4_000_000_000_000_000_000, T0 + 999_999_999]);
  let mut c = mk(ctx, &w, &m, s);
  if render {
    let mut a = vec!["process-raw".to_string()];
    if m.over {
      a.push("-f".into());
    }
    a.extend(["--keep-mtime".into(), m.keep_mtime.to_string(), m.src.clone(), m.dst.clone()]);
    c.runs[0].args = a;
  }
  if let Some(z) = tz {
    c.runs[0].env.push(("TZ".into(), z));
  }
  c.meta["want"] = want.into();
  c.meta["render"] = render.into();
  c
}
fn gen_c12(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let mut out = vec![];
  for _ in 0..2 {
    let mut c = c12_case(ctx);
    if ctx.rng.chance(500) {
      let d = ctx.dry(&c)?;
      let st = sites(&d, |op, p| matches!(op, Op::Read | Op::Write | Op::Open | Op::Create | Op::Utimens | Op::Fstat) && p.starts_with("/w"));
      for _ in 0..ctx.rng.range(1, 2) {
        if st.is_empty() {
          break;
        }
        let (op, path, nth) = ctx.rng.pick(&st).clone();
        let mut by = *ctx.rng.pick(&[-86_400i64, -1, 1, 3600, 31_536_000, -31_536_000]);
        if c.runs[0].spec.start_ns < T0 {
          by = by.abs(); // no system has a clock before 1970
        }
        c.runs[0].spec.faults.push(Fault { op, path, nth, count: 1, act: Act::ClockJump(by) });
      }
    }
    out.push(c);
  }
  Ok(out)
}
/// Setting the time fails: that is reported like any other error.
fn gen_c12_faults(ctx: &mut Ctx) -> Result<Vec<Case>, SimErr> {
  let base = c12_case(ctx);
  fault_cases(ctx, &base, 3, |op, p| matches!(op, Op::Open | Op::Read | Op::Write | Op::Seek | Op::Mmap | Op::Utimens | Op::Create) && p.starts_with("/w"))
}
pub fn days(y: i64, m: i64, d: i64) -> i64 {
  let y = if m <= 2 { y - 1 } else { y };
  let era = y.div_euclid(400);
  let yoe = y - era * 400;
  let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
  era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn ora_c12(c: &Case, rs: &[Res]) -> Vec<Viol> {
  if c.meta["ftp"].as_bool() == Some(true) {
    return crate::ftp::ora_c12_ftp(c, rs);
  }
  let m = meta(c);
  let before = init_fs(c);
  if let Some(x) = ended(&rs[0]) {
    return vec![x];
  }
  if failed(&rs[0]) {
    if rs[0].out.fired.iter().zip(&c.runs[0].spec.faults).any(|(n, f)| *n > 0 && !matches!(f.act, Act::ClockJump(_))) {
      return vec![];
    }
    return vec![v("spurious-failure", format!("{:?}: {}", rs[0].out.exit, tail(&rs[0])))];
  }
  let after = rs[0].fs();
  let mut out = vec![];
  let ext = if c.meta["render"].as_bool() == Some(true) { "tif" } else { "dng" };
  for s in sources(&before, &m) {
    let p = format!("{}/{}.{}", s.odir, s.ostem, ext);
    let o = match after.get(&p) {
      Some(o) => o,
      None => {
        out.push(v("missing-output", p));
        continue;
      }
    };
    if !m.keep_mtime {
      // an ordinary new file: stamped by the (simulated) machine during the run
      let st = c.runs[0].spec.start_ns / 1_000_000_000;
      let slack = 3600 + c.runs[0].spec.faults.iter().map(|f| if let Act::ClockJump(x) = f.act { x.abs() } else { 0 }).sum::<i64>();
      if (o.mtime.0 - st).abs() > slack {
        out.push(v("mtime-without-request", format!("{} has mtime {:?} although --keep-mtime was not given", p, o.mtime)));
      }
      continue;
    }
    let exif = c.meta["want"][&s.path].as_i64();
    let (want, src) = match exif {
      Some(x) => ((x, 0), "EXIF date"),
      None => (before[&s.path].mtime, "file date"),
    };
    tally(if exif.is_some() { "exif_dates_checked" } else { "file_dates_checked" }, 1);
    if o.mtime != want {
      out.push(v("wrong-mtime", format!("{} has mtime {:?}, the source's {} is {:?}", p, o.mtime, src, want)));
    }
  }
  out
}

pub static C01: Prop = Prop {
  id: "C01",
  families: &[("convert", 4, gen_c01), ("chain", 2, gen_c01_chain), ("meta", 3, gen_c01_meta), ("cameras", 2, gen_c01_cams)],
  oracle: ora_c01,
  min_rounds: 60,
  rule: "synthetic raw files (random geometry, colour pattern, byte order, strips/tiles, content) × conversion options × benign OS behaviour (thread schedule, short reads/writes, EINTR, spurious wake-ups, directory order, CPU count); non-trivial = more than two context switches or a disturbance occurred; distinct by event-history hash",
};
pub static C02: Prop = Prop {
  id: "C02",
  families: &[("io-error", 4, gen_c02), ("disk-full", 2, gen_c02_disk), ("bad-input", 2, gen_c02_bad)],
  oracle: ora_c02,
  min_rounds: 60,
  rule: "conversions in which a seeded choice of operation (from a dry run of the same schedule) fails once or persistently, the disk fills at a random byte, or the input is unusable; non-trivial = a fault fired or threads interleaved; distinct by event-history hash",
};
pub static C05: Prop = Prop {
  id: "C05",
  families: &[("bad-files", 3, gen_c05), ("faults", 2, gen_c05_faults), ("damaged", 2, gen_c05_damaged), ("walk", 1, gen_c05_walk)],
  oracle: ora_c05,
  min_rounds: 60,
  rule: "batches of 3–7 files mixing valid and unusable inputs, with errors injected on operations of one file; any schedule and parallelism; distinct by event-history hash",
};
pub static C06: Prop = Prop {
  id: "C06",
  families: &[("tree", 1, gen_c06)],
  oracle: ora_c06,
  min_rounds: 100,
  rule: "directory trees with name collisions, mixed-case extensions, unrelated files and links, in any directory order and schedule; distinct by event-history hash",
};
pub static C07: Prop = Prop {
  id: "C07",
  families: &[("compare", 2, gen_c07), ("tiles", 1, gen_c07_tiles), ("commands", 1, crate::cmds::gen_c07_cmds)],
  oracle: ora_c07,
  min_rounds: 60,
  rule: "each case converts the same input on a sequential one-CPU machine and on two machines with random schedule, CPU and thread count, I/O chunking and randomness, and compares all output bytes; distinct by event-history hash",
};
pub static C08: Prop = Prop {
  id: "C08",
  families: &[("kill", 1, gen_c08)],
  oracle: ora_c08,
  min_rounds: 60,
  rule: "conversions killed before or in the middle of a seeded choice of operation on the output (torn writes included), biased to the last operations; distinct by event-history hash",
};
pub static C09: Prop = Prop {
  id: "C09",
  families: &[("kill-rerun", 3, gen_c09), ("kill-twice", 1, gen_c09_twice), ("commands", 2, crate::cmds::gen_c09_cmds)],
  oracle: ora_c09,
  min_rounds: 50,
  rule: "conversion killed at a seeded point (once or twice), repeated with --override on the surviving file system, compared with an undisturbed run; distinct by event-history hash",
};
pub static C12: Prop = Prop {
  id: "C12",
  families: &[("mtime", 6, gen_c12), ("faults", 2, gen_c12_faults), ("ftp", 1, crate::ftp::gen_c12_ftp)],
  oracle: ora_c12,
  min_rounds: 80,
  rule: "sources with and without (valid) EXIF dates and time zones, converted or rendered on machines in several time zones whose clock is wrong or jumps at a seeded operation, or on which reading, writing or setting the time fails; distinct by event-history hash",
};
