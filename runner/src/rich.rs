//! Metadata-rich sources: generation and comparison of what a conversion has to carry over.
use crate::dng::*;
use simspec::Rng;
use std::collections::BTreeMap;

/// How a tag's value is made up. Exif and GPS tags are typed the way the standards say.
#[derive(Clone, Copy)]
enum T {
  S(u64),
  L(u64),
  R(usize),
  Sr(usize),
  /// Text from this list.
  A(&'static [&'static str]),
  U(usize),
  B(usize),
  F(usize),
  D(usize),
  I(usize),
}
const DATES: &[&str] = &["2001:02:03 04:05:06", "2024:02:29 23:59:59"];
const OFFS: &[&str] = &["+01:00", "-03:30", "+00:00"];
const SUBS: &[&str] = &["1", "042", "999999"];
const WORDS: &[&str] = &["a", "ab", "abc", "abcd", "Some text", "Ünïcode ✓", "A rather long text that does not fit into the directory entry itself"];
const REF: &[&str] = &["N", "S"];
const EW: &[&str] = &["E", "W"];
const KM: &[&str] = &["K", "M"];
const TM: &[&str] = &["T", "M"];

const EXIF: &[(u16, T)] = &[
  (33434, T::R(1)),
  (33437, T::R(1)),
  (34850, T::S(9)),
  (34855, T::S(60000)),
  (34858, T::I(2)),
  (34864, T::S(8)),
  (34866, T::L(400000)),
  (34867, T::L(400000)),
  (36867, T::A(DATES)),
  (36868, T::A(DATES)),
  (36880, T::A(OFFS)),
  (36881, T::A(OFFS)),
  (36882, T::A(OFFS)),
  (37377, T::Sr(1)),
  (37378, T::R(1)),
  (37379, T::Sr(1)),
  (37380, T::Sr(1)),
  (37381, T::R(1)),
  (37382, T::R(1)),
  (37383, T::S(7)),
  (37384, T::S(24)),
  (37385, T::S(96)),
  (37386, T::R(1)),
  (37393, T::L(100000)),
  (37520, T::A(SUBS)),
  (37521, T::A(SUBS)),
  (37522, T::A(SUBS)),
  (40961, T::S(3)),
  (37387, T::R(1)),
  (41986, T::S(3)),
  (41987, T::S(2)),
  (41990, T::S(4)),
  (41996, T::S(4)),
  (42032, T::A(WORDS)),
  (42033, T::A(WORDS)),
  (42037, T::A(WORDS)),
];
const GPS: &[(u16, T)] = &[
  (0, T::B(4)),
  (1, T::A(REF)),
  (2, T::R(3)),
  (3, T::A(EW)),
  (4, T::R(3)),
  (5, T::B(1)),
  (6, T::R(1)),
  (7, T::R(3)),
  (8, T::A(WORDS)),
  (9, T::A(&["A", "V"])),
  (10, T::A(&["2", "3"])),
  (11, T::R(1)),
  (12, T::A(KM)),
  (13, T::R(1)),
  (14, T::A(TM)),
  (15, T::R(1)),
  (16, T::A(TM)),
  (17, T::R(1)),
  (18, T::A(&["WGS-84"])),
  (19, T::A(REF)),
  (20, T::R(3)),
  (21, T::A(EW)),
  (22, T::R(3)),
  (23, T::A(TM)),
  (24, T::R(1)),
  (25, T::A(KM)),
  (26, T::R(1)),
  (27, T::U(12)),
  (28, T::U(21)),
  (29, T::A(&["2024:02:29"])),
  (30, T::S(2)),
  (31, T::R(1)),
];
/// Tags of the main directory that describe the image and survive a DNG to DNG conversion.
const ROOT: &[(u16, T)] = &[
  (33432, T::A(WORDS)),
  (50727, T::R(3)),
  (50730, T::Sr(1)),
  (50731, T::R(1)),
  (50732, T::R(1)),
  (50734, T::R(1)),
  (50735, T::A(WORDS)),
  (50740, T::B(37)),
  (50831, T::U(40)),
  (50832, T::Sr(9)),
  (50833, T::U(41)),
  (50834, T::Sr(9)),
  (50934, T::A(WORDS)),
  (50936, T::A(WORDS)),
  (50937, T::L(3)),
  (50938, T::F(12)),
  (50939, T::F(12)),
  (50940, T::F(6)),
  (50941, T::L(4)),
  (50942, T::A(WORDS)),
  (50981, T::L(3)),
  (50982, T::F(9)),
  (51043, T::B(8)),
  (51044, T::Sr(1)),
  (51058, T::R(2)),
  (51107, T::L(2)),
  (51108, T::L(2)),
  (51109, T::F(1)),
  (51110, T::L(2)),
  (51177, T::S(3)),
  (51178, T::R(1)),
  (51179, T::R(1)),
  (51180, T::S(3)),
  (51181, T::S(3)),
];
/// Tags of the raw image's directory.
const RAW: &[(u16, T)] = &[
  (50723, T::Sr(9)),
  (50724, T::Sr(9)),
  (50733, T::L(5000)),
  (50737, T::R(1)),
  (50738, T::R(1)),
  (50935, T::R(1)),
  (50964, T::Sr(9)),
  (50965, T::Sr(9)),
  (51008, T::U(4)),
  (51009, T::U(88)),
  (51022, T::U(133)),
  (51041, T::D(2)),
  (52525, T::U(70)),
];
fn value(r: &mut Rng, t: T) -> V {
  let rat = |r: &mut Rng| (r.range(0, 100_000) as u32, *r.pick(&[1u32, 2, 10, 125, 1000, 8000]));
  let srat = |r: &mut Rng| (r.range(0, 20_000) as i32 - 10_000, *r.pick(&[1i32, 3, 10, 10000]));
  match t {
    T::S(m) => V::S(vec![r.below(m) as u16]),
    T::L(m) => V::L(vec![r.below(m) as u32]),
    T::R(n) => V::R((0..n).map(|_| rat(r)).collect()),
    T::Sr(n) => V::SR((0..n).map(|_| srat(r)).collect()),
    T::A(l) => V::A(r.pick(l).to_string()),
    T::U(n) => V::U((0..n).map(|_| r.next() as u8).collect()),
    T::B(n) => V::B((0..n).map(|_| r.below(10) as u8).collect()),
    T::F(n) => V::F((0..n).map(|_| r.below(4096) as f32 / 4096.0).collect()),
    T::D(n) => V::D((0..n).map(|_| r.below(1 << 20) as f64 / 1e9).collect()),
    T::I(n) => V::I((0..n).map(|_| r.below(28) as i16 - 14).collect()),
  }
}
fn some(r: &mut Rng, l: &[(u16, T)], out: &mut Vec<(u16, V)>) {
  let pm = *r.pick(&[0u32, 300, 900]);
  for (tag, t) in l {
    let v = value(r, *t);
    if r.chance(pm) && !out.iter().any(|x| x.0 == *tag) {
      out.push((*tag, v));
    }
  }
}
/// Additional tags: (main directory, raw image, Exif, GPS).
pub fn extra(seed: u64, cpp: usize, root: &mut Vec<(u16, V)>, raw: &mut Vec<(u16, V)>, exif: &mut Vec<(u16, V)>, gps: &mut Vec<(u16, V)>) {
  let mut r = Rng::new(seed);
  let raw_is_cfa = raw.iter().any(|x| x.0 == 262 && matches!(&x.1, V::S(p) if p[0] == 32803));
  root.retain(|x| x.0 != 274);
  root.push((274, V::S(vec![1 + r.below(8) as u16])));
  if let Some(x) = root.iter_mut().find(|x| x.0 == 50728) {
    if let V::R(l) = &mut x.1 {
      l.iter_mut().for_each(|q| *q = (r.range(200, 1300) as u32, 1000));
    }
  }
  // X-Trans colour pattern, any phase
  if r.chance(250) {
    if let Some(x) = raw.iter_mut().find(|x| x.0 == 33422 && raw_is_cfa) {
      let (dx, dy) = (r.below(6) as usize, r.below(6) as usize);
      let t = b"GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG";
      x.1 = V::B((0..36).map(|k| t[(k / 6 + dy) % 6 * 6 + (k + dx) % 6]).map(|c| match c { b'R' => 0, b'G' => 1, _ => 2 }).collect());
      raw.iter_mut().find(|x| x.0 == 33421).unwrap().1 = V::S(vec![6, 6]);
    }
  }
  // areas in any of the types the standard allows
  for (tag, v) in raw.iter_mut() {
    if let (50719 | 50720 | 50829, V::L(l)) = (*tag, &*v) {
      let l = l.clone();
      match r.below(3) {
        0 => *v = V::S(l.iter().map(|x| *x as u16).collect()),
        1 if *tag != 50829 => *v = V::R(l.iter().map(|x| (*x, 1)).collect()),
        _ => {}
      }
    }
  }
  some(&mut r, ROOT, root);
  some(&mut r, RAW, raw);
  some(&mut r, EXIF, exif);
  some(&mut r, GPS, gps);
  // different black levels per position and plane
  if r.chance(600) {
    let dim = *r.pick(&[(1usize, 1usize), (2, 2), (2, 2), (1, 2), (2, 1)]);
    let n = dim.0 * dim.1 * cpp;
    raw.retain(|x| x.0 != 50713 && x.0 != 50714);
    raw.push((50713, V::S(vec![dim.0 as u16, dim.1 as u16])));
    raw.push((50714, if r.chance(500) { V::S((0..n).map(|_| r.below(200) as u16).collect()) } else if r.chance(500) { V::R((0..n).map(|_| (r.below(2000) as u32, 16)).collect()) } else { V::L((0..n).map(|_| r.below(200) as u32).collect()) }));
  }
}
/// Exif and GPS tags of a camera file.
pub fn exif_gps(r: &mut Rng) -> (Vec<(u16, V)>, Vec<(u16, V)>) {
  let (mut e, mut g) = (vec![], vec![]);
  some(r, EXIF, &mut e);
  some(r, GPS, &mut g);
  (e, g)
}
/// Random geometry for a metadata-rich image: bit depth, odd sizes, areas.
pub fn shape(r: &mut Rng, i: &mut Img) {
  i.rich = Some(r.next());
  i.bits = *r.pick(&[16u32, 16, 16, 12, 12, 10, 14, 8, 9, 15, 11, 13]);
  if i.photo == Photo::Bw && i.bits == 8 {
    i.bits = 12;
  }
  if i.bits < 10 {
    i.comp = 0;
  }
  i.w += r.below(2) as u32;
  i.h += r.below(2) as u32;
  if i.bits < 16 {
    if let Layout::Tiles(..) = i.layout {
      i.layout = Layout::Tiles(*r.pick(&[16, 32, 64]), *r.pick(&[16, 32]));
    }
  }
  i.black = if r.chance(500) { r.below(60) as u32 } else { 0 };
  i.active = None;
  i.crop = None;
  let (mut aw, mut ah) = (i.w, i.h);
  if r.chance(600) {
    let (t, l, b, rr) = (r.below(5) as u32, r.below(5) as u32, r.below(4) as u32, r.below(4) as u32);
    i.active = Some([t, l, i.h - b, i.w - rr]);
    (aw, ah) = (i.w - rr - l, i.h - b - t);
  }
  if r.chance(600) {
    let (x, y) = (r.below(4) as u32, r.below(4) as u32);
    i.crop = Some([x, y, aw - x - r.below(3) as u32, ah - y - r.below(3) as u32]);
  }
}

// -------------------------------------------------------------- comparison
#[derive(PartialEq, Debug)]
enum N {
  Text(Vec<u8>),
  Nums(Vec<(i128, i128)>),
  Floats(Vec<f64>),
  Bytes(Vec<u8>),
}
fn norm(t: &Tiff, e: &TagEnt) -> N {
  let q = |c: &[u8]| -> u32 {
    let a = [c[0], c[1], c[2], c[3]];
    if t.big {
      u32::from_be_bytes(a)
    } else {
      u32::from_le_bytes(a)
    }
  };
  match e.ty {
    2 => {
      let n = e.raw.iter().position(|b| *b == 0).unwrap_or(e.raw.len());
      N::Text(e.raw[..n].to_vec())
    }
    1 | 7 => N::Bytes(e.raw.clone()),
    5 => N::Nums(e.raw.chunks_exact(8).map(|c| (q(c) as i128, q(&c[4..]) as i128)).collect()),
    10 => N::Nums(e.raw.chunks_exact(8).map(|c| (q(c) as i32 as i128, q(&c[4..]) as i32 as i128)).collect()),
    8 => N::Nums(t.ent_ints(e).iter().map(|x| (*x as u16 as i16 as i128, 1)).collect()),
    11 => N::Floats(e.raw.chunks_exact(4).map(|c| f32::from_bits(q(c)) as f64).collect()),
    12 => N::Floats(
      e.raw
        .chunks_exact(8)
        .map(|c| {
          let (a, b) = (q(c) as u64, q(&c[4..]) as u64);
          f64::from_bits(if t.big { a << 32 | b } else { b << 32 | a })
        })
        .collect(),
    ),
    _ => N::Nums(t.ent_ints(e).iter().map(|x| (*x as i128, 1)).collect()),
  }
}
fn same(a: &N, b: &N) -> bool {
  match (a, b) {
    (N::Nums(x), N::Nums(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p == q || (p.1 != 0 && q.1 != 0 && p.0 * q.1 == q.0 * p.1)),
    _ => a == b,
  }
}
fn carried(what: &str, ti: &Tiff, i: &Ifd, to: &Tiff, o: &Ifd, tags: &[(u16, T)], skip: &[u16]) -> Result<(), String> {
  for (tag, _) in tags {
    if skip.contains(tag) {
      continue;
    }
    if let Some(a) = i.tags.get(tag) {
      let x = norm(ti, a);
      match o.tags.get(tag) {
        None => return Err(format!("{} tag {} of the source is missing", what, tag)),
        Some(b) => {
          let y = norm(to, b);
          if !same(&x, &y) {
            return Err(format!("{} tag {} is {:?}, source has {:?}", what, tag, y, x));
          }
        }
      }
    }
  }
  Ok(())
}
fn nums(t: &Tiff, i: &Ifd, tag: u16) -> Option<Vec<f64>> {
  match norm(t, i.tags.get(&tag)?) {
    N::Nums(v) => Some(v.iter().map(|x| x.0 as f64 / x.1 as f64).collect()),
    N::Floats(v) => Some(v),
    N::Bytes(v) => Some(v.iter().map(|x| *x as f64).collect()),
    N::Text(_) => None,
  }
}
pub struct Geo {
  /// Top, left, bottom, right.
  pub active: [usize; 4],
  /// Absolute crop: x, y, width, height.
  pub crop: Option<[usize; 4]>,
}
pub fn geo(t: &Tiff, raw: &Ifd) -> Result<Geo, String> {
  let (w, h) = (t.int(raw, 256)? as usize, t.int(raw, 257)? as usize);
  let g = |tag: u16, n: usize| -> Result<Option<Vec<usize>>, String> {
    match nums(t, raw, tag) {
      None => Ok(None),
      Some(v) if v.len() == n && v.iter().all(|x| *x >= 0.0 && x.fract() == 0.0) => Ok(Some(v.iter().map(|x| *x as usize).collect())),
      Some(v) => Err(format!("tag {} is {:?}", tag, v)),
    }
  };
  let a = g(50829, 4)?.unwrap_or(vec![0, 0, h, w]);
  let active = [a[0], a[1], a[2], a[3]];
  if active[0] >= active[2] || active[1] >= active[3] || active[2] > h || active[3] > w {
    return Err(format!("active area {:?} in an image of {}x{}", active, w, h));
  }
  let crop = match (g(50719, 2)?, g(50720, 2)?) {
    (Some(o), Some(s)) => Some([o[0] + active[1], o[1] + active[0], s[0], s[1]]),
    _ => None,
  };
  Ok(Geo { active, crop })
}
/// Black level of the sample plane `c` at the absolute position (x, y).
fn black(t: &Tiff, raw: &Ifd, g: &Geo, cpp: usize) -> Result<Vec<f64>, String> {
  let lv = nums(t, raw, 50714).unwrap_or(vec![0.0; cpp]);
  let dim = match nums(t, raw, 50713) {
    Some(d) if d.len() == 2 => (d[0] as usize, d[1] as usize),
    Some(d) => return Err(format!("BlackLevelRepeatDim {:?}", d)),
    None => (1, 1),
  };
  if dim.0 == 0 || dim.1 == 0 || lv.len() != dim.0 * dim.1 * cpp {
    return Err(format!("{} black levels for a pattern of {:?} and {} planes", lv.len(), dim, cpp));
  }
  let mut out = vec![];
  // absolute positions: the pattern starts at the active area's corner
  for y in 0..12usize {
    for x in 0..12usize {
      let (py, px) = ((y + 12 * 1000 - g.active[0]) % dim.0, (x + 12 * 1000 - g.active[1]) % dim.1);
      for c in 0..cpp {
        out.push(lv[(py * dim.1 + px) * cpp + c]);
      }
    }
  }
  Ok(out)
}
/// CFA colours at absolute positions.
pub fn cfa(t: &Tiff, raw: &Ifd, g: &Geo) -> Option<Vec<u8>> {
  let p = &raw.tags.get(&33422)?.raw;
  let d = t.ints(raw, 33421).unwrap_or(vec![2, 2]);
  let (rows, cols) = (d.first().copied().unwrap_or(2) as usize, d.get(1).copied().unwrap_or(2) as usize);
  if rows * cols != p.len() || p.is_empty() {
    return None;
  }
  let mut out = vec![];
  for y in 0..12usize {
    for x in 0..12usize {
      out.push(p[(y + 12 * 1000 - g.active[0]) % rows * cols + (x + 12 * 1000 - g.active[1]) % cols]);
    }
  }
  Some(out)
}
pub fn raw_ifd<'x>(t: &'x Tiff) -> Result<&'x Ifd, String> {
  t.all_ifds().into_iter().find(|i| (i.tags.contains_key(&273) || i.tags.contains_key(&324)) && t.int(i, 254).unwrap_or(0) & 1 == 0).ok_or_else(|| "no full resolution image".into())
}
/// Does the DNG `out` describe its image like the DNG `src` it was made from?
/// `crop`: best, activearea or none.
pub fn same_meta(src: &[u8], out: &[u8], crop: &str, artist: bool) -> Result<(), String> {
  let (ti, to) = (Tiff::parse(src).map_err(|e| format!("(input) {}", e))?, Tiff::parse(out)?);
  let (ri, ro) = (raw_ifd(&ti).map_err(|e| format!("(input) {}", e))?, raw_ifd(&to)?);
  let (gi, go) = (geo(&ti, ri).map_err(|e| format!("(input) {}", e))?, geo(&to, ro)?);
  let (w, h) = (ti.int(ri, 256)? as usize, ti.int(ri, 257)? as usize);
  let cpp = ti.int(ri, 277).unwrap_or(1) as usize;
  let want = if crop == "none" { [0, 0, h, w] } else { gi.active };
  if go.active != want {
    return Err(format!("active area {:?} instead of {:?}", go.active, want));
  }
  let a = [gi.active[1], gi.active[0], gi.active[3] - gi.active[1], gi.active[2] - gi.active[0]];
  let wc = match crop {
    "none" => None,
    "activearea" => Some(a),
    _ => Some(gi.crop.unwrap_or(a)),
  };
  if go.crop != wc {
    return Err(format!("default crop {:?} instead of {:?}", go.crop, wc));
  }
  if black(&to, ro, &go, cpp)? != black(&ti, ri, &gi, cpp).map_err(|e| format!("(input) {}", e))? {
    return Err(format!("black levels {:?} {:?} at {:?}, source {:?} {:?} at {:?}", nums(&to, ro, 50713), nums(&to, ro, 50714), go.active, nums(&ti, ri, 50713), nums(&ti, ri, 50714), gi.active));
  }
  let photo = ti.int(ri, 262)?;
  if photo == 32803 && cfa(&to, ro, &go) != cfa(&ti, ri, &gi) {
    return Err("colour filter pattern is shifted".into());
  }
  let white = |t: &Tiff, i: &Ifd| -> Vec<f64> {
    let b = t.int(i, 258).unwrap_or(16);
    match nums(t, i, 50717) {
      Some(v) if v.len() == 1 => vec![v[0]; cpp],
      Some(v) => v,
      None => vec![((1u64 << b) - 1) as f64; cpp],
    }
  };
  if white(&ti, ri) != white(&to, ro) {
    return Err(format!("white level {:?} instead of {:?}", white(&to, ro), white(&ti, ri)));
  }
  let (i0, o0) = (&ti.chain[0], &to.chain[0]);
  // colour
  if photo != 1 {
    if let Some(n) = nums(&ti, i0, 50728) {
      match nums(&to, o0, 50728) {
        Some(m) if m.len() == n.len() && m.iter().zip(&n).all(|(a, b)| (a - b).abs() < 1e-4) => {}
        m => return Err(format!("neutral {:?} instead of {:?}", m, n)),
      }
    }
    let mats = |t: &Tiff, i: &Ifd| -> BTreeMap<u32, Vec<f64>> {
      let mut m = BTreeMap::new();
      for k in 0..2u16 {
        if let (Some(x), Ok(l)) = (nums(t, i, 50721 + k), t.int(i, 50778 + k)) {
          m.insert(l, x);
        }
      }
      m
    };
    let (mi, mo) = (mats(&ti, i0), mats(&to, o0));
    for (l, m) in &mo {
      match mi.get(l) {
        Some(x) if x.len() == m.len() && x.iter().zip(m).all(|(a, b)| (a - b).abs() < 1.1e-4) => {}
        x => return Err(format!("colour matrix for illuminant {} is {:?}, source {:?}", l, m, x)),
      }
    }
    if !mi.is_empty() && mo.is_empty() || mi.contains_key(&17) && !mo.contains_key(&17) || mi.contains_key(&21) && !mo.contains_key(&21) {
      return Err(format!("colour matrices for illuminants {:?}, source {:?}", mo.keys(), mi.keys()));
    }
  }
  if ti.ints(i0, 274).ok() != to.ints(o0, 274).ok() {
    return Err(format!("orientation {:?} instead of {:?}", to.ints(o0, 274), ti.ints(i0, 274)));
  }
  carried("main directory", &ti, i0, &to, o0, ROOT, if artist { &[315] } else { &[] })?;
  carried("raw image", &ti, ri, &to, ro, RAW, &[])?;
  let none = Ifd::default();
  carried("Exif", &ti, i0.exif.as_deref().unwrap_or(&none), &to, o0.exif.as_deref().unwrap_or(&none), EXIF, &[])?;
  carried("GPS", &ti, i0.gps.as_deref().unwrap_or(&none), &to, o0.gps.as_deref().unwrap_or(&none), GPS, &[])?;
  Ok(())
}
/// Lossless JPEG headers: the predictor asked for, and the precision the directory announces.
pub fn jpeg_params(out: &[u8], pred: u8) -> Result<(), String> {
  let t = Tiff::parse(out)?;
  let raw = raw_ifd(&t)?;
  let bits = t.ints(raw, 258)?;
  for c in t.chunks(raw)? {
    let (prec, ss) = ljpeg_params(c)?;
    if bits.iter().any(|b| *b != prec) {
      return Err(format!("lossless JPEG with {} bits in an image of {:?}", prec, bits));
    }
    if ss != pred {
      return Err(format!("lossless JPEG predictor {} instead of {}", ss, pred));
    }
  }
  Ok(())
}

// ------------------------------------------------------- what analyze says
const EXIF_NAMES: &[(u16, &str)] = &[
  (33434, "exposure_time"),
  (33437, "fnumber"),
  (34850, "exposure_program"),
  (34855, "iso_speed_ratings"),
  (34858, "timezone_offset"),
  (34864, "sensitivity_type"),
  (34866, "recommended_exposure_index"),
  (34867, "iso_speed"),
  (36867, "date_time_original"),
  (36868, "create_date"),
  (36880, "offset_time"),
  (36881, "offset_time_original"),
  (36882, "offset_time_digitized"),
  (37377, "shutter_speed_value"),
  (37378, "aperture_value"),
  (37379, "brightness_value"),
  (37380, "exposure_bias"),
  (37381, "max_aperture_value"),
  (37382, "subject_distance"),
  (37383, "metering_mode"),
  (37384, "light_source"),
  (37385, "flash"),
  (37386, "focal_length"),
  (37387, "flash_energy"),
  (37393, "image_number"),
  (37520, "sub_sec_time"),
  (37521, "sub_sec_time_original"),
  (37522, "sub_sec_time_digitized"),
  (40961, "color_space"),
  (41986, "exposure_mode"),
  (41987, "white_balance"),
  (41990, "scene_capture_type"),
  (41996, "subject_distance_range"),
];
const GPS_NAMES: &[(u16, &str)] = &[
  (0, "gps_version_id"),
  (1, "gps_latitude_ref"),
  (2, "gps_latitude"),
  (3, "gps_longitude_ref"),
  (4, "gps_longitude"),
  (5, "gps_altitude_ref"),
  (6, "gps_altitude"),
  (7, "gps_timestamp"),
  (8, "gps_satellites"),
  (9, "gps_status"),
  (10, "gps_measure_mode"),
  (11, "gps_dop"),
  (12, "gps_speed_ref"),
  (13, "gps_speed"),
  (14, "gps_track_ref"),
  (15, "gps_track"),
  (16, "gps_img_direction_ref"),
  (17, "gps_img_direction"),
  (18, "gps_map_datum"),
];
fn from_json(ty: u16, j: &serde_json::Value) -> Option<N> {
  let num = |x: &serde_json::Value| -> Option<(i128, i128)> {
    match x {
      serde_json::Value::String(s) => {
        let (a, b) = s.split_once('/')?;
        Some((a.parse().ok()?, b.parse().ok()?))
      }
      _ => x.as_i64().map(|n| (n as i128, 1)),
    }
  };
  let list: Vec<&serde_json::Value> = match j {
    serde_json::Value::Array(a) => a.iter().collect(),
    x => vec![x],
  };
  Some(match ty {
    2 => N::Text(j.as_str()?.as_bytes().to_vec()),
    1 | 7 => N::Bytes(list.iter().map(|x| x.as_u64().map(|n| n as u8)).collect::<Option<_>>()?),
    _ => N::Nums(list.iter().map(|x| num(x)).collect::<Option<_>>()?),
  })
}
/// Does the answer of `analyze --meta` describe the DNG `src`?
pub fn says_meta(j: &serde_json::Value, src: &[u8]) -> Result<(), String> {
  let t = Tiff::parse(src).map_err(|e| format!("(input) {}", e))?;
  let i0 = &t.chain[0];
  let raw = raw_ifd(&t).map_err(|e| format!("(input) {}", e))?;
  let m = &j["data"]["metadata"];
  let p = &m["rawParams"];
  for (k, tag) in [("rawWidth", 256), ("rawHeight", 257)] {
    if p[k].as_u64() != t.int(raw, tag).ok().map(|x| x as u64) {
      return Err(format!("{} is {}, the file has {:?}", k, p[k], t.int(raw, tag)));
    }
  }
  let none = Ifd::default();
  let x = &m["rawMetadata"]["exif"];
  for (what, ifd, names, at) in [("exif", i0.exif.as_deref().unwrap_or(&none), EXIF_NAMES, x), ("gps", i0.gps.as_deref().unwrap_or(&none), GPS_NAMES, &x["gps"])] {
    for (tag, name) in names {
      let got = at.get(*name).filter(|v| !v.is_null());
      match (ifd.tags.get(tag), got) {
        (None, None) => {}
        (None, Some(v)) => return Err(format!("{} {} is {}, the file has none", what, name, v)),
        (Some(e), None) => return Err(format!("{} {} is missing, the file has {:?}", what, name, norm(&t, e))),
        (Some(e), Some(v)) => {
          if !from_json(e.ty, v).is_some_and(|g| same(&g, &norm(&t, e))) {
            return Err(format!("{} {} is {}, the file has {:?}", what, name, v, norm(&t, e)));
          }
        }
      }
    }
  }
  Ok(())
}
/// Does the answer of `analyze --structure` list the directories of the DNG `src`?
pub fn says_structure(j: &serde_json::Value, src: &[u8]) -> Result<(), String> {
  let t = Tiff::parse(src).map_err(|e| format!("(input) {}", e))?;
  let chain = j["data"]["fileStructure"]["dng"]["tiff"]["file"]["chain"].as_array().ok_or("no directory chain")?;
  if chain.len() != t.chain.len() {
    return Err(format!("{} directories instead of {}", chain.len(), t.chain.len()));
  }
  for (k, (i, c)) in t.chain.iter().zip(chain).enumerate() {
    let e = c["entries"].as_object().ok_or("no entries")?;
    let (got, want): (Vec<u16>, Vec<u16>) = (e.keys().filter_map(|x| x.parse().ok()).collect(), i.tags.keys().copied().collect());
    let got: std::collections::BTreeSet<u16> = got.into_iter().collect();
    if got != want.iter().copied().collect() {
      return Err(format!("directory {} lists tags {:?} instead of {:?}", k, got, want));
    }
    for (tag, x) in &i.tags {
      let name = match x.ty {
        3 => "Short",
        4 => "Long",
        8 => "SShort",
        _ => continue,
      };
      let v = &e[&tag.to_string()]["value"][name];
      // pointers to sub directories may have their own form
      if v.is_null() {
        continue;
      }
      if !from_json(x.ty, v).is_some_and(|g| same(&g, &norm(&t, x))) {
        return Err(format!("directory {} tag {} is {}, the file has {:?}", k, tag, v, norm(&t, x)));
      }
    }
  }
  Ok(())
}
