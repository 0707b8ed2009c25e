//! Independent DNG/TIFF machinery: input generator, strict reader, lossless
//! JPEG decoder, inflate, md5. Shares no code with the program under test.
use serde::{Deserialize, Serialize};
use simspec::Rng;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ writing
#[derive(Clone, Debug)]
pub enum V {
  B(Vec<u8>),
  U(Vec<u8>),
  A(String),
  /// ASCII bytes including terminators.
  T(Vec<u8>),
  S(Vec<u16>),
  L(Vec<u32>),
  R(Vec<(u32, u32)>),
  SR(Vec<(i32, i32)>),
  F(Vec<f32>),
  D(Vec<f64>),
  I(Vec<i16>),
  /// Type, count and the place of data written before.
  At(u16, u32, u32),
}
pub struct W {
  pub big: bool,
  pub buf: Vec<u8>,
}
impl W {
  pub fn new(big: bool) -> W {
    let mut w = W { big, buf: Vec::new() };
    w.buf.extend_from_slice(if big { b"MM" } else { b"II" });
    w.u16(42);
    w.u32(0);
    w
  }
  pub fn u16(&mut self, v: u16) {
    self.buf.extend_from_slice(&if self.big { v.to_be_bytes() } else { v.to_le_bytes() });
  }
  pub fn u32(&mut self, v: u32) {
    self.buf.extend_from_slice(&if self.big { v.to_be_bytes() } else { v.to_le_bytes() });
  }
  pub fn align(&mut self) {
    while self.buf.len() % 4 != 0 {
      self.buf.push(0);
    }
  }
  pub fn pos(&self) -> u32 {
    self.buf.len() as u32
  }
  pub fn data(&mut self, d: &[u8]) -> u32 {
    self.align();
    let p = self.pos();
    self.buf.extend_from_slice(d);
    p
  }
  pub fn ifd(&mut self, ents: &[(u16, V)]) -> u32 {
    let mut e: Vec<(u16, V)> = ents.to_vec();
    e.sort_by_key(|x| x.0);
    let mut recs: Vec<(u16, u16, u32, [u8; 4])> = vec![];
    for (tag, v) in &e {
      let (ty, cnt, bytes): (u16, u32, Vec<u8>) = {
        let mut t = W { big: self.big, buf: vec![] };
        match v {
          V::B(b) => (1, b.len() as u32, b.clone()),
          V::U(b) => (7, b.len() as u32, b.clone()),
          V::T(b) => (2, b.len() as u32, b.clone()),
          V::A(s) => {
            let mut b = s.as_bytes().to_vec();
            b.push(0);
            (2, b.len() as u32, b)
          }
          V::S(x) => {
            x.iter().for_each(|y| t.u16(*y));
            (3, x.len() as u32, t.buf)
          }
          V::L(x) => {
            x.iter().for_each(|y| t.u32(*y));
            (4, x.len() as u32, t.buf)
          }
          V::R(x) => {
            x.iter().for_each(|y| {
              t.u32(y.0);
              t.u32(y.1)
            });
            (5, x.len() as u32, t.buf)
          }
          V::SR(x) => {
            x.iter().for_each(|y| {
              t.u32(y.0 as u32);
              t.u32(y.1 as u32)
            });
            (10, x.len() as u32, t.buf)
          }
          V::F(x) => {
            x.iter().for_each(|y| t.u32(y.to_bits()));
            (11, x.len() as u32, t.buf)
          }
          V::D(x) => {
            x.iter().for_each(|y| {
              let b = y.to_bits();
              let (hi, lo) = ((b >> 32) as u32, b as u32);
              if t.big {
                t.u32(hi);
                t.u32(lo);
              } else {
                t.u32(lo);
                t.u32(hi);
              }
            });
            (12, x.len() as u32, t.buf)
          }
          V::I(x) => {
            x.iter().for_each(|y| t.u16(*y as u16));
            (8, x.len() as u32, t.buf)
          }
          V::At(ty, n, _) => (*ty, *n, vec![]),
        }
      };
      let mut inl = [0u8; 4];
      if let V::At(_, _, p) = v {
        inl = if self.big { p.to_be_bytes() } else { p.to_le_bytes() };
      } else if bytes.len() <= 4 {
        inl[..bytes.len()].copy_from_slice(&bytes);
      } else {
        let p = self.data(&bytes);
        inl = if self.big { p.to_be_bytes() } else { p.to_le_bytes() };
      }
      recs.push((*tag, ty, cnt, inl));
    }
    self.align();
    let at = self.pos();
    self.u16(recs.len() as u16);
    for r in recs {
      self.u16(r.0);
      self.u16(r.1);
      self.u32(r.2);
      self.buf.extend_from_slice(&r.3);
    }
    self.u32(0);
    at
  }
  pub fn finish(mut self, ifd0: u32) -> Vec<u8> {
    let b = if self.big { ifd0.to_be_bytes() } else { ifd0.to_le_bytes() };
    self.buf[4..8].copy_from_slice(&b);
    self.buf
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Photo {
  Cfa([u8; 4]),
  Linear,
  Bw,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Layout {
  Strips(u32),
  Tiles(u32, u32),
}
/// Parameters of a synthetic raw file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Img {
  pub w: u32,
  pub h: u32,
  pub photo: Photo,
  pub seed: u64,
  pub style: u32,
  pub big: bool,
  pub layout: Layout,
  pub root: bool,
  pub bits: u32,
  pub black: u32,
  pub crop: Option<[u32; 4]>,
  pub active: Option<[u32; 4]>,
  pub matrices: Vec<u16>,
  pub datetime: Option<String>,
  pub offset_time: Option<String>,
  /// TimeZoneOffset, hours.
  pub tz: Vec<i16>,
  pub model: String,
  /// 0 = ordinary; other values select a kind of defect, see `defect`.
  pub defect: u32,
  pub extra: Vec<u32>,
  /// Embedded original file.
  #[serde(default)]
  pub emb: Option<Emb>,
  /// Seed of additional metadata.
  #[serde(default)]
  pub rich: Option<u64>,
  /// 0 = uncompressed, otherwise lossless JPEG: predictor in the low three bits, arrangement of the samples above.
  #[serde(default)]
  pub comp: u8,
}
/// Tags of an embedded original (as stored, valid or not).
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Emb {
  pub name: Option<Vec<u8>>,
  pub data: Option<Vec<u8>>,
  pub digest: Option<Vec<u8>>,
}
impl Emb {
  pub fn good(name: &str, orig: &[u8]) -> Emb {
    Emb { name: Some(name.as_bytes().to_vec()), data: Some(make_original(orig)), digest: Some(md5(orig).to_vec()) }
  }
  /// What a correct reader restores, if anything.
  pub fn truth(&self) -> Option<Vec<u8>> {
    let o = original(self.data.as_ref()?).ok()?;
    if self.digest.as_deref() == Some(&md5(&o)[..]) {
      Some(o)
    } else {
      None
    }
  }
}
/// Kinds of unusable input.
pub const DEFECTS: u32 = 7;

impl Img {
  pub fn gen(r: &mut Rng, max: u32) -> Img {
    let photo = match r.below(8) {
      0 => Photo::Linear,
      1 => Photo::Bw,
      k => Photo::Cfa([[0, 1, 1, 2], [1, 0, 2, 1], [1, 2, 0, 1], [2, 1, 1, 0]][(k % 4) as usize]),
    };
    let dim = |r: &mut Rng| -> u32 {
      let v = match r.below(6) {
        0 => r.range(16, 64),
        1 => 256,
        2 => r.range(250, 262),
        3 => r.range(100, 200),
        _ => r.range(16, max as u64),
      } as u32;
      v.min(max).max(16) & !1
    };
    let (w, h) = (dim(r), dim(r));
    let layout = match r.below(4) {
      0 => Layout::Strips(h),
      1 => Layout::Strips(r.range(1, h as u64) as u32),
      2 => Layout::Strips(8),
      _ => Layout::Tiles(*r.pick(&[16, 32, 64, 128]), *r.pick(&[16, 32, 64])),
    };
    Img {
      w,
      h,
      photo,
      seed: r.next(),
      style: r.below(5) as u32,
      big: r.chance(300),
      layout,
      root: r.chance(300),
      bits: 16,
      black: if r.chance(500) { r.below(600) as u32 } else { 0 },
      crop: if r.chance(300) { Some([2, 2, w - 4, h - 4]) } else { None },
      active: if r.chance(300) { Some([2, 2, h - 2, w - 2]) } else { None },
      matrices: match r.below(6) {
        0 => vec![21],
        1 => vec![17],
        2 => vec![17, 21],
        3 => vec![21, 17],
        4 => vec![21, 23],
        _ => vec![*r.pick(&[23, 20]), *r.pick(&[21, 22])],
      },
      datetime: Some("2023:04:05 06:07:08".into()),
      offset_time: None,
      tz: vec![],
      // often several files of a batch are of one model, with different matrices
      model: format!("M{}", if r.chance(600) { r.below(3) } else { r.below(1000) }),
      defect: 0,
      extra: vec![],
      emb: None,
      rich: None,
      comp: if r.chance(150) { r.range(1, 7) as u8 | (r.below(4) as u8) << 3 | (r.below(2) as u8) << 5 } else { 0 },
    }
  }
  pub fn cpp(&self) -> usize {
    if self.photo == Photo::Linear {
      3
    } else {
      1
    }
  }
  pub fn pixels(&self) -> Vec<u16> {
    let n = self.w as usize * self.h as usize * self.cpp();
    let mut r = Rng::new(self.seed);
    let mut v = Vec::with_capacity(n);
    let rl = self.w as usize * self.cpp();
    for i in 0..n {
      let (x, y) = ((i % rl) as u64, (i / rl) as u64);
      let p = match self.style {
        0 => r.next() as u16,
        1 => ((x * 37 + y * 101) % 65521) as u16,
        2 => 2000 + (r.next() % 64) as u16,
        3 => {
          if r.below(2) == 0 {
            0
          } else {
            65535
          }
        }
        _ => {
          if (x / 16 + y / 16) % 2 == 0 {
            (r.next() % 4096) as u16
          } else {
            (x * y % 16384) as u16
          }
        }
      };
      v.push(if self.bits < 16 { p >> (16 - self.bits) } else { p });
    }
    v
  }
  pub fn build(&self) -> Vec<u8> {
    let mut w = W::new(self.big);
    let px = self.pixels();
    let cpp = self.cpp();
    let (iw, ih) = (self.w as usize, self.h as usize);
    let bits = self.bits;
    let rowlen = cpp * match self.layout {
      Layout::Strips(_) => iw,
      Layout::Tiles(tw, _) => tw as usize,
    };
    let enc = |s: &[u16], big: bool| -> Vec<u8> {
      if self.comp != 0 {
        let rows = s.len() / rowlen;
        let (lw, lh, nc) = match self.comp >> 3 {
          // two neighbours as components, two rows as one, or one component per plane
          1 if cpp == 1 && rowlen % 2 == 0 => (rowlen / 2, rows, 2),
          2 if cpp == 1 && rows % 2 == 0 => (rowlen, rows / 2, 2),
          3 if cpp == 1 && rowlen % 4 == 0 => (rowlen / 4, rows, 4),
          _ => (rowlen / cpp, rows, cpp),
        };
        return ljpeg_encode(s, lw, lh, nc, bits, self.comp & 7, self.comp >> 5 & 1 == 1);
      }
      if bits < 16 {
        // most significant bit first, no padding except at the end of a row
        let mut o = Vec::with_capacity(s.len() * 2);
        for row in s.chunks(rowlen) {
          let (mut acc, mut n) = (0u32, 0u32);
          for p in row {
            acc = acc << bits | *p as u32;
            n += bits;
            while n >= 8 {
              o.push((acc >> (n - 8)) as u8);
              n -= 8;
            }
            acc &= (1 << n) - 1;
          }
          if n > 0 {
            o.push((acc << (8 - n)) as u8);
          }
        }
        return o;
      }
      let mut o = Vec::with_capacity(s.len() * 2);
      for p in s {
        o.extend_from_slice(&if big { p.to_be_bytes() } else { p.to_le_bytes() });
      }
      o
    };
    let mut raw: Vec<(u16, V)> = vec![
      (254, V::L(vec![0])),
      (256, V::L(vec![self.w])),
      (257, V::L(vec![self.h])),
      (258, V::S(vec![self.bits as u16; cpp])),
      (259, V::S(vec![if self.comp != 0 { 7 } else { 1 }])),
      (277, V::S(vec![cpp as u16])),
      (284, V::S(vec![1])),
      (50717, V::L(vec![(1u32 << self.bits) - 1; cpp])),
    ];
    match self.photo {
      Photo::Cfa(p) => {
        raw.push((262, V::S(vec![32803])));
        raw.push((33421, V::S(vec![2, 2])));
        raw.push((33422, V::B(p.to_vec())));
        raw.push((50710, V::B(vec![0, 1, 2])));
        raw.push((50711, V::S(vec![1])));
      }
      Photo::Linear => raw.push((262, V::S(vec![34892]))),
      Photo::Bw => {
        raw.push((262, V::S(vec![1])));
        // the decoder insists on a pattern even for monochrome images
        raw.push((33421, V::S(vec![2, 2])));
        raw.push((33422, V::B(vec![0, 1, 1, 2])));
      }
    }
    if self.black > 0 {
      raw.push((50713, V::S(vec![1, 1])));
      raw.push((50714, V::L(vec![self.black; cpp])));
    }
    if let Some(c) = self.crop {
      raw.push((50719, V::L(vec![c[0], c[1]])));
      raw.push((50720, V::L(vec![c[2], c[3]])));
    }
    if let Some(a) = self.active {
      raw.push((50829, V::L(a.to_vec())));
    }
    match self.layout {
      Layout::Strips(rows) => {
        let rows = (rows as usize).clamp(1, ih);
        let mut off = vec![];
        let mut cnt = vec![];
        for c in px.chunks(rows * iw * cpp) {
          let b = enc(c, self.big);
          off.push(w.data(&b));
          cnt.push(b.len() as u32);
        }
        raw.push((278, V::L(vec![rows as u32])));
        raw.push((273, V::L(off)));
        raw.push((279, V::L(cnt)));
      }
      Layout::Tiles(tw, tl) => {
        let (tw, tl) = (tw as usize, tl as usize);
        let mut off = vec![];
        let mut cnt = vec![];
        for ty in 0..ih.div_ceil(tl) {
          for tx in 0..iw.div_ceil(tw) {
            let mut t = vec![];
            for y in 0..tl {
              for x in 0..tw {
                for c in 0..cpp {
                  let (yy, xx) = (ty * tl + y, tx * tw + x);
                  t.push(if yy < ih && xx < iw { px[(yy * iw + xx) * cpp + c] } else { 0xdead & ((1u32 << self.bits) - 1) as u16 });
                }
              }
            }
            let b = enc(&t, self.big);
            off.push(w.data(&b));
            cnt.push(b.len() as u32);
          }
        }
        raw.push((322, V::L(vec![tw as u32])));
        raw.push((323, V::L(vec![tl as u32])));
        raw.push((324, V::L(off)));
        raw.push((325, V::L(cnt)));
      }
    }
    // kinds of defect
    match self.defect {
      1 => set(&mut raw, 262, V::S(vec![2])), // photometric the decoder cannot handle
      2 => {
        // data outside the file
        let n = raw.iter().find(|x| x.0 == 279 || x.0 == 325).map(|x| match &x.1 {
          V::L(l) => l.len(),
          _ => 1,
        });
        let t = if raw.iter().any(|x| x.0 == 273) { 273 } else { 324 };
        set(&mut raw, t, V::L(vec![0x7000_0000; n.unwrap_or(1)]));
      }
      3 => raw.retain(|x| x.0 != 256), // no width
      4 => set(&mut raw, 259, V::S(vec![34713])), // foreign compression
      _ => {}
    }
    let mut root: Vec<(u16, V)> = vec![
      (50706, V::B(vec![1, 4, 0, 0])),
      (50707, V::B(vec![1, 1, 0, 0])),
      (50708, V::A(format!("SimCam {}", self.model))),
      (271, V::A("SimCam".into())),
      (272, V::A(self.model.clone())),
      (274, V::S(vec![1])),
      (50728, V::R(if self.photo == Photo::Bw { vec![(1, 1)] } else { vec![(1, 2), (1, 1), (2, 3)] })),
    ];
    for (i, m) in self.matrices.iter().enumerate().take(2) {
      let v: Vec<(i32, i32)> = [7000, -1000 - i as i32, -500, -4000, 12000, 2200, -900, 1900, 6000].iter().map(|x| (*x + *m as i32, 10000)).collect();
      root.push((50721 + i as u16, V::SR(v)));
      root.push((50778 + i as u16, V::S(vec![*m])));
    }
    let mut ex = vec![];
    if let Some(d) = &self.datetime {
      root.push((306, V::A(d.clone())));
      ex = vec![(36867, V::A(d.clone())), (36868, V::A(d.clone())), (33434, V::R(vec![(1, 125)])), (34855, V::S(vec![200]))];
      if let Some(o) = &self.offset_time {
        ex.push((36880, V::A(o.clone())));
        ex.push((36881, V::A(o.clone())));
      }
      if !self.tz.is_empty() {
        ex.push((34858, V::I(self.tz.clone())));
      }
    }
    let mut gps = vec![];
    if let Some(seed) = self.rich {
      crate::rich::extra(seed, cpp, &mut root, &mut raw, &mut ex, &mut gps);
    }
    if !ex.is_empty() {
      let e = w.ifd(&ex);
      root.push((34665, V::L(vec![e])));
    }
    if !gps.is_empty() {
      let e = w.ifd(&gps);
      root.push((34853, V::L(vec![e])));
    }
    if self.defect == 5 {
      root.retain(|x| x.0 != 50706); // not a DNG
    }
    if let Some(e) = &self.emb {
      if let Some(n) = &e.name {
        let mut n = n.clone();
        n.push(0);
        root.push((50827, V::T(n)));
      }
      if let Some(d) = &e.data {
        root.push((50828, V::U(d.clone())));
      }
      if let Some(d) = &e.digest {
        root.push((50973, V::B(d.clone())));
      }
    }
    let at = if self.root {
      root.extend(raw);
      w.ifd(&root)
    } else {
      // small RGB thumbnail in IFD0
      let th = w.data(&(0..16 * 8 * 3u32).map(|k| (k.wrapping_mul(2654435761) >> 24) as u8 ^ self.seed as u8).collect::<Vec<_>>());
      let sub = w.ifd(&raw);
      root.extend(vec![
        (254, V::L(vec![1])),
        (256, V::L(vec![16])),
        (257, V::L(vec![8])),
        (258, V::S(vec![8, 8, 8])),
        (259, V::S(vec![1])),
        (262, V::S(vec![2])),
        (273, V::L(vec![th])),
        (277, V::S(vec![3])),
        (278, V::L(vec![8])),
        (279, V::L(vec![16 * 8 * 3])),
        (330, V::L(vec![sub])),
      ]);
      w.ifd(&root)
    };
    let mut b = w.finish(at);
    match self.defect {
      6 => {
        // random bytes
        let mut r = Rng::new(self.seed ^ 77);
        b = (0..2000).map(|_| r.next() as u8).collect();
      }
      7 => b = Vec::new(),
      _ => {}
    }
    b
  }
}
fn set(v: &mut Vec<(u16, V)>, tag: u16, val: V) {
  v.retain(|x| x.0 != tag);
  v.push((tag, val));
}

// ------------------------------------------------------------------ reading
#[derive(Clone, Debug)]
pub struct TagEnt {
  pub ty: u16,
  pub cnt: u32,
  pub raw: Vec<u8>,
  /// Offset of the value in the file.
  pub off: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Ifd {
  pub tags: BTreeMap<u16, TagEnt>,
  pub subs: Vec<Ifd>,
  pub exif: Option<Box<Ifd>>,
  pub gps: Option<Box<Ifd>>,
  /// What the TIFF specification forbids although it can be read.
  pub odd: Option<String>,
}
impl Ifd {
  pub fn well_formed(&self) -> Result<(), String> {
    match &self.odd {
      Some(e) => Err(e.clone()),
      None => self.subs.iter().chain(self.exif.as_deref()).chain(self.gps.as_deref()).try_for_each(|i| i.well_formed()),
    }
  }
}
pub struct Tiff<'a> {
  pub d: &'a [u8],
  pub big: bool,
  pub chain: Vec<Ifd>,
}
type R<T> = Result<T, String>;

impl<'a> Tiff<'a> {
  pub fn parse(d: &'a [u8]) -> R<Tiff<'a>> {
    if d.len() < 8 {
      return Err("shorter than a TIFF header".into());
    }
    let big = match &d[..2] {
      b"II" => false,
      b"MM" => true,
      _ => return Err("no TIFF signature".into()),
    };
    let mut t = Tiff { d, big, chain: vec![] };
    if t.u16(2)? != 42 {
      return Err("no TIFF magic".into());
    }
    let mut at = t.u32(4)? as usize;
    if at == 0 {
      return Err("first IFD offset is 0".into());
    }
    let mut n = 0;
    while at != 0 {
      n += 1;
      if n > 16 {
        return Err("IFD chain too long".into());
      }
      let (i, next) = t.ifd(at, 0)?;
      t.chain.push(i);
      at = next;
    }
    Ok(t)
  }
  fn sl(&self, o: usize, n: usize) -> R<&'a [u8]> {
    if o.checked_add(n).map(|e| e <= self.d.len()).unwrap_or(false) {
      Ok(&self.d[o..o + n])
    } else {
      Err(format!("range {}+{} outside of file ({} bytes)", o, n, self.d.len()))
    }
  }
  pub fn u16(&self, o: usize) -> R<u16> {
    let b = self.sl(o, 2)?;
    Ok(if self.big { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) })
  }
  pub fn u32(&self, o: usize) -> R<u32> {
    let b = self.sl(o, 4)?;
    let a = [b[0], b[1], b[2], b[3]];
    Ok(if self.big { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) })
  }
  fn ifd(&self, at: usize, depth: u32) -> R<(Ifd, usize)> {
    if depth > 4 {
      return Err("IFD nesting too deep".into());
    }
    let n = self.u16(at)? as usize;
    let mut i = Ifd::default();
    if at % 2 != 0 {
      i.odd = Some(format!("a directory at the odd offset {}", at));
    }
    for k in 0..n {
      let o = at + 2 + 12 * k;
      let (tag, ty, cnt) = (self.u16(o)?, self.u16(o + 2)?, self.u32(o + 4)?);
      if i.tags.keys().next_back().map(|l| *l >= tag).unwrap_or(false) {
        i.odd = Some(format!("tag {} is out of order or twice in a directory", tag));
      }
      let sz = match ty {
        1 | 2 | 6 | 7 => 1,
        3 | 8 => 2,
        4 | 9 | 11 | 13 => 4,
        5 | 10 | 12 => 8,
        _ => return Err(format!("tag {} has unknown type {}", tag, ty)),
      };
      let len = sz * cnt as usize;
      let off = if len <= 4 { o + 8 } else { self.u32(o + 8)? as usize };
      if off % 2 != 0 {
        i.odd = Some(format!("the value of tag {} is at the odd offset {}", tag, off));
      }
      let raw = self.sl(off, len).map_err(|e| format!("tag {}: {}", tag, e))?.to_vec();
      i.tags.insert(tag, TagEnt { ty, cnt, raw, off });
    }
    let next = self.u32(at + 2 + 12 * n)? as usize;
    if i.tags.contains_key(&330) {
      for s in self.ints(&i, 330)? {
        i.subs.push(self.ifd(s as usize, depth + 1)?.0);
      }
    }
    if i.tags.contains_key(&34665) {
      for s in self.ints(&i, 34665)? {
        i.exif = Some(Box::new(self.ifd(s as usize, depth + 1)?.0));
      }
    }
    if depth == 0 && i.tags.contains_key(&34853) {
      for s in self.ints(&i, 34853)? {
        i.gps = Some(Box::new(self.ifd(s as usize, depth + 1)?.0));
      }
    }
    Ok((i, next))
  }
  pub fn ints(&self, i: &Ifd, tag: u16) -> R<Vec<u32>> {
    let e = i.tags.get(&tag).ok_or_else(|| format!("tag {} missing", tag))?;
    Ok(self.ent_ints(e))
  }
  pub fn ent_ints(&self, e: &TagEnt) -> Vec<u32> {
    match e.ty {
      3 | 8 => e.raw.chunks_exact(2).map(|b| if self.big { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) } as u32).collect(),
      4 | 9 | 13 => e
        .raw
        .chunks_exact(4)
        .map(|b| {
          let a = [b[0], b[1], b[2], b[3]];
          if self.big {
            u32::from_be_bytes(a)
          } else {
            u32::from_le_bytes(a)
          }
        })
        .collect(),
      1 | 2 | 6 | 7 => e.raw.iter().map(|b| *b as u32).collect(),
      _ => vec![],
    }
  }
  pub fn int(&self, i: &Ifd, tag: u16) -> R<u32> {
    self.ints(i, tag)?.first().copied().ok_or_else(|| format!("tag {} empty", tag))
  }
  pub fn text(&self, i: &Ifd, tag: u16) -> Option<String> {
    i.tags.get(&tag).map(|e| String::from_utf8_lossy(&e.raw).trim_end_matches('\0').to_string())
  }
  /// All chunks (strips or tiles) of an image directory must lie in the file.
  pub fn chunks(&self, i: &Ifd) -> R<Vec<&'a [u8]>> {
    let (o, c) = if i.tags.contains_key(&273) { (self.ints(i, 273)?, self.ints(i, 279)?) } else { (self.ints(i, 324)?, self.ints(i, 325)?) };
    if o.len() != c.len() {
      return Err("offset and byte count lists differ in length".into());
    }
    o.iter().zip(&c).map(|(o, c)| self.sl(*o as usize, *c as usize)).collect()
  }
  pub fn image(&self, i: &Ifd) -> R<Pix> {
    let (w, h) = (self.int(i, 256)? as usize, self.int(i, 257)? as usize);
    let cpp = self.int(i, 277).unwrap_or(1) as usize;
    let comp = self.int(i, 259)?;
    let bits = self.int(i, 258)?;
    if w == 0 || h == 0 || cpp == 0 || cpp > 4 || w > 20000 || h > 20000 {
      return Err("implausible image geometry".into());
    }
    let ch = self.chunks(i)?;
    let (cw, cl) = if i.tags.contains_key(&273) { (w, (self.int(i, 278).unwrap_or(h as u32) as usize).min(h)) } else { (self.int(i, 322)? as usize, self.int(i, 323)? as usize) };
    if cw == 0 || cl == 0 {
      return Err("empty chunk geometry".into());
    }
    let strips = i.tags.contains_key(&273);
    let (nx, ny) = (w.div_ceil(cw), h.div_ceil(cl));
    if nx * ny != ch.len() {
      return Err(format!("{} chunks, geometry needs {}", ch.len(), nx * ny));
    }
    let mut px = vec![0u16; w * h * cpp];
    for (k, d) in ch.iter().enumerate() {
      let (tx, ty) = (k % nx, k / nx);
      let rows = if strips { cl.min(h - ty * cl) } else { cl };
      let need = cw * rows * cpp;
      let s: Vec<u16> = match (comp, bits) {
        (1, 16) => {
          if d.len() < need * 2 {
            return Err(format!("chunk {} has {} bytes, needs {}", k, d.len(), need * 2));
          }
          d.chunks_exact(2).map(|b| if self.big { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) }).collect()
        }
        (1, 8) => {
          if d.len() < need {
            return Err(format!("chunk {} has {} bytes, needs {}", k, d.len(), need));
          }
          d.iter().map(|b| *b as u16).collect()
        }
        (1, n @ 1..=15) => {
          // rows begin on byte boundaries
          let row = (cw * cpp * n as usize).div_ceil(8);
          if d.len() < row * rows {
            return Err(format!("chunk {} has {} bytes, needs {}", k, d.len(), row * rows));
          }
          let mut o = Vec::with_capacity(need);
          for d in d.chunks(row).take(rows) {
            let (mut acc, mut have) = (0u64, 0u32);
            let mut it = d.iter();
            for _ in 0..cw * cpp {
              while have < n {
                acc = acc << 8 | *it.next().unwrap_or(&0) as u64;
                have += 8;
              }
              have -= n;
              o.push((acc >> have & ((1 << n) - 1)) as u16);
              acc &= (1 << have) - 1;
            }
          }
          o
        }
        (5, 16) => {
          let b = lzw(d).map_err(|e| format!("chunk {}: {}", k, e))?;
          b.chunks_exact(2).map(|b| if self.big { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) }).collect()
        }
        (7, _) => ljpeg(d).map_err(|e| format!("chunk {}: {}", k, e))?,
        o => return Err(format!("compression/bits {:?} not handled", o)),
      };
      if s.len() < need {
        return Err(format!("chunk {} has {} samples, needs {}", k, s.len(), need));
      }
      for y in 0..rows {
        let yy = ty * cl + y;
        if yy >= h {
          break;
        }
        let x0 = tx * cw;
        let n = cw.min(w - x0) * cpp;
        px[(yy * w + x0) * cpp..(yy * w + x0) * cpp + n].copy_from_slice(&s[y * cw * cpp..y * cw * cpp + n]);
      }
    }
    Ok(Pix { w, h, cpp, px })
  }
  pub fn all_ifds(&self) -> Vec<&Ifd> {
    let mut v = vec![];
    fn walk<'x>(i: &'x Ifd, v: &mut Vec<&'x Ifd>) {
      v.push(i);
      i.subs.iter().for_each(|s| walk(s, v));
    }
    self.chain.iter().for_each(|i| walk(i, &mut v));
    v
  }
}
#[derive(Clone, PartialEq)]
pub struct Pix {
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  pub px: Vec<u16>,
}

/// Everything the checks want to know about a finished DNG.
pub struct Dng {
  pub raw: Pix,
  pub photo: u32,
  pub compression: u32,
  pub cfa: Option<Vec<u8>>,
  pub thumb: bool,
  pub preview: bool,
  pub original: Option<Vec<u8>>,
  pub original_name: Option<String>,
  pub digest: Option<Vec<u8>>,
  pub model: Option<String>,
  pub modify: Option<String>,
  pub artist: Option<String>,
}
/// Does the file present itself as a finished DNG (signature, first directory, DNGVersion)?
pub fn looks_finished(d: &[u8]) -> bool {
  // only what a reader needs to accept the file as DNG: header, IFD0 with DNGVersion
  let t = Tiff { d, big: d.starts_with(b"MM"), chain: vec![] };
  if d.len() < 8 || !(d.starts_with(b"II") || d.starts_with(b"MM")) || t.u16(2) != Ok(42) {
    return false;
  }
  let at = t.u32(4).unwrap_or(0) as usize;
  if at == 0 {
    return false;
  }
  let n = match t.u16(at) {
    Ok(n) => n as usize,
    Err(_) => return false,
  };
  (0..n).any(|k| t.u16(at + 2 + 12 * k) == Ok(50706))
}
pub fn read_dng(d: &[u8]) -> R<Dng> {
  let t = Tiff::parse(d)?;
  let root = &t.chain[0];
  if !root.tags.contains_key(&50706) {
    return Err("DNGVersion missing".into());
  }
  let mut raw = None;
  let mut preview = false;
  let mut thumb = false;
  for i in t.all_ifds() {
    if !i.tags.contains_key(&273) && !i.tags.contains_key(&324) {
      continue;
    }
    let sub = t.int(i, 254).unwrap_or(0);
    if sub & 1 == 0 {
      if raw.is_some() {
        return Err("two full resolution images".into());
      }
      raw = Some(i);
    } else {
      let ch = t.chunks(i)?;
      if t.int(i, 259)? == 7 {
        preview = true;
        let all: Vec<u8> = ch.concat();
        if !all.starts_with(&[0xff, 0xd8]) || !all.ends_with(&[0xff, 0xd9]) {
          return Err("preview is not a complete JPEG".into());
        }
        let dims = jpeg_dims(&all)?;
        if dims != (t.int(i, 256)?, t.int(i, 257)?) {
          return Err(format!("preview is {:?}, its directory says {:?}", dims, (t.int(i, 256), t.int(i, 257))));
        }
      } else {
        thumb = true;
        t.image(i).map_err(|e| format!("thumbnail: {}", e))?;
      }
    }
  }
  let raw = raw.ok_or("no full resolution image")?;
  let pix = t.image(raw).map_err(|e| format!("raw image: {}", e))?;
  let original = match root.tags.get(&50828) {
    Some(e) => Some(original(&e.raw)?),
    None => None,
  };
  Ok(Dng {
    raw: pix,
    photo: t.int(raw, 262)?,
    compression: t.int(raw, 259)?,
    cfa: raw.tags.get(&33422).map(|e| e.raw.clone()),
    thumb,
    preview,
    original,
    original_name: t.text(root, 50827),
    digest: root.tags.get(&50973).map(|e| e.raw.clone()),
    model: t.text(root, 272),
    modify: t.text(root, 306),
    artist: t.text(root, 315),
  })
}
/// TIFF flavour of LZW.
pub fn lzw(d: &[u8]) -> R<Vec<u8>> {
  let mut out: Vec<u8> = vec![];
  let mut tab: Vec<Vec<u8>> = vec![];
  let reset = |t: &mut Vec<Vec<u8>>| {
    t.clear();
    (0..256u32).for_each(|i| t.push(vec![i as u8]));
    t.push(vec![]);
    t.push(vec![]);
  };
  reset(&mut tab);
  let (mut acc, mut n, mut width) = (0u32, 0u32, 9u32);
  let mut prev: Option<usize> = None;
  for b in d {
    acc = acc << 8 | *b as u32;
    n += 8;
    while n >= width {
      let code = (acc >> (n - width) & ((1 << width) - 1)) as usize;
      n -= width;
      if code == 256 {
        reset(&mut tab);
        width = 9;
        prev = None;
        continue;
      }
      if code == 257 {
        return Ok(out);
      }
      match prev {
        None => {
          let s = tab.get(code).filter(|s| !s.is_empty()).ok_or("LZW: bad first code")?;
          out.extend_from_slice(s);
        }
        Some(p) => {
          let mut e = tab[p].clone();
          let first = if code < tab.len() { tab[code].first().copied() } else { e.first().copied() }.ok_or("LZW: bad code")?;
          if code > tab.len() {
            return Err("LZW: code out of range".into());
          }
          e.push(first);
          tab.push(e);
          out.extend_from_slice(&tab[code]);
        }
      }
      prev = Some(code);
      width = match tab.len() + 1 {
        x if x >= 2048 => 12,
        x if x >= 1024 => 11,
        x if x >= 512 => 10,
        _ => 9,
      };
    }
  }
  Err("LZW: no end of information".into())
}
/// OriginalRawFileData (DNG 1.4, "original raw file data" fork format).
pub fn original(d: &[u8]) -> R<Vec<u8>> {
  let be = |o: usize| -> R<u32> { d.get(o..o + 4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])).ok_or_else(|| "original data too short".to_string()) };
  let size = be(0)? as usize;
  let n = size.div_ceil(65536);
  let mut out = Vec::with_capacity(size);
  let mut last = 4 + 4 * (n + 1);
  for k in 0..n {
    let (a, b) = (be(4 + 4 * k)? as usize, be(4 + 4 * (k + 1))? as usize);
    if a != last || b < a || b > d.len() {
      return Err("original data: bad block index".into());
    }
    last = b;
    out.extend(zlib(&d[a..b]).map_err(|e| format!("original block {}: {}", k, e))?);
  }
  if out.len() != size {
    return Err(format!("original data has {} bytes, header says {}", out.len(), size));
  }
  Ok(out)
}

// ---------------------------------------------------------- lossless JPEG
/// Width and height of a JPEG.
pub fn jpeg_dims(d: &[u8]) -> R<(u32, u32)> {
  let g = |p: usize| -> R<u32> { d.get(p).map(|x| *x as u32).ok_or_else(|| "JPEG ends early".to_string()) };
  let mut p = 2;
  loop {
    let (m, len) = (g(p + 1)?, (g(p + 2)? << 8 | g(p + 3)?) as usize);
    if g(p)? != 0xff || m == 0xda {
      return Err("JPEG: no frame header".into());
    }
    if (0xc0..=0xc2).contains(&m) {
      return Ok((g(p + 7)? << 8 | g(p + 8)?, g(p + 5)? << 8 | g(p + 6)?));
    }
    p += 2 + len;
  }
}
/// Precision and predictor of a lossless JPEG.
pub fn ljpeg_params(d: &[u8]) -> R<(u32, u8)> {
  let g = |p: usize| -> R<usize> { d.get(p).map(|x| *x as usize).ok_or_else(|| "LJPEG ends early".to_string()) };
  let (mut p, mut prec) = (2, 0);
  loop {
    let (m, len) = (g(p + 1)?, g(p + 2)? << 8 | g(p + 3)?);
    match m {
      0xc3 => prec = g(p + 4)? as u32,
      0xda => return Ok((prec, g(p + 5 + 2 * g(p + 4)?)? as u8)),
      _ => {}
    }
    p += 2 + len;
  }
}
pub fn ljpeg(d: &[u8]) -> R<Vec<u16>> {
  let mut p = 0usize;
  let g = |p: usize| -> R<u8> { d.get(p).copied().ok_or_else(|| "LJPEG ends early".to_string()) };
  if g(0)? != 0xff || g(1)? != 0xd8 {
    return Err("LJPEG: no SOI".into());
  }
  p += 2;
  let (mut prec, mut w, mut h, mut nc) = (0u32, 0usize, 0usize, 0usize);
  let mut ids: Vec<u8> = vec![];
  // (code length, code) -> value, per table
  let mut tabs: Vec<Option<BTreeMap<(u32, u32), u8>>> = vec![None; 4];
  loop {
    if g(p)? != 0xff {
      return Err("LJPEG: marker expected".into());
    }
    let m = g(p + 1)?;
    let len = (g(p + 2)? as usize) << 8 | g(p + 3)? as usize;
    let s = p + 4;
    match m {
      0xc3 => {
        prec = g(s)? as u32;
        h = (g(s + 1)? as usize) << 8 | g(s + 2)? as usize;
        w = (g(s + 3)? as usize) << 8 | g(s + 4)? as usize;
        nc = g(s + 5)? as usize;
        for k in 0..nc {
          ids.push(g(s + 6 + 3 * k)?);
          if g(s + 7 + 3 * k)? != 0x11 {
            return Err("LJPEG: subsampling".into());
          }
        }
      }
      0xc4 => {
        let mut q = s;
        while q < p + 2 + len {
          let id = (g(q)? & 15) as usize;
          let cnt: Vec<u8> = (0..16).map(|k| g(q + 1 + k)).collect::<R<Vec<_>>>()?;
          q += 17;
          let mut t = BTreeMap::new();
          let mut code = 0u32;
          for (l, c) in cnt.iter().enumerate() {
            for _ in 0..*c {
              t.insert((l as u32 + 1, code), g(q)?);
              q += 1;
              code += 1;
            }
            code <<= 1;
          }
          if id > 3 {
            return Err("LJPEG: table id".into());
          }
          tabs[id] = Some(t);
        }
      }
      0xda => {
        let n = g(s)? as usize;
        if n != nc || nc == 0 || nc > 4 || prec == 0 || prec > 16 || w == 0 || h == 0 {
          return Err("LJPEG: bad scan header".into());
        }
        let mut tsel = vec![];
        for k in 0..n {
          if g(s + 1 + 2 * k)? != ids[k] {
            return Err("LJPEG: component order".into());
          }
          tsel.push((g(s + 2 + 2 * k)? >> 4) as usize);
        }
        let pred = g(s + 1 + 2 * n)?;
        let pt = g(s + 3 + 2 * n)? & 15;
        return scan(&d[p + 2 + len..], w, h, nc, prec, pred, pt, &tsel, &tabs);
      }
      0xd9 => return Err("LJPEG: EOI before scan".into()),
      _ => {}
    }
    p += 2 + len;
  }
}
/// Lossless JPEG with `nc` interleaved components of w x h samples.
pub fn ljpeg_encode(s: &[u16], w: usize, h: usize, nc: usize, prec: u32, pred: u8, tables: bool) -> Vec<u8> {
  let mut o = vec![0xff, 0xd8];
  let seg = |o: &mut Vec<u8>, m: u8, b: &[u8]| {
    o.extend([0xff, m]);
    o.extend(((b.len() + 2) as u16).to_be_bytes());
    o.extend(b);
  };
  let mut sof = vec![prec as u8, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, nc as u8];
  for c in 0..nc {
    sof.extend([c as u8, 0x11, 0]);
  }
  // either one code for all (five bits each) or two, the second with short codes for some lengths
  let short = [6u8, 0, 9, 16, 3];
  let order = |t: usize| -> Vec<(u8, u32)> {
    if t == 0 {
      (0..17).map(|v| (v, 5)).collect()
    } else {
      let mut l: Vec<(u8, u32)> = short.iter().map(|v| (*v, 3)).collect();
      l.extend((0..17).filter(|v| !short.contains(v)).map(|v| (v, 6)));
      l
    }
  };
  let mut codes = vec![];
  for t in 0..if tables { 2 } else { 1 } {
    let l = order(t);
    let mut b = vec![t as u8];
    b.extend((1..=16u32).map(|n| l.iter().filter(|x| x.1 == n).count() as u8));
    b.extend(l.iter().map(|x| x.0));
    seg(&mut o, 0xc4, &b);
    let mut tab = [(0u32, 0u32); 17];
    let (mut code, mut len) = (0u32, 1);
    for (v, n) in l {
      while len < n {
        code <<= 1;
        len += 1;
      }
      tab[v as usize] = (code, n);
      code += 1;
    }
    codes.push(tab);
  }
  seg(&mut o, 0xc3, &sof);
  let mut sos = vec![nc as u8];
  let sel = |c: usize| if tables { (c + 1) % 2 } else { 0 };
  for c in 0..nc {
    sos.extend([c as u8, (sel(c) << 4) as u8]);
  }
  sos.extend([pred, 0, 0]);
  seg(&mut o, 0xda, &sos);
  let (mut acc, mut n) = (0u64, 0u32);
  let rl = w * nc;
  for y in 0..h {
    for x in 0..w {
      for c in 0..nc {
        let at = y * rl + x * nc + c;
        let a = || s[at - nc] as i32;
        let b = || s[at - rl] as i32;
        let d = || s[at - rl - nc] as i32;
        let p = match (x, y) {
          (0, 0) => 1 << (prec - 1),
          (_, 0) => a(),
          (0, _) => b(),
          _ => match pred {
            1 => a(),
            2 => b(),
            3 => d(),
            4 => a() + b() - d(),
            5 => a() + ((b() - d()) >> 1),
            6 => b() + ((a() - d()) >> 1),
            _ => (a() + b()) >> 1,
          },
        };
        // modulo 65536, as a value from -32767 to 32768
        let mut diff = (s[at] as i32 - p) & 0xffff;
        if diff > 32768 {
          diff -= 65536;
        }
        let ss = 32 - diff.unsigned_abs().leading_zeros();
        let (code, len) = codes[sel(c)][ss as usize];
        acc = acc << len | code as u64;
        n += len;
        if ss > 0 && ss < 16 {
          let v = if diff < 0 { diff + (1 << ss) - 1 } else { diff };
          acc = acc << ss | v as u64;
          n += ss;
        }
        while n >= 8 {
          let b = (acc >> (n - 8)) as u8;
          o.push(b);
          if b == 0xff {
            o.push(0);
          }
          n -= 8;
        }
        acc &= (1 << n) - 1;
      }
    }
  }
  if n > 0 {
    // filled up with ones
    let b = (acc << (8 - n)) as u8 | ((1u16 << (8 - n)) - 1) as u8;
    o.push(b);
    if b == 0xff {
      o.push(0);
    }
  }
  o.extend([0xff, 0xd9]);
  o
}
#[allow(clippy::too_many_arguments)]
fn scan(d: &[u8], w: usize, h: usize, nc: usize, prec: u32, pred: u8, pt: u8, tsel: &[usize], tabs: &[Option<BTreeMap<(u32, u32), u8>>]) -> R<Vec<u16>> {
  if pt != 0 {
    return Err("LJPEG: point transform".into());
  }
  // unstuff
  let mut bits: Vec<u8> = Vec::with_capacity(d.len());
  let mut i = 0;
  let mut ended = false;
  while i < d.len() {
    if d[i] == 0xff {
      match d.get(i + 1) {
        Some(0) => {
          bits.push(0xff);
          i += 2;
        }
        Some(0xd9) => {
          ended = true;
          break;
        }
        Some(x) => return Err(format!("LJPEG: marker {:02x} in scan", x)),
        None => return Err("LJPEG: ends in a marker".into()),
      }
    } else {
      bits.push(d[i]);
      i += 1;
    }
  }
  if !ended {
    return Err("LJPEG: no EOI".into());
  }
  // fast lookup: 16-bit prefix -> (length, value)
  let mut luts: Vec<Vec<(u8, u8)>> = vec![];
  for t in tsel {
    let tab = tabs.get(*t).and_then(|x| x.as_ref()).ok_or("LJPEG: missing table")?;
    let mut l = vec![(0u8, 0u8); 65536];
    for ((len, code), v) in tab {
      let base = (*code as usize) << (16 - len);
      for e in l.iter_mut().skip(base).take(1 << (16 - len)) {
        *e = (*len as u8, *v);
      }
    }
    luts.push(l);
  }
  let total = bits.len() * 8;
  let mut pos = 0usize;
  let peek = |pos: usize, n: usize| -> u32 {
    let mut v = 0u64;
    let b = pos / 8;
    for k in 0..5 {
      v = v << 8 | bits.get(b + k).copied().unwrap_or(0) as u64;
    }
    ((v >> (40 - n - pos % 8)) & ((1u64 << n) - 1)) as u32
  };
  let rl = w * nc;
  let mut o = vec![0u16; rl * h];
  for y in 0..h {
    for x in 0..w {
      for c in 0..nc {
        let (len, ss) = luts[c][peek(pos, 16) as usize];
        if len == 0 {
          return Err("LJPEG: bad code".into());
        }
        pos += len as usize;
        let diff: i32 = match ss {
          0 => 0,
          16 => 32768,
          s if s < 16 => {
            let v = peek(pos, s as usize) as i32;
            pos += s as usize;
            if v < 1 << (s - 1) {
              v - (1 << s) + 1
            } else {
              v
            }
          }
          _ => return Err("LJPEG: bad length".into()),
        };
        if pos > total {
          return Err("LJPEG: scan data ends early".into());
        }
        let at = y * rl + x * nc + c;
        let a = |o: &[u16]| o[at - nc] as i32;
        let b = |o: &[u16]| o[at - rl] as i32;
        let cc = |o: &[u16]| o[at - rl - nc] as i32;
        let p = if y == 0 && x == 0 {
          1 << (prec - 1)
        } else if y == 0 {
          a(&o)
        } else if x == 0 {
          b(&o)
        } else {
          match pred {
            1 => a(&o),
            2 => b(&o),
            3 => cc(&o),
            4 => a(&o) + b(&o) - cc(&o),
            5 => a(&o) + ((b(&o) - cc(&o)) >> 1),
            6 => b(&o) + ((a(&o) - cc(&o)) >> 1),
            7 => (a(&o) + b(&o)) >> 1,
            _ => return Err("LJPEG: predictor".into()),
          }
        };
        o[at] = ((p + diff) & 0xffff) as u16;
      }
    }
  }
  Ok(o)
}

// ------------------------------------------------------------------- zlib
pub fn zlib(d: &[u8]) -> R<Vec<u8>> {
  if d.len() < 6 || d[0] & 15 != 8 || (d[0] as u32 * 256 + d[1] as u32) % 31 != 0 {
    return Err("zlib header".into());
  }
  let (out, used) = inflate(&d[2..])?;
  let a = &d[2 + used..];
  if a.len() != 4 {
    return Err("zlib trailer".into());
  }
  let (mut s1, mut s2) = (1u32, 0u32);
  for b in &out {
    s1 = (s1 + *b as u32) % 65521;
    s2 = (s2 + s1) % 65521;
  }
  if u32::from_be_bytes([a[0], a[1], a[2], a[3]]) != s2 << 16 | s1 {
    return Err("zlib checksum".into());
  }
  Ok(out)
}
/// zlib stream with stored blocks.
pub fn zlib_store(d: &[u8]) -> Vec<u8> {
  let mut o = vec![0x78, 0x01];
  let mut it = d.chunks(60000).peekable();
  if d.is_empty() {
    o.extend_from_slice(&[1, 0, 0, 0xff, 0xff]);
  }
  while let Some(c) = it.next() {
    o.push(if it.peek().is_none() { 1 } else { 0 });
    o.extend_from_slice(&(c.len() as u16).to_le_bytes());
    o.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
    o.extend_from_slice(c);
  }
  let (mut s1, mut s2) = (1u32, 0u32);
  for b in d {
    s1 = (s1 + *b as u32) % 65521;
    s2 = (s2 + s1) % 65521;
  }
  o.extend_from_slice(&(s2 << 16 | s1).to_be_bytes());
  o
}
/// Binary PPM with 8 or 16 bits per sample.
pub fn ppm(w: u32, h: u32, px: &[u16], wide: bool) -> Vec<u8> {
  let mut o = format!("P6\n{} {}\n{}\n", w, h, if wide { 65535 } else { 255 }).into_bytes();
  for p in px {
    if wide {
      o.extend_from_slice(&p.to_be_bytes());
    } else {
      o.push(*p as u8);
    }
  }
  o
}
/// Embedded-original container as the DNG specification defines it.
pub fn make_original(d: &[u8]) -> Vec<u8> {
  let blocks: Vec<Vec<u8>> = d.chunks(65536).map(zlib_store).collect();
  let mut o = (d.len() as u32).to_be_bytes().to_vec();
  let mut at = 4 + 4 * (blocks.len() + 1);
  o.extend_from_slice(&(at as u32).to_be_bytes());
  for b in &blocks {
    at += b.len();
    o.extend_from_slice(&(at as u32).to_be_bytes());
  }
  blocks.iter().for_each(|b| o.extend_from_slice(b));
  o.extend_from_slice(&[0; 28]);
  o
}
fn inflate(d: &[u8]) -> R<(Vec<u8>, usize)> {
  struct B<'a> {
    d: &'a [u8],
    p: usize,
  }
  impl B<'_> {
    fn bit(&mut self) -> R<u32> {
      let b = *self.d.get(self.p / 8).ok_or("deflate ends early")?;
      let v = b >> (self.p % 8) & 1;
      self.p += 1;
      Ok(v as u32)
    }
    fn bits(&mut self, n: u32) -> R<u32> {
      let mut v = 0;
      for k in 0..n {
        v |= self.bit()? << k;
      }
      Ok(v)
    }
  }
  struct H {
    cnt: [u16; 16],
    sym: Vec<u16>,
  }
  fn mk(l: &[u8]) -> H {
    let mut cnt = [0u16; 16];
    l.iter().for_each(|x| cnt[*x as usize] += 1);
    cnt[0] = 0;
    let mut offs = [0u16; 16];
    for i in 1..16 {
      offs[i] = offs[i - 1] + cnt[i - 1];
    }
    let mut sym = vec![0u16; l.len()];
    for (i, x) in l.iter().enumerate() {
      if *x > 0 {
        sym[offs[*x as usize] as usize] = i as u16;
        offs[*x as usize] += 1;
      }
    }
    H { cnt, sym }
  }
  fn dec(b: &mut B, h: &H) -> R<u16> {
    let (mut code, mut first, mut idx) = (0i32, 0i32, 0i32);
    for l in 1..16 {
      code |= b.bit()? as i32;
      let c = h.cnt[l] as i32;
      if code - c < first {
        return Ok(h.sym[(idx + code - first) as usize]);
      }
      idx += c;
      first = (first + c) << 1;
      code <<= 1;
    }
    Err("deflate code".into())
  }
  const LB: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
  const LE: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
  const DB: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
  const DE: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
  let mut b = B { d, p: 0 };
  let mut o: Vec<u8> = vec![];
  loop {
    let last = b.bit()?;
    match b.bits(2)? {
      0 => {
        b.p = b.p.div_ceil(8) * 8;
        let q = b.p / 8;
        let n = u16::from_le_bytes([*d.get(q).ok_or("deflate")?, *d.get(q + 1).ok_or("deflate")?]) as usize;
        o.extend_from_slice(d.get(q + 4..q + 4 + n).ok_or("deflate stored block")?);
        b.p += 8 * (4 + n);
      }
      t @ (1 | 2) => {
        let (lh, dh) = if t == 1 {
          let mut l = [8u8; 288];
          l[144..256].fill(9);
          l[256..280].fill(7);
          (mk(&l), mk(&[5u8; 30]))
        } else {
          let (nl, nd, nc) = (b.bits(5)? as usize + 257, b.bits(5)? as usize + 1, b.bits(4)? as usize + 4);
          let mut cl = [0u8; 19];
          for k in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15].iter().take(nc) {
            cl[*k] = b.bits(3)? as u8;
          }
          let ch = mk(&cl);
          let mut l: Vec<u8> = vec![];
          while l.len() < nl + nd {
            match dec(&mut b, &ch)? {
              s @ 0..=15 => l.push(s as u8),
              16 => {
                let p = *l.last().ok_or("deflate repeat")?;
                let n = 3 + b.bits(2)?;
                l.extend((0..n).map(|_| p));
              }
              17 => {
                let n = 3 + b.bits(3)?;
                l.extend((0..n).map(|_| 0));
              }
              _ => {
                let n = 11 + b.bits(7)?;
                l.extend((0..n).map(|_| 0));
              }
            }
          }
          (mk(&l[..nl]), mk(&l[nl..nl + nd]))
        };
        loop {
          let s = dec(&mut b, &lh)?;
          if s < 256 {
            o.push(s as u8);
          } else if s == 256 {
            break;
          } else {
            let k = s as usize - 257;
            if k >= 29 {
              return Err("deflate length".into());
            }
            let len = LB[k] as usize + b.bits(LE[k] as u32)? as usize;
            let k = dec(&mut b, &dh)? as usize;
            if k >= 30 {
              return Err("deflate distance".into());
            }
            let dist = DB[k] as usize + b.bits(DE[k] as u32)? as usize;
            if dist > o.len() {
              return Err("deflate distance".into());
            }
            for _ in 0..len {
              o.push(o[o.len() - dist]);
            }
          }
        }
      }
      _ => return Err("deflate block type".into()),
    }
    if last == 1 {
      return Ok((o, b.p.div_ceil(8)));
    }
  }
}

// -------------------------------------------------------------------- md5
pub fn md5(d: &[u8]) -> [u8; 16] {
  let s: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
  let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
  let (mut a0, mut b0, mut c0, mut d0) = (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
  let mut m = d.to_vec();
  m.push(0x80);
  while m.len() % 64 != 56 {
    m.push(0);
  }
  m.extend_from_slice(&((d.len() as u64) * 8).to_le_bytes());
  for ch in m.chunks_exact(64) {
    let x: Vec<u32> = ch.chunks_exact(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect();
    let (mut a, mut b, mut c, mut e) = (a0, b0, c0, d0);
    for i in 0..64 {
      let (f, g) = match i / 16 {
        0 => ((b & c) | (!b & e), i),
        1 => ((e & b) | (!e & c), (5 * i + 1) % 16),
        2 => (b ^ c ^ e, (3 * i + 5) % 16),
        _ => (c ^ (b | !e), (7 * i) % 16),
      };
      let f = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(x[g]);
      a = e;
      e = c;
      c = b;
      b = b.wrapping_add(f.rotate_left(s[i / 16 * 4 + i % 4]));
    }
    a0 = a0.wrapping_add(a);
    b0 = b0.wrapping_add(b);
    c0 = c0.wrapping_add(c);
    d0 = d0.wrapping_add(e);
  }
  let mut o = [0u8; 16];
  for (i, v) in [a0, b0, c0, d0].iter().enumerate() {
    o[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
  }
  o
}
pub fn hex(b: &[u8]) -> String {
  b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[cfg(test)]
mod tests {
  #[test]
  fn md5_ok() {
    assert_eq!(super::hex(&super::md5(b"abc")), "900150983cd24fb0d6963f7d28e17f72");
  }
}

/// A raw file as bit rot, torn or lost writes and foreign software leave it behind. Whether it can still be converted is
/// open; whether the program survives it is not.
pub fn damaged(r: &mut Rng) -> Vec<u8> {
  if r.chance(350) {
    // camera files begin with their directories
    let mut b = crate::cams::Cam::gen(r, 48).build();
    let k = r.below(5);
    if k < 3 || r.chance(300) {
      return damage(r, b, k);
    }
    for _ in 0..r.range(1, 4) {
      let k = if r.chance(300) { r.below(64) } else { r.below(3000) } as usize % b.len();
      match r.below(4) {
        0 => b[k] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
        1 => {
          let e = (k + 4).min(b.len());
          b[k..e].fill(*r.pick(&[0u8, 0xff]));
        }
        _ => b[k] ^= 1 << r.below(8),
      }
    }
    return b;
  }
  let b = Img::gen(r, 96).build();
  let k = r.below(12);
  damage(r, b, k)
}
/// Kinds 0 to 5 keep the file's nature.
pub fn damage(r: &mut Rng, mut b: Vec<u8>, kind: u64) -> Vec<u8> {
  match kind {
    // torn: the end is missing
    0 => {
      let n = r.below(b.len() as u64) as usize;
      b.truncate(n);
    }
    // lost: a block was never written
    1 => {
      let k = *r.pick(&[64usize, 512, 4096]);
      let at = r.below((b.len() / k).max(1) as u64) as usize * k;
      let end = (at + k).min(b.len());
      b[at.min(end)..end].fill(*r.pick(&[0u8, 0xff]));
    }
    // misdirected: a block holds what belongs elsewhere
    2 => {
      let k = *r.pick(&[64usize, 512]);
      let n = (b.len() / k).max(1) as u64;
      let (x, y) = (r.below(n) as usize * k, r.below(n) as usize * k);
      let k = k.min(b.len() - x.max(y));
      let t = b[x..x + k].to_vec();
      b[y..y + k].copy_from_slice(&t);
    }
    // flipped bits, near the directories more often than not
    3 | 4 => {
      for _ in 0..r.range(1, 4) {
        let n = b.len() as u64;
        let k = if r.chance(700) { n - 1 - r.below(n.min(700)) } else { r.below(n) };
        b[k as usize] ^= 1 << r.below(8);
      }
    }
    // a directory is its own successor
    5 => {
      let big = b[0] == b'M';
      let g = |b: &[u8], o: usize| if big { u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) } else { u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) };
      let at = g(&b, 4) as usize;
      let n = if big { u16::from_be_bytes([b[at], b[at + 1]]) } else { u16::from_le_bytes([b[at], b[at + 1]]) } as usize;
      let k = at + 2 + 12 * n;
      let v = if big { (at as u32).to_be_bytes() } else { (at as u32).to_le_bytes() };
      b[k..k + 4].copy_from_slice(&v);
      if r.chance(400) {
        // not a DNG
        for e in 0..n {
          let o = at + 2 + 12 * e;
          let t = if big { u16::from_be_bytes([b[o], b[o + 1]]) } else { u16::from_le_bytes([b[o], b[o + 1]]) };
          if t == 50706 {
            b[o] ^= 1;
          }
        }
      }
    }
    // a JPEG with Exif data, whole or not
    6 => {
      let mut t = if r.chance(500) { good_exif(r) } else { (0..r.range(4, 60)).map(|_| r.next() as u8).collect() };
      if r.chance(500) {
        let n = r.below(t.len() as u64) as usize;
        t.truncate(n);
      }
      let mut j = vec![0xff, 0xd8, 0xff, 0xe1];
      let l = (t.len() + 8) as u16 + if r.chance(300) { r.below(400) as u16 } else { 0 };
      j.extend(l.to_be_bytes());
      j.extend(b"Exif\0\0");
      j.extend(t);
      if r.chance(600) {
        j.extend([0xff, 0xd9]);
      }
      b = j;
    }
    // the boxes of another camera's format, some of them lost
    10 => b = boxes(r),
    // the directories of yet another one
    11 => {
      let mut j = b"II\x1a\0\0\0HEAPCCDR".to_vec();
      let n = r.range(1, 6);
      let first = j.len() as u32;
      for _ in 0..n {
        let p: u16 = *r.pick(&[0x2800, 0x3000, 0x300a, 0x2807, 0x4000, 0x1035, 0x2005, 0x580e]);
        j.extend(p.to_le_bytes());
        j.extend((r.below(80) as u32).to_le_bytes());
        j.extend((r.below(80) as u32).to_le_bytes());
      }
      let _ = first;
      j.extend((n as u16).to_le_bytes());
      let at = r.below(j.len() as u64) as u32;
      j.extend(at.to_le_bytes());
      j[2..6].copy_from_slice(&(r.below(30) as u32).to_le_bytes());
      b = j;
    }
    // the first bytes of another format, then noise
    _ => {
      let magic: &[u8] = *r.pick(&[
        &b"\0MRM"[..],
        b"FUJIFILMCCD-RAW 0201FF383501X-Pro1",
        b"ARRI\x12\x34\x56\x78",
        b"qktk",
        b"qktn",
        b"II\x1a\0\0\0HEAPCCDR",
        b"FOVb\0\0\x03\0",
        b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom",
        b"IIRO\x08\0\0\0",
        b"IIU\0\x08\0\0\0",
        b"II*\0\x08\0\0\0",
        b"MM\0*\0\0\0\x08",
      ]);
      let mut j = magic.to_vec();
      let small = r.chance(500);
      for _ in 0..r.range(0, 3000) {
        let x = r.next();
        j.push(if small && x >> 32 & 3 != 0 { (x & 3) as u8 } else { x as u8 });
      }
      b = j;
    }
  }
  b
}
/// A tree of ISO boxes as in CR3 files.
fn boxes(r: &mut Rng) -> Vec<u8> {
  fn one(r: &mut Rng, typ: &[u8; 4], body: Vec<u8>) -> Vec<u8> {
    let n = body.len() as u64 + 8;
    let mut o;
    match r.below(20) {
      0 => {
        // size in 64 bits
        o = vec![0, 0, 0, 1];
        o.extend(typ);
        o.extend(if r.chance(500) { n + 8 } else { u64::MAX - r.below(2000) }.to_be_bytes());
      }
      1 => {
        o = (r.below(9) as u32).to_be_bytes().to_vec();
        o.extend(typ);
      }
      _ => {
        o = (n as u32).to_be_bytes().to_vec();
        o.extend(typ);
      }
    }
    o.extend(body);
    o
  }
  fn tree(r: &mut Rng, depth: u32) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..r.range(0, 4) {
      let typ: &[u8; 4] = *r.pick(&[b"mvhd", b"trak", b"tkhd", b"mdia", b"minf", b"stbl", b"stsd", b"CRAW", b"free", b"uuid", b"hdlr", b"co64", b"stsz", b"CDI1", b"abcd"]);
      let body = if depth > 0 && r.chance(600) { tree(r, depth - 1) } else { (0..r.below(120)).map(|_| if r.chance(700) { 0 } else { r.next() as u8 }).collect() };
      o.extend(one(r, typ, body));
    }
    o
  }
  let mut o = b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom".to_vec();
  let mut m = tree(r, 4);
  if r.chance(500) {
    // a lost block
    let n = m.len().min(*r.pick(&[16usize, 64, 512]));
    let at = r.below((m.len() - n) as u64 + 1) as usize;
    m[at..at + n].fill(0);
  }
  let m = one(r, b"moov", m);
  o.extend(m);
  for _ in 0..r.below(3) {
    let t = tree(r, 1);
    o.extend(t);
  }
  let d = one(r, b"mdat", vec![7; 40]);
  o.extend(d);
  o
}
/// TIFF block of an Exif segment.
pub fn good_exif(r: &mut Rng) -> Vec<u8> {
  let mut w = W::new(r.chance(500));
  let e = w.ifd(&[(33434, V::R(vec![(1, 60)])), (34855, V::S(vec![400])), (36867, V::A("2021:02:03 04:05:06".into()))]);
  let at = w.ifd(&[(271, V::A("SimCam".into())), (34665, V::L(vec![e]))]);
  w.finish(at)
}
