//! Synthetic files of real camera models, and DNGs that say the same.
//!
//! Every file carries its own recipe (`SIMCAM{…}`), so that an oracle which only has the bytes can
//! rebuild it and ask for the DNG a faithful conversion has to be equivalent to.
use crate::dng::*;
use serde::{Deserialize, Serialize};
use simspec::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
  Mef,
  Alexa,
  AlexaMini,
  Mrw,
  PefIstD,
  PefK10d,
  Erf,
  Cr2D20,
  Cr2D5,
  Nef,
  Arw,
  ArwTile,
  OrfE1,
  OrfEm1,
}
const KINDS: [Kind; 16] = [Kind::Nef, Kind::Nef, Kind::Arw, Kind::ArwTile, Kind::OrfE1, Kind::OrfEm1, Kind::OrfEm1, Kind::Mef, Kind::Alexa, Kind::AlexaMini, Kind::Mrw, Kind::PefIstD, Kind::PefK10d, Kind::Erf, Kind::Cr2D20, Kind::Cr2D5];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cam {
  pub kind: Kind,
  pub w: u32,
  pub h: u32,
  pub seed: u64,
  pub style: u32,
  pub big: bool,
  /// How the samples are stored, where the kind leaves a choice.
  pub pack: u8,
  pub wb: [u16; 4],
  pub black: Option<[u16; 4]>,
  pub orient: u16,
  /// Bytes before the image data.
  pub gap: u32,
}
/// What dnglab knows about the model.
struct Model {
  make: &'static str,
  model: &'static str,
  clean: (&'static str, &'static str),
  cfa: [u8; 4],
  white: u32,
  /// Left, top, right, bottom.
  active: [u32; 4],
  crop: Option<[u32; 4]>,
  matrices: &'static [(u16, [i32; 9])],
}
const RGGB: [u8; 4] = [0, 1, 1, 2];
const SRGB: &[(u16, [i32; 9])] = &[(21, [32405, -15371, -4985, -9693, 18760, 416, 556, -2040, 10572])];
fn model(k: Kind) -> Model {
  match k {
    Kind::Mef => Model {
      make: "Mamiya-OP Co.,Ltd.",
      model: "MAMIYA ZD",
      clean: ("Mamiya", "ZD"),
      cfa: RGGB,
      white: 4000,
      active: [0; 4],
      crop: None,
      matrices: &[(17, [6943, 3052, -1765, -7012, 14669, 2535, -2173, 4452, 6540]), (21, [7645, 2579, -1363, -8689, 16717, 2014, -3712, 5941, 5961])],
    },
    Kind::Alexa => Model { make: "ARRI", model: "ALEXA", clean: ("ARRI", "ALEXA"), cfa: RGGB, white: 4095, active: [0; 4], crop: None, matrices: SRGB },
    Kind::AlexaMini => Model { make: "ARRI", model: "A-MINI", clean: ("ARRI", "ALEXA Mini"), cfa: [2, 1, 1, 0], white: 4095, active: [0; 4], crop: None, matrices: SRGB },
    Kind::Mrw => Model {
      make: "Minolta Co., Ltd.",
      model: "DiMAGE A1",
      clean: ("Minolta", "DiMAGE A1"),
      cfa: RGGB,
      white: 3965,
      active: [0; 4],
      crop: None,
      matrices: &[(17, [9978, -3187, -814, -7374, 15320, 2169, -1369, 1950, 8705]), (21, [9274, -2548, -1167, -8220, 16324, 1943, -2273, 2721, 8340])],
    },
    Kind::PefIstD => Model {
      make: "PENTAX Corporation",
      model: "PENTAX *ist D",
      clean: ("Pentax", "*ist D"),
      cfa: RGGB,
      white: 4095,
      active: [0; 4],
      crop: Some([19, 11, 13, 5]),
      matrices: &[(21, [9651, -2059, -1189, -8881, 16512, 2487, -1460, 1345, 10687])],
    },
    Kind::PefK10d => Model {
      make: "PENTAX Corporation",
      model: "PENTAX K10D",
      clean: ("Pentax", "K10D"),
      cfa: RGGB,
      white: 4095,
      active: [0, 0, 48, 16],
      crop: Some([8, 8, 56, 24]),
      matrices: &[(21, [9566, -2863, -803, -7170, 15172, 2112, -818, 803, 9705])],
    },
    Kind::Erf => Model {
      make: "SEIKO EPSON CORP.",
      model: "R-D1",
      clean: ("Epson", "R-D1"),
      cfa: RGGB,
      white: 4095,
      active: [0; 4],
      crop: None,
      matrices: &[(21, [6827, -1878, -732, -8429, 16012, 2564, -704, 592, 7145])],
    },
    Kind::Cr2D20 => Model {
      make: "Canon",
      model: "Canon EOS 20D",
      clean: ("Canon", "EOS 20D"),
      cfa: RGGB,
      white: 4095,
      active: [74, 12, 0, 0],
      crop: None,
      matrices: &[(17, [7565, -1680, -264, -6544, 13839, 2995, -965, 1349, 7631]), (21, [6599, -537, -891, -8071, 15783, 2424, -1984, 2234, 7462])],
    },
    Kind::Nef => Model {
      make: "NIKON CORPORATION",
      model: "NIKON D750",
      clean: ("Nikon", "D750"),
      cfa: RGGB,
      white: 3880,
      active: [0; 4],
      crop: Some([8; 4]),
      matrices: &[(17, [10019, -4200, -32, -4773, 12481, 2572, -643, 1409, 8486]), (21, [9020, -2890, -715, -4535, 12436, 2348, -934, 1919, 7086])],
    },
    Kind::Arw => Model {
      make: "SONY",
      model: "DSLR-A700",
      clean: ("Sony", "DSLR-A700"),
      cfa: RGGB,
      white: 0,
      active: [0; 4],
      crop: Some([4, 4, 12, 4]),
      matrices: &[(17, [6150, -1189, -137, -7291, 14699, 2826, -1103, 1608, 7414]), (21, [5775, -805, -359, -8573, 16294, 2391, -1943, 2342, 7249])],
    },
    Kind::ArwTile => Model {
      make: "SONY",
      model: "ILCE-1",
      clean: ("Sony", "ILCE-1"),
      cfa: RGGB,
      white: 0,
      active: [0; 4],
      crop: None,
      matrices: &[(17, [8933, -4409, 200, -4637, 12364, 2554, -304, 803, 7616]), (21, [8161, -2947, -739, -4811, 12668, 2389, -437, 1229, 6524])],
    },
    Kind::OrfE1 => Model {
      make: "OLYMPUS CORPORATION",
      model: "E-1",
      clean: ("Olympus", "E-1"),
      cfa: [1, 0, 2, 1],
      white: 4095,
      active: [0; 4],
      crop: Some([32, 23, 32, 23]),
      matrices: &[(17, [16228, -9341, 1289, -6250, 14870, 1403, -1358, 2842, 9053]), (21, [11847, -4767, -945, -7027, 15878, 1089, -2699, 4123, 8312])],
    },
    Kind::OrfEm1 => Model {
      make: "OLYMPUS IMAGING CORP.",
      model: "E-M1",
      clean: ("Olympus", "E-M1"),
      cfa: [2, 1, 1, 0],
      white: 4000,
      active: [0; 4],
      crop: None,
      matrices: &[(17, [11528, -5742, 118, -2453, 10205, 2619, -751, 1890, 6539]), (21, [7687, -1984, -606, -4327, 11928, 2721, -1381, 2339, 6452])],
    },
    Kind::Cr2D5 => Model {
      make: "Canon",
      model: "Canon EOS 5D",
      clean: ("Canon", "EOS 5D"),
      cfa: RGGB,
      white: 3692,
      active: [90, 34, 0, 0],
      crop: None,
      matrices: &[(17, [7284, -1569, -425, -6726, 14016, 2993, -926, 1258, 7774]), (21, [6347, -479, -972, -8297, 15954, 2480, -1967, 2132, 7649])],
    },
  }
}

impl Cam {
  pub fn gen(r: &mut Rng, max: u32) -> Cam {
    let kind = *r.pick(&KINDS);
    let mut w = r.range(16, max.max(40) as u64) as u32 & !1;
    let mut h = r.range(16, max.max(40) as u64) as u32 & !1;
    match kind {
      Kind::Alexa => w = (w + 7) & !7,
      Kind::Erf => w = (w + 9) / 10 * 10,
      Kind::PefIstD | Kind::PefK10d => {
        w += 80;
        h += 48;
      }
      Kind::Cr2D20 | Kind::Cr2D5 => {
        w = (w + 112 + 15) & !15;
        h += 48;
      }
      Kind::Nef => {
        w = (w + 64 + 3) & !3;
        h += 24;
      }
      Kind::Arw => {
        w += 24;
        h += 16;
      }
      Kind::ArwTile => (w, h) = (512, 512),
      Kind::OrfE1 | Kind::OrfEm1 => {
        w = (w + 80 + 39) / 40 * 40;
        h += 52;
      }
      _ => {}
    }
    let mut c = Cam {
      kind,
      w,
      h,
      seed: r.next(),
      style: r.below(5) as u32,
      big: r.chance(500),
      pack: r.below(16) as u8,
      wb: [r.range(900, 2600) as u16, 1024, 1024, r.range(900, 2600) as u16],
      black: if r.chance(600) { Some([r.below(300) as u16, r.below(300) as u16, r.below(300) as u16, r.below(300) as u16]) } else { None },
      orient: r.range(1, 8) as u16,
      gap: r.below(50) as u32,
    };
    if kind == Kind::OrfEm1 {
      // a camera of this kind compresses, always
      c.style = *r.pick(&[1, 2, 4]);
      if c.data().len() as u32 >= c.w * c.h * 3 / 2 {
        c.style = 2;
      }
    }
    c
  }
  fn bits(&self) -> u32 {
    match self.kind {
      Kind::PefIstD | Kind::PefK10d if self.pack % 4 == 1 => 16,
      Kind::Nef if self.pack % 6 >= 3 => 14,
      Kind::Arw if self.pack % 2 == 0 => 14,
      Kind::ArwTile => 14,
      Kind::OrfEm1 if self.pack % 2 == 1 => 14,
      _ => 12,
    }
  }
  fn pixels(&self) -> Vec<u16> {
    let mut i = Img::gen(&mut Rng::new(1), 64);
    (i.w, i.h, i.photo, i.seed, i.style, i.bits) = (self.w, self.h, Photo::Cfa(RGGB), self.seed, self.style, self.bits());
    i.pixels()
  }
  fn exif(&self) -> (Vec<(u16, V)>, Vec<(u16, V)>) {
    let (mut e, mut g) = crate::rich::exif_gps(&mut Rng::new(self.seed ^ 0xe41f));
    match self.kind {
      Kind::Alexa | Kind::AlexaMini => {
        let mut r = Rng::new(self.seed ^ 0xa41);
        e = vec![
          (34866, V::L(vec![r.range(100, 3200) as u32])),
          (34864, V::S(vec![2])),
          (33434, V::R(vec![(r.range(1, 90000) as u32, 1_000_000)])),
          (37386, V::R(vec![(r.range(8000, 200_000) as u32, 1000)])),
        ];
        g.clear();
      }
      _ => {
        // written by dnglab itself from what it knows about lenses
        e.retain(|x| !(42032..=42036).contains(&x.0));
      }
    }
    (e, g)
  }
  fn recipe(&self) -> Vec<u8> {
    format!("SIMCAM{}\0", serde_json::to_string(self).unwrap()).into_bytes()
  }
  pub fn build(&self) -> Vec<u8> {
    // the image data comes last: its place is known once everything else is written
    let n = self.head(0).len() as u32 + self.gap;
    let mut b = self.head(n);
    b.resize(n as usize, 0x55);
    b.extend(self.data());
    b
  }
  /// The samples as the camera stores them.
  fn data(&self) -> Vec<u8> {
    let px = self.pixels();
    let be = |p: &[u16]| p.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>();
    let le = |p: &[u16]| p.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let p12 = |p: &[u16]| p.chunks(2).flat_map(|c| [(c[0] >> 4) as u8, (c[0] << 4) as u8 | (c[1] >> 8) as u8, c[1] as u8]).collect::<Vec<u8>>();
    match self.kind {
      Kind::Mef => p12(&px),
      Kind::Mrw => {
        if self.pack % 2 == 0 {
          p12(&px)
        } else {
          be(&px)
        }
      }
      Kind::Alexa => {
        let mut b = p12(&px);
        b.chunks_exact_mut(4).for_each(|c| c.reverse());
        b
      }
      Kind::AlexaMini => px.chunks(2).flat_map(|c| [c[0] as u8, (c[0] >> 8) as u8 | (c[1] << 4) as u8, (c[1] >> 4) as u8]).collect(),
      Kind::Erf => px.chunks(10).enumerate().flat_map(|(i, c)| { let mut g = p12(c); g.push(i as u8 ^ 0x5a); g }).collect(),
      Kind::PefIstD | Kind::PefK10d => match self.pack % 4 {
        1 => be(&px),
        2 => p12(&px),
        _ => self.pentax(&px),
      },
      Kind::Nef => self.nikon().0,
      Kind::Arw if self.pack % 2 == 0 => le(&px),
      Kind::Arw => px.chunks(2).flat_map(|c| [c[0] as u8, (c[0] >> 8) as u8 | (c[1] << 4) as u8, (c[1] >> 4) as u8]).collect(),
      Kind::ArwTile => {
        // two lines side by side
        let w = self.w as usize;
        let s: Vec<u16> = px.chunks(2 * w).flat_map(|l| (0..w / 2).flat_map(move |i| [l[2 * i], l[2 * i + 1], l[w + 2 * i], l[w + 2 * i + 1]])).collect();
        ljpeg_encode(&s, w / 2, self.h as usize / 2, 4, 14, 1, self.pack & 2 != 0)
      }
      Kind::OrfE1 | Kind::OrfEm1 => self.olympus(),
      Kind::Cr2D20 | Kind::Cr2D5 => {
        // vertical slices one after the other
        let (w, h) = (self.w as usize, self.h as usize);
        let mut s = Vec::with_capacity(w * h);
        let mut x = 0;
        for sw in self.slices() {
          for y in 0..h {
            s.extend(&px[y * w + x..y * w + x + sw as usize]);
          }
          x += sw as usize;
        }
        let nc = if self.pack & 1 == 0 { 2 } else { 4 };
        ljpeg_encode(&s, w / nc, h, nc, 12, 1, self.pack & 2 != 0)
      }
    }
  }
  fn slices(&self) -> Vec<u32> {
    let n = self.pack as u32 >> 2;
    let each = self.w / (n + 1) & !1;
    let mut v = vec![each; n as usize];
    v.push(self.w - each * n);
    v
  }
  /// The data, and whether it is Huffman coded. A code that saves nothing could be taken for plain samples.
  fn nikon(&self) -> (Vec<u8>, bool) {
    let px = self.pixels();
    let (w, h, bits) = (self.w as usize, self.h as usize, self.bits());
    if self.pack % 3 == 2 {
      let syms: &[(u32, u8)] = if bits == 12 {
        &[(2, 5), (3, 4), (3, 6), (3, 3), (3, 7), (4, 2), (4, 8), (5, 1), (5, 9), (5, 0), (6, 10), (7, 11), (7, 12)]
      } else {
        &[(2, 7), (3, 6), (3, 8), (3, 5), (3, 9), (4, 4), (4, 10), (5, 3), (5, 11), (6, 12), (6, 2), (6, 0), (7, 1), (8, 13), (8, 14)]
      };
      let codes = codes(syms);
      let mut b = Bits::default();
      for i in 0..px.len() {
        let (x, y) = (i % w, i / w);
        let pred = if x >= 2 { px[i - 2] as i32 } else if y >= 2 { px[i - 2 * w] as i32 } else { self.vpred()[y * 2 + x] as i32 };
        b.diff(px[i] as i32 - pred, &codes);
      }
      let mut out = b.done();
      out.extend([0; 4]);
      if out.len() < w * h * bits as usize / 8 {
        return (out, true);
      }
    }
    let pad = self.padding() as usize;
    let mut out = vec![];
    for l in px.chunks(w) {
      match (bits, self.big) {
        (12, true) => l.chunks(2).for_each(|c| out.extend([(c[0] >> 4) as u8, (c[0] << 4) as u8 | (c[1] >> 8) as u8, c[1] as u8])),
        (12, false) => l.chunks(2).for_each(|c| out.extend([c[0] as u8, (c[0] >> 8) as u8 | (c[1] << 4) as u8, (c[1] >> 4) as u8])),
        (_, true) => l.iter().for_each(|x| out.extend(x.to_be_bytes())),
        (_, false) if self.packed14() => {
          let mut acc = 0u64;
          for c in l.chunks(4) {
            acc = c.iter().rev().fold(0, |a, x| a << 14 | *x as u64);
            out.extend(&acc.to_le_bytes()[..7]);
          }
          let _ = acc;
        }
        (_, false) => l.iter().for_each(|x| out.extend(x.to_le_bytes())),
      }
      out.extend(vec![0xa5; pad]);
    }
    (out, false)
  }
  /// Bytes after each line.
  fn padding(&self) -> u32 {
    if self.pack % 3 == 1 && !self.big && (self.bits() == 12 || self.packed14()) {
      (self.seed >> 8) as u32 % 16
    } else {
      0
    }
  }
  fn packed14(&self) -> bool {
    self.pack % 3 == 1 && !self.big && self.bits() == 14
  }
  fn vpred(&self) -> [u16; 4] {
    let m = (1 << self.bits()) - 1;
    [0, 16, 32, 48].map(|s| (self.seed >> s) as u16 & m)
  }
  fn olympus(&self) -> Vec<u8> {
    let px = self.pixels();
    let (w, h) = (self.w as usize, self.h as usize);
    let p12 = |p: &[u16]| p.chunks(2).flat_map(|c| [(c[0] >> 4) as u8, (c[0] << 4) as u8 | (c[1] >> 8) as u8, c[1] as u8]).collect::<Vec<u8>>();
    if self.kind == Kind::OrfEm1 || self.pack % 4 == 3 {
      let mut b = Bits::default();
      for row in 0..h {
        let mut carry = [[0i32; 3]; 2];
        for col in 0..w {
          let at = |y: usize, x: usize| px[y * w + x] as i32;
          let c = &mut carry[col % 2];
          let pred = match (row < 2, col < 2) {
            (true, true) => 0,
            (true, false) => at(row, col - 2),
            (false, true) => at(row - 2, col),
            _ => {
              let (l, u, n) = (at(row, col - 2), at(row - 2, col), at(row - 2, col - 2));
              if (l - n) * (u - n) < 0 {
                if (l - n).abs() > 32 || (u - n).abs() > 32 {
                  l + u - n
                } else {
                  (l + u) >> 1
                }
              } else if (l - n).abs() > (u - n).abs() {
                l
              } else {
                u
              }
            }
          };
          let d = at(row, col) - pred;
          let (low, diff) = (d & 3, d >> 2);
          let i = if c[2] < 3 { 2 } else { 0 };
          let mut n = 2 + i;
          while (c[0] >> (n + i)) & 0xffff > 0 {
            n += 1;
          }
          let n = n.min(16);
          let x = diff - c[1];
          let a = if x < 0 { !x } else { x };
          b.put((x < 0) as u32, 1);
          b.put(low as u32, 2);
          let high = (a >> n) as u32;
          if high < 12 {
            b.put(1, high + 1);
          } else {
            b.put(0, 12);
            b.put(high << 1, 16 - n as u32);
          }
          b.put(a as u32 & ((1 << n) - 1), n as u32);
          c[0] = a;
          c[1] = (diff * 3 + c[1]) >> 5;
          c[2] = if a > 16 { 0 } else { c[2] + 1 };
        }
      }
      let mut out = vec![0x5a; if self.bits() == 14 { 8 } else { 7 }];
      out.extend(b.done());
      if out.len() < w * h * 3 / 2 {
        return out;
      }
      // noise would not fit: a camera would not write this
      if self.kind == Kind::OrfEm1 {
        return out;
      }
    }
    match self.pack % 4 {
      0 if self.big => px.iter().flat_map(|x| (x << 4).to_be_bytes()).collect(),
      0 => px.iter().flat_map(|x| (x << 4).to_le_bytes()).collect(),
      1 => px
        .chunks(10)
        .flat_map(|g| {
          let mut o: Vec<u8> = g.chunks(2).flat_map(|c| [c[0] as u8, (c[0] >> 8) as u8 | (c[1] << 4) as u8, (c[1] >> 4) as u8]).collect();
          o.push(0xc3);
          o
        })
        .collect(),
      _ => {
        let mut b = p12(&px);
        b.chunks_exact_mut(4).for_each(|c| c.reverse());
        b
      }
    }
  }
  /// Lengths and symbols of the Pentax Huffman code.
  fn tree(&self) -> Vec<(u32, u8)> {
    let mut sym = vec![3u8, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12];
    if self.pack >= 8 {
      let mut r = Rng::new(self.seed ^ 0x7ee);
      for i in (1..sym.len()).rev() {
        sym.swap(i, r.below(i as u64 + 1) as usize);
      }
    }
    [2u32, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10].iter().copied().zip(sym).collect()
  }
  fn codes(&self) -> Vec<(u32, u32)> {
    codes(&self.tree())
  }
  fn pentax(&self, px: &[u16]) -> Vec<u8> {
    let codes = self.codes();
    let mut b = Bits::default();
    let w = self.w as usize;
    for i in 0..px.len() {
      let (x, y) = (i % w, i / w);
      let pred = if x >= 2 { px[i - 2] } else if y >= 2 { px[i - 2 * w] } else { 0 };
      b.diff(px[i] as i32 - pred as i32, &codes);
    }
    b.done()
  }
  /// Everything before the image data.
  fn head(&self, at: u32) -> Vec<u8> {
    let m = model(self.kind);
    let (exif, gps) = self.exif();
    let mut root = vec![(271, V::A(m.make.into())), (272, V::A(m.model.into())), (274, V::S(vec![self.orient])), (65000, V::U(self.recipe()))];
    match self.kind {
      Kind::Alexa | Kind::AlexaMini => {
        let mut b = vec![0u8; 4096];
        b[..4].copy_from_slice(b"ARRI");
        let mut p = |o: usize, v: u32| b[o..o + 4].copy_from_slice(&v.to_le_bytes());
        p(4, 0x12345678);
        p(8, at);
        p(0x14, self.w);
        p(0x18, self.h);
        let num = |t: u16| match &exif.iter().find(|x| x.0 == t).unwrap().1 {
          V::L(l) => l[0],
          V::R(l) => l[0].0,
          _ => 0,
        };
        p(0x74, num(34866));
        p(0x18c, num(33434));
        p(0x37c, num(37386));
        p(100, (self.wb[0] as f32 / 1024.0).to_bits());
        p(104, 1f32.to_bits());
        p(108, (self.wb[3] as f32 / 1024.0).to_bits());
        b[668..668 + m.model.len()].copy_from_slice(m.model.as_bytes());
        let r = self.recipe();
        b[3000..3000 + r.len()].copy_from_slice(&r);
        b
      }
      Kind::Mrw => {
        // the first directory stands right behind the header
        let mut w = W::new(true);
        let n = root.len() + 2;
        w.buf.resize(8 + 2 + 12 * n + 4, 0);
        let e = w.ifd(&exif);
        root.push((34665, V::L(vec![e])));
        let g = w.ifd(&gps);
        root.push((34853, V::L(vec![g])));
        ifd_at(&mut w, 8, &root);
        let tiff = w.finish(8);
        let mut b = b"\0MRM".to_vec();
        b.extend((at.max(8) - 8).to_be_bytes());
        let block = |b: &mut Vec<u8>, tag: &[u8; 4], d: &[u8]| {
          b.extend(tag);
          b.extend((d.len() as u32).to_be_bytes());
          b.extend(d);
        };
        let mut prd = b"27730001".to_vec();
        for v in [self.h, self.w, self.h, self.w] {
          prd.extend((v as u16).to_be_bytes());
        }
        let packed = self.pack % 2 == 0;
        prd.extend([if packed { 12 } else { 16 }, 12, if packed { 0x59 } else { 0x52 }, 0, 0, 0, 0, 1]);
        block(&mut b, b"\0PRD", &prd);
        let mut wbg = vec![2, 2, 2, 2];
        for v in self.wb {
          wbg.extend(v.to_be_bytes());
        }
        let t = (*b"\0TTW", tiff);
        let g = (*b"\0WBG", wbg);
        for (n, d) in if self.big { [&t, &g] } else { [&g, &t] } {
          block(&mut b, n, d);
        }
        block(&mut b, b"\0PAD", &[0; 64]);
        b
      }
      _ => {
        let mut w = W::new(self.big && !matches!(self.kind, Kind::Cr2D20 | Kind::Cr2D5 | Kind::Arw | Kind::ArwTile));
        let big = w.big;
        let mut exif = exif;
        // values of the maker's notes have absolute places
        let mut notes: Vec<(u16, V)> = match self.kind {
          Kind::PefIstD | Kind::PefK10d => {
            let mut v = vec![(0x201, V::S(self.wb.to_vec())), (0x14, V::S(vec![3]))];
            if let Some(b) = self.black {
              v.push((0x200, V::S(b.to_vec())));
            }
            if self.pack % 4 != 1 && self.pack % 4 != 2 && self.pack >= 8 {
              let mut t = W { big, buf: vec![] };
              t.u16(1);
              t.buf.extend([0; 12]);
              let c = &self.codes()[..13];
              c.iter().for_each(|x| t.u16((x.0 << (12 - x.1)) as u16));
              c.iter().for_each(|x| t.buf.push(x.1 as u8));
              v.push((0x220, V::U(t.buf)));
            }
            v
          }
          Kind::Erf => {
            let mut b = vec![0u8; 256];
            b[48..50].copy_from_slice(&(self.wb[0] / 8).to_be_bytes());
            b[50..52].copy_from_slice(&(self.wb[3] / 8).to_be_bytes());
            let mut v = vec![(0xe80, V::U(b))];
            if let Some(b) = self.black {
              v.push((0x401, V::S(b.to_vec())));
            }
            v
          }
          Kind::Cr2D20 | Kind::Cr2D5 => {
            let five = self.kind == Kind::Cr2D5;
            let mut c = vec![7u16; if five { 796 } else { 582 }];
            let o = if five { 0x3f } else { 0x19 };
            c[o..o + 4].copy_from_slice(&self.wb);
            if five {
              c[0] = 1;
              c[0xc4..0xc8].copy_from_slice(&self.black.unwrap_or_default());
            }
            let k = self.sensor();
            vec![
              (0x4001, V::S(c)),
              (0xe0, V::S(vec![34, self.w as u16, self.h as u16, 1, 1, k[0] as u16, k[1] as u16, k[2] as u16 - 1, k[3] as u16 - 1, 0, 0, 0, 0, 0, 0, 0, 0])),
            ]
          }
          Kind::Nef => {
            let bits = self.bits();
            let (_, huff) = self.nikon();
            let q = |v: u16| (v as u32, 1024);
            let mut v = vec![(1, V::U(b"0210".to_vec())), (0xc, V::R(vec![q(self.wb[0]), q(self.wb[3]), q(1024), q(1024)]))];
            v.push((0x93, V::S(vec![if huff { 3 } else if self.packed14() { 10 } else { 2 }])));
            if let Some(b) = self.black {
              // meant for 14 bits
              v.push((0x3d, V::S(b.iter().map(|x| if bits == 12 { x << 2 | 3 } else { *x }).collect())));
            }
            if self.pack >= 8 {
              let c = self.crop().unwrap();
              v.push((0x45, V::S(vec![c[0] as u16, c[1] as u16, (c[2] - c[0]) as u16, (c[3] - c[1]) as u16])));
            }
            if huff {
              let mut m = W { big, buf: vec![70, 48] };
              let p = self.vpred();
              [p[0], p[2], p[1], p[3], 0].iter().for_each(|x| m.u16(*x));
              v.push((0x96, V::U(m.buf)));
            }
            v.sort_by_key(|x| x.0);
            v
          }
          Kind::Arw | Kind::ArwTile => vec![(0x102, V::L(vec![0]))],
          Kind::OrfE1 => vec![(0x1017, V::S(vec![self.wb[0] / 4, 256])), (0x1018, V::S(vec![self.wb[3] / 4, 256]))],
          Kind::OrfEm1 => vec![(0x2040, V::At(7, 1, 0))],
          _ => vec![],
        };
        if matches!(self.kind, Kind::Arw | Kind::ArwTile) {
          w.align();
          let p = w.pos() as usize;
          let shift = if self.bits() == 12 { 2 } else { 0 };
          let b = self.black.unwrap_or_default();
          let set = vec![
            if self.pack & 2 == 0 { (0x7303, V::S(vec![self.wb[1], self.wb[0], self.wb[3], self.wb[2]])) } else { (0x7313, V::S(self.wb.to_vec())) },
            (if self.seed & 1 == 0 { 0x7300 } else { 0x7310 }, V::S(b.iter().map(|x| x << shift).collect())),
            (0x787f, V::S(if self.seed & 2 == 0 { vec![15360] } else { vec![15360; 3] })),
          ];
          let mut set = set;
          set.sort_by_key(|x| x.0);
          w.buf.resize(p + 2 + 12 * set.len() + 4, 0);
          ifd_at(&mut w, p, &set);
          while w.buf.len() % 4 != 0 {
            w.buf.push(0);
          }
          let key = (self.seed >> 16) as u32;
          let n = w.buf.len() - p;
          sony(&mut w.buf[p..], key);
          let private = w.ifd(&[(0x7200, V::L(vec![p as u32])), (0x7201, V::L(vec![n as u32])), (0x7221, V::U(key.to_le_bytes().to_vec()))]);
          root.push((0xc634, V::B(private.to_le_bytes().to_vec())));
        }
        if !notes.is_empty() {
          w.align();
          let p = w.pos();
          let intro: &[u8] = match self.kind {
            Kind::PefIstD | Kind::PefK10d => {
              if big {
                b"AOC\0MM"
              } else {
                b"AOC\0II"
              }
            }
            Kind::Erf => b"EPSON\0\x01\0",
            Kind::Nef => b"Nikon\0\x02\x10\0\0",
            Kind::Arw | Kind::ArwTile => b"SONY DSC \0\0\0",
            Kind::OrfE1 => b"OLYMP\0\x01\0",
            Kind::OrfEm1 => b"OLYMPUS\0II\x03\0",
            _ => b"",
          };
          w.buf.extend(intro);
          if self.kind == Kind::Nef {
            let mut n = W::new(big);
            n.buf.resize(8 + 2 + 12 * notes.len() + 4, 0);
            ifd_at(&mut n, 8, &notes);
            w.buf.extend(n.finish(8));
          } else {
            let o = p as usize + intro.len();
            w.buf.resize(o + 2 + 12 * notes.len() + 4, 0);
            if self.kind == Kind::OrfEm1 {
              // places are counted from the notes
              let rel = w.buf.len() - p as usize;
              let mut n = W { big, buf: vec![0; rel] };
              let c = self.crop().unwrap();
              let q = n.ifd(&[
                (0, V::U(b"0112".to_vec())),
                (0x100, V::S(vec![self.wb[0] / 4, self.wb[3] / 4])),
                (0x600, V::S(self.black.unwrap_or_default().to_vec())),
                (0x611, V::S(vec![self.bits() as u16])),
                (0x612, V::S(vec![c[0] as u16])),
                (0x613, V::S(vec![c[1] as u16])),
                (0x614, V::S(vec![(c[2] - c[0]) as u16])),
                (0x615, V::S(vec![(c[3] - c[1]) as u16])),
              ]);
              w.buf.extend(&n.buf[rel..]);
              notes[0].1 = V::At(7, 1, q);
            }
            ifd_at(&mut w, o, &notes);
          }
          exif.push((37500, V::At(7, w.pos() - p, p)));
        }
        let e = w.ifd(&exif);
        root.push((34665, V::L(vec![e])));
        if !gps.is_empty() {
          let g = w.ifd(&gps);
          root.push((34853, V::L(vec![g])));
        }
        let mut raw = vec![(256, V::L(vec![self.w])), (257, V::L(vec![self.h])), (273, V::L(vec![at])), (277, V::S(vec![1])), (258, V::S(vec![self.bits() as u16]))];
        let thumb = |w: &mut W, root: &mut Vec<(u16, V)>| {
          let th = w.data(&[128u8; 16 * 8 * 3]);
          root.extend(vec![
            (256, V::L(vec![16])),
            (257, V::L(vec![8])),
            (258, V::S(vec![8, 8, 8])),
            (259, V::S(vec![1])),
            (262, V::S(vec![2])),
            (273, V::L(vec![th])),
            (277, V::S(vec![3])),
            (278, V::L(vec![8])),
            (279, V::L(vec![16 * 8 * 3])),
          ]);
        };
        let mut next = 0;
        match self.kind {
          Kind::Mef | Kind::Erf => {
            raw.push((33421, V::S(vec![2, 2])));
            raw.push((33422, V::B(RGGB.to_vec())));
            raw.push((259, V::S(vec![1])));
            let s = w.ifd(&raw);
            root.push((330, V::L(vec![s])));
            thumb(&mut w, &mut root);
          }
          Kind::Nef => {
            let (d, huff) = self.nikon();
            raw.push((33421, V::S(vec![2, 2])));
            raw.push((33422, V::B(RGGB.to_vec())));
            let comp = if huff || (self.pack % 3 == 1 && !self.big) { 34713 } else { 1 };
            raw.push((259, V::S(vec![comp])));
            let n = d.len() as u32;
            if comp == 1 && self.pack >= 12 {
              // two pieces without a gap
              let f = n / self.h * (self.h / 2);
              raw.retain(|x| x.0 != 273);
              raw.push((273, V::L(vec![at, at + f])));
              raw.push((278, V::L(vec![self.h / 2])));
              raw.push((279, V::L(vec![f, n - f])));
            } else {
              raw.push((278, V::L(vec![self.h])));
              raw.push((279, V::L(vec![n])));
            }
            let s = w.ifd(&raw);
            root.push((330, V::L(vec![s])));
            thumb(&mut w, &mut root);
          }
          Kind::Arw | Kind::ArwTile => {
            let n = if self.kind == Kind::Arw { self.w * self.h * if self.bits() == 12 { 12 } else { 16 } / 8 } else { self.data().len() as u32 };
            raw.push((279, V::L(vec![n])));
            raw.push((259, V::S(vec![match (self.kind, self.bits()) {
              (Kind::ArwTile, _) => 7,
              (_, 12) => 32767,
              _ => 1,
            }])));
            if self.kind == Kind::ArwTile {
              raw.push((322, V::L(vec![512])));
              raw.push((323, V::L(vec![512])));
              raw.push((324, V::L(vec![at])));
              raw.push((325, V::L(vec![n])));
            }
            if self.pack & 4 != 0 {
              let a = self.active();
              raw.push((0x7038, V::L(vec![self.w - a[2], self.h - a[3]])));
            }
            if self.pack & 8 != 0 {
              let c = self.crop().unwrap();
              raw.push((50719, V::L(vec![c[0], c[1]])));
              raw.push((50720, V::L(vec![c[2] - c[0], c[3] - c[1]])));
            }
            let s = w.ifd(&raw);
            root.push((330, V::L(vec![s])));
          }
          Kind::OrfE1 | Kind::OrfEm1 => {
            raw.push((259, V::S(vec![1])));
            raw.push((278, V::L(vec![self.h])));
            raw.push((279, V::L(vec![self.data().len() as u32])));
            root.extend(raw);
          }
          Kind::Cr2D20 | Kind::Cr2D5 => {
            raw.push((259, V::S(vec![6])));
            raw.push((0xc5d8, V::L(vec![1])));
            let s = self.slices();
            if s.len() > 1 {
              raw.push((0xc640, V::S(vec![s.len() as u16 - 1, s[0] as u16, s[s.len() - 1] as u16])));
            }
            next = w.ifd(&raw);
            thumb(&mut w, &mut root);
          }
          _ => {
            raw.push((259, V::S(vec![match self.pack % 4 {
              1 => 1,
              2 => 32773,
              _ => 65535,
            }])));
            root.extend(raw);
          }
        }
        let p = w.ifd(&root);
        let o = p as usize + 2 + 12 * root.len();
        w.buf[o..o + 4].copy_from_slice(&if big { next.to_be_bytes() } else { next.to_le_bytes() });
        w.finish(p)
      }
    }
  }
  /// Canon: left, top, right, bottom of the picture.
  fn sensor(&self) -> [u32; 4] {
    let a = model(self.kind).active;
    [a[0] + 4, a[1] + 2, self.w - 2, self.h - 4]
  }
  /// What is cut off on the left, top, right, bottom.
  fn active(&self) -> [u32; 4] {
    match self.kind {
      Kind::Arw | Kind::ArwTile if self.pack & 4 != 0 => [0, 0, 8, 2],
      _ => model(self.kind).active,
    }
  }
  /// Left, top, right, bottom of the picture.
  fn crop(&self) -> Option<[u32; 4]> {
    match self.kind {
      Kind::Cr2D20 | Kind::Cr2D5 => Some(self.sensor()),
      Kind::Nef if self.pack >= 8 => Some([6, 4, self.w - 40, self.h - 2]),
      Kind::Arw | Kind::ArwTile if self.pack & 8 != 0 => Some([2, 6, self.w - 10, self.h - 8]),
      Kind::OrfEm1 => Some([8, 6, self.w - 12, self.h - 8]),
      _ => model(self.kind).crop.map(|c| [c[0], c[1], self.w - c[2], self.h - c[3]]),
    }
  }
  fn white(&self) -> u32 {
    match (self.kind, self.bits()) {
      (Kind::Nef, 14) => 15520,
      (Kind::OrfEm1, 14) => 16000,
      (Kind::Arw, 12) => 3840,
      (Kind::Arw | Kind::ArwTile, _) => 15360,
      _ => model(self.kind).white,
    }
  }
  /// Factors of red, green and blue, if the file has any.
  fn balance(&self) -> Option<[f64; 3]> {
    let q = |x: u16| x as f64 / 1024.0;
    match self.kind {
      Kind::Mef => None,
      Kind::OrfE1 | Kind::OrfEm1 => Some([(self.wb[0] / 4) as f64 / 256.0, 1.0, (self.wb[3] / 4) as f64 / 256.0]),
      Kind::Erf => Some([(self.wb[0] / 8) as f64 * 508.0 * 1.078 / 65536.0, 1.0, (self.wb[3] / 8) as f64 * 382.0 * 1.173 / 65536.0]),
      _ => Some([q(self.wb[0]), 1.0, q(self.wb[3])]),
    }
  }
  /// A DNG that says the same.
  fn same(&self) -> Vec<u8> {
    let m = model(self.kind);
    let (exif, gps) = self.exif();
    let mut w = W::new(true);
    let px: Vec<u8> = self.pixels().iter().flat_map(|x| x.to_be_bytes()).collect();
    let at = w.data(&px);
    let arri = matches!(self.kind, Kind::Alexa | Kind::AlexaMini);
    let [l, t, r, b] = self.active();
    let mut root = vec![
      (254, V::L(vec![0])),
      (256, V::L(vec![self.w])),
      (257, V::L(vec![self.h])),
      (258, V::S(vec![16])),
      (259, V::S(vec![1])),
      (262, V::S(vec![32803])),
      (271, V::A(m.clean.0.into())),
      (272, V::A(m.clean.1.into())),
      (273, V::L(vec![at])),
      (274, V::S(vec![if arri { 1 } else { self.orient }])),
      (277, V::S(vec![1])),
      (278, V::L(vec![self.h])),
      (279, V::L(vec![px.len() as u32])),
      (33421, V::S(vec![2, 2])),
      (33422, V::B(m.cfa.to_vec())),
      (50706, V::B(vec![1, 4, 0, 0])),
      (50708, V::A(format!("{} {}", m.clean.0, m.clean.1))),
      (50717, V::L(vec![self.white()])),
      (50829, V::L(vec![t, l, self.h - b, self.w - r])),
    ];
    let black = match self.kind {
      Kind::PefIstD | Kind::PefK10d | Kind::Erf | Kind::Cr2D5 | Kind::Nef => self.black,
      Kind::Arw | Kind::ArwTile => Some(self.black.unwrap_or_default()),
      Kind::OrfE1 => Some([65; 4]),
      Kind::OrfEm1 => Some(self.black.unwrap_or_default().map(|x| if self.bits() == 14 { x << 2 } else { x })),
      Kind::Cr2D20 => Some([126; 4]),
      _ => None,
    };
    if let Some(b) = black {
      root.push((50713, V::S(vec![2, 2])));
      root.push((50714, V::S(b.to_vec())));
    }
    let crop = self.crop();
    if let Some(c) = crop {
      root.push((50719, V::L(vec![c[0] - l, c[1] - t])));
      root.push((50720, V::L(vec![c[2] - c[0], c[3] - c[1]])));
    }
    if let Some(b) = self.balance() {
      root.push((50728, V::R(b.iter().map(|x| ((100000.0 / x).round() as u32, 100000)).collect())));
    }
    for (i, (il, c)) in m.matrices.iter().enumerate() {
      root.push((50721 + i as u16, V::SR(c.iter().map(|x| (*x, 10000)).collect())));
      root.push((50778 + i as u16, V::S(vec![*il])));
    }
    let e = w.ifd(&exif);
    root.push((34665, V::L(vec![e])));
    if !gps.is_empty() {
      let g = w.ifd(&gps);
      root.push((34853, V::L(vec![g])));
    }
    let p = w.ifd(&root);
    w.finish(p)
  }
}
fn recipe(b: &[u8]) -> Option<Cam> {
  let p = b.windows(7).take(1 << 16).position(|w| w == b"SIMCAM{")?;
  let e = p + b[p..].iter().position(|x| *x == 0)?;
  serde_json::from_slice(&b[p + 6..e]).ok()
}
pub fn kind(b: &[u8]) -> String {
  recipe(b).map(|c| format!("{:?}", c.kind)).unwrap_or_default()
}
/// The DNG a conversion of this file has to be equivalent to, if it is one of these camera files.
pub fn equivalent(b: &[u8]) -> Option<Vec<u8>> {
  let c = recipe(b)?;
  // trailing bytes do not matter
  if b.starts_with(&c.build()) {
    Some(c.same())
  } else {
    None
  }
}

/// A directory at a place kept free for it, with its values at the end.
fn ifd_at(w: &mut W, at: usize, tags: &[(u16, V)]) {
  let q = w.ifd(tags) as usize;
  let dir = w.buf[q..].to_vec();
  w.buf.truncate(q);
  w.buf[at..at + dir.len()].copy_from_slice(&dir);
}
/// Codes and their lengths by symbol, from lengths and symbols in the order of the codes.
fn codes(tree: &[(u32, u8)]) -> Vec<(u32, u32)> {
  let mut v = vec![(0, 0); 16];
  let (mut code, mut len) = (0u32, 0);
  for (l, s) in tree {
    code <<= l - len;
    len = *l;
    v[*s as usize] = (code, *l);
    code += 1;
  }
  v
}
/// Bits, the highest first.
#[derive(Default)]
struct Bits {
  out: Vec<u8>,
  acc: u64,
  n: u32,
}
impl Bits {
  fn put(&mut self, v: u32, l: u32) {
    self.acc = self.acc << l | v as u64;
    self.n += l;
    while self.n >= 8 {
      self.n -= 8;
      self.out.push((self.acc >> self.n) as u8);
    }
    self.acc &= (1 << self.n) - 1;
  }
  fn diff(&mut self, d: i32, codes: &[(u32, u32)]) {
    let len = 32 - d.unsigned_abs().leading_zeros();
    let (c, l) = codes[len as usize];
    self.put(c, l);
    if len > 0 {
      self.put((if d < 0 { d + (1 << len) - 1 } else { d }) as u32, len);
    }
  }
  fn done(mut self) -> Vec<u8> {
    self.put(0, 7);
    self.out
  }
}
/// The way Sony hides its settings.
fn sony(b: &mut [u8], key: u32) {
  let mut pad = [0u32; 128];
  let mut k = key;
  for p in pad.iter_mut().take(4) {
    k = k.wrapping_mul(48828125).wrapping_add(1);
    *p = k;
  }
  pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
  for i in 4..127 {
    pad[i] = (pad[i - 4] ^ pad[i - 2]) << 1 | (pad[i - 3] ^ pad[i - 1]) >> 31;
  }
  for p in pad.iter_mut().take(127) {
    *p = p.swap_bytes();
  }
  for (i, c) in b.chunks_exact_mut(4).enumerate() {
    let p = i + 127;
    pad[p & 127] = pad[(p + 1) & 127] ^ pad[(p + 65) & 127];
    c.iter_mut().zip(pad[p & 127].to_le_bytes()).for_each(|(x, y)| *x ^= y);
  }
}

/// What dnglab makes of the samples of a losslessly compressed Nikon file: it treats its missing curve like a lossy one.
pub fn dithered(b: &[u8]) -> Option<Vec<u16>> {
  let c = recipe(b).filter(|c| c.kind == Kind::Nef)?;
  let (d, huff) = c.nikon();
  if !huff {
    return None;
  }
  let mut r = u32::from_be_bytes([0, d[0], d[1], d[2]]);
  let top = (1u32 << c.bits()) - 1;
  Some(
    c.pixels()
      .iter()
      .map(|x| {
        let x = *x as u32;
        let y = if x == 0 || x == top { x } else { x - 1 + ((2 * (r & 2047) + 1024) >> 12) };
        r = 15700 * (r & 65535) + (r >> 16);
        y as u16
      })
      .collect(),
  )
}
/// The samples of one of these camera files.
pub fn exact(b: &[u8]) -> Option<Vec<u16>> {
  recipe(b).map(|c| c.pixels())
}
