//! In-memory file system of the simulated machine.
use crate::core::*;
use libc::*;
use simspec::*;
use std::collections::BTreeMap;

pub enum IK {
  Dir(BTreeMap<Vec<u8>, u64>),
  File(Vec<u8>),
  Link(Vec<u8>),
}
pub struct Inode {
  pub k: IK,
  pub mode: u32,
  pub mtime: (i64, u32),
  pub atime: (i64, u32),
  pub ctime: (i64, u32),
  pub nlink: u32,
  pub opens: u32,
  pub parent: u64,
  pub charged: u64,
  pub maps: Vec<(usize, u64, usize)>,
  pub lock_ex: Option<usize>,
  pub lock_sh: Vec<usize>,
}
pub struct Ofd {
  pub ino: u64,
  pub pos: u64,
  pub rd: bool,
  pub wr: bool,
  pub app: bool,
  pub path: String,
  pub refs: u32,
}
pub struct Vfs {
  pub ino: BTreeMap<u64, Inode>,
  pub next: u64,
  pub ofd: BTreeMap<usize, Ofd>,
  pub next_ofd: usize,
  pub cwd: u64,
  pub used: u64,
}
pub const ROOT: u64 = 1;
type R<T> = Result<T, i32>;

pub struct Res {
  pub parent: u64,
  pub name: Vec<u8>,
  pub ino: Option<u64>,
}

impl Vfs {
  pub fn new() -> Vfs {
    let mut v = Vfs { ino: BTreeMap::new(), next: 1, ofd: BTreeMap::new(), next_ofd: 1, cwd: ROOT, used: 0 };
    v.alloc(IK::Dir(BTreeMap::new()), 0o755, ROOT, (0, 0));
    v
  }
  pub fn alloc(&mut self, k: IK, mode: u32, parent: u64, t: (i64, u32)) -> u64 {
    let i = self.next;
    self.next += 1;
    let nlink = if matches!(k, IK::Dir(_)) { 2 } else { 1 };
    self.ino.insert(
      i,
      Inode { k, mode, mtime: t, atime: (t.0 + 9_999, 7), ctime: (t.0 + 5_555, 5), nlink, opens: 0, parent, charged: 0, maps: vec![], lock_ex: None, lock_sh: vec![] },
    );
    i
  }
  pub fn node(&self, i: u64) -> &Inode {
    &self.ino[&i]
  }
  pub fn node_mut(&mut self, i: u64) -> &mut Inode {
    self.ino.get_mut(&i).unwrap()
  }
  pub fn is_dir(&self, i: u64) -> bool {
    matches!(self.node(i).k, IK::Dir(_))
  }
  fn lookup(&self, dir: u64, name: &[u8]) -> Option<u64> {
    match &self.node(dir).k {
      IK::Dir(e) => e.get(name).copied(),
      _ => None,
    }
  }
  pub fn path_of(&self, dir: u64, name: &[u8]) -> String {
    let mut parts: Vec<String> = Vec::new();
    if !name.is_empty() {
      parts.push(path_str(name));
    }
    let mut d = dir;
    let mut guard = 0;
    while d != ROOT && guard < 200 {
      guard += 1;
      let p = self.node(d).parent;
      let nm = match &self.node(p).k {
        IK::Dir(e) => e.iter().find(|(_, v)| **v == d).map(|(k, _)| path_str(k)),
        _ => None,
      };
      parts.push(nm.unwrap_or_else(|| "(deleted)".into()));
      d = p;
    }
    let mut s = String::new();
    for p in parts.iter().rev() {
      s.push('/');
      s.push_str(p);
    }
    if s.is_empty() {
      s.push('/');
    }
    s
  }
  pub fn resolve(&self, base: u64, path: &[u8], follow: bool) -> R<Res> {
    let mut depth = 0;
    self.res(base, path, follow, &mut depth)
  }
  fn res(&self, base: u64, path: &[u8], follow: bool, depth: &mut u32) -> R<Res> {
    if path.is_empty() {
      return Err(ENOENT);
    }
    if path.len() > 4095 {
      return Err(ENAMETOOLONG);
    }
    let mut cur = if path[0] == b'/' { ROOT } else { base };
    let trailing = path.last() == Some(&b'/');
    let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
    if comps.is_empty() {
      return Ok(Res { parent: cur, name: vec![], ino: Some(cur) });
    }
    let last = comps.len() - 1;
    for (i, c) in comps.iter().enumerate() {
      if !self.is_dir(cur) {
        return Err(ENOTDIR);
      }
      if self.node(cur).mode & 0o100 == 0 {
        return Err(EACCES);
      }
      if c.len() > 255 {
        return Err(ENAMETOOLONG);
      }
      if *c == b"." {
        if i == last {
          return Ok(Res { parent: cur, name: vec![], ino: Some(cur) });
        }
        continue;
      }
      if *c == b".." {
        cur = self.node(cur).parent;
        if i == last {
          return Ok(Res { parent: cur, name: vec![], ino: Some(cur) });
        }
        continue;
      }
      match self.lookup(cur, c) {
        None => {
          if i == last {
            return Ok(Res { parent: cur, name: c.to_vec(), ino: None });
          }
          return Err(ENOENT);
        }
        Some(n) => {
          if let IK::Link(t) = &self.node(n).k {
            if i < last || follow || trailing {
              *depth += 1;
              if *depth > 40 {
                return Err(ELOOP);
              }
              let r = self.res(cur, t, true, depth)?;
              if i == last {
                return Ok(r);
              }
              match r.ino {
                Some(x) => {
                  cur = x;
                  continue;
                }
                None => return Err(ENOENT),
              }
            }
          }
          if i == last {
            if trailing && !self.is_dir(n) {
              return Err(ENOTDIR);
            }
            return Ok(Res { parent: cur, name: c.to_vec(), ino: Some(n) });
          }
          cur = n;
        }
      }
    }
    Err(ENOENT)
  }
  /// Canonical path for labels and logs.
  pub fn label(&self, base: u64, path: &[u8], follow: bool) -> String {
    match self.resolve(base, path, follow) {
      Ok(r) => self.rpath(&r),
      Err(_) => {
        if path.first() == Some(&b'/') {
          path_str(path)
        } else {
          let mut s = self.path_of(base, b"");
          s.push('/');
          s.push_str(&path_str(path));
          s
        }
      }
    }
  }
  pub fn rpath(&self, r: &Res) -> String {
    match r.ino {
      Some(i) if self.is_dir(i) => self.path_of(i, b""),
      _ => self.path_of(r.parent, &r.name),
    }
  }
}

fn now(g: &G) -> (i64, u32) {
  let t = g.realtime();
  (t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000) as u32)
}
fn touch_dir(g: &mut G, d: u64) {
  let t = now(g);
  let n = g.vfs.node_mut(d);
  n.mtime = t;
  n.ctime = t;
}
fn entries(g: &mut G, d: u64) -> &mut BTreeMap<Vec<u8>, u64> {
  match &mut g.vfs.node_mut(d).k {
    IK::Dir(e) => e,
    _ => unreachable!(),
  }
}
fn wr_ok(g: &G, d: u64) -> R<()> {
  if g.vfs.node(d).mode & 0o200 == 0 {
    return Err(EACCES);
  }
  Ok(())
}
fn drop_if_dead(g: &mut G, i: u64) {
  let n = g.vfs.node(i);
  if n.nlink == 0 && n.opens == 0 && n.maps.is_empty() {
    g.vfs.used = g.vfs.used.saturating_sub(n.charged);
    g.vfs.ino.remove(&i);
  }
}
fn in_quota(g: &G, path: &str) -> bool {
  g.spec.disk_free.is_some() && path.starts_with(g.spec.disk_prefix.as_str())
}

/// Environment action: write a whole file.
pub fn put_file(g: &mut G, path: &str, d: &[u8], excl: bool) {
  let fl = O_WRONLY | O_CREAT | if excl { O_EXCL } else { O_TRUNC };
  if let Ok(o) = open(g, ROOT, &path_bytes(path), fl, 0o644) {
    let (ino, p) = {
      let f = &g.vfs.ofd[&o];
      (f.ino, f.path.clone())
    };
    if let IK::File(v) = &mut g.vfs.node_mut(ino).k {
      *v = d.to_vec();
    }
    let t = now(g);
    g.vfs.node_mut(ino).mtime = t;
    sync_maps(g, ino, 0, d.len());
    g.mutn(Op::Write, &p, "", ino);
    unref(g, o);
  }
}

pub fn sync_maps(g: &mut G, ino: u64, off: usize, len: usize) {
  let n = g.vfs.node(ino);
  if n.maps.is_empty() {
    return;
  }
  if let IK::File(d) = &n.k {
    for (addr, moff, mlen) in n.maps.iter() {
      let lo = off.max(*moff as usize);
      let hi = (off + len).min(*moff as usize + *mlen).min(d.len());
      if lo < hi {
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr().add(lo), (*addr + lo - *moff as usize) as *mut u8, hi - lo) };
      }
    }
  }
}

pub fn open(g: &mut G, base: u64, path: &[u8], flags: i32, mode: u32) -> R<usize> {
  let acc = flags & O_ACCMODE;
  let rd = acc == O_RDONLY || acc == O_RDWR;
  let wr = acc == O_WRONLY || acc == O_RDWR;
  let creat = flags & O_CREAT != 0;
  let excl = flags & O_EXCL != 0;
  let follow = flags & O_NOFOLLOW == 0 && !(creat && excl);
  if creat && path.last() == Some(&b'/') {
    return Err(EISDIR);
  }
  let r = g.vfs.resolve(base, path, follow)?;
  let p = g.vfs.rpath(&r);
  let ino = match r.ino {
    Some(i) => {
      if creat && excl {
        return Err(EEXIST);
      }
      let n = g.vfs.node(i);
      match &n.k {
        IK::Link(_) => return Err(ELOOP),
        IK::Dir(_) => {
          if wr || creat {
            return Err(EISDIR);
          }
        }
        IK::File(_) => {
          if flags & O_DIRECTORY != 0 {
            return Err(ENOTDIR);
          }
        }
      }
      if flags & O_PATH == 0 && ((rd && n.mode & 0o400 == 0) || (wr && n.mode & 0o200 == 0)) {
        return Err(EACCES);
      }
      if wr && flags & O_TRUNC != 0 {
        let t = now(g);
        let n = g.vfs.node_mut(i);
        let ch = n.charged;
        n.charged = 0;
        n.mtime = t;
        n.ctime = t;
        if let IK::File(d) = &mut n.k {
          d.clear();
        }
        g.vfs.used = g.vfs.used.saturating_sub(ch);
        g.mutn(Op::Truncate, &p, "", i);
      } else if wr {
        // nothing changes yet
      } else {
        g.mutn(Op::Open, &p, "", i);
      }
      i
    }
    None => {
      if !creat {
        return Err(ENOENT);
      }
      wr_ok(g, r.parent)?;
      let t = now(g);
      let i = g.vfs.alloc(IK::File(Vec::new()), mode & 0o777, r.parent, t);
      entries(g, r.parent).insert(r.name.clone(), i);
      touch_dir(g, r.parent);
      g.mutn(Op::Create, &p, "", i);
      i
    }
  };
  let o = g.vfs.next_ofd;
  g.vfs.next_ofd += 1;
  g.vfs.node_mut(ino).opens += 1;
  g.vfs.ofd.insert(o, Ofd { ino, pos: 0, rd, wr, app: flags & O_APPEND != 0, path: p, refs: 1 });
  Ok(o)
}
pub fn unref(g: &mut G, o: usize) {
  let f = g.vfs.ofd.get_mut(&o).unwrap();
  f.refs -= 1;
  if f.refs == 0 {
    let ino = f.ino;
    g.vfs.ofd.remove(&o);
    let n = g.vfs.node_mut(ino);
    n.opens -= 1;
    let mut wake = false;
    if n.lock_ex == Some(o) {
      n.lock_ex = None;
      wake = true;
    }
    if n.lock_sh.contains(&o) {
      n.lock_sh.retain(|x| *x != o);
      wake = true;
    }
    if wake {
      g.wake_io(0x4000_0000_0000 + ino);
    }
    drop_if_dead(g, ino);
  }
}
pub fn read(g: &mut G, o: usize, len: usize, at: Option<u64>, act: Option<Act>) -> R<Vec<u8>> {
  let f = &g.vfs.ofd[&o];
  if !f.rd {
    return Err(EBADF);
  }
  let (ino, pos) = (f.ino, at.unwrap_or(f.pos) as usize);
  let mut flip = None;
  let mut len = len;
  match act {
    Some(Act::Err(e)) => return Err(e),
    Some(Act::Short(n)) => len = len.min(n.max(1)),
    Some(Act::Flip(n)) => flip = Some(n),
    _ => {}
  }
  if len > 1 && g.rng.chance(g.spec.eintr_pm) {
    g.stats.eintrs += 1;
    return Err(EINTR);
  }
  if len > 1 && g.spec.short_read_pm > 0 && g.rng.chance(g.spec.short_read_pm) {
    len = 1 + g.rng.below(len as u64) as usize;
    g.stats.short_reads += 1;
  }
  let mut out = match &g.vfs.node(ino).k {
    IK::File(d) => {
      if pos >= d.len() {
        Vec::new()
      } else {
        d[pos..(pos + len).min(d.len())].to_vec()
      }
    }
    IK::Dir(_) => return Err(EISDIR),
    IK::Link(_) => return Err(EINVAL),
  };
  if let Some(n) = flip {
    if !out.is_empty() {
      let b = (n / 8) as usize % out.len();
      out[b] ^= 1 << (n % 8);
    }
  }
  if at.is_none() {
    g.vfs.ofd.get_mut(&o).unwrap().pos += out.len() as u64;
  }
  Ok(out)
}
pub fn write(g: &mut G, o: usize, buf: &[u8], at: Option<u64>, act: Option<Act>) -> R<usize> {
  let f = &g.vfs.ofd[&o];
  if !f.wr {
    return Err(EBADF);
  }
  let (ino, path, app) = (f.ino, f.path.clone(), f.app);
  let mut pos = at.unwrap_or(f.pos) as usize;
  let mut len = buf.len();
  let mut torn = false;
  match act {
    Some(Act::Err(e)) => return Err(e),
    Some(Act::Short(n)) => len = len.min(n.max(1)),
    Some(Act::TornKill(n)) => {
      // A process dies between two pages of a write, never inside a page.
      let end = (pos + len.min(n)) / 4096 * 4096;
      len = if n >= len { len } else { end.saturating_sub(pos) };
      torn = true;
    }
    _ => {}
  }
  if !torn && len > 1 {
    if g.rng.chance(g.spec.eintr_pm) {
      g.stats.eintrs += 1;
      return Err(EINTR);
    }
    if g.spec.short_write_pm > 0 && g.rng.chance(g.spec.short_write_pm) {
      len = 1 + g.rng.below(len as u64) as usize;
      g.stats.short_writes += 1;
    }
  }
  let quota = in_quota(g, &path);
  let free = g.spec.disk_free.unwrap_or(0).saturating_sub(g.vfs.used);
  let t = now(g);
  let n = g.vfs.node_mut(ino);
  let d = match &mut n.k {
    IK::File(d) => d,
    _ => return Err(EBADF),
  };
  if app {
    pos = d.len();
  }
  if quota && len > 0 && !torn {
    let grow = (pos + len).saturating_sub(d.len()) as u64;
    if grow > free {
      let over = (grow - free) as usize;
      if over >= len {
        g.stats.enospc += 1;
        return Err(ENOSPC);
      }
      len -= over;
      g.stats.enospc += 1;
    }
  }
  if len > 0 {
    if d.len() < pos + len {
      let grow = (pos + len - d.len()) as u64;
      d.resize(pos + len, 0);
      if quota {
        n.charged += grow;
        g.vfs.used += grow;
      }
    }
    let n = g.vfs.node_mut(ino);
    if let IK::File(d) = &mut n.k {
      d[pos..pos + len].copy_from_slice(&buf[..len]);
    }
    n.mtime = t;
    n.ctime = t;
  }
  if at.is_none() {
    g.vfs.ofd.get_mut(&o).unwrap().pos = (pos + len) as u64;
  }
  sync_maps(g, ino, pos, len);
  g.mutn(Op::Write, &path, "", ino);
  if torn {
    g.finish(Exit::Killed);
  }
  Ok(len)
}
pub fn truncate(g: &mut G, ino: u64, path: &str, len: usize) -> R<()> {
  let t = now(g);
  let n = g.vfs.node_mut(ino);
  let d = match &mut n.k {
    IK::File(d) => d,
    IK::Dir(_) => return Err(EISDIR),
    _ => return Err(EINVAL),
  };
  let old = d.len();
  d.resize(len, 0);
  n.mtime = t;
  n.ctime = t;
  if len < old {
    let back = n.charged.min((old - len) as u64);
    n.charged -= back;
    g.vfs.used -= back;
  }
  g.mutn(Op::Truncate, path, "", ino);
  Ok(())
}
pub fn unlink(g: &mut G, path: &[u8], dir: bool) -> R<()> {
  unlink_at(g, ROOT, path, dir)
}
pub fn unlink_at(g: &mut G, base: u64, path: &[u8], dir: bool) -> R<()> {
  let r = g.vfs.resolve(base, path, false)?;
  let i = r.ino.ok_or(ENOENT)?;
  let p = g.vfs.rpath(&r);
  let (parent, name) = if r.name.is_empty() {
    // "." / ".." / "/"
    let last: &[u8] = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).next_back().unwrap_or(b"");
    if i == ROOT {
      return Err(EBUSY);
    }
    if !dir {
      return Err(EISDIR);
    }
    return Err(if last == b"." { EINVAL } else { ENOTEMPTY });
  } else {
    (r.parent, r.name.clone())
  };
  if dir {
    match &g.vfs.node(i).k {
      IK::Dir(e) => {
        if !e.is_empty() {
          return Err(ENOTEMPTY);
        }
      }
      _ => return Err(ENOTDIR),
    }
  } else if g.vfs.is_dir(i) {
    return Err(EISDIR);
  }
  wr_ok(g, parent)?;
  entries(g, parent).remove(&name);
  touch_dir(g, parent);
  let n = g.vfs.node_mut(i);
  n.nlink = if dir { 0 } else { n.nlink - 1 };
  g.mutn(if dir { Op::Rmdir } else { Op::Unlink }, &p, "", i);
  drop_if_dead(g, i);
  Ok(())
}
pub fn mkdir(g: &mut G, path: &[u8], mode: u32) -> R<()> {
  mkdir_at(g, ROOT, path, mode)
}
pub fn mkdir_at(g: &mut G, base: u64, path: &[u8], mode: u32) -> R<()> {
  // a trailing slash is fine for mkdir
  let mut p = path;
  while p.len() > 1 && p.last() == Some(&b'/') {
    p = &p[..p.len() - 1];
  }
  let r = g.vfs.resolve(base, p, false)?;
  if r.ino.is_some() {
    return Err(EEXIST);
  }
  wr_ok(g, r.parent)?;
  let t = now(g);
  let i = g.vfs.alloc(IK::Dir(BTreeMap::new()), mode & 0o777, r.parent, t);
  entries(g, r.parent).insert(r.name.clone(), i);
  touch_dir(g, r.parent);
  let s = g.vfs.path_of(i, b"");
  g.mutn(Op::Mkdir, &s, "", i);
  Ok(())
}
pub fn symlink(g: &mut G, target: &[u8], path: &[u8]) -> R<()> {
  symlink_at(g, target, ROOT, path)
}
pub fn symlink_at(g: &mut G, target: &[u8], base: u64, path: &[u8]) -> R<()> {
  let r = g.vfs.resolve(base, path, false)?;
  if r.ino.is_some() {
    return Err(EEXIST);
  }
  wr_ok(g, r.parent)?;
  let t = now(g);
  let i = g.vfs.alloc(IK::Link(target.to_vec()), 0o777, r.parent, t);
  entries(g, r.parent).insert(r.name.clone(), i);
  touch_dir(g, r.parent);
  let p = g.vfs.rpath(&r);
  g.mutn(Op::Symlink, &p, &path_str(target), i);
  Ok(())
}
pub fn link_at(g: &mut G, b1: u64, from: &[u8], b2: u64, to: &[u8], follow: bool) -> R<()> {
  let r = g.vfs.resolve(b1, from, follow)?;
  let i = r.ino.ok_or(ENOENT)?;
  if g.vfs.is_dir(i) {
    return Err(EPERM);
  }
  let q = g.vfs.resolve(b2, to, false)?;
  if q.ino.is_some() {
    return Err(EEXIST);
  }
  wr_ok(g, q.parent)?;
  entries(g, q.parent).insert(q.name.clone(), i);
  g.vfs.node_mut(i).nlink += 1;
  touch_dir(g, q.parent);
  let (a, b) = (g.vfs.rpath(&r), g.vfs.rpath(&q));
  g.mutn(Op::Link, &a, &b, i);
  Ok(())
}
pub fn rename(g: &mut G, from: &[u8], to: &[u8], noreplace: bool) -> R<()> {
  rename_at(g, ROOT, from, ROOT, to, noreplace)
}
pub fn rename_at(g: &mut G, b1: u64, from: &[u8], b2: u64, to: &[u8], noreplace: bool) -> R<()> {
  let r = g.vfs.resolve(b1, from, false)?;
  let i = r.ino.ok_or(ENOENT)?;
  let q = g.vfs.resolve(b2, to, false)?;
  if r.name.is_empty() || q.name.is_empty() {
    return Err(EBUSY);
  }
  let isd = g.vfs.is_dir(i);
  let (pa, pb) = (g.vfs.rpath(&r), g.vfs.rpath(&q));
  if let Some(j) = q.ino {
    if noreplace {
      return Err(EEXIST);
    }
    if i == j {
      return Ok(());
    }
    match (&g.vfs.node(j).k, isd) {
      (IK::Dir(e), true) => {
        if !e.is_empty() {
          return Err(ENOTEMPTY);
        }
      }
      (IK::Dir(_), false) => return Err(EISDIR),
      (_, true) => return Err(ENOTDIR),
      _ => {}
    }
  }
  if isd {
    let mut d = q.parent;
    while d != ROOT {
      if d == i {
        return Err(EINVAL);
      }
      d = g.vfs.node(d).parent;
    }
  }
  wr_ok(g, r.parent)?;
  wr_ok(g, q.parent)?;
  entries(g, r.parent).remove(&r.name);
  entries(g, q.parent).insert(q.name.clone(), i);
  touch_dir(g, r.parent);
  touch_dir(g, q.parent);
  if let Some(j) = q.ino {
    let n = g.vfs.node_mut(j);
    n.nlink = n.nlink.saturating_sub(if isd { 2 } else { 1 });
    drop_if_dead(g, j);
  }
  if isd {
    g.vfs.node_mut(i).parent = q.parent;
  }
  g.mutn(Op::Rename, &pa, &pb, i);
  Ok(())
}
pub fn utimens(g: &mut G, ino: u64, path: &str, ts: Option<[timespec; 2]>) -> R<()> {
  let t = now(g);
  let n = g.vfs.node_mut(ino);
  match ts {
    None => {
      n.mtime = t;
      n.atime = t;
    }
    Some(v) => {
      for (k, x) in v.iter().enumerate() {
        let val = match x.tv_nsec {
          UTIME_NOW => t,
          UTIME_OMIT => continue,
          ns => (x.tv_sec, ns as u32),
        };
        if k == 0 {
          n.atime = val;
        } else {
          n.mtime = val;
        }
      }
    }
  }
  n.ctime = t;
  g.mutn(Op::Utimens, path, "", ino);
  Ok(())
}
pub fn fmt_mode(n: &Inode) -> u32 {
  n.mode
    | match n.k {
      IK::Dir(_) => S_IFDIR,
      IK::File(_) => S_IFREG,
      IK::Link(_) => S_IFLNK,
    }
}
pub fn size(n: &Inode) -> u64 {
  match &n.k {
    IK::Dir(_) => 4096,
    IK::File(d) => d.len() as u64,
    IK::Link(t) => t.len() as u64,
  }
}
pub fn load(g: &mut G) {
  let nodes = g.spec.fs.clone();
  for n in nodes.iter() {
    // create missing parents
    let comps: Vec<&str> = n.path.split('/').filter(|c| !c.is_empty()).collect();
    let mut d = ROOT;
    for c in comps.iter().take(comps.len().saturating_sub(1)) {
      d = match g.vfs.lookup(d, &path_bytes(c)) {
        Some(x) => x,
        None => {
          let i = g.vfs.alloc(IK::Dir(BTreeMap::new()), 0o755, d, (n.mtime_s, 0));
          entries(g, d).insert(path_bytes(c), i);
          i
        }
      };
    }
    let name = path_bytes(comps.last().unwrap());
    if g.vfs.lookup(d, &name).is_some() {
      continue;
    }
    let (k, m) = match &n.kind {
      Kind::Dir => (IK::Dir(BTreeMap::new()), 0o755),
      Kind::File(b) => (IK::File(g.blob_get(*b)), 0o644),
      Kind::Link(t) => (IK::Link(path_bytes(t)), 0o777),
    };
    let i = g.vfs.alloc(k, if n.mode == 0 { m } else { n.mode & 0o777 }, d, (n.mtime_s, n.mtime_n));
    entries(g, d).insert(name, i);
  }
  let cwd = g.spec.cwd.clone();
  match g.vfs.resolve(ROOT, &path_bytes(&cwd), true) {
    Ok(Res { ino: Some(i), .. }) => g.vfs.cwd = i,
    _ => crate::raw::die("simos: cwd missing"),
  }
}
pub fn dump(g: &mut G) -> Vec<Node> {
  let mut out = Vec::new();
  let mut stack: Vec<(u64, String)> = vec![(ROOT, String::new())];
  while let Some((d, p)) = stack.pop() {
    let e: Vec<(Vec<u8>, u64)> = match &g.vfs.node(d).k {
      IK::Dir(e) => e.iter().map(|(k, v)| (k.clone(), *v)).collect(),
      _ => continue,
    };
    for (name, i) in e {
      let path = format!("{}/{}", p, path_str(&name));
      let n = g.vfs.node(i);
      let (mode, mt) = (n.mode, n.mtime);
      let kind = match &n.k {
        IK::Dir(_) => {
          stack.push((i, path.clone()));
          Kind::Dir
        }
        IK::File(data) => {
          let data: &[u8] = data;
          let o = g.out.len() as u64;
          let l = data.len() as u64;
          // split borrows
          let data = unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) };
          g.out.extend_from_slice(data);
          Kind::File(Blob(o, l))
        }
        IK::Link(t) => Kind::Link(path_str(t)),
      };
      out.push(Node { path, kind, mtime_s: mt.0, mtime_n: mt.1, mode, ino: i });
    }
  }
  out.sort_by(|a, b| a.path.cmp(&b.path));
  out
}
