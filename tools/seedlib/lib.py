"""Helpers for the demonstrations: build small DNGs, run dnglab, look into TIFF files."""
import hashlib, os, struct, subprocess, sys, zlib

BIN = "/repo/target/debug/dnglab"

def dnglab(*args, preexec=None, env=None, stdout=subprocess.PIPE, timeout=120, cwd=None):
    e = dict(os.environ, RUST_BACKTRACE="0")
    e.update(env or {})
    return subprocess.run([BIN, *map(str, args)], stdout=stdout, stderr=subprocess.PIPE, preexec_fn=preexec, env=e, timeout=timeout, cwd=cwd)

def pixels(w, h, seed=1):
    x = seed * 2654435761 & 0xffffffff or 1
    out = []
    for i in range(w * h):
        x ^= (x << 13) & 0xffffffff; x ^= x >> 17; x ^= (x << 5) & 0xffffffff
        out.append((x >> 7) & 0xffff)
    return out

def original_blob(data):
    blocks = [zlib.compress(data[i:i + 65536]) for i in range(0, len(data), 65536)]
    pos = 4 + 4 * (len(blocks) + 1)
    head = struct.pack(">I", len(data)) + struct.pack(">I", pos)
    for b in blocks:
        pos += len(b); head += struct.pack(">I", pos)
    return head + b"".join(blocks) + bytes(28)

def dng(w, h, px, date=None, offset=None, orig=None, extra=(), model="M1"):
    """Little endian CFA DNG. orig = (name, data, digest or None)"""
    S = "H"; L = "I"
    size = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 1, 10: 8}
    def enc(t, v):
        if t == 2: return v.encode() + b"\0"
        if t in (1, 7): return bytes(v)
        if t == 3: return struct.pack("<%dH" % len(v), *v)
        if t == 4: return struct.pack("<%dI" % len(v), *v)
        if t == 5: return b"".join(struct.pack("<II", a, b) for a, b in v)
        if t == 10: return b"".join(struct.pack("<ii", a, b) for a, b in v)
    buf = bytearray(b"II*\0\0\0\0\0")
    def ifd(ents):
        ents = sorted(ents)
        rec = b""
        for tag, t, v in ents:
            b = enc(t, v); n = len(b) // size[t]
            if len(b) <= 4: val = b.ljust(4, b"\0")
            else:
                if len(buf) % 2: buf.append(0)
                val = struct.pack("<I", len(buf)); buf.extend(b)
            rec += struct.pack("<HHI", tag, t, n) + val
        if len(buf) % 2: buf.append(0)
        at = len(buf)
        buf.extend(struct.pack("<H", len(ents)) + rec + b"\0\0\0\0")
        return at
    raw = struct.pack("<%dH" % len(px), *px)
    at = len(buf); buf.extend(raw)
    e = [(254, 4, [0]), (256, 4, [w]), (257, 4, [h]), (258, 3, [16]), (259, 3, [1]), (262, 3, [32803]), (273, 4, [at]), (277, 3, [1]), (278, 4, [h]),
         (279, 4, [len(raw)]), (284, 3, [1]), (33421, 3, [2, 2]), (33422, 1, [0, 1, 1, 2]), (50710, 1, [0, 1, 2]), (50711, 3, [1]), (50717, 4, [65535]),
         (50706, 1, [1, 4, 0, 0]), (50707, 1, [1, 1, 0, 0]), (50708, 2, "DemoCam " + model), (271, 2, "DemoCam"), (272, 2, model), (274, 3, [1]),
         (50728, 5, [(1, 2), (1, 1), (2, 3)]), (50721, 10, [(x, 10000) for x in (7000, -1000, -500, -4000, 12000, 2200, -900, 1900, 6000)]), (50778, 3, [21])]
    if date:
        ex = [(36867, 2, date), (36868, 2, date), (33434, 5, [(1, 125)])]
        if offset: ex += [(36880, 2, offset), (36881, 2, offset)]
        e += [(306, 2, date), (34665, 4, [ifd(ex)])]
    if orig:
        name, data, digest = orig
        e += [(50827, 2, name), (50828, 7, data)]
        if digest: e += [(50973, 1, digest)]
    e += list(extra)
    at = ifd(e)
    buf[4:8] = struct.pack("<I", at)
    return bytes(buf)

def ifds(d):
    """All IFDs (root, sub, exif) of a TIFF as dicts tag -> (type, count, bytes)"""
    E = {b"II": "<", b"MM": ">"}[d[:2]]
    sz = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8}
    out = []
    def go(at):
        n, = struct.unpack_from(E + "H", d, at)
        t = {}
        for i in range(n):
            tag, ty, c = struct.unpack_from(E + "HHI", d, at + 2 + 12 * i)
            l = c * sz.get(ty, 1)
            o = at + 2 + 12 * i + 8
            if l > 4: o, = struct.unpack_from(E + "I", d, o)
            if o + l > len(d): raise ValueError("value of tag %d is outside of the file" % tag)
            t[tag] = (ty, c, d[o:o + l])
        out.append(t)
        for tag in (330, 34665):
            if tag in t:
                for k in ints(t[tag], E): go(k)
    at, = struct.unpack_from(E + "I", d, 4)
    if at == 0: raise ValueError("no main directory")
    go(at)
    return E, out

def ints(ent, E="<"):
    ty, c, b = ent
    return list(struct.unpack(E + {1: "%dB", 3: "%dH", 4: "%dI"}[ty] % c, b))

def raw_of(d):
    """(width, height, samples) of the uncompressed raw image of a DNG"""
    E, l = ifds(d)
    for t in l:
        if 262 in t and ints(t[262], E)[0] in (32803, 34892) and ints(t[259], E)[0] == 1:
            b = b"".join(d[o:o + n] for o, n in zip(ints(t[273], E), ints(t[279], E)))
            return ints(t[256], E)[0], ints(t[257], E)[0], list(struct.unpack(E + "%dH" % (len(b) // 2), b))
    raise ValueError("no uncompressed raw image")

def roundtrip(path, tmp):
    """Raw samples of any DNG, decoded by converting it to an uncompressed one."""
    o = os.path.join(tmp, "rt.dng")
    if os.path.exists(o): os.remove(o)
    r = dnglab("convert", "--compression", "uncompressed", "--embed-raw", "false", "--dng-preview", "false", "--dng-thumbnail", "false", "--crop", "none", path, o)
    if r.returncode: raise ValueError("cannot decode %s: %s" % (path, r.stderr.decode()))
    return raw_of(open(o, "rb").read())

def check(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)
    print("ok:", msg)

# ---------------------------------------------------------------- FTP
import re, socket, time

class Server:
    """`dnglab ftpserver` on a free port of the loopback interface; killed at the end of the with block."""
    def __init__(self, root, *opts, binary=None, env=None):
        s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]; s.close()
        cmd = [binary, str(self.port), root] if binary else [BIN, "ftpserver", "--port", str(self.port), *map(str, opts), root]
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, RUST_BACKTRACE="0", **(env or {})))
    def __enter__(self):
        for _ in range(300):
            try:
                socket.create_connection(("127.0.0.1", self.port), 5).close()
                return self
            except OSError:
                time.sleep(0.05)
        raise SystemExit(99)
    def __exit__(self, *a):
        self.p.kill(); self.p.wait()
    def session(self, user="anonymous", password="x"):
        return Session(self.port, user, password)

class Session:
    def __init__(self, port, user, password):
        self.s = socket.create_connection(("127.0.0.1", port), 20); self.s.settimeout(20); self.buf = b""
        self.greeting = self.reply()
        if user is not None:
            self.cmd("USER " + user)
            if password is not None: self.cmd("PASS " + password)
    def line(self):
        while b"\r\n" not in self.buf:
            d = self.s.recv(4096)
            if not d: return None
            self.buf += d
        l, self.buf = self.buf.split(b"\r\n", 1)
        return l.decode("utf8", "replace")
    def reply(self):
        l = self.line()
        if l and re.match(r"\d\d\d-", l):
            while not re.match(l[:3] + r"( |$)", l): l = self.line()
        return l
    def code(self, l): return int(l[:3]) if l else 0
    def send(self, text): self.s.sendall(text.encode() + b"\r\n")
    def cmd(self, text):
        self.send(text); return self.code(self.reply())
    def data(self):
        self.send("EPSV"); l = self.reply()
        return socket.create_connection(("127.0.0.1", int(re.search(r"\|\|\|(\d+)\|", l).group(1))), 20)
    def get(self, text):
        """(final code, bytes) of RETR, LIST or NLST"""
        d = self.data(); d.settimeout(20); self.send(text)
        c = self.code(self.reply()); out = b""
        if c // 100 == 1:
            while True:
                b = d.recv(65536)
                if not b: break
                out += b
            c = self.code(self.reply())
        d.close(); return c, out
    def put(self, text, content):
        d = self.data(); self.send(text); c = self.code(self.reply())
        if c // 100 == 1:
            d.sendall(content); d.close(); c = self.code(self.reply())
        else: d.close()
        return c
    def quiet(self, secs=1.0):
        """What else arrives within secs."""
        self.s.settimeout(secs)
        try: l = self.line()
        except TimeoutError: l = None
        self.s.settimeout(20); return l
    def close(self): self.s.close()
