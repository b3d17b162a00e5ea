"""Talks to an R process (r/worker.R) in R's own binary serialization, so that every double arrives bit for bit."""
import itertools, os, select, struct, subprocess, sys, time
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NA_INT = -2**31


class Factor:
    def __init__(self, codes, levels, ordered=False): self.codes, self.levels, self.ordered = codes, levels, ordered


class Frame(dict):
    """named columns -> data.frame"""


class Ints(list):
    """integer vector"""


class L(list):
    """unnamed R list"""


class RError(Exception):
    pass


class RDied(Exception):
    pass


def _chr(s):
    if s is None: return struct.pack(">ii", 9, -1)
    b = s.encode("utf-8"); return struct.pack(">ii", 9 | (8 << 12 if any(c > 127 for c in b) else 64 << 12), len(b)) + b


def _attrs(a):
    if not a: return b""
    return b"".join(struct.pack(">ii", 1026, 1) + _chr(k) + enc(v) for k, v in a.items()) + struct.pack(">i", 254)


def _vec(ty, n, body, a=None, obj=False): return struct.pack(">ii", ty | (0x200 if a else 0) | (0x100 if obj else 0), n) + body + _attrs(a)


def enc(x):
    if x is None: return struct.pack(">i", 254)
    if isinstance(x, (bool, np.bool_)): return _vec(10, 1, struct.pack(">i", int(x)))
    if isinstance(x, (int, np.integer)): return _vec(13, 1, struct.pack(">i", int(x)))
    if isinstance(x, (float, np.floating)): return _vec(14, 1, struct.pack(">d", float(x)))
    if isinstance(x, str): return _vec(16, 1, _chr(x))
    if isinstance(x, Ints): return _vec(13, len(x), struct.pack(">%di" % len(x), *[NA_INT if v is None else v for v in x]))
    if isinstance(x, Factor):
        c = ["ordered", "factor"] if x.ordered else ["factor"]
        return _vec(13, len(x.codes), struct.pack(">%di" % len(x.codes), *[NA_INT if v is None else int(v) for v in x.codes]), {"levels": [str(l) for l in x.levels] if x.levels else S0, "class": c}, True)
    if isinstance(x, Frame):
        n = len(next(iter(x.values())).codes) if isinstance(next(iter(x.values())), Factor) else len(next(iter(x.values())))
        return _vec(19, len(x), b"".join(enc(v) for v in x.values()), {"names": list(x.keys()), "row.names": Ints([None, -n]), "class": "data.frame"}, True)
    if isinstance(x, dict): return _vec(19, len(x), b"".join(enc(v) for v in x.values()), {"names": list(x.keys())} if x else None)
    if isinstance(x, L): return _vec(19, len(x), b"".join(enc(v) for v in x))
    if isinstance(x, list):
        if x is S0: return _vec(16, 0, b"")
        if x and all(isinstance(v, str) or v is None for v in x): return _vec(16, len(x), b"".join(_chr(v) for v in x))
        return enc(np.asarray(x, dtype=float))
    if isinstance(x, np.ndarray):
        a = {"dim": Ints(x.shape)} if x.ndim > 1 else None; f = x.ravel(order="F")
        if x.dtype.kind == "b": return _vec(10, x.size, f.astype(">i4").tobytes(), a)
        if x.dtype.kind in "iu": return _vec(13, x.size, f.astype(">i4").tobytes(), a)
        return _vec(14, x.size, f.astype(">f8").tobytes(), a)
    raise TypeError(type(x))


S0 = [""]     # marker: character(0)


class Named(dict):
    """R list with names; .items_ keeps duplicates"""


class Dec:
    def __init__(self, b): self.b, self.p, self.refs = b, 14, []
    def i(self): v = struct.unpack_from(">i", self.b, self.p)[0]; self.p += 4; return v
    def item(self):
        f = self.i(); ty = f & 255; hasattr_, hastag = f & 0x200, f & 0x400
        if ty == 254: return None
        if ty in (253, 242, 241, 251, 252): raise RError("not a plain value")
        if ty == 255: k = f >> 8; return self.refs[(k if k else self.i()) - 1]
        if ty == 1: s = self.item(); self.refs.append(s); return s
        if ty == 9:
            n = self.i()
            if n == -1: return None
            s = self.b[self.p:self.p + n]; self.p += n
            return s.decode("latin-1") if (f >> 12) & 4 else s.decode("utf-8", "replace")
        if ty == 2:
            out = []
            while True:
                if hasattr_: self.item()
                tag = self.item() if hastag else None; out.append((tag, self.item())); f = self.i(); ty = f & 255; hasattr_, hastag = f & 0x200, f & 0x400
                if ty == 254: return out
        if ty in (10, 13): n = self.i(); v = np.frombuffer(self.b, ">i4", n, self.p).astype(np.int64); self.p += 4 * n
        elif ty == 14: n = self.i(); v = np.frombuffer(self.b, ">f8", n, self.p).astype(float); self.p += 8 * n
        elif ty == 24: n = self.i(); v = self.b[self.p:self.p + n]; self.p += n
        elif ty == 16: n = self.i(); v = [self.item() for _ in range(n)]
        elif ty in (19, 20): n = self.i(); v = [self.item() for _ in range(n)]
        else: raise RError("cannot read R type %d" % ty)
        at = dict(self.item()) if hasattr_ else {}
        if ty == 10: v = np.where(v == NA_INT, -1, v); v = v.astype(bool) if not np.any(v < 0) else v.astype(float)
        if "levels" in at: return Factor([None if c == NA_INT else int(c) for c in v], at["levels"], at.get("class", [""])[0] == "ordered")
        if "dim" in at and isinstance(v, np.ndarray): v = v.reshape([int(d) for d in at["dim"]], order="F")
        if ty == 19 and "names" in at: d = Named(zip(at["names"], v)); return d
        if "names" in at and isinstance(v, np.ndarray) and v.ndim == 1: d = NamedVec(v); d.names = at["names"]; return d
        return v


class NamedVec(np.ndarray):
    def __new__(cls, a): return np.asarray(a).view(cls)


class Session:
    def __init__(self): self.p = None; self.ids = itertools.count(1); self.pid = 0

    def start(self):
        self.close(); r1, w1 = os.pipe(); r2, w2 = os.pipe()
        cmd = ["/bin/sh", "-c", "exec 3<&%d 4>&%d; exec Rscript --vanilla %s %s %s" % (r1, w2, os.path.join(VERIF, "r", "worker.R"), os.environ["VP_R_SO"], REPO + "/R")]
        dn = open(os.devnull, "r+"); self.p = subprocess.Popen(cmd, pass_fds=(r1, w2), stdin=dn, stdout=dn, stderr=open(os.environ["VP_R_ERR"], "w") if os.environ.get("VP_R_ERR") else dn); dn.close()
        os.close(r1); os.close(w2); self.w, self.r = w1, r2; self.pid = self.p.pid

    def close(self):
        if self.p is not None:
            for f in (self.w, self.r):
                try: os.close(f)
                except OSError: pass
            try: self.p.kill(); self.p.wait(5)
            except Exception: pass
            self.p = None

    def _read(self, n, t):
        b = b""
        while len(b) < n:
            if not select.select([self.r], [], [], max(0, t - time.time()))[0]: raise RDied("no answer from R")
            k = os.read(self.r, min(1 << 20, n - len(b)))
            if not k: raise RDied("the R process ended")
            b += k
        return b

    def ask(self, code, vars=None, reset=False, timeout=100):
        if self.p is None: self.start()
        # ids must differ between forked children that share this worker
        k = (os.getpid() % 100000) * 10000.0 + next(self.ids); m = b"X\n" + struct.pack(">iii", 2, 0x00040303, 0x00020300) + enc({"id": float(k), "code": code, "vars": vars, "reset": reset}); m = struct.pack(">i", len(m)) + m
        t = time.time() + timeout; off = 0
        try:
            while off < len(m): off += os.write(self.w, m[off:off + 65536])
        except OSError: raise RDied("the R process ended")
        while True:
            n = struct.unpack(">i", self._read(4, t))[0]; v = Dec(self._read(n, t)).item()
            if float(v["id"][0]) == k: break
        if not bool(v["ok"][0]): raise RError(v["value"][0])
        return v["value"]

    def alive(self):
        try: return self.p is not None and self.ask("1", timeout=3) is not None
        except Exception: return False


S = Session()


def R(code, _reset=False, **vars): return S.ask(code, vars or None, _reset)


def before_fork():
    if not S.alive(): S.start(); S.ask("1", timeout=60)
