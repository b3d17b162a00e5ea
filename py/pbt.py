"""Choice-sequence property-based-testing engine for the Python and R interfaces (same tape format and
command line as harness/pbt.h).  Cases run in a forked child that records every choice in shared memory,
so a crash or hang of the library is a failing case like any other and shrinks the same way."""
import argparse, ctypes, hashlib, json, math, mmap, os, pickle, random, signal, struct, sys, time, traceback

CAP = 1 << 18


class Failure(Exception):
    def __init__(self, key, msg): self.key, self.msg = key, msg


class Discard(Exception):
    pass


class Src:
    def __init__(self, shared=None): self.tape = []; self.pos = 0; self.replay = False; self.shared = shared
    def start_random(self, seed): self.tape = []; self.pos = 0; self.replay = False; self.rng = random.Random(seed)
    def start_replay(self, t): self.tape = list(t); self.pos = 0; self.replay = True

    def raw(self, n):
        n = max(1, int(n))
        if self.replay:
            v = self.tape[self.pos] if self.pos < len(self.tape) else 0
            self.pos += 1
            return v if v < n else n - 1
        v = self.rng.randrange(n)
        self.tape.append(v); self.pos += 1
        if self.shared is not None and self.pos < CAP:
            struct.pack_into("<Q", self.shared, 16 + 8 * (self.pos - 1), v); struct.pack_into("<Q", self.shared, 8, self.pos)
        return v

    def range(self, lo, hi): return lo + self.raw(hi - lo + 1)
    def chance(self, num, den): return self.raw(den) >= den - num
    def unit(self): return self.raw(1 << 30) / (1 << 30)
    def pick(self, v): return v[self.raw(len(v))]
    def normal(self, sd=1.0): u = 1 - self.unit(); w = self.unit(); return sd * math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * w)
    def num(self, scale=3.0):
        k = self.raw(4)
        return float(self.range(0, 6) - 3) if k == 0 else (self.range(0, 24) - 12) / 4 if k == 1 else (self.unit() - 0.5) * 2 * scale if k == 2 else self.normal(scale * 0.5)
    def seed(self): return self.raw(1 << 30) + 1
    def sub(self):     # numpy generator for bulk data, seeded by one choice
        import numpy as np
        return np.random.default_rng(self.seed())


class Ctx:
    def __init__(self, describe=False): self.nontrivial = False; self.describe = describe; self.desc = ""; self.counts = {}
    def check(self, ok, key, msg=""):
        if not ok: raise Failure(key, msg() if callable(msg) else str(msg))
    def count(self, k, n=1):
        if n: self.counts[k] = self.counts.get(k, 0) + int(n)
    def note(self, s):
        if self.describe: self.desc += s


REG = {}
TIER = 0
PRE_FORK = []      # called in the parent before a case process is forked


def prop(name, rule, timeout=60):
    def w(f): REG[name] = (f, rule, timeout); return f
    return w


def run_case(fn, s, c):
    try: fn(s, c); return (0, "", "")
    except Failure as f: return (1, f.key, f.msg)
    except Discard: return (4, "", "")
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        return (1, "exception-" + type(x).__name__, "unexpected %s: %s (%s:%d)" % (type(x).__name__, str(x)[:400], os.path.basename(tb.filename), tb.lineno))


def quiet():
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    import warnings; warnings.simplefilter("ignore")


def forked(entry, tape, describe=False):
    fn, _, to = entry
    for f in PRE_FORK: f()
    r, w = os.pipe(); p = os.fork()
    if p == 0:
        try:
            os.close(r); quiet(); s = Src(); s.start_replay(tape); c = Ctx(describe)
            o = run_case(fn, s, c); d = pickle.dumps((o, c.desc)); os.write(w, d) if len(d) < 60000 else os.write(w, pickle.dumps(((o[0], o[1], o[2][:5000]), c.desc[:5000])))
        finally: os._exit(0)
    os.close(w); t0 = time.time(); st = None
    while time.time() - t0 < to:
        q, s_ = os.waitpid(p, os.WNOHANG)
        if q: st = s_; break
        time.sleep(0.003)
    if st is None:
        os.kill(p, signal.SIGKILL); os.waitpid(p, 0); os.close(r); return ((3, "hang", "case did not finish"), "")
    b = b""
    while True:
        k = os.read(r, 65536)
        if not k: break
        b += k
    os.close(r)
    try: return pickle.loads(b)
    except Exception: return ((2, "crash", "process died (status %d)" % st), "")


def shrink(entry, t, best, secs):
    t0 = time.time(); left = lambda: time.time() - t0 < secs
    if best[0] == 3: secs = 1
    def attempt(cand):
        nonlocal t, best
        if cand == t: return False
        o, _ = forked(entry, cand)
        if 1 <= o[0] <= 3 and o[1] == best[1]: t = cand; best = o; return True
        return False
    again = True
    while again and left():
        again = False; ln = max(1, len(t) // 2)
        while ln >= 1 and left():
            i = 0
            while i + ln <= len(t) and left():
                if attempt(t[:i] + t[i + ln:]): again = True
                else: i += max(1, ln // 2)
            ln //= 2
        i = 0
        while i < len(t) and left():
            if t[i]:
                if attempt(t[:i] + [0] + t[i + 1:]): again = True
                else:
                    step = t[i] // 2
                    while step >= 1 and left():
                        while i < len(t) and t[i] >= step and left():
                            if attempt(t[:i] + [t[i] - step] + t[i + 1:]): again = True
                            else: break
                        step //= 2
            i += 1
    return t, best


def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & (2**64 - 1); x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & (2**64 - 1)
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & (2**64 - 1); return x ^ (x >> 31)


def loop(entry, a, known, shared, w, start_n, secs):
    """child: run cases until the time is up or one fails"""
    quiet(); fn, rule, to = entry; t0 = time.time(); n = start_n; disc = 0; seen = set(); samples = []; counts = {}; hits = {}; bad = None
    s = Src(shared); started = ctypes.c_double.from_buffer(shared)     # one 8-byte store: the parent reads it while it changes
    while n < a.max and time.time() - t0 < secs:
        started.value = time.monotonic(); struct.pack_into("<Q", shared, 8, 0)
        s.start_random(mix(a.seed * 1000003 + a.worker) ^ mix(n * 7919 + 13)); c = Ctx(len(samples) < 4); n += 1
        o = run_case(fn, s, c)
        for k, v in c.counts.items(): counts[k] = counts.get(k, 0) + v
        if o[0] == 4: disc += 1; continue
        if o[0] == 1:
            if o[1] in known: hits[o[1]] = hits.get(o[1], 0) + 1; continue
            bad = (o, list(s.tape)); break
        if c.nontrivial:
            h = hashlib.blake2b(b",".join(b"%d" % v for v in s.tape), digest_size=8).digest()
            if h not in seen:
                seen.add(h)
                if c.desc and len(samples) < 4: samples.append(c.desc[:600])
    started.value = 0.0
    d = pickle.dumps((n, disc, seen, samples, counts, hits, bad)); off = 0
    while off < len(d): off += os.write(w, d[off:off + 65536])
    os._exit(0)


def main():
    global TIER
    ap = argparse.ArgumentParser()
    for o, ty, df in (("--prop", str, None), ("--seed", int, 1), ("--worker", int, 0), ("--secs", float, 5.0), ("--max", int, 1 << 60), ("--tier", int, 0), ("--out", str, ""), ("--hashes", str, ""),
                      ("--tape", str, ""), ("--known", str, ""), ("--shrink-secs", float, 25.0), ("--mode", str, "run")): ap.add_argument(o, type=ty, default=df)
    a = ap.parse_args(); TIER = a.tier
    import __main__
    if hasattr(__main__, "TIER_HOOK"): __main__.TIER_HOOK(a.tier)
    entry = REG[a.prop]; rd = lambda f: [int(x) for x in open(f).read().split("\n") if x.strip() and not x.startswith("#")]
    out = open(a.out, "w") if a.out else sys.stdout
    if a.mode in ("replay", "shrink"):
        t = rd(a.tape); o, _ = forked(entry, t)
        if a.mode == "shrink" and 1 <= o[0] <= 3:
            t, o = shrink(entry, t, o, a.shrink_secs); open(a.tape + ".min", "w").write("\n".join(map(str, t)) + "\n")
        _, d = forked(entry, t, True)
        json.dump({"kind": o[0], "key": o[1], "msg": o[2], "desc": d}, out); out.write("\n"); out.flush()
        sys.exit(1 if 1 <= o[0] <= 3 else 0)
    shared = mmap.mmap(-1, 16 + 8 * CAP); known = set(a.known.split(",")) if a.known else set(); r, w = os.pipe()
    for f in PRE_FORK: f()
    t0 = time.time(); p = os.fork()
    if p == 0:
        os.close(r); loop(entry, a, known, shared, w, 0, a.secs)
    os.close(w); os.set_blocking(r, False); buf = b""; hang = False; late = 0; started = ctypes.c_double.from_buffer(shared)
    while True:
        try:
            k = os.read(r, 1 << 20)
            if not k: break
            buf += k
        except BlockingIOError:
            st = started.value; late = late + 1 if st and time.monotonic() - st > entry[2] else 0
            if late > 25: os.kill(p, signal.SIGKILL); hang = True; break
            time.sleep(0.02)
    _, st = os.waitpid(p, 0)
    try: n, disc, seen, samples, counts, hits, bad = pickle.loads(buf)
    except Exception:
        n, disc, seen, samples, counts, hits = 1, 0, set(), [], {}, {}
        k = struct.unpack_from("<Q", shared, 8)[0]; tape = list(struct.unpack_from("<%dQ" % min(k, CAP - 1), shared, 16))
        bad = (((3, "hang", "case did not finish") if hang else (2, "crash", "process died (status %d)" % st)), tape)
    if a.hashes: open(a.hashes, "wb").write(b"".join(seen))
    rec = {"evaluations": n, "discarded": disc, "distinct": len(seen), "rule": entry[1], "counts": counts, "known": hits, "samples": samples}
    if bad:
        o, t = bad; o2, _ = forked(entry, t)
        if 1 <= o2[0] <= 3 and o2[1] == o[1]: t, o = shrink(entry, t, o2, a.shrink_secs)
        _, d = forked(entry, t, True)
        if a.tape: open(a.tape, "w").write("\n".join(map(str, t)) + "\n")
        rec["failure"] = {"kind": o[0], "key": o[1], "msg": o[2], "desc": d}
    json.dump(rec, out); out.write("\n"); out.flush()
    sys.exit(1 if bad else 0)
