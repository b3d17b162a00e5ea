#!/usr/bin/env python3
"""Runs one property check:  check.py P07 quick|thorough   or   check.py replay FILE

Builds what the property needs from /repo's current tree, starts eight seeded generator
processes, aggregates what they covered into evidence/<id>.json, and on a failure shrinks it,
confirms it by replay and prints a VIOLATION line."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import vbuild

VENV_PY = "/opt/vp/venv/bin/python"
# property -> list of (engine, module, variant, entry, share of the workers)
CPP = lambda h, v, e, w=1: ("cpp", h, v, e, w)
PY = lambda m, e, w=1: ("py", m, "", e, w)
RR = lambda m, e, w=1: ("r", m, "", e, w)
TASKS = {
    "P01": [CPP("trees", "san", "P01")],
    "P02": [CPP("trees", "san", "P02")],
    "P03": [CPP("trees", "san", "P03")],
    "P04": [CPP("trees", "san", "P04"), CPP("trees", "san", "P04s")],
    "P05": [CPP("sampling", "san", "P05")],
    "P06": [CPP("sampling", "san", "P06", 4), PY("api_props", "P06py", 2), RR("api_props", "P06r", 2)],
    "P07": [CPP("sampling", "san", "P07")],
    "P08": [CPP("law", "opt", "P08")],
    "P09": [CPP("sampling", "san", "P09")],
    "P10": [CPP("sampling", "san", "P10")],
    "P11": [CPP("law", "opt", "P11")],
    "P12": [CPP("law", "opt", "P12"), CPP("law", "opt", "P12g")],
    "P13": [CPP("law", "opt", "P13")],
    "P14": [CPP("law", "opt", "P14", 2), CPP("law", "opt", "P14g", 2), RR("rhyper_props", "P14r", 3)],
    "P15": [CPP("data", "san", "P15")],
    "P16": [CPP("data", "san", "P16"), PY("core_props", "P16py"), PY("core_props", "P16res"), RR("rdata_props", "P16r"), RR("rdata_props", "P16rs")],
    "P17": [PY("seed_props", "P17py", 2), PY("seed_props", "P17fresh", 2), PY("seed_props", "P17step"), RR("xlang_props", "P17x"), RR("xlang_props", "P17r", 2)],
    "P18": [PY("bart_props", "P18", 3), PY("bart_props", "P18v")],
    "P19": [PY("bcf_props", "P19", 2), PY("bcf_props", "P19r"), PY("bcf_props", "P19v")],
    "P20": [RR("rbart_props", "P20", 3), RR("rbart_props", "P20v")],
    "P21": [RR("rbcf_props", "P21", 2), RR("rbcf_props", "P21json"), RR("rbcf_props", "P21v")],
    "P22": [PY("prep_props", "P22")],
    "P23": [RR("rprep_props", "P23", 3), RR("rprep_props", "P23cov")],
    "P24": [RR("rkernel_props", "P24", 2), RR("rkernel_props", "P24m"), CPP("trees", "san", "P24c")],
    "P25": [PY("core_props", "P25py"), RR("rjson_props", "P25R")],
    "P26": [CPP("data", "san", "P26")],
    "P27": [PY("reject_props", "P27py"), RR("rreject_props", "P27r")],
    "P28": [PY("hyper_props", "P28py"), PY("hyper_props", "P28pyd"), PY("hyper_props", "P28pyl"), PY("hyper_props", "P28pyt"), RR("rhyper_props", "P28r"), RR("rhyper_props", "P28rd"), RR("rhyper_props", "P28rl"), RR("rhyper_props", "P28rt")],
}
QUICK_SECS, THOROUGH_SECS = 20, 420
QUICK_MORE = {"P28": 45, "P21": 30, "P20": 25, "P19": 25, "P27": 25}      # many engines, slow cases
TECH = "property-based testing"
ASSUME = {
    "cpp": "library sources compiled from /repo with -std=c++17; 'san' harnesses under AddressSanitizer and UBSan",
    "py": "extension module built from /repo/src/py_stochtree.cpp, package imported from /repo/stochtree",
    "r": "shared library built from /repo/src, R sources sourced from /repo/R",
}


def command(task):
    eng, mod, var, entry, _ = task
    if eng == "cpp":
        return [vbuild.harness(mod, var), "--prop", entry], {}
    if eng == "py":
        so = vbuild.pyext()
        return [VENV_PY, os.path.join(VERIF, "py", mod + ".py"), "--prop", entry], {"PYTHONPATH": os.path.dirname(so) + ":" + vbuild.REPO}
    if eng == "r":
        so = vbuild.rext()
        env = {"VP_R_SO": so}
        if mod in ("xlang_props", "api_props"):
            py = vbuild.pyext(); env["PYTHONPATH"] = os.path.dirname(py) + ":" + vbuild.REPO
        return [VENV_PY, os.path.join(VERIF, "py", mod + ".py"), "--prop", entry], env
    raise SystemExit("unknown engine")


def environ(extra):
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1",
              "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
              "VP_REPO": vbuild.REPO, "LC_ALL": "C.UTF-8", "R_LIBS_USER": "/nonexistent"})
    e.update(extra)
    return e


def known_findings(pid):
    out = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def replay_once(cmd, env, tape, tmp, tier, secs=300):
    out = os.path.join(tmp, "replay.json")
    try:
        p = subprocess.run(cmd + ["--mode", "replay", "--tape", tape, "--out", out, "--tier", str(tier)], env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs)
    except subprocess.TimeoutExpired:
        return True, {"key": "hang", "msg": "replay did not finish", "desc": ""}
    try:
        info = json.load(open(out))
    except Exception:
        info = {}
    return p.returncode != 0, info


def main():
    if sys.argv[1] == "replay":
        return do_replay(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("VP_SECS", QUICK_MORE.get(pid, QUICK_SECS) if tier == "quick" else THOROUGH_SECS))
    tn = 0 if tier == "quick" else 1
    try:
        cmds = [command(t) for t in TASKS[pid]]
    except vbuild.BuildError as e:
        print("BUILD FAILED\n" + str(e)[:4000])
        return 2
    built = time.time() - t0
    known = known_findings(pid)
    tmp = tempfile.mkdtemp(prefix="vpcheck_")
    procs = []
    try:
        # spread eight workers over the entries
        slots = [i for i, t in enumerate(TASKS[pid]) for _ in range(t[4])]
        while len(slots) < 8:
            slots += [i for i, t in enumerate(TASKS[pid]) for _ in range(t[4])]
        slots = slots[:8] if len(TASKS[pid]) <= 8 else slots
        for w, ti in enumerate(slots):
            cmd, ex = cmds[ti]
            b = os.path.join(tmp, "w%d" % w); os.mkdir(b)
            a = cmd + ["--seed", str(seed), "--worker", str(w), "--secs", str(secs), "--tier", str(tn), "--out", b + "/out.json", "--hashes", b + "/hashes", "--tape", b + "/tape", "--shrink-secs", "25" if tn == 0 else "60"]
            if known: a += ["--known", ",".join(known)]
            env = environ(ex); env["TMPDIR"] = b
            procs.append((ti, b, subprocess.Popen(a, env=env, cwd=b, stdout=open(b + "/stdout", "w"), stderr=open(b + "/stderr", "w"))))
        limit = t0 + built + secs + 200
        failed = []; t_fail = None
        while any(p.poll() is None for _, _, p in procs) and time.time() < limit:
            failed = [(ti, b, p) for ti, b, p in procs if p.poll() not in (None, 0)]
            if failed and t_fail is None: t_fail = time.time()
            if failed and time.time() - t_fail > 2: break
            time.sleep(0.1)
        stuck = [(ti, b, p) for ti, b, p in procs if p.poll() is None]
        failed = [(ti, b, p) for ti, b, p in procs if p.poll() not in (None, 0)]
        for _, _, p in stuck: p.kill()
        for _, _, p in procs: p.wait()
        cov = collect(TASKS[pid], procs)
        notes = []
        if stuck and not failed: notes.append("%d workers exceeded the time limit and were stopped" % len(stuck))
        violation = None
        for ti, b, p in failed:
            violation = confirm(pid, tier, tn, TASKS[pid][ti], cmds[ti], ti, b, p, tmp, notes, known)
            if violation: break
        hits = cov.pop("known_hits")
        for k, d in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2),
              "assumptions": sorted({ASSUME[t[0]] for t in TASKS[pid]}) + notes, "violations": [violation] if violation else []}
        if known: cov["known_findings_hit"] = {k: hits.get(k, 0) for k in known}
        cov["build_s"] = round(built, 1)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, built, "".join("; " + n for n in notes)))
        if violation:
            print("  key:  %s\n  what: %s\n  case: %s" % (violation["key"], violation["msg"][:600], violation["desc"][:900]))
            print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
            return 1
        if cov["evaluations"] == 0:
            print("no case was evaluated"); return 2
        return 0
    finally:
        for _, _, p in procs:
            if p.poll() is None: p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def collect(tasks, procs):
    ev = dist = disc = 0; samples = []; rules = []; counts = {}; hits = {}; per = {}
    allh = {}
    for ti, b, p in procs:
        name = tasks[ti][3]
        try: d = json.load(open(b + "/out.json"))
        except Exception: d = {}
        ev += d.get("evaluations", 0); disc += d.get("discarded", 0)
        q = per.setdefault(name, {"evaluations": 0}); q["evaluations"] += d.get("evaluations", 0)
        r = d.get("rule")
        if r and (name + ": " + r) not in rules: rules.append(name + ": " + r)
        for k, v in d.get("counts", {}).items(): counts[k] = counts.get(k, 0) + v
        for k, v in d.get("known", {}).items(): hits[k] = hits.get(k, 0) + v
        for s in d.get("samples", [])[:2]: samples.append(name + ": " + s)
        try:
            raw = open(b + "/hashes", "rb").read()
            allh.setdefault(name, set()).update(raw[i:i + 8] for i in range(0, len(raw), 8))
        except OSError: pass
    for k, v in allh.items(): per[k]["distinct_nontrivial"] = len(v)
    out = {"evaluations": ev, "distinct_nontrivial": sum(len(v) for v in allh.values()),
           "rule": "seeded random choice sequences; a case is non-trivial when: " + " | ".join(rules), "samples": samples[:8], "discarded": disc, "known_hits": hits}
    if len(per) > 1: out["per_entry"] = per
    if counts: out["counts"] = counts
    return out


def confirm(pid, tier, tn, task, cmd, ti, b, p, tmp, notes, known):
    cmd, ex = cmd
    env = environ(ex); env["TMPDIR"] = b
    tape = b + "/tape"
    info = {}
    try: info = json.load(open(b + "/out.json")).get("failure") or {}
    except Exception: pass
    err = open(b + "/stderr", errors="replace").read()
    if not os.path.exists(tape):
        notes.append("worker for %s ended with status %s and left no case: %s" % (task[3], p.returncode, err[-300:])); return None
    if not info:     # died before reporting: shrink in a fresh process
        out = b + "/shrink.json"
        try:
            subprocess.run(cmd + ["--mode", "shrink", "--tape", tape, "--out", out, "--tier", str(tn), "--shrink-secs", "25"], env=env, cwd=b, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
            info = json.load(open(out))
            if os.path.exists(tape + ".min"): shutil.copy(tape + ".min", tape)
        except Exception: info = {"key": "crash", "msg": "process died", "desc": ""}
        m = re.search(r"(ERROR: AddressSanitizer.*|runtime error:.*)", err)
        if m: info["msg"] = (info.get("msg", "") + " | " + m.group(1))[:500]
    if info.get("key") in known: return None
    ok = 0
    for _ in range(3):
        f, i2 = replay_once(cmd, env, tape, tmp, tn)
        if f:
            ok += 1
            if i2.get("desc"): info["desc"] = i2["desc"]
            if i2.get("key") in known: return None
    if not ok:
        notes.append("a %s failure of %s did not reproduce from its recorded case (0 of 3): %s" % (info.get("key"), task[3], info.get("msg", "")[:200])); return None
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", info.get("key", "fail"))[:40], int(time.time())))
    rec = {"property": pid, "tier": tn, "task": list(task), "tape": [int(x) for x in open(tape).read().split("\n") if x.strip() and not x.startswith("#")],
           "key": info.get("key", ""), "msg": info.get("msg", ""), "desc": info.get("desc", ""), "reproduced": "%d/3" % ok, "how": "python3 /verif/check.py replay " + path}
    with open(path, "w") as f: json.dump(rec, f, indent=1)
    return {"key": rec["key"], "msg": rec["msg"], "desc": rec["desc"], "replay": path, "reproduced": rec["reproduced"]}


def do_replay(path):
    rec = json.load(open(path)); cmd, ex = command(tuple(rec["task"]))
    tmp = tempfile.mkdtemp(prefix="vpreplay_")
    try:
        t = os.path.join(tmp, "tape"); open(t, "w").write("\n".join(map(str, rec["tape"])) + "\n")
        env = environ(ex); env["TMPDIR"] = tmp
        f, info = replay_once(cmd, env, t, tmp, rec["tier"])
        print(json.dumps(info, indent=1))
        if f: print("VIOLATION property=%s replay=%s" % (rec["property"], path)); return 1
        return 0
    finally: shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
