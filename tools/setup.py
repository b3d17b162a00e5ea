"""Builds everything the checks use from /repo's current tree (each check also rebuilds what it needs)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
sys.dont_write_bytecode = True
import check, vbuild
done = set()
for ts in check.TASKS.values():
    for t in ts:
        k = (t[0], t[1], t[2]) if t[0] == "cpp" else (t[0], "xlang" if t[1] == "xlang_props" else "", "")
        if k not in done:
            done.add(k); print(check.command(t)[0][0], flush=True)
