#!/usr/bin/env python3
"""Self-test of the checks: applies small source edits to a scratch copy of /repo/include and runs a check on it.
usage: selftest/run.py [property ...]   Each entry in selftest/*.txt-like python lists: (id, property, kind, file, old, new)
kind 'bug' must be reported (exit 1), kind 'same' (behaviour-preserving) must stay quiet (exit 0)."""
import os, sys, shutil, subprocess, importlib.util, glob, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load():
    out = []
    for p in sorted(glob.glob(os.path.join(ROOT, "selftest", "m_*.py"))):
        sp = importlib.util.spec_from_file_location("m", p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        out += m.M
    return out

def one(e):
    mid, prop, kind, edits = e[0], e[1], e[2], e[3]
    d = tempfile.mkdtemp(prefix="svsmut-")
    try:
        shutil.copytree(os.environ.get("SELFTEST_REPO", "/repo") + "/include", d + "/repo/include")
        for f, old, new in edits:
            p = d + "/repo/include/svs/" + f
            s = open(p).read()
            if s.count(old) < 1: return mid, prop, kind, "EDIT-MISSING", f + ": " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        os.makedirs(d + "/v"); 
        for x in ("svsa", "harness", "tool"): shutil.copytree(f"{ROOT}/{x}", f"{d}/v/{x}")
        if os.path.exists(ROOT + "/known_findings.txt"): shutil.copy(ROOT + "/known_findings.txt", d + "/v/")
        os.symlink(f"{ROOT}/build", f"{d}/v/build")
        r = subprocess.run([sys.executable, "-m", "svsa.check", prop], cwd=d + "/v", env=dict(os.environ, SVS_REPO=d + "/repo"), capture_output=True, text=True)
        want = 1 if kind == "bug" else 0
        return mid, prop, kind, "ok" if r.returncode == want else f"WRONG rc={r.returncode}", (r.stdout + r.stderr)[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    sel = set(sys.argv[1:])
    L = [e for e in load() if not sel or e[1] in sel or e[0] in sel]
    bad = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for mid, prop, kind, st, txt in ex.map(one, L):
            print(f"{st:14s} {prop} {kind:4s} {mid}")
            if st != "ok": bad += 1; print("    " + txt.replace("\n", "\n    "))
            elif os.environ.get("V"): print("    " + txt.replace("\n", "\n    "))
    print(f"{len(L)} edits, {bad} unexpected")
    sys.exit(bad != 0)
