"""Check driver: python3 -m svsa.check <property>"""
import importlib, json, os, sys, time, traceback
from . import run
from .run import Broken

ROOT = run.ROOT


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = []          # (rule, instance, ok, where, why)
        self.functions = {}    # analysed function -> instructions
        self.rules = {}
        self.notes = []
        self.harnesses = []
        self.assumptions = []

    # -- running the analysis --------------------------------------------------------
    def analyse(self, harness, policy, **kw):
        m = run.analyse(harness, policy, **kw)
        self.harnesses.append(harness)
        self.track(m)
        return m

    def analyse_all(self, jobs):
        """[(harness, policy) or (harness, policy, kwargs)] analysed in parallel."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(jobs)) as ex:
            ms = list(ex.map(lambda j: run.analyse(j[0], j[1], **(j[2] if len(j) > 2 else {})), jobs))
        for j, m in zip(jobs, ms):
            self.harnesses.append(j[0])
            self.track(m)
        return ms

    def track(self, m):
        for f in m.fns:
            if f.r.get("capped"):
                raise Broken(f"function {f.name} exceeded the inlining budget")
            self.functions[f.name] = len(f.ins)

    def one(self, m, label):
        fs = m.get(label)
        if len(fs) != 1:
            raise Broken(f"anchor '{label}' matched {len(fs)} functions (expected 1)")
        return fs[0]

    # -- obligations -----------------------------------------------------------------
    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, inst, ok, where="", why=""):
        assert rule in self.rules, rule
        self.obs.append((rule, inst, bool(ok), where, why))
        return bool(ok)

    def need(self, cond, what):
        """A construct the rules are anchored in must be recognisable at all."""
        if not cond:
            raise Broken("anchor not found: " + what)
        return cond

    def minimum(self, rule, n):
        c = sum(1 for o in self.obs if o[0] == rule)
        if c < n:
            raise Broken(f"rule {rule} has {c} instances, expected at least {n}")


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                # known: property=<id> rule=<rule> instance=<instance> :: text
                head, _, txt = l[7:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 2))
                out.append((d["property"], d["rule"], d["instance"], txt))
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    ctx = Ctx(prop)
    mod = importlib.import_module("svsa.props." + prop.lower())
    err = None
    try:
        mod.check(ctx)
        if not ctx.obs:
            raise Broken("no obligations")
    except Broken as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    viol = [o for o in ctx.obs if not o[2]]
    kf = {(p, r, i): t for p, r, i, t in known_findings()}
    known = [o for o in viol if (prop, o[0], o[1]) in kf]
    new = [o for o in viol if (prop, o[0], o[1]) not in kf]
    wall = time.time() - t0
    per = {}
    for r, i, ok, w, y in ctx.obs:
        d = per.setdefault(r, {"text": ctx.rules[r], "instances": 0, "held": 0})
        d["instances"] += 1
        d["held"] += ok
    ev = {
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "functions_analysed": len(ctx.functions),
            "instructions_analysed": sum(ctx.functions.values()),
            "functions": sorted(ctx.functions)[:60],
            "harnesses": ctx.harnesses,
            "obligations": len(ctx.obs),
            "discharged": sum(1 for o in ctx.obs if o[2]),
            "rules": per,
            "samples": [f"{r}: {i} @ {w}" for r, i, ok, w, y in ctx.obs[:40]],
            "notes": ctx.notes,
        },
        "assumptions": ctx.assumptions + [
            "the analysed program is clang 18's IR of the harness instantiations, with the build's macros and NDEBUG",
            "functions of the standard library, fmt, toml++, tsl and spdlog behave as documented"],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    if err:
        ev["coverage"]["error"] = err
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r, i, ok, w, y in known:
        print(f"KNOWN-FINDING: property={prop} {r}: {i}: {y} [{w}]")
    if new:
        os.makedirs(os.path.join(ROOT, "build", "reports"), exist_ok=True)
        rp = os.path.join(ROOT, "build", "reports", prop + ".txt")
        with open(rp, "w") as f:
            for r, i, ok, w, y in new:
                f.write(f"property {prop} violated\n rule     : {r}: {ctx.rules[r]}\n instance : {i}\n where    : {w}\n because  : {y}\n\n")
        for r, i, ok, w, y in new:
            print(f"  {r} [{i}] at {w}: {y}")
        print(f"VIOLATION property={prop} replay={rp}")
        if err:
            print("note: analysis also incomplete: " + err.splitlines()[-1])
        sys.exit(1)
    if err:
        print(f"ANALYSIS-BROKEN property={prop}: {err}")
        sys.exit(3)
    print(f"OK property={prop} obligations={len(ctx.obs)} functions={len(ctx.functions)} wall={wall:.1f}s")


if __name__ == "__main__":
    main()
