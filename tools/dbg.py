"""Developer aid: explore one task in-process.  dbg.py PROP TASK [seconds] [--conc] [--prof] [--paths N]"""
import os, sys, time, traceback, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import symex.worker as W
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("task"); ap.add_argument("seconds", nargs="?", type=float, default=20)
ap.add_argument("--prof", action="store_true"); ap.add_argument("--conc"); ap.add_argument("--paths", type=int, default=10**6)
a = ap.parse_args()
zp = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if zp not in sys.path: sys.path.append(zp)
import symex.core as core
if a.conc:
    tasks = W.load_harness(a.prop, False)
    for t in tasks:
        if t.name == a.task:
            from symex.api import run_concrete
            import json
            r = run_concrete(t, json.loads(a.conc))
            for k, v in r.items(): print(k, str(v)[:3000])
    sys.exit()
tasks = W.load_harness(a.prop, True)
for t in tasks:
    if t.name != a.task: continue
    ex = core.Explorer(time.time() + a.seconds, max_paths=a.paths)
    conc = {}
    orig = core.Sx.concretize
    def c(self, v):
        st = traceback.extract_stack(limit=14)
        fr = [f for f in st if "noworkflow" in f.filename or "harness/" in f.filename]
        k = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in fr[-3:][::-1])
        conc[k] = conc.get(k, 0) + 1
        return orig(self, v)
    core.Sx.concretize = c
    t0 = time.time()
    if a.prof:
        import cProfile, pstats
        p = cProfile.Profile(); p.enable()
    ex.run(t)
    if a.prof:
        p.disable(); pstats.Stats(p).sort_stats("cumtime").print_stats(35)
    s = ex.stats
    print("paths", s.paths, "in %.1fs" % (time.time() - t0), "complete", ex.complete, ex.incompletes, "reached", ex.reached, "checks", s.checks, "disch", s.discharged, "aborted", s.aborted)
    print("concretized:", sorted(conc.items(), key=lambda x: -x[1])[:10])
    for v in [v for i, v in enumerate(ex.violations) if v['label'] not in [w['label'] for w in ex.violations[:i]]][:6]:
        print("VIOL", v["label"], v["inputs"]); 
        for k, i in v["info"].items(): print("    ", k, eval(i)[-700:] if k == "traceback" else i[:1500])
