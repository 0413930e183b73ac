"""Runs one scenario in the foreground with tracebacks: debug.py c01 file.json [hang-seconds]"""
import json, os, sys, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import build
if "VERIF_EXT" not in os.environ:
    ext, seam = build.build()
    job = json.load(open(sys.argv[2])); job = job.get("scenario", job)
    env = dict(os.environ, VERIF_EXT=ext, LD_PRELOAD=seam, PYTHONHASHSEED=str(job.get("hs", 0)), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", OPENCV_FOR_THREADS_NUM="1", MPLCONFIGDIR=build.OUT + "/mpl", MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", GLOG_minloglevel="3")
    sys.exit(subprocess.call([build.PY] + sys.argv, env=env))
from sim import boot, sched, simproc
boot.boot()
import importlib, faulthandler
mod = importlib.import_module("checks." + sys.argv[1])
if hasattr(mod, "prepare"): mod.prepare()
job = json.load(open(sys.argv[2])); job = job.get("scenario", job)
hang = float(sys.argv[3]) if len(sys.argv) > 3 else 0
if hang:
    oc = simproc._child
    def child(*a):
        def dump():
            sched.REAL["sleep"](hang)
            s = sched.S
            for t in s.ths: print(t.tid, t.state, t.deadline, t.stalled_until, t.go.locked(), t.ident, t is s.cur, file=sys.stderr)
            print("now", s.now, "step", s.step, file=sys.stderr)
            faulthandler.dump_traceback(); os._exit(1)
        sched.RAW_START(dump, ())
        oc(*a)
    simproc._child = child
root = tempfile.mkdtemp(prefix="osfm-dbg-"); 
try:
    r = mod.run(job, root)
    r.pop("devs", None)
    print(json.dumps(r, indent=1, default=str))
finally:
    if not os.environ.get("KEEP"): shutil.rmtree(root)
    else: print(root)
