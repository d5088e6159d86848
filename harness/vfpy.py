# Exploration runtime for Python harnesses (same protocol as vf.hh).
import sys, json, hashlib, signal, math, os
shard, nshards, thorough, only, case_timeout = 0, 1, False, None, 60
cur = "(start)"; seen = set(); outcomes = {}; samples = []; perclass = {}
n = dict(states=0, transitions=0, evaluations=0, traces=0, skipped=0, fails=0, duplicates=0)
def _alarm(*_):
    sys.__stdout__.write("\nCRASH\t%s\tHANG (time limit of one case)\n" % cur); sys.__stdout__.flush(); os._exit(71)
def init(argv=None):
    global shard, nshards, thorough, only, case_timeout
    a = sys.argv[1:] if argv is None else argv; i = 0
    while i < len(a):
        if a[i] == "--shard": shard, nshards = int(a[i + 1]), int(a[i + 2]); i += 3
        elif a[i] == "--tier": thorough = a[i + 1] == "thorough"; i += 2
        elif a[i] == "--only": only = a[i + 1]; i += 2
        elif a[i] == "--case-timeout": case_timeout = int(a[i + 1]); i += 2
        else: i += 1
    import warnings; warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    import faulthandler; faulthandler.enable()
def begin(key):
    global cur
    if only is not None:
        if key != only: return False
    elif int(hashlib.md5(key.encode()).hexdigest()[:8], 16) % nshards != shard: return False
    if key in seen: n["duplicates"] += 1; return False
    seen.add(key); n["states"] += 1; n["traces"] += 1; cur = key
    if n["states"] in (1, 50, 500) and len(samples) < 4: samples.append(key)
    signal.alarm(case_timeout); return True
def step(k=1): n["transitions"] += k
def outcome(o): outcomes[o] = outcomes.get(o, 0) + 1
def skip(): n["skipped"] += 1
def _clean(s): return str(s).replace("\n", " ").replace("\t", " ")
def fail(what, msg):
    n["fails"] += 1; perclass[what] = perclass.get(what, 0) + 1
    if perclass[what] <= 400: print("FAIL\t%s\t%s\t%s" % (_clean(cur), _clean(what), _clean(msg)), file=sys.__stdout__); sys.__stdout__.flush()
def check(cond, what, msg=""):
    n["evaluations"] += 1
    if not cond: fail(what, msg() if callable(msg) else msg)
    return bool(cond)
def guarded(what, f, *a):
    try: return True, f(*a)
    except Exception as e:
        n["evaluations"] += 1; fail(what, "unexpected exception %s: %s" % (type(e).__name__, e)); return False, None
def close(a, b, tol): return math.isfinite(a) and abs(a - b) <= tol
def finish():
    signal.alarm(0); print("STATS\t" + json.dumps(dict(n, outcomes=outcomes, samples=samples)), file=sys.__stdout__); sys.__stdout__.flush(); os._exit(0)
