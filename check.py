#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only KEY [--prog NAME]]

Compiles the property's harness programs against the current tree of /repo in a scratch directory, explores all
shards, replays what fails, compares with known_findings.json, writes evidence/<id>.json."""
import sys, os, json, re, subprocess, tempfile, shutil, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import PROPS, CXX_LIBS
NPROC = min(8, os.cpu_count() or 8)

class CheckError(Exception): pass

def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        return -999, o.decode(errors="replace"), e.decode(errors="replace")

def compile_cxx(prog, build):
    exe = os.path.join(build, prog["name"])
    cmd = [os.environ.get("CXX", "g++"), "-std=c++17", prog.get("opt", "-O1"), "-DNDEBUG=1", "-D_GLIBCXX_ASSERTIONS", "-w",
           "-I" + REPO, "-I/usr/include/opencascade", "-I" + os.path.join(HERE, "harness")]
    cmd += prog.get("flags", []) + [os.path.join(HERE, "harness", prog["src"]), "-o", exe] + CXX_LIBS
    rc, o, e = sh(cmd, 800)
    if rc: raise CheckError("harness %s does not compile against the current tree:\n%s" % (prog["src"], (o + e)[-4000:]))
    return [exe]

PYMODS = ["common", "precision", "geometry", "entitynetwork", "sampling", "io", "occutilities"]
def compile_python(build):
    """Builds the Python package of the current tree (only what is needed: all modules) into build/py/frackit."""
    root = os.path.join(build, "py", "frackit")
    os.makedirs(root)
    inc = ["-I" + p for p in ("/usr/include/python3.12",)]
    def one(m):
        d = os.path.join(root, m)
        shutil.copytree(os.path.join(REPO, "python/frackit", m), d)
        rc, o, e = sh(["g++", "-std=c++17", "-O1" if m not in ("geometry", "entitynetwork") else "-O0", "-fPIC", "-shared", "-fvisibility=hidden", "-DNDEBUG=1", "-w", "-I" + REPO, "-I/usr/include/opencascade"]
                      + inc + [os.path.join(REPO, "python/frackit", m, "_%s.cc" % m), "-o",
                      os.path.join(d, "_%s.cpython-312-x86_64-linux-gnu.so" % m)] + CXX_LIBS, 800)
        if rc: raise CheckError("python module %s does not compile:\n%s" % (m, (o + e)[-4000:]))
    with cf.ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, PYMODS))
    if os.path.exists(os.path.join(REPO, "python/frackit/__init__.py")):
        shutil.copy(os.path.join(REPO, "python/frackit/__init__.py"), root)
    return os.path.join(build, "py")

def parse(out):
    fails, crash, stats = [], None, None
    for line in out.split("\n"):
        if line.startswith("FAIL\t"):
            f = line.split("\t"); fails.append((f[1], f[2], "\t".join(f[3:])))
        elif line.startswith("CRASH\t"):
            f = line.split("\t"); crash = (f[1], f[2])
        elif line.startswith("STATS\t"): stats = json.loads(line[6:])
    return fails, crash, stats

class Program:
    def __init__(self, prog, build):
        self.p = prog; self.build = build; self.cmd = None; self.env = dict(os.environ)
        self.env["VERIF_SCRATCH"] = build; self.env["VERIF_REPO"] = REPO
        self.env["ASAN_OPTIONS"] = "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:abort_on_error=1:detect_stack_use_after_return=0:detect_container_overflow=0"
        self.env["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1:halt_on_error=1"
    def prepare(self):
        if self.p["src"].endswith(".py"):
            self.cmd = ["/usr/bin/python3.12", os.path.join(HERE, "harness", self.p["src"])]
            self.env["PYTHONPATH"] = os.path.join(self.build, "py") + ":" + os.path.join(HERE, "harness")
            self.env["PYTHONDONTWRITEBYTECODE"] = "1"
            self.env["PYTHONHASHSEED"] = "0"
        else:
            self.cmd = compile_cxx(self.p, self.build)
        self.cmd += self.p.get("args", [])
    def run(self, tier, shard=None, only=None, limit=1500, case_timeout=None):
        c = list(self.cmd) + ["--tier", tier, "--case-timeout", str(case_timeout or self.p.get("case_timeout", 60))]
        if shard: c += ["--shard", str(shard[0]), str(shard[1])]
        if only: c += ["--only", only]
        d = tempfile.mkdtemp(dir=self.build)
        try: rc, o, e = sh(c, limit, cwd=d, env=self.env)
        finally: shutil.rmtree(d, ignore_errors=True)
        fails, crash, stats = parse(o)
        if rc == -999 and not crash: crash = ("(shard)", "TIMEOUT of the whole shard after %d s" % limit)
        elif rc != 0 and not crash: crash = ("(unknown)", "exit %d: %s" % (rc, e[-600:].replace("\n", " ")))
        elif rc == 0 and stats is None: crash = ("(unknown)", "no statistics: " + e[-400:])
        if crash and e: crash = (crash[0], crash[1] + " | " + " ".join(e.split())[:500])
        return fails, crash, stats

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; prog = None; keep = False
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i+1]; i += 2
        elif a[i] == "--only": only = a[i+1]; i += 2
        elif a[i] == "--prog": prog = a[i+1]; i += 2
        else: raise SystemExit("unknown argument " + a[i])
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time(); spec = PROPS[pid]
    build = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try: return explore(pid, spec, tier, only, prog, build, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e)); return 2
    finally: shutil.rmtree(build, ignore_errors=True)

def explore(pid, spec, tier, only, prog, build, t0):
    programs = [Program(p, build) for p in spec["programs"] if (not prog or p["name"] == prog) and (tier == "thorough" or not p.get("thorough_only"))]
    jobs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        if any(p.p["src"].endswith(".py") for p in programs): jobs.append(ex.submit(compile_python, build))
        jobs += [ex.submit(p.prepare) for p in programs]
        for j in jobs: j.result()
    tcompile = time.time() - t0
    # explore all shards of all programs
    tasks = []
    for p in programs:
        n = 1 if only else p.p.get("shards", NPROC)
        tasks += [(p, (s, n)) for s in range(n)]
    failures, crashes, per_prog = [], [], {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda t: t[0].run(tier, None if only else t[1], only, limit=(840 if tier == "quick" else 7200)), tasks))
    for (p, shard), (fails, crash, stats) in zip(tasks, res):
        for f in fails: failures.append((p, shard) + f)
        if crash: crashes.append((p, shard) + crash)
        agg = per_prog.setdefault(p.p["name"], dict(states=0, transitions=0, evaluations=0, traces=0, skipped=0, duplicates=0, outcomes={}, samples=[]))
        if stats:
            for k in ("states", "transitions", "evaluations", "traces", "skipped", "duplicates"): agg[k] += stats.get(k, 0)
            for k, v in stats["outcomes"].items(): agg["outcomes"][k] = agg["outcomes"].get(k, 0) + v
            if len(agg["samples"]) < 6: agg["samples"] += stats["samples"][:2]
    # a crash or hang of one case is replayed alone, with a longer limit
    for p, shard, key, why in crashes:
        if key.startswith("("):
            f2, c2, s2 = p.run(tier, shard, limit=1700)
        else:
            f2, c2, s2 = p.run(tier, only=key, limit=600, case_timeout=max(240, 3 * p.p.get("case_timeout", 60)))
            if not c2 and not f2: f2, c2, s2 = p.run(tier, shard, limit=1700, case_timeout=max(240, 3 * p.p.get("case_timeout", 60)))
        if c2:
            if key.startswith("(") and ("TIMEOUT" in why or "Traceback" in why or "exit" in why):
                raise CheckError("program %s shard %s gives no answer: %s" % (p.p["name"], shard, why))
            failures.append((p, shard, key, "crash", c2[1]))
        else:
            failures += [(p, shard) + f for f in f2]
            if not f2: raise CheckError("program %s: %s of case %s does not reproduce" % (p.p["name"], why, key))
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid and k["status"] == "known"]
    new, hit = [], {}
    for f in failures:
        ident = f[0].p["name"] + "|" + f[2] + "|" + f[3]
        k = next((k for k in known if re.fullmatch(k["match"], ident)), None)
        if k: hit.setdefault(k["id"], []).append(f)
        else: new.append(f)
    for k in known:
        if k["id"] in hit: print("KNOWN-FINDING: property=%s %s (%d cases of this run)" % (pid, k["what"], len(hit[k["id"]])))
    # replay before report
    violations, seen = [], set()
    for f in new:
        p, shard, key, what, msg = f
        cls = (p.p["name"], what)
        if cls in seen or len(violations) >= 5: continue
        how = None
        if what == "crash": how = ("case", key)
        else:
            f2, c2, _ = p.run(tier, only=key, limit=900)
            if any(x[1] == what for x in f2) or c2: how = ("case", key)
            else:
                f2, c2, _ = p.run(tier, shard, limit=1700)
                if any(x[0] == key and x[1] == what for x in f2): how = ("shard", shard)
        if not how: raise CheckError("failure does not reproduce: %s %s %s" % (key, what, msg))
        seen.add(cls)
        violations.append((p, shard, key, what, msg, how))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, oracle_evaluations=0, skipped_tolerance_band=0, outcomes={}, programs_detail={}, samples=[])
    for name, g in per_prog.items():
        cov["states"] += g["states"]; cov["transitions"] += g["transitions"]; cov["traces_validated_against_impl"] += g["traces"]
        cov["oracle_evaluations"] += g["evaluations"]; cov["skipped_tolerance_band"] += g["skipped"]
        cov["programs_detail"][name] = {k: g[k] for k in ("states", "transitions", "evaluations", "duplicates")}
        for o, n in g["outcomes"].items(): cov["outcomes"][name + ": " + o] = n
        cov["samples"] += [name + ": " + s for s in g["samples"][:3]]
    cov["exhaustive"] = not crashes and not only
    cov["rule"] = spec["rule"]; cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
    cov["model_binding"] = "the reference model runs in lock step with the real code: every state counted under traces_validated_against_impl was reached by executing /repo's code, and its observers were compared with the model"
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), compile_s=round(tcompile, 1), violations=len(new), known_findings=sorted(hit))
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: states=%d transitions=%d evaluations=%d failures=%d new=%d known=%d compile=%.0fs wall=%.0fs" %
          (pid, tier, cov["states"], cov["transitions"], cov["oracle_evaluations"], len(failures), len(new), sum(map(len, hit.values())), tcompile, time.time() - t0))
    if not violations:
        if not only and (cov["states"] < spec.get("min_states", 10)): raise CheckError("vacuous exploration")
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for n, (p, shard, key, what, msg, how) in enumerate(violations):
        rp = os.path.join(HERE, "replays", "%s-%d.json" % (pid, n))
        json.dump(dict(property=pid, program=p.p["name"], tier=tier, key=key, shard=list(shard), check=what, message=msg, reproduced_by=how[0],
                       replay="python3 check.py %s --tier %s --prog %s --only '%s'" % (pid, tier, p.p["name"], key)), open(rp, "w"), indent=1)
        print("  %s | %s | %s | %s" % (p.p["name"], key, what, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1

if __name__ == "__main__":
    sys.exit(main())
