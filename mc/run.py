#!/usr/bin/env python3
"""Builds the harnesses of one property against /repo's working tree, explores them, reports.

  run.py --setup | run.py <ID> | run.py <ID> --replay <file> | run.py --list
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  2: the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XME_REPO", "/repo")
MC = os.path.join(ROOT, "mc")
JOBS = 8
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEADLINE = 840 if TIER == "quick" else 6 * 3600

BASE = ["-std=c++20", "-w", "-I" + REPO + "/include", "-I" + MC, "-ftemplate-depth=2048"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-fno-sanitize=null,alignment" ]
SAN_FULL = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
REL = ["-O2", "-DNDEBUG"]
G, C = "g++", "clang++"

def unit(src, variants=("san", "rel"), flags=(), libs=(), cxx=G, name=None, extra_src=()):
    v = {"san": SAN_FULL, "rel": REL}
    out = []
    for k in variants:
        out.append(dict(name=(name or os.path.splitext(src)[0]) + "." + k, src=src, cxx=cxx,
                        flags=v[k] + list(flags), libs=list(libs), extra_src=list(extra_src), variant=k))
    return out

def wm_unit(src):
    out = []
    for k, f in (("dbg", ["-O1", "-g1"]), ("rel", ["-O2", "-DNDEBUG"])):
        out.append(dict(name=os.path.splitext(src)[0] + "." + k, src=src, cxx=G, flags=f + ["-fsanitize=thread"], libs=[],
                        extra_src=[], variant=k, wm=True))
    return out

CHECKS = {}
def check(pid, *units, **kw):
    us = []
    for u in units:
        us += u
    CHECKS[pid] = dict(units=us, **kw)

exec(open(os.path.join(MC, "checks.py")).read())

TRAIL_FMT = "<IIQIII"
def read_trail(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        magic, status, execs, n, loglen, msglen = struct.unpack_from(TRAIL_FMT, b, 0)
        off = struct.calcsize(TRAIL_FMT)
        ch = list(struct.unpack_from("<%dI" % min(n, 4096), b, off))
        off += 4096 * 4
        msg = b[off:off + 4096].split(b"\0")[0].decode("utf8", "replace")
        off += 4096
        log = b[off:off + 16384].split(b"\0")[0].decode("utf8", "replace")
        return dict(status=status, execs=execs, choices=ch, msg=msg, log=log)
    except Exception as e:
        return dict(status=0, execs=0, choices=[], msg="", log="")

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=41:abort_on_error=0:detect_stack_use_after_return=0:"
                        "allocator_may_return_null=1:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=8:quarantine_size_mb=16",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=41")
procs, plock, stop = set(), threading.Lock(), threading.Event()

def sh(cmd, timeout, cwd=None, out=None):
    """runs cmd; returns (rc, output tail, timed out)"""
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=ENV, start_new_session=True)
        with plock:
            procs.add(p)
        to = False
        try:
            t0 = time.time()
            while True:
                try:
                    p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() - t0 > timeout or stop.is_set():
                        to = True
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.wait()
                        break
        finally:
            with plock:
                procs.discard(p)
        n = f.tell()
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 60000))
        return p.returncode, f.read().decode("utf8", "replace"), to

def compile_cmd(u, exe):
    if u.get("wm"):  # the code under test calls __tsan_*, which wm_rt.cpp implements
        import shlex
        q = " ".join(map(shlex.quote, BASE))
        return ["sh", "-c", "%s %s -O2 -c %s -o %s.rt.o && %s %s %s -c %s -o %s.o && %s %s.o %s.rt.o -o %s" % (
            u["cxx"], q, os.path.join(MC, "wm_rt.cpp"), exe, u["cxx"], q, " ".join(u["flags"]), os.path.join(MC, u["src"]), exe, u["cxx"], exe, exe, exe)]
    src = u["src"] if os.path.isabs(u["src"]) else os.path.join(MC, u["src"])
    return [u["cxx"]] + BASE + u["flags"] + [src] + [os.path.join(MC, s) for s in u["extra_src"]] + ["-o", exe] + u["libs"]

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out

def job_cmd(exe, j, trail, out=None, replay=None):
    cmd = [exe, "--scenario", j["scenario"], "--trail", trail, "--seed", str(SEED)]
    if out:
        cmd += ["--out", out]
    if TIER == "thorough":
        cmd.append("--thorough")
    if j["shards"] > 1:
        cmd += ["--shard", "%d/%d" % (j["shard"], j["shards"])]
    if replay is not None:
        cmd += ["--replay", ",".join(map(str, replay))]
    return cmd

def summarize(txt):
    for pat in (r"(ERROR: AddressSanitizer: .*)", r"(runtime error: .*)", r"(SUMMARY: .*)", r"^(mc: .*)"):
        m = re.search(pat, txt, re.M)
        if m:
            return m.group(1)[:300]
    return txt.strip().splitlines()[-1][:300] if txt.strip() else ""

def write_replay(pid, u, j, trail, txt, kind):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1((u["name"] + json.dumps(j) + json.dumps(trail["choices"])).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, kind=kind, unit=u["name"], scenario=j.get("scenario"), shard=j.get("shard", 0),
                       shards=j.get("shards", 1), tier=TIER, choices=trail["choices"], message=trail["msg"],
                       trace=trail["log"].splitlines(), output=txt[-8000:],
                       compile=" ".join(compile_cmd(u, "/tmp/harness")),
                       how_to_replay="python3 mc/run.py %s --replay %s" % (pid, os.path.relpath(path, ROOT))), f, indent=1)
    return os.path.relpath(path, ROOT)

def build_all(pid, units, bdir, t_end):
    """-> {unit name: exe}; exits on failure"""
    exes = {}
    def one(u):
        exe = os.path.join(bdir, u["name"])
        rc, txt, to = sh(compile_cmd(u, exe), max(30, t_end - time.time()))
        return u, exe, rc, txt, to
    bad = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for u, exe, rc, txt, to in ex.map(one, units):
            if rc == 0:
                exes[u["name"]] = exe
            else:
                bad.append((u, exe, rc, txt, to))
    for u, exe, rc, txt, to in bad:
        if to:
            die("compiling %s ran out of time" % u["name"])
        # a broken toolchain or a full disk is not a violation
        probe = os.path.join(bdir, "probe.cpp")
        with open(probe, "w") as f:
            f.write("#include <vector>\n#include <range/v3/range.hpp>\n#include \"mc.hpp\"\nint main(){return 0;}\n")
        prc, ptxt, _ = sh([u["cxx"]] + BASE + [f for f in u["flags"] if f != "-fsanitize=thread"] + [probe, "-o", probe + ".exe"] + u["libs"], 300)
        if prc != 0:
            die("the compiler does not work: " + ptxt[-2000:])
        rc, txt, to = sh(compile_cmd(u, exe), 600)
        if rc == 0:
            exes[u["name"]] = exe
            continue
        if "__tsan" in txt and "undefined reference" in txt:
            die("wm_rt.cpp lacks something: " + txt[-2000:])
        if "error:" not in txt and "static assertion failed" not in txt:
            die("compiling %s failed: %s" % (u["name"], txt[-3000:]))
        errs = "\n".join(l for l in txt.splitlines() if "error:" in l or "static assertion" in l)[:3000]
        tr = dict(choices=[], msg="uses of the API this property speaks of do not compile", log=errs)
        path = write_replay(pid, u, dict(scenario="(compilation)"), tr, txt, "compile")
        print("compilation of %s fails:\n%s" % (u["name"], errs))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        write_evidence(pid, {}, {}, 0.0, 1, [], note="compilation failed")
        sys.exit(1)
    return exes

def write_evidence(pid, per, agg, wall, violations, notes, note=None):
    import props
    p = next(q for q in props.PROPS if q["id"] == pid)
    spec = CHECKS[pid]
    cov = {}
    samples = agg.get("samples") or ["(none)"]
    if p["level"] == "model_checking":
        cov.update(states=agg.get("states", 0), transitions=agg.get("transitions", 0),
                   traces_validated_against_impl=agg.get("execs", 0), samples=samples)
        if agg.get("evals"):
            cov.update(enumerated_cases=agg.get("evals", 0), enumerated_distinct=agg.get("distinct", 0))
    else:
        cov.update(evaluations=agg.get("evals", 0) + agg.get("execs_extra", 0), distinct_nontrivial=agg.get("distinct", 0),
                   rule=spec.get("rule", ""), samples=samples)
        if agg.get("states"):
            cov.update(states=agg["states"], transitions=agg["transitions"])
    cov["exhaustive"] = bool(agg.get("exhaustive", False))
    if agg.get("max_depth"):
        cov["max_depth"] = agg["max_depth"]
    if agg.get("extra"):
        cov["extra"] = agg["extra"]
    cov["scenarios"] = per
    if notes:
        cov["notes"] = notes
    if note:
        cov["explanation"] = note
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=p["level"], coverage=cov,
              assumptions=spec.get("assumptions", []) + ["compiler, sanitizers and the reference models in /verif/mc are correct",
                                                         "bounds as listed per scenario"],
              wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))

def cpu_has(flags):
    try:
        line = next(l for l in open("/proc/cpuinfo") if l.startswith("flags"))
        return all(f in line.split() for f in flags)
    except Exception:
        return True

def main():
    if len(sys.argv) < 2:
        die("usage")
    if sys.argv[1] == "--setup":
        return 0
    if sys.argv[1] == "--list":
        print(" ".join(CHECKS))
        return 0
    pid = sys.argv[1]
    sys.path.insert(0, MC)
    t0 = time.time()
    t_end = t0 + DEADLINE
    spec = CHECKS[pid]
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(ROOT, "build"))
    try:
        return run_check(pid, spec, bdir, t0, t_end)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def run_check(pid, spec, bdir, t0, t_end):
    notes = []
    units = []
    for u in spec["units"]:
        need = u.get("cpu", [])
        if need and not cpu_has(need):
            notes.append("not run, the CPU lacks " + " ".join(need) + ": " + u["name"])
            continue
        units.append(u)
    only = None
    if "--replay" in sys.argv:
        only = json.load(open(os.path.join(ROOT, sys.argv[sys.argv.index("--replay") + 1])))
        units = [u for u in units if u["name"] == only["unit"]]
    if "--unit" in sys.argv:
        units = [u for u in units if sys.argv[sys.argv.index("--unit") + 1] in u["name"]]
    exes = build_all(pid, units, bdir, t_end)
    t_built = time.time()
    if only:
        u = units[0]
        j = dict(scenario=only["scenario"], shard=only["shard"], shards=only["shards"])
        rc, txt, to = sh(job_cmd(exes[u["name"]], j, os.path.join(bdir, "t"), replay=only["choices"] or None), 600)
        print(txt)
        tr = read_trail(os.path.join(bdir, "t"))
        print(tr["log"])
        print(tr["msg"])
        print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]) if rc else "did not reproduce")
        return 1 if rc else 0
    jobs = []
    for u in units:
        rc, txt, to = sh([exes[u["name"]], "--list"] + (["--thorough"] if TIER == "thorough" else []), 60)
        if rc != 0:
            die("%s --list: %s" % (u["name"], txt))
        for line in txt.split("\n"):
            if line.strip():
                n, k = line.split()
                for s in range(int(k)):
                    jobs.append((u, dict(scenario=n, shard=s, shards=int(k))))
    if "--scenario" in sys.argv:
        jobs = [x for x in jobs if sys.argv[sys.argv.index("--scenario") + 1] in x[1]["scenario"]]
    known = known_findings(pid)
    results, failed, harness_err, kf = [], [], [], []

    def one(i_job):
        i, (u, j) = i_job
        if stop.is_set():
            return
        exe = exes[u["name"]]
        trail, out = os.path.join(bdir, "trail%d" % i), os.path.join(bdir, "out%d" % i)
        ts = time.time()
        rc, txt, to = sh(job_cmd(exe, j, trail, out), max(10, t_end - time.time()))
        if stop.is_set() and to:
            return
        tr = read_trail(trail)
        if rc == 0 and not to:
            r = json.load(open(out))
            r["wall"] = time.time() - ts
            results.append((u, j, r))
            return
        if to:
            harness_err.append("%s %s ran out of time" % (u["name"], j))
            stop.set()
            return
        if tr["msg"].startswith("harness:"):
            harness_err.append("%s %s: %s" % (u["name"], j, tr["msg"]))
            stop.set()
            return
        # replay before report
        trail2 = trail + "r"
        rc2, txt2, to2 = (0, "", False)
        if tr["choices"]:
            rc2, txt2, to2 = sh(job_cmd(exe, j, trail2, replay=tr["choices"]), 300)
        if rc2 == 0:
            trail2 = trail + "s"
            rc2, txt2, to2 = sh(job_cmd(exe, j, trail2), max(60, t_end - time.time()))
        if rc2 == 0 or to2:
            harness_err.append("%s %s failed (%s) but did not fail again" % (u["name"], j, summarize(txt)))
            stop.set()
            return
        tr2 = read_trail(trail2)
        if tr2["choices"] == [] :
            tr2["choices"] = tr["choices"]
        if not tr2["msg"]:
            tr2["msg"] = summarize(txt2)
        text = j["scenario"] + " " + tr2["msg"]
        for pat, desc in known:
            if pat in text.replace(" ", "_"):
                kf.append(desc)
                return
        failed.append((u, j, tr2, txt2))
        stop.set()

    order = sorted(enumerate(jobs), key=lambda x: 0 if x[1][0]["variant"] == "san" else 1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, order))
    agg = dict(states=0, transitions=0, execs=0, evals=0, distinct=0, samples=[], exhaustive=True, extra={}, max_depth=0)
    per, byscen = {}, {}
    for u, j, r in results:
        agg["execs"] += r["execs"]
        agg["evals"] += r["evals"]
        agg["exhaustive"] &= r["exhaustive"]
        agg["max_depth"] = max(agg["max_depth"], r["max_depth"])
        # the same scenario in another build variant covers the same states: count those once
        base = u["name"].rsplit(".", 1)[0]
        k = (base, j["scenario"], j["shard"])
        b = byscen.setdefault(k, dict(states=0, transitions=0, distinct=0))
        for f in b:
            b[f] = max(b[f], r[f])
        pk = "%s:%s" % (u["name"], j["scenario"])
        d = per.setdefault(pk, dict(executions=0, states=0, transitions=0, evaluations=0, wall_s=0.0))
        d["executions"] += r["execs"]
        d["states"] += r["states"]
        d["transitions"] += r["transitions"]
        d["evaluations"] += r["evals"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        for kk, v in r["extra"].items():
            agg["extra"][kk] = agg["extra"].get(kk, 0) + v
    for b in byscen.values():
        for f in b:
            agg[f] += b[f]
    seen = set()
    for u, j, r in sorted(results, key=lambda x: (x[0]["name"], x[1]["scenario"], x[1]["shard"])):
        if r["samples"] and j["scenario"] not in seen and len(agg["samples"]) < 8:
            seen.add(j["scenario"])
            agg["samples"].append("%s: %s" % (j["scenario"], r["samples"][-1].strip().replace("\n", "; ")))
    wall = time.time() - t0
    if harness_err and not failed:
        for h in harness_err:
            print(h)
        write_evidence(pid, per, agg, wall, 0, notes, "the check itself failed: " + "; ".join(harness_err))
        die("the check failed")
    for d in sorted(set(kf)):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if failed:
        u, j, tr, txt = min(failed, key=lambda x: len(x[2]["choices"]) or 10**6)
        path = write_replay(pid, u, j, tr, txt, "run")
        print("%s, scenario %s:\n%s\n  %s" % (u["name"], j["scenario"], "\n".join("  " + l for l in tr["log"].splitlines()[-40:]), tr["msg"]))
        agg["exhaustive"] = False
        write_evidence(pid, per, agg, wall, len(failed), notes)
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if not results:
        die("no scenario ran")
    write_evidence(pid, per, agg, wall, 0, notes)
    print("%s held: %d executions, %d states, %d transitions, %d evaluations (%d distinct) in %.1f s (build %.1f s)%s"
          % (pid, agg["execs"], agg["states"], agg["transitions"], agg["evals"], agg["distinct"], wall, t_built - t0,
             "; " + "; ".join(notes) if notes else ""))
    if "-v" in sys.argv:
        for k, d in sorted(per.items(), key=lambda x: -x[1]["wall_s"]):
            print("   ", k, d)
    return 0

if __name__ == "__main__":
    sys.exit(main())
