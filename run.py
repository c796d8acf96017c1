#!/usr/bin/env python3
"""Decides one property: generates behaviours of its Quint specifications,
replays them on the code in /repo and compares the state after every call.

    python3 run.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
    python3 run.py --replay FILE       replay a recorded violation
    python3 run.py --setup             build the driver and type-check the specifications
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
import checks  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
BUILD = os.path.join(HERE, "build")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GORACE="halt_on_error=1")
ENV.setdefault("HOME", "/root")
for extra in ("/opt/veriftools/go1.27.3/bin",):
    if os.path.isdir(extra) and extra not in ENV.get("PATH", ""):
        ENV["PATH"] = extra + ":" + ENV.get("PATH", "")


class HarnessError(Exception):
    pass


VARIANTS = {"": [], "race": ["-race"], "checkptr": ["-gcflags=all=-d=checkptr"]}


def build_driver(out, variant=""):
    src = os.path.join(HERE, "harness")
    work = out + ".src"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(src, work)
    cmd = ["go", "build", "-o", out] + VARIANTS[variant] + ["."]
    p = subprocess.run(cmd, cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(work, ignore_errors=True)
    if p.returncode != 0:
        raise HarnessError("cannot build the driver:\n" + p.stdout[-4000:])
    return out


def qval(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(qval(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join("%s: %s" % (k, qval(x)) for k, x in v.items()) + " }"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def jval(v):
    """configuration for the driver: large integers as strings"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v if abs(v) < 2**53 else str(v)
    if isinstance(v, (list, tuple)):
        return [jval(x) for x in v]
    if isinstance(v, dict):
        return {k: jval(x) for k, x in v.items()}
    return v


def write_instance(dirname, job):
    os.makedirs(dirname, exist_ok=True)
    rel = os.path.relpath(os.path.join(HERE, "spec", job["module"]), dirname)
    consts = ", ".join("%s=%s" % (k, qval(v)) for k, v in job["consts"].items())
    inst = "import %s(%s).* from \"%s\"" % (job["module"], consts, rel) if consts else "import %s.* from \"%s\"" % (job["module"], rel)
    with open(os.path.join(dirname, "main.qnt"), "w") as f:
        f.write("module m { %s }\n" % inst)


# every child runs in a process group of its own, and only these groups are ever signalled
CHILDREN = set()
LOCK = threading.Lock()


def run_proc(cmd, timeout, cwd=None, watch=None, stall=None):
    """returns (rc, output, why) with why in None, 'timeout', 'stall'"""
    log = open(os.path.join(cwd or HERE, ".log-%d-%s" % (os.getpid(), threading.get_ident())), "w+b")
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    with LOCK:
        CHILDREN.add(p.pid)
    t0 = time.time()
    last, last_t = None, time.time()
    why = None
    while True:
        try:
            p.wait(0.1)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        if timeout and now - t0 > timeout:
            why = "timeout"
        if watch and stall:
            try:
                cur = open(watch, "rb").read()
            except OSError:
                cur = None
            if cur != last:
                last, last_t = cur, now
            elif now - last_t > stall:
                why = "stall"
        if why:
            try:
                os.killpg(p.pid, signal.SIGQUIT)
                p.wait(5)
            except (OSError, subprocess.TimeoutExpired):
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    with LOCK:
        CHILDREN.discard(p.pid)
    log.seek(0)
    out = log.read().decode(errors="replace")
    name = log.name
    log.close()
    os.unlink(name)
    return p.returncode, out, why


def generate(job, d, n, seed):
    """n behaviours of the specification, as ITF files in d"""
    os.makedirs(d, exist_ok=True)
    cmd = ["quint", "run", "main.qnt", "--main", "m", "--step", job["step"], "--max-samples", str(n), "--n-traces", str(n),
           "--max-steps", str(job["steps"]), "--seed", hex(seed), "--out-itf", os.path.join(d, "x.itf.json"), "--verbosity", "1"]
    if job.get("init"):
        cmd += ["--init", job["init"]]
    if job.get("inv"):
        cmd += ["--invariants"] + (job["inv"] if isinstance(job["inv"], list) else [job["inv"]])
    rc, out, why = run_proc(cmd, 600, cwd=os.path.dirname(d))
    files = sorted(glob.glob(os.path.join(d, "x*.itf.json")), key=lambda s: int(re.search(r"x(\d*)\.itf", s).group(1) or 0))
    if why or rc != 0 or not files:
        raise HarnessError("behaviour generation failed for %s (rc %s, %s):\n%s" % (job["name"], rc, why, out[-3000:]))
    return files


def crash_in_code(out):
    """does the Go crash dump blame the code under test?"""
    return "fast-ksw/" in out and ("goroutine" in out or "fatal error" in out or "DATA RACE" in out)


def drive(driver, job, prop, files, d, seed, stall):
    """replays the files, returns the driver's result"""
    progress = os.path.join(d, "progress")
    outf = os.path.join(d, "result.json")
    cfg = {k: jval(v) for k, v in dict(job["consts"], **job.get("cfg", {})).items() if not k.startswith("IDEM")}

    def once(fs):
        for x in (outf, progress):
            if os.path.exists(x):
                os.unlink(x)
        cmd = [driver, "-spec", job["driver"], "-cfg", json.dumps(cfg), "-prop", prop, "-out", outf, "-progress", progress,
               "-seed", str(seed % (2**31))] + fs
        return run_proc(cmd, 1500, cwd=d, watch=progress, stall=stall)

    rc, out, why = once(files)
    if rc == 0 and not why:
        return json.load(open(outf))
    if rc == 3 and not why:
        raise HarnessError("driver error in %s:\n%s" % (job["name"], out[-4000:]))
    # a crash, a hang or a race report: reproduce it on the trace at fault alone
    try:
        prog = open(progress).read().split("\n")
    except OSError:
        prog = []
    if len(prog) < 3:
        raise HarnessError("driver failed in %s (rc %s, %s):\n%s" % (job["name"], rc, why, out[-4000:]))
    trace = prog[0]
    if "DATA RACE" in out and crash_in_code(out):
        rc2, out2, why2 = rc, out, why   # a report of the race detector stands whether or not the schedule occurs again
    else:
        rc2, out2, why2 = once([trace])
    if not why2 and rc2 == 0:
        # not reproduced alone: histories may matter, try the whole list once more
        rc2, out2, why2 = once(files)
    if rc2 == 0 and not why2:
        raise HarnessError("driver failed in %s once (rc %s, %s) and not again:\n%s" % (job["name"], rc, why, out[-4000:]))
    if not crash_in_code(out2):
        raise HarnessError("driver failed in %s (rc %s, %s), not in the code under test:\n%s" % (job["name"], rc2, why2, out2[-4000:]))
    try:
        prog = open(progress).read().split("\n")
    except OSError:
        pass
    what = "data race" if "DATA RACE" in out2 else "memory outside of its operands" if "checkptr" in out2 else "the call does not return" if why2 else "the call crashed the process"
    head = [l for l in out2.split("\n") if l.startswith("fatal error") or l.startswith("runtime:") or "DATA RACE" in l][:2]
    return {"traces": 1, "steps": int(prog[1] or 0), "checks": 0, "ops": {}, "keys": [], "skipped": {}, "samples": [], "notes": {},
            "violations": [{"trace": prog[0], "step": int(prog[1] or 0), "call": prog[2].strip(), "what": what + " " + " ".join(head),
                            "stack": out2[-6000:]}]}


def known_findings():
    res = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=(\"(?:[^\"\\]|\\.)*\") (.*)$", line)
            if m:
                res.append({"property": m.group(1), "match": json.loads(m.group(2)), "text": m.group(3), "seen": 0})
    return res


def verify_job(v, d):
    """exhaustive checking of an invariant with Apalache through quint verify"""
    write_instance(d, v)
    cmd = ["quint", "verify", "main.qnt", "--main", "m", "--step", v["step"], "--invariant", v["inv"], "--max-steps", str(v["steps"])]
    rc, out, why = run_proc(cmd, v.get("timeout", 800), cwd=d)
    return {"cmd": " ".join(cmd), "ok": rc == 0 and not why, "out": out[-1500:], "why": why}


def main_check(prop):
    t0 = time.time()
    P = checks.PROPS[prop]
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = decide(prop, P, work, t0)
    finally:
        for pid in list(CHILDREN):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(prop, P, work, t0):
    thorough = TIER == "thorough"
    drivers = {v: build_driver(os.path.join(work, "driver" + v), v) for v in sorted({j.get("build", "") for j in P["jobs"]})}
    jobs = []
    for j in P["jobs"]:
        if j.get("only") and j["only"] != TIER:
            continue
        jobs.append(j)
    tasks = []
    for ji, j in enumerate(jobs):
        d = os.path.join(work, "j%d" % ji)
        write_instance(d, j)
        n = int(j["n"] * (j.get("mult", 12) if thorough else 1))
        chunk = j.get("chunk", max(10, (n + 3) // 4)) if not thorough else max(j.get("chunk", 40), 40)
        k = 0
        while n > 0:
            c = min(chunk, n)
            seed = int(hashlib.sha256(("%d/%s/%s/%d" % (SEED, prop, j["name"], k)).encode()).hexdigest()[:13], 16)
            tasks.append((ji, j, os.path.join(d, "c%d" % k), c, seed))
            n -= c
            k += 1
    # long jobs first
    tasks.sort(key=lambda t: -t[3] * t[1]["steps"] * t[1].get("weight", 1))
    results = {}
    errors = []
    deadline = t0 + (3300 if thorough else 600)

    def work_one(t):
        ji, j, d, c, seed = t
        if time.time() > deadline:
            return None
        files = generate(j, d, c, seed)
        res = drive(drivers[j.get("build", "")], j, prop, files, d, seed, j.get("stall", 60))
        res["job"] = ji
        # keep only the traces of violations
        keep = {v["trace"] for v in res["violations"]}
        for f in files:
            if f not in keep:
                os.unlink(f)
        return res

    out = []
    left_out = 0
    with concurrent.futures.ThreadPoolExecutor(P.get("parallel", 8)) as ex:
        for r in [ex.submit(work_one, t) for t in tasks]:
            try:
                x = r.result()
                if x is None:
                    left_out += 1
                else:
                    out.append(x)
            except HarnessError as e:
                errors.append(str(e))
    verifs = []
    if not errors:
        for vi, v in enumerate(P.get("verify", [])):
            if v.get("only") and v["only"] != TIER:
                continue
            r = verify_job(v, os.path.join(work, "v%d" % vi))
            r["name"] = v["name"]
            verifs.append(r)
            if not r["ok"]:
                errors.append("the specification itself fails: %s\n%s" % (v["name"], r["out"]))

    known = [k for k in known_findings() if k["property"] == prop]
    viols, nv = [], 0
    for r in out:
        for v in r["violations"]:
            text = "%s | %s | %s" % (jobs[r["job"]]["name"], v["call"], v["what"])
            kf = next((k for k in known if re.search(k["match"], text)), None)
            if kf:
                kf["seen"] += 1
                continue
            nv += 1
            viols.append((r["job"], v))
    for k in known:
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, k["text"], k["seen"]))

    ops, skipped, notes = {}, {}, {}
    keys = set()
    for r in out:
        jn = jobs[r["job"]]["name"]
        for k, x in r["ops"].items():
            ops[k] = ops.get(k, 0) + x
        for k, x in r["skipped"].items():
            skipped[k] = skipped.get(k, 0) + x
        for k, x in r["notes"].items():
            notes[k] = max(notes.get(k, x), x)
        keys.update((jn, x) for x in r["keys"])
    traces = sum(r["traces"] for r in out)
    steps = sum(r["steps"] for r in out)
    nchecks = sum(r["checks"] for r in out)
    samples = []
    for r in out:
        for s in r["samples"]:
            if len(samples) < 6 and len(json.dumps(s)) < 6000:
                samples.append({"job": jobs[r["job"]]["name"], "case": s})
    def brief(kv):
        """constants for the record; tables that the specification only uses to save time are left out"""
        return [[k, x] if len(json.dumps(x)) < 3000 else [k, json.dumps(x)[:300] + " ..."] for k, x in kv if not k.startswith("IDEM")]

    cov = {
        "evaluations": steps,
        "distinct_nontrivial": len(keys),
        "rule": P["rule"],
        "samples": samples or [{"note": "no behaviour was completed"}],
        "behaviours_replayed": traces,
        "comparisons": nchecks,
        "calls_by_operation": dict(sorted(ops.items())),
        "behaviours_abandoned": skipped,
        "measured": notes,
        "specification_checks": [{"name": v["name"], "cmd": v["cmd"], "ok": v["ok"]} for v in verifs],
        "jobs": [{"name": j["name"], "specification": j["module"], "step": j["step"], "constants": brief(jval(list(j["consts"].items())))} for j in jobs],
        "chunks_left_out_for_time": left_out,
    }
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": SEED, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nv}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if viols:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, prop + "-*")):
            os.unlink(old)
        for i, (ji, v) in enumerate(viols[:5]):
            j = jobs[ji]
            base = os.path.join(rdir, "%s-%d" % (prop, i))
            if os.path.exists(v["trace"]):
                shutil.copy(v["trace"], base + ".itf.json")
            with open(base + ".json", "w") as f:
                json.dump({"property": prop, "job": j["name"], "driver": j["driver"], "consts": jval(list(j["consts"].items())),
                           "cfg": {k: jval(x) for k, x in dict(j["consts"], **j.get("cfg", {})).items() if not k.startswith("IDEM")}, "build": j.get("build", ""),
                           "trace": base + ".itf.json", "step": v["step"], "call": v["call"], "what": v["what"], "stack": v["stack"],
                           "replay": "python3 /verif/run.py --replay " + base + ".json"}, f, indent=1)
            print("  step %s: %s\n    %s" % (v["step"], v["call"][:300], v["what"][:600]))
            if i == 0:
                first = base + ".json"
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if errors:
        print("ERROR: " + errors[0])
        return 2
    if left_out and not thorough:
        print("ERROR: out of time, %d chunks left out" % left_out)
        return 2
    if steps == 0 or (sum(skipped.values()) > max(2, 0.5 * traces) and not P.get("skips_ok")):
        print("ERROR: too few behaviours replayed to the end: %s" % json.dumps(skipped)[:2000])
        return 2
    print("OK property=%s behaviours=%d calls=%d distinct=%d comparisons=%d wall=%.1fs" % (prop, traces, steps, len(keys), nchecks, time.time() - t0))
    if skipped:
        print("  abandoned: " + json.dumps(skipped)[:1500])
    return 0


def replay(path):
    v = json.load(open(path))
    work = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        drv = build_driver(os.path.join(work, "driver"), v.get("build", ""))
        cmd = [drv, "-spec", v["driver"], "-cfg", json.dumps(v["cfg"]), "-prop", v["property"], v["trace"]]
        rc, out, why = run_proc(cmd, 600, cwd=work)
        print(out)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    os.makedirs(BUILD, exist_ok=True)
    for d in glob.glob(os.path.join(BUILD, "*")):
        shutil.rmtree(d, ignore_errors=True)
    build_driver(os.path.join(BUILD, "driver"))
    for v in sorted({j.get("build", "") for p in checks.PROPS.values() for j in p["jobs"]}):
        if v:
            build_driver(os.path.join(BUILD, "driver-" + v), v)
    rc = 0
    for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.qnt"))):
        p = subprocess.run(["quint", "typecheck", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(os.path.basename(f), "ok" if p.returncode == 0 else p.stdout[-2000:])
        rc |= p.returncode
    return rc


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        sys.exit(main_check(sys.argv[1]))
    except HarnessError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
