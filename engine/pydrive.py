"""Driver for checks whose harness is a Python script (C32, C33).
The script offers: gen SEED INDEX | run ARGS.. < case | batch ARGS.. SEED FIRST STEP N OUT WALL."""
import sys, os, json, subprocess, time, tempfile, shutil, resource, ctypes, random

def lim():
    os.setpgid(0, 0)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

# Shared memory keys: a range of 8192 reserved for this run by a segment that stays
# attached while the run lasts. Worker w uses base + 16*w .. base + 16*w + 15.
LIBC = ctypes.CDLL(None, use_errno=True)
LIBC.shmat.restype = ctypes.c_void_p
BASE = 0
ONE = 500     # the slot of single cases
def reserve():
    global BASE
    for k in range(2000):
        BASE = 0x60000000 | random.SystemRandom().randrange(1 << 14) << 13
        i = LIBC.shmget(BASE | 0x1fff, 4096, 0o1000 | 0o2000 | 0o600)
        if i < 0: continue
        have = [int(l.split()[0]) for l in open("/proc/sysvipc/shm").readlines()[1:]]
        if LIBC.shmat(i, None, 0) != ctypes.c_void_p(-1).value and not any(x != (BASE | 0x1fff) and x & ~0x1fff == BASE for x in have): return
        LIBC.shmctl(i, 0, None)
    raise RuntimeError("no shared memory keys available")
def release():
    i = LIBC.shmget(BASE | 0x1fff, 0, 0)
    if BASE and i >= 0: LIBC.shmctl(i, 0, None)
def keyed(env, slot): return dict(env, WG_KEY=str(BASE + 16 * slot))

def run_one(py, script, args, case, env, to=60):
    """-> None or the failure"""
    p = subprocess.Popen(py + [script, "run"] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=keyed(env, ONE), cwd="/", preexec_fn=lim)
    try: o, e = p.communicate(json.dumps(case).encode(), timeout=to)
    except subprocess.TimeoutExpired:
        kill(p, ONE); return "no answer within %d s" % to
    if p.returncode == 0: return None
    sweep(ONE)
    m = [l for l in o.decode(errors="replace").split("\n") if l.startswith("FAIL ")]
    if m: return m[0][5:]
    return crash(p.returncode, e.decode(errors="replace"))

def crash(rc, err):
    l = [x for x in err.split("\n") if "ERROR: AddressSanitizer" in x or "SUMMARY" in x or "Fatal Python error" in x or "Error" in x]
    return "the process died (status %d): %s" % (rc, " | ".join(l[:3])[:400])

def kill(p, slot):
    try: os.killpg(p.pid, 9)
    except OSError: pass
    p.wait(); sweep(slot)

def sweep(slot):
    """removes shared memory segments a worker may have left"""
    for k in range(16):
        i = LIBC.shmget(BASE + 16 * slot + k, 0, 0)
        if i >= 0: LIBC.shmctl(i, 0, None)

def shrink(case, msg, fails, budget):
    end = time.time() + budget
    def attempt(c):
        nonlocal case, msg
        if time.time() > end: return False
        m = fails(c)
        if m: case, msg = c, m
        return bool(m)
    n = max(1, len(case["ops"]) // 2)
    while n >= 1:
        i = 0
        while i < len(case["ops"]):
            ops = case["ops"]
            if not attempt(dict(case, ops=ops[:i] + ops[i + n:])): i += n
        n //= 2
    def lists(o, path=()):
        if isinstance(o, list):
            if len(o) > 1 and all(isinstance(x, list) for x in o): yield path
            for k, x in enumerate(o): yield from lists(x, path + (k,))
        elif isinstance(o, dict):
            for k, x in o.items(): yield from lists(x, path + (k,))
    again = True
    while again and time.time() < end:
        again = False
        for path in list(lists(case["ops"])):
            if not path: continue
            k = 0
            while True:
                c = json.loads(json.dumps(case)); t = c["ops"]
                try:
                    for q in path: t = t[q]
                except (IndexError, KeyError, TypeError): break
                if not isinstance(t, list) or k >= len(t) or len(t) <= 1: break
                del t[k]
                if attempt(c): again = True
                else: k += 1
    return case, msg

def drive(V, pid, tier, seed, argv, env, script, args, cases, wall, rule, known=(), py=(sys.executable,), workers=8):
    py = list(py); t0 = time.time(); reserve()
    try: return drive_(V, pid, tier, seed, argv, env, script, args, cases, wall, rule, known, py, workers, t0)
    finally: release()
def drive_(V, pid, tier, seed, argv, env, script, args, cases, wall, rule, known, py, workers, t0):
    if "--replay" in argv:
        c = json.load(open(argv[argv.index("--replay") + 1]))
        m = run_one(py, script, args, c["case"], env)
        print(json.dumps(c["case"]))
        print("replay: " + ("FAIL " + m if m else "ok"))
        if m: print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
        return 1 if m else 0
    if "--cases" in argv: cases = int(argv[argv.index("--cases") + 1])
    tmp0 = tempfile.mkdtemp(prefix="wgdrive"); env = dict(env, TMPDIR=tmp0)
    known_hit = []
    for kid, what, case in known:
        m = run_one(py, script, args, case, dict(env, PBT_STRICT="1"))
        if m: known_hit.append(kid); print("KNOWN-FINDING: property=%s %s %s" % (pid, kid, what), flush=True)
    tmp = tempfile.mkdtemp(prefix="wgdrive"); env = dict(env, TMPDIR=tmp)
    tot = dict(ran=0, nt=0); stats = {}; samples = []; failure = None; flaky = 0
    try:
        first = {w: w for w in range(workers)}
        restart = 0
        live = {}
        def start(w):
            out = os.path.join(tmp, "o%d.%d" % (w, first[w])); err = open(out + ".err", "wb")
            live[w] = (subprocess.Popen(py + [script, "batch"] + args + [str(seed), str(first[w]), str(workers), str(cases), out, str(max(1, wall - (time.time() - t0)))], stdout=err, stderr=err, env=keyed(env, w), cwd="/", preexec_fn=lim), out)
        for w in first: start(w)
        last = {w: (time.time(), 0) for w in first}
        while live and not failure:
            time.sleep(0.05)
            for w in list(live):
                p, out = live[w]
                if p.poll() is None:
                    sz = os.path.getsize(out) if os.path.exists(out) else 0
                    if sz != last[w][1]: last[w] = (time.time(), sz)
                    elif time.time() - last[w][0] < 120: continue
                    else: kill(p, w)
                    if p.poll() is None: continue
                del live[w]
                if p.returncode: sweep(w)
                rec = []
                for l in open(out, errors="replace") if os.path.exists(out) else []:
                    try: rec.append(json.loads(l))
                    except ValueError: pass
                d = rec[-1] if rec else {}
                if "done" in d:
                    tot["ran"] += d["done"]; tot["nt"] += d["nontrivial"]; samples += d["samples"]
                    for k, x in d["stats"].items(): stats[k] = stats.get(k, 0) + x
                    continue
                if not rec:
                    print(open(out + ".err", errors="replace").read()[-2000:], file=sys.stderr); return 2
                i = d.get("fail", d.get("at"))
                tot["ran"] += sum(1 for r in rec if "at" in r)
                case = json.loads(subprocess.run(py + [script, "gen", str(seed), str(i)], stdout=subprocess.PIPE, env=dict(env, LD_PRELOAD="")).stdout)
                f = lambda c: run_one(py, script, args, c, env)
                m = f(case)
                if m: failure = (i, case, m); break
                flaky += 1; restart += 1
                print("%s: case %d failed once (%s) and not again" % (pid, i, d.get("msg", open(out + ".err", errors="replace").read()[-300:])))
                if restart <= 20: first[w] = i + workers; start(w)
        for w, (p, _) in live.items(): kill(p, w)
        viol = 0
        if failure:
            i, case, m = failure
            print("%s failure in case %d: %s" % (pid, i, m), flush=True)
            f = lambda c: run_one(py, script, args, c, env)
            case, m = shrink(case, m, f, 40 if tier == "quick" else 300)
            os.makedirs(V + "/replays", exist_ok=True)
            rp = V + "/replays/%s-%d.replay" % (pid, seed)
            json.dump({"property": pid, "message": m, "case": case}, open(rp, "w"), indent=1)
            print("%s shrunk to %d operations: %s" % (pid, len(case["ops"]), m)); viol = 1
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": viol,
              "coverage": {"evaluations": tot["ran"], "distinct_nontrivial": tot["nt"], "planned": cases, "not_reproducible": flaky, "known_findings_still_failing": len(known_hit), "stopped_by_time_cap": tot["ran"] < cases and not viol, "rule": rule, "labels": stats, "samples": samples[:6]}}
        json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
        print("%s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tot["ran"], tot["nt"], time.time() - t0))
        if viol: print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True); shutil.rmtree(tmp0, ignore_errors=True)
