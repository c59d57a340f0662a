#!/usr/bin/env python3
"""Entry point of every registered check.

  check.py C01 [quick|thorough]      run the check (VERIF_SEED, VERIF_TIER)
  check.py C01 --replay FILE         replay one saved case
  check.py --build                   build every harness
Rebuilds the library from /repo's working tree (object cache keyed by content)."""
import sys, os, hashlib, subprocess, fcntl, json, shutil, glob, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WG_REPO", "/repo")
B = os.path.join(V, ".build")

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

class BuildError(Exception): pass

_hdr = {}
def header_hash(dirs):
    k = tuple(dirs)
    if k not in _hdr:
        fs = []
        for d in dirs:
            for root, dn, fn in os.walk(d):
                dn.sort()
                fs += [os.path.join(root, f) for f in sorted(fn) if f.endswith((".h", ".hpp"))]
        _hdr[k] = fhash(*fs)
    return _hdr[k]

def compile_obj(cc, src, flags, hdirs, alias=None):
    key = hashlib.sha256((cc + "\0" + "\0".join(flags) + "\0" + fhash(src) + header_hash(hdirs)).encode()).hexdigest()[:32]
    os.makedirs(os.path.join(B, "obj"), exist_ok=True)
    o = os.path.join(B, "obj", key + ".o")
    if not os.path.exists(o):
        tmp = "%s.%d.tmp" % (o, os.getpid())
        r = sh([cc] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
        os.replace(tmp, o)
    return o

SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
def lib_sources(kind):
    s = sorted(glob.glob(REPO + "/Db/*.c"))
    s = [x for x in s if os.path.basename(x) not in ("whitedb.c",)]
    s.append(REPO + "/json/yajl_all.c")
    return s

def lib_flags(kind, san=SAN, extra=()):
    return list(san) + ["-w", "-fcommon", "-I" + V + "/cfg/" + kind + "/Db", "-I" + REPO + "/Db", "-I" + REPO + "/json"] + list(extra)

def build_lib(kind="main", san=SAN, extra=(), only=None, skip=()):
    hd = [REPO + "/Db", REPO + "/json", V + "/cfg"]
    fl = lib_flags(kind, san, extra)
    srcs = [s for s in lib_sources(kind) if os.path.basename(s) not in skip and (only is None or os.path.basename(s) in only)]
    if kind == "reasoner":
        gen = gen_parsers()
        hd += [REPO + "/Parser", REPO + "/Reasoner", REPO + "/Printer", gen]
        fl += ["-I" + REPO + "/Parser", "-I" + gen, "-I" + REPO + "/Reasoner", "-I" + REPO + "/Printer"]
        srcs += [REPO + "/Parser/dbparse.c", REPO + "/Printer/dbotterprint.c"] + sorted(glob.glob(REPO + "/Reasoner/*.c")) + sorted(glob.glob(gen + "/*.c")) + [V + "/props/rshim.c"]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_obj("gcc", s, fl, hd), srcs))

def gen_parsers():
    key = fhash(*[REPO + "/Parser/" + f for f in ("dbotter.y", "dbotter.l", "dbprolog.y", "dbprolog.l")])[:16]
    d = os.path.join(B, "parsers-" + key, "Parser")
    if not os.path.exists(d + "/ok"):
        os.makedirs(d, exist_ok=True)
        for p, pre in (("dbotter", "wg_yyotter"), ("dbprolog", "wg_yyprolog")):
            shutil.copy(REPO + "/Parser/%s.y" % p, d); shutil.copy(REPO + "/Parser/%s.l" % p, d)
        gp = REPO + "/Parser/Makefile.am"
        cmds = PARSER_CMDS
        for c in cmds:
            r = sh(c, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise BuildError("parser generation failed: %s\n%s" % (c, r.stdout.decode()[-2000:]))
        for f in glob.glob(d + "/*.[yl]"): os.unlink(f)
        open(d + "/ok", "w").close()
    return d
PARSER_CMDS = [
    ["bison", "-pwg_yyotter", "-d", "-v", "dbotter.y", "-o", "dbotter.tab.c"],
    ["flex", "-Pwg_yyotter", "-odbotter.yy.c", "dbotter.l"],
    ["bison", "-pwg_yyprolog", "-d", "-v", "dbprolog.y", "-o", "dbprolog.tab.c"],
    ["flex", "-Pwg_yyprolog", "-odbprolog.yy.c", "dbprolog.l"],
]

def build_harness(name, kind="main", san=SAN, extra=(), libs=(), lib_extra=(), lib_skip=(), cxx="g++"):
    return link_harness(name, build_lib(kind, san, lib_extra, skip=lib_skip), san, kind, extra, libs, cxx)

def link_harness(name, objs, san, kind, extra=(), libs=(), cxx="g++"):
    hd = [V + "/engine", V + "/props", REPO + "/Db", V + "/cfg"]
    fl = list(san) + ["-std=gnu++20", "-w", "-DREPO=\"%s\"" % REPO, "-I" + V + "/cfg/" + kind + "/Db", "-I" + REPO + "/Db", "-I" + V + "/props"] + list(extra)
    srcs = [V + "/engine/pbt.cpp", V + "/props/" + name + ".cpp"]
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(lambda s: compile_obj(cxx, s, fl, hd), srcs)) + list(objs)
    key = hashlib.sha256(("\0".join(objs) + "\0".join(san) + "\0".join(libs)).encode()).hexdigest()[:24]
    out = os.path.join(B, "bin", name + "-" + key)
    if not os.path.exists(out):
        os.makedirs(B + "/bin", exist_ok=True)
        for old in glob.glob(B + "/bin/" + name + "-*"):
            if time.time() - os.path.getmtime(old) > 3600: os.unlink(old)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = sh([cxx] + list(san) + objs + ["-o", tmp, "-lm", "-lpthread"] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
        os.replace(tmp, out)
    return out

def prune_cache():
    d = os.path.join(B, "obj")
    if not os.path.isdir(d): return
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    if len(fs) > 600:
        now = time.time()
        for f in fs:
            try:
                if now - os.path.getmtime(f) > 6 * 3600: os.unlink(f)
            except OSError: pass

# property -> (kind of runner, harness, options)
CHECKS = {}
def H(harness, *ids, **kw):
    for i in ids: CHECKS[i] = dict(harness=harness, **kw)
exec(open(os.path.join(V, "checks.conf.py")).read())

def builder(conf):
    if "build" in conf: return conf["build"]()
    return build_harness(conf["harness"], conf.get("kind", "main"), extra=conf.get("extra", ()), libs=conf.get("libs", ()))

def lock():
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, "lock"), "w"); fcntl.flock(f, fcntl.LOCK_EX); return f

def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        l = lock(); prune_cache()
        done = set()
        for i, c in sorted(CHECKS.items()):
            k = c["harness"]
            if k in done: continue
            done.add(k)
            try: builder(c)
            except BuildError as e: print(e, file=sys.stderr); return 1
        return 0
    pid = a[0]
    conf = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1 and a[1] in ("quick", "thorough"): tier = a[1]
    seed = os.environ.get("VERIF_SEED", "1")
    if "--seed" in a: seed = a[a.index("--seed") + 1]
    os.makedirs(V + "/evidence", exist_ok=True)
    l = lock(); prune_cache()
    try: exe = builder(conf)
    except BuildError as e:
        print(e, file=sys.stderr); return 2
    fcntl.flock(l, fcntl.LOCK_UN)
    env = dict(os.environ)
    env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=4096:handle_segv=1:detect_odr_violation=0", TZ="UTC", LC_ALL="C", VERIF_DIR=V)
    if "python" in conf: return conf["python"](exe, pid, tier, int(seed), a, env)
    args = [exe, "--prop", pid, "--seed", seed, "--tier", tier]
    if "--replay" in a: args += ["--replay", a[a.index("--replay") + 1]]
    else:
        args += ["--out", V + "/evidence/%s.json" % pid, "--replay-dir", V + "/replays"]
        args += ["--wall", str(conf.get("wall", 420)) if tier == "quick" else str(conf.get("wall_thorough", 3600)), "--shrink", "40" if tier == "quick" else "300"]
        if "--cases" in a: args += ["--cases", a[a.index("--cases") + 1]]
    return subprocess.run(args, env=env, cwd="/tmp").returncode

sys.exit(main())
