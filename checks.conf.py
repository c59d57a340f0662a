H("core", "C01", "C02", "C03", "C05", "C06", "C11")
H("index", "C07", "C08", "C09", "C10")
H("store", "C12", "C13", "C14", "C15", "C16")
H("full", "C04", libs=("-Wl,--wrap=wg_alloc_fixlen_object", "-Wl,--wrap=wg_alloc_gints"))
H("json", "C20", "C21", "C22", "C23")
H("text", "C24", "C25", "C26")
H("reasoner", "C29", "C30", "C31", kind="reasoner")
H("pool", "C35")
H("multi", "C27", "C28", "C34")

TSAN_CG = ["-g", "-O1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fsanitize=thread"]
def prefixed_lib(kind, prefix, san):
    """the library as one object, every symbol it defines renamed with a prefix"""
    objs = build_lib(kind, san)
    key = hashlib.sha256(("\0".join(objs) + prefix).encode()).hexdigest()[:32]
    out = os.path.join(B, "obj", "r" + key + ".o")
    if not os.path.exists(out):
        t = "%s.%d" % (out, os.getpid())
        for c in (["ld", "-r", "-d"] + objs + ["-o", t + ".1"],):
            r = sh(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise BuildError("ld -r failed: " + r.stdout.decode()[-2000:])
        syms = sh(["nm", "-g", "--defined-only", t + ".1"], stdout=subprocess.PIPE).stdout.decode().split("\n")
        names = sorted(set(l.split()[-1] for l in syms if len(l.split()) == 3))
        open(t + ".map", "w").write("".join("%s %s%s\n" % (n, prefix, n) for n in names))
        r = sh(["objcopy", "--redefine-syms=" + t + ".map", t + ".1", t + ".2"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("objcopy failed: " + r.stdout.decode()[-2000:])
        os.replace(t + ".2", out); os.unlink(t + ".1"); os.unlink(t + ".map")
    return out
def build_conc():
    objs = [prefixed_lib("lock%d" % p, "L%d_" % p, TSAN_CG) for p in (1, 2, 3)]
    return link_harness("conc", objs, ["-g", "-O1", "-U_FORTIFY_SOURCE"], "main", libs=["-Wl,--wrap=" + f for f in ("nanosleep", "clock_nanosleep", "usleep", "sched_yield", "syscall")])
H("conc", "C17", "C18", "C19", build=build_conc)

def build_py():
    inc = sh(["python3-config", "--includes"], stdout=subprocess.PIPE).stdout.decode().split() or ["-I/usr/include/python3.12"]
    pic = SAN + ["-fPIC"]
    objs = build_lib("main", pic)
    o = compile_obj("gcc", REPO + "/Python/wgdbmodule.c", lib_flags("main", pic, inc), [REPO + "/Db", V + "/cfg"])
    key = hashlib.sha256(("\0".join(objs) + o).encode()).hexdigest()[:24]
    d = os.path.join(B, "py-" + key)
    if not os.path.exists(d + "/wgdb.so"):
        for old in glob.glob(B + "/py-*"):
            if time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        r = sh(["gcc", "-shared"] + pic + objs + [o, "-o", d + "/wgdb.so.tmp", "-lm", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("linking wgdb.so failed:\n" + r.stdout.decode()[-2000:])
        os.replace(d + "/wgdb.so.tmp", d + "/wgdb.so")
    return d
def run_py(exe, pid, tier, seed, a, env):
    sys.path.insert(0, V + "/engine"); import pydrive
    asan = sh(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    env = dict(env, LD_PRELOAD=asan, PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC="malloc", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    return pydrive.drive(V, pid, tier, seed, a, env, V + "/props/pyapi.py", [exe, REPO + "/Python"], 20000 if tier == "quick" else 1000000, 300 if tier == "quick" else 3000,
        "a case is a history of calls (insert, create, set, update, delete, query, index, scan, dump, transactions, detached and bad arguments) on a local or shared database in a UTF-8 or C locale; non-trivial: at least two rows inserted and at least two further updates, deletes, refused calls or queries that find rows", py=("/usr/bin/python3",))
H("pyapi", "C32", build=build_py, python=run_py)

def build_cli():
    objs = build_lib("main", SAN)
    o = compile_obj("gcc", REPO + "/Main/wgdb.c", lib_flags("main", SAN, ["-I" + V + "/cfg/main"]), [REPO + "/Db", V + "/cfg"])
    key = hashlib.sha256(("\0".join(objs) + o).encode()).hexdigest()[:24]
    out = os.path.join(B, "bin", "wgdb-" + key)
    if not os.path.exists(out):
        os.makedirs(B + "/bin", exist_ok=True)
        for old in glob.glob(B + "/bin/wgdb-*"):
            if time.time() - os.path.getmtime(old) > 3600: os.unlink(old)
        t = "%s.%d.tmp" % (out, os.getpid())
        r = sh(["gcc"] + SAN + objs + [o, "-o", t, "-lm", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("linking wgdb failed:\n" + r.stdout.decode()[-2000:])
        os.replace(t, out)
    return out
def run_cli(exe, pid, tier, seed, a, env):
    sys.path.insert(0, V + "/engine"); import pydrive
    return pydrive.drive(V, pid, tier, seed, a, env, V + "/props/cli.py", [exe], 3000 if tier == "quick" else 150000, 300 if tier == "quick" else 3000,
        "a case is a sequence of commands of the tool, each a process of its own, on two databases of rows, one of documents and one with a journal, compared with a list model after every command; non-trivial: at least two rows or documents added and at least one query, deletion, import, CSV round trip, recovery, document search or index removal with effect")
H("cli", "C33", build=build_cli, python=run_cli)

def link_bin(name, objs):
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24]
    out = os.path.join(B, "bin", "%s-%s" % (name, key))
    if not os.path.exists(out):
        os.makedirs(B + "/bin", exist_ok=True)
        for old in glob.glob(B + "/bin/" + name + "-*"):
            if time.time() - os.path.getmtime(old) > 3600: os.unlink(old)
        t = "%s.%d.tmp" % (out, os.getpid())
        r = sh(["gcc"] + SAN + objs + ["-o", t, "-lm", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("linking %s failed:\n" % name + r.stdout.decode()[-2000:])
        os.replace(t, out)
    return out
def build_ds():
    objs = build_lib("main", SAN)
    inc = os.path.join(B, "inc-" + hashlib.sha256(REPO.encode()).hexdigest()[:16])     # <whitedb/dbapi.h>
    os.makedirs(inc, exist_ok=True)
    try: os.symlink(REPO + "/Db", inc + "/whitedb")
    except FileExistsError: pass
    fl = lib_flags("main", SAN, ["-I" + inc]); hd = [REPO + "/Db", REPO + "/Server", V + "/cfg"]
    o = [compile_obj("gcc", REPO + "/Server/" + f, fl, hd) for f in ("dserve.c", "dserve_util.c", "dserve_net.c")]
    return link_bin("dserve", objs + o), link_bin("dsdb", objs + [compile_obj("gcc", V + "/props/dsdb.c", fl, hd)])
def run_ds(exe, pid, tier, seed, a, env):
    sys.path.insert(0, V + "/engine"); import pydrive
    return pydrive.drive(V, pid, tier, seed, a, env, V + "/props/dserve.py", list(exe), 1800 if tier == "quick" else 150000, 300 if tier == "quick" else 3000,
        "a case is a database of generated records, a configuration and a sequence of requests sent to the data server by command line, CGI (GET and POST) or HTTP (also many at once), each answer compared with the answer computed from the content; non-trivial: at least three answered requests, one of them with records in its answer or a deletion or a refusal by the configuration")
H("dserve", "C36", build=build_ds, python=run_ds)

def build_java():
    home = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    J = REPO + "/java/jni/src"; srcs = sorted(glob.glob(J + "/whitedb/*/*.java")) + [V + "/props/java/Jdrv.java"]; srcs = [s for s in srcs if not s.endswith("/tests.java")]
    key = hashlib.sha256(b"\0".join(open(s, "rb").read() for s in srcs)).hexdigest()[:24]
    d = os.path.join(B, "java-" + key)
    if not os.path.exists(d + "/done"):
        for old in glob.glob(B + "/java*"):
            if time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
        t = "%s.%d.tmp" % (d, os.getpid()); os.makedirs(t)
        r = sh(["javac", "-nowarn", "-encoding", "UTF-8", "-d", t, "-h", t] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("javac failed:\n" + r.stdout.decode()[-2000:])
        open(t + "/done", "w").close()
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    pic = ["-g", "-O1", "-fPIC"]
    objs = build_lib("main", pic)
    objs = objs + [compile_obj("gcc", J + "/native/whitedbDriver.c", lib_flags("main", pic, ["-I" + V + "/cfg/main/Db/java", "-I" + d, "-I" + home + "/include", "-I" + home + "/include/linux"]), [REPO + "/Db", V + "/cfg"])]
    key = hashlib.sha256(("\0".join(objs) + d).encode()).hexdigest()[:24]
    e = os.path.join(B, "javab-" + key)
    if not os.path.exists(e + "/libwhitedbDriver.so"):
        t = "%s.%d.tmp" % (e, os.getpid()); shutil.copytree(d, t)
        r = sh(["gcc", "-shared"] + objs + ["-o", t + "/libwhitedbDriver.so", "-lm", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("linking libwhitedbDriver.so failed:\n" + r.stdout.decode()[-2000:])
        try: os.rename(t, e)
        except OSError: shutil.rmtree(t)
    return e
def run_java(exe, pid, tier, seed, a, env):
    sys.path.insert(0, V + "/engine"); import pydrive
    return pydrive.drive(V, pid, tier, seed, a, dict(env, PYTHONDONTWRITEBYTECODE="1"), V + "/props/java.py", [exe], 3000 if tier == "quick" else 200000, 300 if tier == "quick" else 3000,
        "a case is a history of calls of the Java binding (records, int, string and blob fields, objects, queries, scans, locks, refused calls, closing and opening again) on a local or shared database, compared with a list model and, when shared, with what another process reads and writes; non-trivial: at least two records made after the first and at least two further stored values, deletions or queries that find rows")
H("java", "C37", build=build_java, python=run_java)
