#!/usr/bin/env python3
"""C33: sequences of wgdb commands against a list model.
gen SEED INDEX | run WGDB < case | batch WGDB SEED FIRST STEP N OUT WALL"""
import sys, os, json, random, re, subprocess, shutil, tempfile, datetime, hashlib, time

CONDS = ["=", "!=", "<", ">", "<=", ">="]

# ------------------------------------------------------------ generator
def gen_text(r):
    k = r.random()
    if k < 0.34: return str(r.choice([r.randint(-5, 9), r.randint(-5, 9), r.randint(-1000, 1000), r.randint(-2**63, 2**63 - 1), 2**31, -2**31 - 1]))
    if k < 0.44: return r.choice(["%d.5", "%d.25", "-%d.125", "%d.", "0%d.75"]) % r.randint(0, 9)
    if k < 0.60: return r.choice(["a", "b", "abc", "hello", "x y", 'q"q', "a,b", "-", "-a", "--5", "5-", "1.2.3", "1e5", ".5", "0x1f", "NULL", "[1]", "\u00e9", " 7", "7 ", "99999999999999999999", "%s%n", "'", "\\n", "add", "free", "=", "+5"])
    if k < 0.66: return "".join(r.choice("abc xyz0\",;") for _ in range(r.choice([20, 31, 32, 33, 60, 150, 230])))
    if k < 0.74: return r.choice(["2023-02-01", "1900-01-01", "2024-02-28", "1999-12-31", "2023-13-01", "2023-02-1", "20230201"])
    if k < 0.80: return r.choice(["10:20:30", "10:20:30.5", "00:00:00", "23:59:59.99", "10:20", "1:02:03"])
    if k < 0.90: return ""
    return r.choice("abcde") * r.randint(1, 5)
def gen_row(r):
    n = r.choice([1, 2, 2, 3, 3, 3, 4, 6, r.randint(1, 20)])
    return [gen_text(r) for _ in range(n)]
def gen_conds(r, rows, cols=()):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        c = r.choice([0, 0, 0, 1, 1, 2, 3, r.randint(0, 8)])
        if cols and r.random() < 0.3: c = max(0, r.choice(cols))
        v = None
        if rows and r.random() < 0.7:
            w = r.choice(rows)
            if c < len(w): v = w[c]
        out.append([c, r.choice(CONDS), gen_text(r) if v is None else v])
    return out
def gen_doc(r, depth=0):
    o = {}
    for _ in range(r.randint(1 if depth == 0 else 0, 4)):
        k = r.choice(["a", "b", "c", "name", "k\u00e4", "x y"]); t = r.random()
        if t < 0.4: v = r.randint(-3, 5)
        elif t < 0.7: v = r.choice(["", "a", "b", "hello", "5", "q\"q", "\u00e9", "back\\slash", "a" * 40, "tab\there"])
        elif t < 0.8: v = r.randint(-8, 8) / 4
        elif depth < 2 and t < 0.9: v = gen_doc(r, depth + 1)
        elif depth < 2: v = [gen_doc(r, depth + 1) if r.random() < 0.4 else r.randint(0, 3) for _ in range(r.randint(0, 3))]
        else: v = 1
        o[k] = v
    return o
def all_pairs(o):
    if isinstance(o, dict):
        for k, v in o.items():
            if not isinstance(v, (dict, list)): yield k, v
            else: yield from all_pairs(v)
    elif isinstance(o, list):
        for v in o: yield from all_pairs(v)
def gen_pairs(r, docs):
    d = {}
    if docs and r.random() < 0.75:
        p = list(all_pairs(r.choice(docs)))
        if p:
            for k, v in r.sample(p, min(len(p), r.choice([1, 1, 2]))): d[k] = v
            if r.random() < 0.8: return d
    for _ in range(r.choice([1, 1, 2])): d[r.choice(["a", "b", "c", "name", "k\u00e4", "x y", "none"])] = r.choice([r.randint(-3, 5), "", "a", "b", "hello", "5", "q\"q", "\u00e9", 0.5, -0.25, "a" * 40])
    return d

def generate(seed, index):
    r = random.Random((seed << 32) ^ index)
    ops = []; rows = []; docs = []; dumps = [0]; cols = []; theme = r.random()
    n = r.choice([4, 8, 12, 20, 30])
    for _ in range(n):
        d = r.choice([0, 0, 0, 1])
        k = r.random()
        if theme < 0.12: k = r.choice([0.95, 0.95, 0.95, 0.972, 0.99, 0.99])
        elif theme < 0.2: k = r.choice([k, k, 0.72, 0.76, 0.59, 0.64])
        if k < 0.28: row = gen_row(r); rows.append(row); o = ["add", d, row]
        elif k < 0.32:
            l = [gen_row(r) for _ in range(r.randint(2, 6))]; rows += l; o = ["padd", d, l]
        elif k < 0.44: o = ["query", d, gen_conds(r, rows, cols)]
        elif k < 0.53: o = ["del", d, gen_conds(r, rows, cols)]
        elif k < 0.57: o = ["select", d, r.choice([1, 2, 3, 10, 1000]), r.choice([None, 0, 1, 2, 5, 50])]
        elif k < 0.62: o = ["createindex", d, r.choice([0, 0, 1, 2, 3, 127, 128, 1000, -1])]; cols.append(o[2])
        elif k < 0.63: o = ["createhash", d, r.sample(range(6), r.randint(1, 3))]
        elif k < 0.645: o = ["dropindex", d, r.randint(0, 3)]
        elif k < 0.66: o = ["listindex", d]
        elif k < 0.70: o = ["create", d, r.choice([None, "1M", "1000k", "500000", "2m", "1M", "1k", "abc", "4000000"]), r.choice([None, None, "600", "660", "666", "999", "x"])]
        elif k < 0.74: o = ["export", d, r.randint(0, 1), r.random() < 0.2]; dumps.append(o[2])
        elif k < 0.78: o = ["import", d, r.choice(dumps)]
        elif k < 0.81: o = ["csv", d]
        elif k < 0.83:
            l = [gen_row(r) for _ in range(r.randint(1, 5))]; o = ["importcsv", d, l]; rows += l
        elif k < 0.86: o = ["free", d]
        elif k < 0.88: o = ["info", d]
        elif k < 0.92: o = ["bad", d, r.randrange(26)]
        elif k < 0.94: o = ["recover", r.random() < 0.5, [gen_row(r) for _ in range(r.randint(0, 3))], [gen_row(r) if r.random() < 0.7 else gen_conds(r, rows) for _ in range(r.randint(1, 4))], r.random() < 0.5]
        elif k < 0.97: o = ["addjson", gen_doc(r), r.random() < 0.5]; docs.append(o[1])
        elif k < 0.975: o = ["jsonindex"]
        else: o = ["findjson", gen_pairs(r, docs)]
        ops.append(o)
        if o[0] in ("addjson", "jsonindex") and r.random() < 0.8: ops.append(["findjson", gen_pairs(r, docs)])
    return {"ops": ops}

# ------------------------------------------------------------ model
class Fail(Exception): pass
STATS = {}
def note(k): STATS[k] = STATS.get(k, 0) + 1

def parse(t):
    """the value a text stands for: (type code, value)"""
    if t == "": return (1, None)
    if re.fullmatch(r"\d\d\d\d-\d\d-\d\d", t, re.A):
        try: return (11, datetime.date(*map(int, t.split("-"))).toordinal())
        except ValueError: return (5, t)
    m = re.fullmatch(r"(\d\d):(\d\d):(\d\d)(?:\.(\d\d?))?", t, re.A)
    if m and int(m[1]) < 24 and int(m[2]) < 60 and int(m[3]) < 60:
        return (12, ((int(m[1]) * 60 + int(m[2])) * 60 + int(m[3])) * 100 + (int(m[4].ljust(2, "0")) if m[4] else 0))
    if re.fullmatch(r"-?\d+", t, re.A):
        return (3, int(t)) if -2**63 <= int(t) < 2**63 else (5, t)
    if re.fullmatch(r"-?\d+\.\d*", t, re.A): return (4, float(t))
    return (5, t)
def show(v):
    t, x = v
    if t == 1: s = "NULL"
    elif t == 3: s = str(x)
    elif t == 4: s = "%f" % x
    elif t == 5: s = '"%s"' % x
    elif t == 11: s = "<raw date %d>%s" % (x, datetime.date.fromordinal(x).isoformat())
    elif t == 12: s = "<raw time %d>%02d:%02d:%02d.%02d" % (x, x // 360000, x // 6000 % 60, x // 100 % 60, x % 100)
    return s.encode("utf-8", "surrogateescape")
def line(row): return b"[" + b",".join(show(v) for v in row) + b"]"
def cmp(a, b):
    if a[0] != b[0]: return -1 if a[0] < b[0] else 1
    if a[0] == 1: return 0
    x, y = a[1], b[1]
    if a[0] == 5: x, y = x.encode(), y.encode()
    return (x > y) - (x < y)
def match(row, conds):
    for c, op, t in conds:
        if c >= len(row): return False
        k = cmp(row[c], parse(t))
        if not {"=": k == 0, "!=": k != 0, "<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]: return False
    return True
def contains(doc, key, val):
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k == key and any(type(x) is type(val) and x == val for x in [v] + (v if isinstance(v, list) else [])): return True
            if contains(v, key, val): return True
    elif isinstance(doc, list): return any(contains(x, key, val) for x in doc)
    return False

class DB:
    def __init__(s, size): s.rows = []; s.ttree = set(); s.hash = 0; s.size = size; s.mode = None; s.hashes = set()
    def copy(s):
        d = DB(s.size); d.rows = list(s.rows); d.ttree = set(s.ttree); d.hashes = set(s.hashes); return d
DEFAULT = 10000000

class World:
    def __init__(s, exe, base, scratch):
        s.exe = exe; s.base = base; s.dir = scratch; s.db = {0: None, 1: None, "L": None}; s.dumps = {}; s.docs = None; s.jindex = False
        for f in os.listdir(scratch): os.unlink(os.path.join(scratch, f))
        s.env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0"}
    def name(s, d): return str(s.base + {0: 0, 1: 1, "L": 2, "J": 3}[d])
    def start(s, *a, inp=None):
        return subprocess.Popen([s.exe] + [x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x for x in a], stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=s.dir, env=s.env)
    def end(s, p, a, inp=None):
        try: o, e = p.communicate(inp, timeout=60)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); raise Fail("%s: no answer within 60 s" % (a,))
        if p.returncode == 77 or p.returncode < 0 or b"AddressSanitizer" in e:
            raise Fail("%s: the tool died (status %d): %s" % (a, p.returncode, e.decode(errors="replace")[:400]))
        return p.returncode, o, e
    def cmd(s, d, *a, inp=None):
        a = (s.name(d),) + a
        return s.end(s.start(*a, inp=inp), a, inp)
    def ok(s, d, *a, **k):
        rc, o, e = s.cmd(d, *a, **k)
        if rc: raise Fail("%s: exit status %d: %s" % (a, rc, e.decode(errors="replace")[:200]))
        return o
    def refused(s, d, *a, **k):
        rc, o, e = s.cmd(d, *a, **k)
        if rc == 0: raise Fail("%s: exit status 0 although the command cannot succeed" % (a,))
        return o + e
    def lines(s, o):
        return o.split(b"\n")[:-1]
    def same(s, what, got, want):
        if sorted(got) != sorted(want):
            extra = list(got); miss = []
            for w in want:
                if w in extra: extra.remove(w)
                else: miss.append(w)
            raise Fail("%s: %d lines, expected %d; missing %s, unexpected %s" % (what, len(got), len(want), miss[:2], extra[:2]))
    def check(s, d):
        m = s.db[d]
        if m is None:
            s.refused(d, "select", "10"); return
        s.same("select", s.lines(s.ok(d, "select", "1000000")), [line(r) for r in m.rows])
    def ensure(s, d):
        if s.db[d] is None: s.db[d] = DB(DEFAULT)
        return s.db[d]
    # -------------------------------------------------------- operations
    def op_add(s, d, row):
        if s.ok(d, "add", *row) != b"Row added.\n": raise Fail("add does not say that the row was added")
        s.ensure(d).rows.append([parse(t) for t in row]); note("add"); s.check(d)
    def op_padd(s, d, l):
        ps = []
        if s.db[d] is None: s.op_create(d, "1M", None)       # simultaneous creation is not judged
        before = [line(r) for r in s.db[d].rows]
        try:
            for k, row in enumerate(l):
                ps.append((s.start(s.name(d), "add", *row), "add"))
                if k % 2: ps.append((s.start(s.name(d), "select", "100000"), "select"))
            al = before + [line([parse(t) for t in row]) for row in l]
            for p, what in ps:
                rc, o, e = s.end(p, "simultaneous " + what)
                if rc: raise Fail("simultaneous %s: exit status %d: %s" % (what, rc, e.decode(errors="replace")[:200]))
                if what == "select":
                    extra = list(al)
                    for x in s.lines(o):
                        if x not in extra: raise Fail("a select during additions lists %r, which is no row" % x)
                        extra.remove(x)
                    if len(s.lines(o)) < len(before): raise Fail("a select during additions lists fewer rows than before")
        finally:
            for p, _ in ps:
                if p.poll() is None: p.kill(); p.wait()
        s.db[d].rows += [[parse(t) for t in row] for row in l]; note("simultaneous adds"); s.check(d)
    def flat(s, conds): return [x for c, op, t in conds for x in (str(c), op, t)]
    def op_query(s, d, conds):
        if s.db[d] is None: s.refused(d, "query", *s.flat(conds)); return
        want = [line(r) for r in s.db[d].rows if match(r, conds)]
        s.same("query %s" % json.dumps(conds), s.lines(s.ok(d, "query", *s.flat(conds))), want)
        note("query with rows" if want else "query without rows")
        if s.db[d].ttree & {c for c, _, _ in conds}: note("query with an index")
    def op_del(s, d, conds):
        if s.db[d] is None: s.refused(d, "del", *s.flat(conds)); return
        n = sum(match(r, conds) for r in s.db[d].rows)
        o = s.ok(d, "del", *s.flat(conds))
        if n:
            m = re.search(rb"Deleting (\d+) rows", o)
            if not m or int(m[1]) != n: raise Fail("del %s reports %r, %d rows match" % (json.dumps(conds), o, n))
            note("del with rows")
        elif re.search(rb"[1-9]", o): raise Fail("del %s reports %r, no rows match" % (json.dumps(conds), o))
        s.db[d].rows = [r for r in s.db[d].rows if not match(r, conds)]; s.check(d)
    def op_select(s, d, n, start):
        a = ("select", str(n)) + (() if start is None else (str(start),))
        if s.db[d] is None: s.refused(d, *a); return
        al = s.lines(s.ok(d, "select", "1000000")); got = s.lines(s.ok(d, *a)); f = start or 0
        if got != al[f:f + n]: raise Fail("%s lists %d lines, not rows %d to %d of all %d" % (a, len(got), f, f + n - 1, len(al)))
        note("select")
    def op_createindex(s, d, c):
        m = s.db[d]
        if c < 0 or c > 127 or (m and c in m.ttree):
            o = s.refused(d, "createindex", str(c))
            if m is None and s.exists(d): s.ensure(d)      # attached before the refusal
        else: s.ok(d, "createindex", str(c)); s.ensure(d).ttree.add(c); note("createindex")
        s.check(d); s.op_listindex(d)
    def op_createhash(s, d, cols):
        key = tuple(sorted(cols)); m = s.db[d]
        if m and key in m.hashes: s.refused(d, "createhash", *map(str, cols))
        else: s.ok(d, "createhash", *map(str, cols)); s.ensure(d).hashes.add(key); note("createhash")
        s.check(d); s.op_listindex(d)
    def exists(s, d): return s.cmd(d, "select", "1")[0] == 0
    def ids(s, d):
        """(column, type, fields) -> id"""
        out = {}
        for l in s.lines(s.ok(d, "listindex")):
            f = l.split(b"\t")
            if len(f) == 5 and f[0].isdigit(): out.setdefault((int(f[0]), f[1].decode(), int(f[2])), []).append(int(f[3]))
        return out
    def op_listindex(s, d):
        if s.db[d] is None: return
        want = {}
        for c in s.db[d].ttree: want[(c, "T", 1)] = 1
        for h in s.db[d].hashes:
            for c in h: want[(c, "#J", len(h))] = want.get((c, "#J", len(h)), 0) + 1
        got = {k: len(v) for k, v in s.ids(d).items()}
        if got != want: raise Fail("listindex lists %s, there are %s" % (got, want))
    def op_dropindex(s, d, k):
        if s.db[d] is None: return
        l = sorted(x for x in s.ids(d).items() if x[0][1] == "T")
        if not l: s.refused(d, "dropindex", "4711"); s.check(d); return
        (c, _, _), i = l[k % len(l)]
        s.ok(d, "dropindex", str(i[0])); s.db[d].ttree.discard(c); note("dropindex")
        s.refused(d, "dropindex", str(i[0]))
        s.op_listindex(d); s.check(d)
    def op_create(s, d, size, mode):
        a = ["create"] + ([] if size is None else [size]) + ([] if size is None or mode is None else [mode])
        b = {None: 0, "abc": 0, "1k": 1000}.get(size)
        if b is None: b = int(size[:-1]) * {"k": 1000, "m": 1000000}[size[-1].lower()] if not size[-1].isdigit() else int(size)
        m = s.db[d]
        if m is None:
            if b == 1000: s.refused(d, *a); s.check(d); return
            s.ok(d, *a); s.db[d] = DB(b or DEFAULT); note("create")
            s.db[d].mode = int(mode, 8) if size is not None and mode in ("600", "660", "666") else None
        elif m.size is None or b: s.cmd(d, *a) if m.size is None else (s.refused(d, *a) if b > m.size else s.ok(d, *a))
        else: s.ok(d, *a)
        s.check(d)
    def op_free(s, d):
        if s.db[d] is None: s.refused(d, "free")
        else: s.ok(d, "free"); note("free")
        s.db[d] = None; s.check(d)
    def op_info(s, d):
        if s.db[d] is None: s.refused(d, "info"); return
        o = s.ok(d, "info").decode(errors="replace"); m = s.db[d]; n = len(m.ttree) + len(m.hashes)
        if not re.search(r"\b%s\b" % s.name(d), o): raise Fail("info does not name the database")
        if "database has %s" % ("no indexes" if n == 0 else "1 index\n" if n == 1 else "%d indexes" % n) not in o: raise Fail("info: %d indexes, it says %r" % (n, o[-100:]))
        if m.mode and "%o" % m.mode not in o: raise Fail("info: the mode is %o: %r" % (m.mode, o))
        if "logging is not active" not in o: raise Fail("info: the database has no journal: %r" % o)
        note("info")
    def op_export(s, d, f, force):
        a = ["export"] + (["-f"] if force else []) + ["dump%d" % f]
        if s.db[d] is None: s.refused(d, *a); return
        s.ok(d, *a); s.dumps[f] = s.db[d].copy(); note("export"); s.check(d)
    def op_import(s, d, f):
        fn = "dump%d" % f
        if f not in s.dumps: s.refused(d, "import", fn); s.check(d); return
        m = s.db[d]; w = s.dumps[f]
        rc, o, e = s.cmd(d, "import", fn)
        if rc:
            if m is None or (m.size is not None and w.size is not None and m.size >= w.size): raise Fail("import: exit status %d: %r" % (rc, e[:200]))
            note("import refused, too small")
        else:
            n = w.copy(); n.size = m.size if m else None; n.mode = m.mode if m else None; s.db[d] = n; note("import")
        s.check(d); s.op_listindex(d)
    def op_csv(s, d):
        """export to CSV and import into the other database"""
        if s.db[d] is None: s.refused(d, "exportcsv", "t.csv"); return
        s.ok(d, "exportcsv", "t.csv"); s.check(d); o = 1 - d
        if any(len(r) == 1 and r[0][0] == 1 for r in s.db[d].rows): return     # an empty line
        rows = [[(4, float("%f" % v[1])) if v[0] == 4 else v for v in r] for r in s.db[d].rows]
        if not rows: return
        s.ok(o, "importcsv", "t.csv"); s.ensure(o).rows += rows; note("csv round trip"); s.check(o)
    def op_importcsv(s, d, l):
        l = [r for r in l if not (len(r) == 1 and r[0] == "")]
        if not l: return
        t = ""
        for k, r in enumerate(l):
            t += ",".join('"' + x.replace('"', '""') + '"' if re.search('[",\n]', x) or (parse(x)[0] == 5 and k % 2) or x != x.strip() else x for x in r) + ("\n" if k % 3 else "\r\n" if k % 2 else "\n")
        open(s.dir + "/in.csv", "w").write(t)
        s.ok(d, "importcsv", "in.csv"); s.ensure(d).rows += [[parse(x) for x in r] for r in l]; note("importcsv"); s.check(d)
    BAD = [("add",), ("query", "0", "="), ("query", "0", "~", "1"), ("query", "x", "=", "1"), ("query", "0", "=", "1", "1"), ("query", "-1", "=", "1"), ("query", "99999999999999999999", "=", "1"), ("del", "0", "="), ("del", "0", "~", "1"),
      ("del", "0", "=", "1", "1", "="), ("del", "-1", "!=", "zzz"), ("del", "4294967296", "!=", "zzz"), ("del", "0x0", "!=", "zzz"), ("select", "x"), ("select", "0"), ("import", "nosuchfile"), ("import", "garbage"), ("import", "-f"), ("importcsv", "nosuchfile"), ("addjson", "nosuchfile"), ("addjson", "garbage"),
      ("replay", "nosuchfile"), ("replay", "garbage"), ("frobnicate",), ("createindex", "x"), ("createhash", "1", "y")]
    def op_bad(s, d, k):
        a = s.BAD[k]; m = s.db[d]
        if m is None and a[0] in ("importcsv", "addjson", "replay"): return     # these create the database first
        with open(s.dir + "/garbage", "wb") as f: f.write(b"\0\1garbage" * 50)
        s.cmd(d, *a) if "4294967296" in a else s.refused(d, *a)     # no row has that column
        note("bad " + a[0]); s.check(d)
        if m: s.op_listindex(d)
    def op_recover(s, dump, rows, ops, relog):
        """create -l, work, lose the database, import the dump, replay the journal"""
        j = os.path.join(s.dir, "wgdb.journal." + s.name("L"))
        for f in os.listdir(s.dir):
            if f.startswith("wgdb.journal."): os.unlink(os.path.join(s.dir, f))
        s.ok("L", "create", "-l", "1M"); s.db["L"] = DB(1000000)
        o = s.ok("L", "info").decode(errors="replace")
        if "logging is active" not in o or j not in o and "wgdb.journal." + s.name("L") not in o: raise Fail("info does not name the journal of the database: %r" % o)
        for r in rows: s.op_add("L", r)
        if dump: s.ok("L", "export", "dumpL"); s.check("L")
        for o in ops:
            if o and isinstance(o[0], list): s.op_del("L", o)
            else: s.op_add("L", o)
        if not os.path.exists(j): raise Fail("create -l: there is no journal")
        shutil.copy(j, s.dir + "/saved"); want = s.db["L"].rows
        s.ok("L", "free"); s.db["L"] = None; s.check("L")
        if dump: s.ok("L", *(["import"] + (["-l"] if relog else []) + ["dumpL"]))
        else: s.ok("L", *(["create"] + (["-l"] if relog else []) + ["1M"]))
        o = s.ok("L", "info").decode(errors="replace")
        if ("logging is active" in o) != bool(relog) or ("logging is not active" in o) != (not relog): raise Fail("info: logging was %s: %r" % ("asked for" if relog else "not asked for", o))
        s.ok("L", "replay", "saved"); s.db["L"] = DB(None); s.db["L"].rows = want; s.check("L")
        note("recover with a dump" if dump else "recover")
        s.op_add("L", ["after", "1"]); s.op_free("L")
    def op_addjson(s, doc, stdin):
        t = json.dumps(doc, ensure_ascii=False).encode()
        if stdin: s.ok("J", "addjson", inp=t)
        else:
            open(s.dir + "/in.json", "wb").write(t); s.ok("J", "addjson", "in.json")
        s.docs = (s.docs or []) + [doc]; note("addjson")
    def op_jsonindex(s):
        if s.docs is None: return
        if s.jindex: s.refused("J", "createhash", "1", "2")
        else: s.ok("J", "createhash", "1", "2"); s.jindex = True
    def op_findjson(s, pairs):
        if s.docs is None: s.refused("J", "findjson", json.dumps(pairs)); return
        o = s.ok("J", "findjson", json.dumps(pairs, ensure_ascii=False)).decode("utf-8", "surrogateescape")
        dec = json.JSONDecoder(strict=False); got = []; i = 0
        while o[i:].strip():
            while o[i].isspace(): i += 1
            try: v, i = dec.raw_decode(o, i)
            except ValueError as e: raise Fail("findjson prints no JSON: %s in %r" % (e, o[max(0, i - 20):i + 100]))
            got.append(v)
        want = [d for d in s.docs if all(contains(d, k, v) for k, v in pairs.items())]
        c = lambda l: sorted(json.dumps(x) for x in l)
        if c(got) != c(want): raise Fail("findjson %s finds %s, expected %s" % (json.dumps(pairs), c(got)[:4], c(want)[:4]))
        note("findjson with documents" if want else "findjson without documents")
        s.refused("J", "findjson", "[1]"); s.refused("J", "findjson", "{\"a\":")
        # parts of documents can be queried but not deleted
        def count(v, k): return (k in v) + sum(count(x, k) for x in v.values()) if isinstance(v, dict) else sum(count(x, k) for x in v) if isinstance(v, list) else 0
        key = next(iter(pairs), "a"); n = count(s.docs, key)
        l = len(s.lines(s.ok("J", "query", "1", "=", key)))
        if l != n: raise Fail("the documents have %d values named %r, query 1 = %r lists %d rows" % (n, key, key, l))
        if n:
            content = lambda: (len(s.lines(s.ok("J", "select", "1000000"))), sorted(s.lines(s.ok("J", "findjson", json.dumps(pairs, ensure_ascii=False)))))   # select cuts long records off
            before = content(); o = s.refused("J", "del", "1", "=", key)
            if content() != before: raise Fail("del 1 = %r of parts of documents changes them" % key)
            note("del of parts of documents is refused")

def run_case(exe, case, base, scratch):
    w = World(exe, base, scratch)
    try:
        for i, o in enumerate(case["ops"]):
            try: getattr(w, "op_" + o[0])(*o[1:])
            except Fail as e: raise Fail("op %d %s: %s" % (i, o[0], e))
            except OSError as e: raise RuntimeError(str(e))
    finally:
        for d in (0, 1, "L", "J"):
            subprocess.run([exe, w.name(d), "free"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=w.env, cwd=scratch)

def nontrivial(d):
    return d.get("add", 0) + d.get("simultaneous adds", 0) + d.get("addjson", 0) >= 2 and sum(v for k, v in d.items() if k in ("query with rows", "del with rows", "import", "csv round trip", "recover", "recover with a dump", "findjson with documents", "dropindex")) >= 1

def main():
    sys.stdout.reconfigure(errors="backslashreplace"); sys.stderr.reconfigure(errors="backslashreplace")
    a = sys.argv[1:]
    if a[0] == "gen": print(json.dumps(generate(int(a[1]), int(a[2])))); return 0
    exe = a[1]; base = int(os.environ.get("WG_KEY", "0")) or 0x70000000 + ((os.getpid() & 0xfffff) << 4)
    scratch = tempfile.mkdtemp(prefix="wgcli")
    try:
        if a[0] == "run":
            try: run_case(exe, json.load(sys.stdin), base, scratch)
            except Fail as e: print("FAIL " + str(e)); return 1
            return 0
        seed, first, step, n = map(int, a[2:6]); out = a[6]; deadline = time.time() + float(a[7])
        seen = set(); nt = 0; samples = []; ran = 0; i = first
        with open(out, "w") as f:
            while i < n and time.time() < deadline:
                case = generate(seed, i); f.write(json.dumps({"at": i}) + "\n"); f.flush(); before = dict(STATS)
                try: run_case(exe, case, base, scratch)
                except Fail as e: f.write(json.dumps({"fail": i, "msg": str(e)}) + "\n"); f.flush(); return 1
                ran += 1; h = hashlib.sha256(json.dumps(case).encode()).digest()[:8]
                if h not in seen and nontrivial({k: v - before.get(k, 0) for k, v in STATS.items()}):
                    seen.add(h); nt += 1
                    if len(samples) < 2 and len(case["ops"]) < 12: samples.append(case)
                i += step
            f.write(json.dumps({"done": ran, "nontrivial": nt, "stats": STATS, "samples": samples}) + "\n")
        return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
