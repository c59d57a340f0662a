#!/usr/bin/env python3
"""C36: requests to the data server against a model of the database, the configuration and the printed answer.
gen SEED INDEX | run DSERVE DSDB < case | batch DSERVE DSDB SEED FIRST STEP N OUT WALL"""
import sys, os, json, random, re, subprocess, shutil, tempfile, datetime, hashlib, time, socket, threading, functools

CODE = dict(n=1, r=2, i=3, d=4, s=5, x=6, u=7, b=8, c=9, f=10, D=11, T=12, v=14)
COMPARES = ["equal", "not_equal", "lessthan", "greater", "ltequal", "gtequal"]
ADMIN, WRITE, READ = 0, 1, 2

# ------------------------------------------------------------ generator
def gen_str(r):
    k = r.random()
    if k < 0.4: return r.choice(["a", "b", "abc", "hello", "x y", "1", "-5", "1.5", "", "a=b", "a&b", "100%", "%41", "+"])
    if k < 0.55: return r.choice(['q"q', "back\\slash", "a/b", "tab\t", "nl\n", "cr\r\n", "\x01\x1f", "\x7f", "\b\f", "'", ",", "</script>", "\u00e9", "\u20ac", "\U0001f600", "\\", '"', '""', "\\n"])
    if k < 0.7: return "".join(r.choice('ab"\\/\n%\x02\xe9,') for _ in range(r.randint(0, 12)))
    if k < 0.76: return r.choice('a"\\\x03\xe9') * r.choice([31, 32, 33, 90, 200, 300, 900, 3000])
    return r.choice("abcde") * r.randint(1, 4)
def gen_val(r, n, simple=False):
    k = r.random()
    if k < 0.34: return ["i", r.choice([r.randint(-3, 5), r.randint(-3, 5), r.randint(-3, 5), r.randint(-10**6, 10**6), 2**31 - 1, 2**31, -2**31 - 1, 2**62, -2**63, 2**63 - 1])]
    if k < 0.44: return ["d", r.choice([0.5, 1.5, -2.25, 3.0, 1e6, 1234567.0, 1e100, -1e-5, 0.1, r.randint(-50, 50) / 8])]
    if k < 0.64 or simple: return ["s", gen_str(r)]
    if k < 0.69: return ["s", gen_str(r), r.choice(["en", "et", "", "x\"y"])]
    if k < 0.75: return ["n"]
    if k < 0.80 and n: return ["r", r.randrange(n)]
    if k < 0.83: return ["c", r.choice([97, 98, 34, 92, 10, 65, 233, 47, 1])]
    if k < 0.86: return ["f", r.choice([0, 1, 15000, -25000, 7999999, r.randint(-100000, 100000)])]
    if k < 0.89: return ["D", r.choice([1, 730000, 700000 + r.randint(0, 30000)])]
    if k < 0.92: return ["T", r.choice([0, 1, 8639999, r.randint(0, 8639999)])]
    if k < 0.94: return ["v", r.randint(0, 20)]
    if k < 0.96: return ["u", gen_str(r) or "a"] + ([r.choice(["http", "p\"", "ns"])] if r.random() < 0.6 else [])
    if k < 0.98: return ["x", gen_str(r) or "a", r.choice(["int", "xsd:\"s", "t"])]
    return ["b", bytes(r.choice([0, 1, 34, 37, 65, 66, 92, 200, 255]) for _ in range(r.choice([1, 3, 8, 40, 400]))).hex()]
def gen_data(r):
    n = r.choice([0, 1, 3, 5, 8, 12, 20, 40]); recs = []
    if r.random() < 0.06: n = r.randint(60, 200)      # more than one page of results
    w = r.choice([1, 2, 3, 4, 6])
    for i in range(n):
        recs.append([gen_val(r, 0 if r.random() < 0.3 else i) if c or r.random() < 0.3 else ["i", r.randint(0, 5)] for c in range(w if r.random() < 0.8 else r.randint(1, 8))])
    return recs
def gen_cond(r, recs, prefix=""):
    """field, value, compare and type parameters"""
    out = []; c = r.choice([0, 0, 0, 1, 1, 2, 3, r.randint(0, 9)]); v = None
    rows = [x for x in recs if len(x) > c]
    if rows and r.random() < 0.8:
        k = r.randrange(len(rows)); v = rows[k][c]
    if v is None or v[0] not in "nidscr": v = r.choice([["i", r.randint(-1, 5)], ["s", gen_str(r)], ["d", 1.5], ["n"], ["c", 97], ["r", r.randrange(99)]])
    t = v[0]
    if t == "n": text = r.choice(["x", "1", ""])
    elif t == "d": text = "%f" % v[1]
    elif t == "c": text = chr(v[1]) + r.choice(["", "", "z"])
    elif t == "r": text = "@%d" % v[1] if r.random() < 0.9 else r.choice(["1", "7", "1000", "-8", "8000000", "123456789012345"])
    else: text = str(v[1])
    typ = dict(n="null", i="int", d="double", s="str", c="char", r="record")[t]
    return [str(c), text, r.choice(COMPARES), typ, t]
def gen_params(r, recs, dbs, conf, server):
    """-> list of [key, value], keys and values as text"""
    k = r.random(); p = []
    if 0.70 <= k < 0.80: dbs = ["#1", "#2", "#2"] + ["#0"] * (r.random() < 0.2)
    if conf or r.random() < 0.9: p.append(["db", r.choice(dbs)])
    if k < 0.70:
        op = r.choice(["search", "search", "search", "search", "select", "count", "count", "delete"]); p.append(["op", op])
        m = r.random()
        if m < 0.6:
            nc = r.choice([1, 1, 1, 2, 3])
            for _ in range(nc):
                f, v, c, t, kind = gen_cond(r, recs)
                q = [["field", f], ["value", v]]
                if nc > 1 or r.random() < 0.7: q += [["compare", c], ["type", t]] if r.random() < 0.5 else [["type", t], ["compare", c]]
                elif r.random() < 0.5: q.append(r.choice([["compare", c], ["type", t]]))
                p += q
        elif m < 0.75: p.append(["recids", ",".join("@%d" % r.randrange(45) if r.random() < 0.9 else r.choice(["0", "1", "16", "-5", "x", "", "99999", "8000008", "123456789012345678"]) for _ in range(r.choice([0, 1, 2, 3, 8])))])
        if r.random() < 0.3: p.append(["from", str(r.choice([0, 1, 2, 3, 5, 50]))])
        if r.random() < 0.3: p.append(["count", str(r.choice([0, 1, 2, 3, 5, 100, 1000000]))])
    elif k < 0.76: p += [["op", "create"]] + ([["size", r.choice(["1000000", "2000000", "500000", "0", "-5", "abc", "999999999999", "1500000000"])]] if r.random() < 0.7 else [])
    elif k < 0.80: p += [["op", "drop"]]
    elif k < 0.86: p += r.choice([[], [["op", "frob"]], [["op", "search"], ["value", "1"]], [["op", "search"], ["recids", "1"], ["field", "1"], ["value", "1"]], [["op", "search"], ["nokey", "x\"y"]], [["op", "search"], ["field", "0"], ["value", "x"], ["type", "int"]],
        [["op", "delete"], ["field", "0"], ["value", "1"], ["type", "blob"]], [["op", "delete"], ["field", "0"], ["value", "1"], ["compare", "like"]], [["op", "delete"], ["field", "x"], ["value", "1"]], [["op", "delete"], ["field", "-1"], ["value", "1"]], [["op", "search"], ["format", "xml"]],
        [["op", "search"], ["showid", "maybe"]], [["op", "search"], ["escape", "all"]], [["op", "delete"], ["field", "0"]], [["op", "delete"], ["field", "0"], ["value", ""], ["type", "int"]], [["op", "delete"], ["field", ""], ["value", "1"]], [["op", "delete"], ["db", "x"]], [["op", "delete"], ["compare", "equal"]], [["op", "create"], ["from", "1"]]])
    else: p += [["op", "search"]]
    if r.random() < 0.35: p.append(["showid", r.choice(["yes", "yes", "no"])])
    if r.random() < 0.3: p.append(["format", r.choice(["csv", "csv", "json"])])
    if r.random() < 0.25: p.append(["escape", r.choice(["no", "url", "json"])])
    if r.random() < 0.25: p.append(["depth", r.choice(["0", "1", "2", "3", "100", "200", "20000"])])
    if r.random() < 0.2: p.append(["jsonp", r.choice(["foo", "cb", "f" * 94, "g" * 95, "h" * 101, "j" * 400])])
    if r.random() < 0.15: p.append(["_", "123"])
    if conf and server and r.random() < 0.8:
        l = [x for k2 in conf if k2.endswith("tokens") for x in conf[k2]]
        t = r.choice(l * 3 + ["nosuch"]) if l else "t"
        if r.random() < 0.25: t = r.choice([t[:-1], t[1:], t + "x", t + t, t.upper(), " " + t])      # almost the right one
        p.append(["token", t])
    if r.random() < 0.04: p.append(["_", "P%d" % r.choice([1998, 1999, 2000, 2001, 2002, 3000])])    # padded to this length
    if r.random() < 0.5: r.shuffle(p) if not any(k2 in ("type", "compare") for k2, _ in p) or sum(k2 == "field" for k2, _ in p) < 2 else None
    return p
def gen_conf(r):
    c = {}
    if r.random() < 0.3: c["default_dbase"] = [r.choice(["#0", "#1"])]
    if r.random() < 0.3: c["default_dbase_size"] = [r.choice(["1000000", "0", "600000"])]
    if r.random() < 0.3: c["max_dbase_size"] = [r.choice(["1000000", "0", "1999999", "20000000"])]
    if r.random() < 0.2: c["dbases"] = r.sample(["#0", "#1", "#2"], r.randint(1, 3)) + (["77", "78"] if r.random() < 0.3 else [])
    for k in ("admin_ips", "write_ips", "read_ips"):
        if r.random() < 0.2: c[k] = [r.choice(["127.0.0.1", "127", "127.0.0.1", "127.0", "127.", "10.0.0.1", "127.0.0.11", "1", "27.0"]) for _ in range(r.choice([1, 1, 2, 3]))]
    for k in ("admin_tokens", "write_tokens", "read_tokens"):
        if r.random() < 0.35: c[k] = [r.choice(["t1", "t2", "secret", "t", "s3cr\u00e9t"]) for _ in range(r.choice([1, 1, 2, 5]))]
    return c

def generate(seed, index):
    r = random.Random((seed << 32) ^ index)
    server = r.random() < 0.45
    conf = gen_conf(r) if r.random() < (0.5 if server else 0.3) else None
    data = [gen_data(r), gen_data(r) if r.random() < 0.4 else None]; ops = []
    for d in (0, 1):
        if data[d] is not None:
            cyc = [[r.randrange(40), r.randrange(40)] for _ in range(r.choice([0, 0, 0, 1]))]
            ops.append(["data", d, data[d], sorted(r.sample(range(4), r.choice([0, 0, 0, 1, 2]))), cyc])
    dbs = ["#0"] * 6 + (["#1"] * 3 if data[1] is not None else ["#1"]) + ["#2"]
    for _ in range(r.choice([3, 5, 8, 12])):
        x = r.random()
        p = gen_params(r, data[0] + (data[1] or []), dbs, conf, server)
        safe = [["op", "search"] if k == "op" and v in ("delete", "create", "drop") else [k, v] for k, v in p]     # whatever a mutated request is taken for, it changes nothing
        if x < 0.86 or not server:
            if x < 0.95: ops.append(["req", ("http" if r.random() < 0.7 else "hpost") if server and r.random() < 0.85 else r.choice(["cli", "cli", "get", "post"]), p, r.randrange(1 << 20)])
            else: ops.append(["rawq", bytes(mutate(r, encode(safe, r.randrange(99), lambda d: "5", lambda d, k: "16").encode("latin-1"))).hex()])
        elif x < 0.93: ops.append(["raw", gen_raw(r, safe).hex()])
        else:
            l = []
            for _ in range(r.choice([4, 10, 30])):
                q = [["db", "#0"], ["op", r.choice(["search", "search", "search", "count", "delete", "delete"])]]
                if r.random() < 0.6 or q[1][1] == "delete": q += [["field", "0"], ["value", str(r.randint(0, 5))]]
                if q[1][1] == "search": q.append(["showid", "yes"])
                if conf: q += [["token", x] for x in (conf.get("write_tokens") or conf.get("admin_tokens") or [])[:1]]
                l.append(q)
            ops.append(["burst", l])
    return {"server": server, "conf": conf, "ops": ops}
def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.randint(1, 4)):
        k = r.random(); i = r.randrange(len(b) + 1)
        if k < 0.3 and i < len(b): b[i] = r.choice(b"=&%,?-0x\xff\x80 \x01")
        elif k < 0.6: b[i:i] = r.choice([b"&", b"=", b"%", b"%2", b"&&", b"==", b"recids=", b"field=", b"x" * 90, b"\xff", b"%ff%fe", b"op=search&", b"value=%22"])
        elif i < len(b): del b[i:i + r.randint(1, 5)]
    b = bytes(x for x in b if x)
    return b if b.find(b"dele") < 0 and b.find(b"dro") < 0 and b.find(b"upd") < 0 and b.find(b"crea") < 0 and b.find(b"ins") < 0 and not b.startswith(b"-") and not b[:1].isdigit() else b"op=&"
def gen_raw(r, p):
    q = mutate(r, encode([x for x in p if x[0] != "op"] + [["op", "search"]], r.randrange(99), lambda d: "5", lambda d, k: "16").encode("latin-1")).replace(b"\n", b"")
    return r.choice([b"GET /x?" + q + b" HTTP/1.0\r\n\r\n", b"GET\r\n\r\n", b"FOO / HTTP/1.0\r\n\r\n", b"\r\n", b"", b"GET /\r\n\r\n", b"GET / HTTP/1.0\r\n\r\n", b"GET /?" + b"a" * r.choice([1990, 2100, 9980, 9999, 10000, 10001, 20000]) + b" HTTP/1.0\r\n\r\n",
        b"POST / HTTP/1.0\r\n\r\n" + q, b"POST / HTTP/1.0\r\nContent-Length: %d\r\n\r\n" % r.choice([0, 1, -1, 5, 100000, 99999999, 2**31, len(q)]) + q, b"POST / HTTP/1.0\r\nContent-Length: 5\r\nX: " + b"y" * r.choice([9980, 9996, 10000, 12000]) + b"\r\n\r\nop=se",
        b"POST / HTTP/1.0\r\n" + b"A: b\r\n" * r.choice([10, 998, 999, 1000, 1001]) + b"Content-Length: 9\r\n\r\nop=search", b"GET  /?op=search HTTP/1.0\r\n\r\n", b"GET /?" + q, b"POST /x HTTP/1.0\r\ncontent-length: %d\r\n\r\n" % len(q) + q, b"GET ? ?"])

# ------------------------------------------------------------ model
class Fail(Exception): pass
class Inconclusive(Exception): pass
STATS = {}
def note(k): STATS[k] = STATS.get(k, 0) + 1

def sb(t): return t.encode("utf-8")
def encode(params, es, dbname, recid):
    """the query string"""
    r = random.Random(es); out = []
    for k, v in params:
        if k == "db" and v[:1] == "#": v = dbname(int(v[1:]))
        if "@" in v and k in ("recids", "value"): v = re.sub(r"@(\d+)", lambda m: recid(None, int(m[1])), v)
        t = ""
        for c in sb(v):
            if chr(c).isalnum() and c < 128 and r.random() < 0.97 or chr(c) in "-_.,": t += chr(c)
            else: t += ("%%%02x" if r.random() < 0.5 else "%%%02X") % c
        out.append([k, t])
    for o in out:
        if o[0] == "_" and re.fullmatch(r"P\d+", o[1]):
            n = int(o[1][1:]); o[1] = ""; l = len("&".join(k + "=" + v for k, v in out)); o[1] = "p" * max(1, n - l)
    return "&".join(k + "=" + v for k, v in out)

class Rec:
    __slots__ = ("id", "vals", "refs")
def cmp_val(a, b, depth=7):
    ca, cb = CODE[a[0]], CODE[b[0]]
    if ca != cb: return -1 if ca < cb else 1
    t = a[0]
    if t == "n": return 0
    if t == "r": return cmp_rec(a[1], b[1], depth)
    x, y = (sb(a[1]), sb(b[1])) if t == "s" else (a[1], b[1])
    return (x > y) - (x < y)
def cmp_rec(x, y, depth):
    if x is y: return 0
    if len(x.vals) != len(y.vals): return -1 if len(x.vals) < len(y.vals) else 1
    if depth <= 0: raise Inconclusive("deep comparison")
    for u, v in zip(x.vals, y.vals):
        c = cmp_val(u, v, depth - 1)
        if c: return c
    return 0
def holds(v, cond, w):
    c = cmp_val(v, w)
    return {"equal": c == 0, "not_equal": c != 0, "lessthan": c < 0, "greater": c > 0, "ltequal": c <= 0, "gtequal": c >= 0}[cond]
ISINT = re.compile(r"-?[0-9]+\Z"); ISDBL = re.compile(r"-?(?=[0-9.]*[0-9])[0-9]*\.?[0-9]*\Z")
def sat(t): return max(-2**63, min(2**63 - 1, int(t)))
def iso(t): return "%02d:%02d:%02d.%02d" % (t // 360000, t // 6000 % 60, t // 100 % 60, t % 100)

class Refused(Exception): pass
class Unchecked(Exception): pass

def text_of(v):
    """the characters of a text value as bytes, None if it is not text"""
    t = v[0]
    if t == "s": return sb(v[1]) + (b"@" + sb(v[2]) if len(v) > 2 else b"")
    if t == "u": return (sb(v[2]) + b":" if len(v) > 2 else b"") + sb(v[1])
    if t == "x": return sb(v[2]) + b":" + sb(v[1])
    if t == "c": return bytes([v[1]])
    if t == "D": return datetime.date.fromordinal(v[1]).isoformat().encode()
    if t == "T": return iso(v[1]).encode()
    if t == "v": return b"?%d" % v[1]
    return None
def pct(b): return b"".join(b"%%%02x" % c if c < 32 or c > 126 or c in b'%"\\' else bytes([c]) for c in b)
def csv_val(v):
    t = v[0]
    if t == "n": return b""
    if t == "i": return b"%d" % v[1]
    if t == "d": return b"%g" % v[1]
    if t == "f": return b"%g" % (v[1] / 10000.0)
    if t == "r": return b"%d" % v[1].id
    if t == "b": return b'"' + pct(bytes.fromhex(v[1])) + b'"'
    return b'"' + text_of(v).replace(b'"', b'""') + b'"'
def json_rec(rec, depth, opt, budget):
    return ([rec.id] if opt["showid"] else []) + [json_val(v, depth, opt, budget) for v in rec.vals]
def json_val(v, depth, opt, budget):
    budget[0] -= 1
    if budget[0] < 0: raise Inconclusive("too much to print")
    t = v[0]
    if t == "n": return []
    if t == "i": return v[1]
    if t == "d": return float("%g" % v[1])
    if t == "f": return float("%g" % (v[1] / 10000.0))
    if t == "r": return v[1].id if depth >= opt["depth"] else json_rec(v[1], depth + 1, opt, budget)
    if t == "b": return pct(bytes.fromhex(v[1])).decode("latin-1")
    b = text_of(v); e = opt["escape"]
    if e == "no" and re.search(rb'[\x00-\x1f"\\]', b): raise Unchecked()
    if e == "url":
        if b"\\" in b: raise Unchecked()
        b = b"".join(b"%%%02x" % c if c < 32 or c > 126 or c in b'%"' else bytes([c]) for c in b)
    return b.decode("latin-1")
def same(a, b):
    if isinstance(b, list): return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, float): return isinstance(a, (int, float)) and not isinstance(a, bool) and float(a) == b
    return type(a) is type(b) and a == b

class World:
    def __init__(s, exe, dsdb, base, scratch, case):
        s.exe, s.dsdb, s.base, s.dir = exe, dsdb, base, scratch
        s.db = {0: None, 1: None, 2: None}; s.indexed = {}; s.conf = {}; s.confpath = None; s.srv = None
        s.env = {k: v for k, v in os.environ.items() if k in ("PATH", "ASAN_OPTIONS", "TMPDIR", "HOME")}
        s.env["ASAN_OPTIONS"] = "detect_leaks=0:handle_segv=0:handle_abort=0"
        if case["conf"] is not None: s.write_conf(case["conf"])
        if case["server"]: s.start()
    def name(s, d): return str(s.base + d)
    def sub(s, v): return s.name(int(v[1:])) if v[:1] == "#" else v
    def write_conf(s, conf):
        r = random.Random(len(json.dumps(conf))); t = ""
        s.conf = {k: [s.sub(x) for x in v] for k, v in conf.items()}
        for k, v in s.conf.items():
            t += r.choice(["", "# comment=1\n", "\n", "[section]\n", "  \n", "nonsense row\n", "#" + "c" * r.choice([100, 990, 1000, 3000]) + "\n"]) + k + r.choice(["=", " = ", "\t=", "= "]) + v[0] + r.choice(["", " ", "  # c", "\r"]) + "\n"
            for x in v[1:]: t += r.choice([" ", "\t", "    "]) + x + r.choice(["", " ", "#c"]) + "\n" + r.choice(["", "", "  # c\n", "\n"])
        if r.random() < 0.3: t = t.rstrip("\n")
        if not t: t = "\n"
        s.confpath = s.dir + "/conf.txt"; open(s.confpath, "wb").write(sb(t))
    # ---- processes
    def run(s, argv, env=None, inp=b""):
        for _ in range(4):
            p = subprocess.run([s.exe] + argv, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(s.env, **(env or {})), cwd=s.dir, timeout=50)
            if p.returncode == 75 and b"timeout_handler" in p.stdout: continue      # the two second limit of the tool, on a busy machine
            if p.returncode: raise Fail("dserve exits with status %d: %r %r" % (p.returncode, p.stdout[-200:], [l for l in p.stderr.decode("latin-1").split("\n") if "ERROR" in l or "SUMMARY" in l][:2]))
            return p.stdout
        raise Inconclusive("timeouts")
    def start(s):
        r = random.SystemRandom()
        for _ in range(60):
            s.port = r.randrange(20000, 60000)
            s.log = open(s.dir + "/server.err", "wb")
            s.srv = subprocess.Popen([s.exe, str(s.port)] + ([s.confpath] if s.confpath else []), stdin=subprocess.DEVNULL, stdout=s.log, stderr=s.log, env=s.env, cwd=s.dir)
            end = time.time() + 20
            while time.time() < end and s.srv.poll() is None:
                if s.listening(): return
                time.sleep(0.005)
            s.stop()
        raise RuntimeError("cannot start the server: " + open(s.dir + "/server.err", errors="replace").read()[-500:])
    def listening(s):
        try:
            want = "%04X" % s.port; inode = None
            for l in open("/proc/net/tcp").readlines()[1:]:
                f = l.split()
                if f[1].endswith(":" + want) and f[3] == "0A": inode = f[9]
            if inode is None: return False
            d = "/proc/%d/fd" % s.srv.pid
            return any(os.readlink(d + "/" + x) == "socket:[%s]" % inode for x in os.listdir(d))
        except OSError: return False
    def stop(s):
        if s.srv:
            s.srv.kill(); s.srv.wait(); s.srv = None; s.log.close()
    def alive(s):
        if s.srv and s.srv.poll() is not None:
            e = open(s.dir + "/server.err", errors="replace").read()
            raise Fail("the server ended with status %s: %s" % (s.srv.returncode, " | ".join([l for l in e.split("\n") if "ERROR" in l or "SUMMARY" in l or "terminat" in l][:3])))
    def talk(s, data, cut=()):
        k = socket.socket(); k.settimeout(40); out = b""
        try:
            k.connect(("127.0.0.1", s.port))
            try:
                if cut: k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); note("http in pieces")
                o = 0
                for c in cut: k.sendall(data[o:c]); o = c; time.sleep(0.004)      # the request arrives in pieces
                k.sendall(data[o:]); k.shutdown(socket.SHUT_WR)
            except OSError: pass
            while True:
                b = k.recv(65536)
                if not b: break
                out += b
        except socket.timeout: raise Fail("no answer to an HTTP request in 40 seconds, got %r" % out[-100:])
        except OSError as e:
            time.sleep(0.05); s.alive()
            if not out: out = b"!" + str(e).encode()
        finally: k.close()
        return out
    def http(s, data):
        r = random.Random(data); o = s.talk(data, sorted(r.randrange(1, len(data)) for _ in range(r.randint(1, 4))) if r.random() < 0.2 else ())
        h, sep, b = o.partition(b"\r\n\r\n")
        if not sep or not h.startswith(b"HTTP/1.0 200 OK\r\n"): raise Fail("HTTP answer %r" % o[:200])
        m = re.search(rb"\r\nContent-Length: *(\d+) *(\r\n|\Z)", h)
        if not m or int(m[1]) != len(b): raise Fail("Content-Length %s for a body of %d bytes" % (m and m[1], len(b)))
        return b
    def send(s, mode, q):
        qb = q.encode("latin-1")
        if mode in ("http", "hpost") and not s.srv: mode = "cli"
        if mode == "cli": b = s.run([q] + ([s.confpath] if s.confpath else []))
        elif mode == "get": b = s.cgi(s.run([], {"REQUEST_METHOD": "GET", "QUERY_STRING": q, "REMOTE_ADDR": "10.1.1.1"}))
        elif mode == "post": b = s.cgi(s.run([], {"REQUEST_METHOD": "POST", "CONTENT_LENGTH": str(len(qb) + (7 if len(qb) % 5 == 0 else 0)), "CONTENT_TYPE": "application/x-www-form-urlencoded", "REMOTE_ADDR": "10.1.1.1"}, qb))
        elif mode == "http": b = s.http(b"GET /dserve?" + qb + b" HTTP/1.0\r\nHost: localhost\r\n\r\n")
        else: b = s.http(b"POST /dserve HTTP/1.0\r\nHost: localhost\r\nContent-Type: application/x-www-form-urlencoded\r\n" + (b"Content-Length" if len(qb) % 2 else b"content-length") + b": %d\r\n\r\n" % len(qb) + qb)
        if mode in ("cli", "get", "post"):
            if not b.endswith(b"\n"): raise Fail("no end of line after the answer")
            b = b[:-1]
        return b
    def cgi(s, o):
        m = re.match(rb"Content-Length: (\d+)\r\nContent-Type: (application/json|text/csv)\r\n\r\n", o)
        if not m: raise Fail("CGI header: %r" % o[:150])
        if int(m[1]) != len(o) - m.end(): raise Fail("CGI Content-Length %s for %d bytes" % (m[1], len(o) - m.end()))
        s.ctype = m[2]
        return o[m.end():]
    def helper(s, d, what, inp=""):
        p = subprocess.run([s.dsdb, s.name(d), what], input=inp.encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=s.env, cwd=s.dir)
        if p.returncode: raise RuntimeError("dsdb %s: %d %s" % (what, p.returncode, p.stderr.decode("latin-1")[-300:]))
        return p.stdout.decode().split("\n")[:-1]
    def check(s, d):
        l = s.helper(d, "list")
        if s.db[d] is None:
            if l[0] != "none": raise Fail("database %d exists" % d)
            return
        if l[0] == "none": raise Fail("database %d is gone" % d)
        got = [int(x.split()[0]) for x in l[1:]]
        if got != [x.id for x in s.db[d]]: raise Fail("database %d holds records %s, expected %s" % (d, got[:20], [x.id for x in s.db[d]][:20]))
    def checkall(s):
        for d in s.db: s.check(d)
    # ---- operations
    def op_data(s, d, recs, idx, cyc):
        if s.db[d] is not None: return
        l = []; t = "".join("index %d\n" % c for c in idx)
        for vals in recs:
            o = Rec(); o.vals = []; l.append(o); t += "rec %d\n" % len(vals)
            for v in vals:
                if v[0] == "r": v = ["r", v[1] % (len(l) - 1)] if len(l) > 1 else ["n"]
                k = v[0]
                if k == "n": t += "n\n"
                elif k == "r": t += "r %d\n" % v[1]; v = ["r", l[v[1]]]
                elif k in "idfcDTv": t += "%s %r\n" % (k, v[1])
                elif k == "b": t += "b %s\n" % v[1]
                else: t += " ".join([k] + [sb(x).hex() for x in v[1:]]) + "\n"
                o.vals.append(v)
        s.cyclic = getattr(s, "cyclic", False)
        for a, b in cyc:
            if a < len(l) and b < len(l) and a < b and not idx:
                t += "set %d 0 %d\n" % (a, b); l[a].vals[0] = ["r", l[b]]; s.cyclic = True
        ids = list(map(int, s.helper(d, "build", t)))
        for o, i in zip(l, ids): o.id = i
        s.db[d] = l; s.indexed[d] = set(idx); s.orig = dict(getattr(s, "orig", {})); s.orig[d] = list(l)
        order = [int(x.split()[0]) for x in s.helper(d, "list")[1:]]
        if sorted(order) != sorted(ids): raise Fail("the built database holds other records than created")
        s.db[d].sort(key=lambda o: order.index(o.id)); note("databases")
    def referenced(s, d, rec): return any(v[0] == "r" and v[1] is rec for o in s.db[d] for v in o.vals)
    def delete(s, d, recs, count=2**62):
        n = g = 0
        for x in recs:
            if x not in s.db[d]: continue      # the same id again
            g += 1
            if g > count: break
            if not s.referenced(d, x): s.db[d].remove(x); n += 1
        return n
    def level_ok(s, mode, level, dbname, token):
        if mode in ("cli", "post", "get"): return True      # CGI runs without a configuration
        c = s.conf
        if "dbases" in c and dbname not in c["dbases"]: return False
        ip = "127.0.0.1"; names = ["admin", "write", "read"][:level + 1]
        anyof = lambda suffix, test: any(n + suffix not in c or any(test(x) for x in c[n + suffix]) for n in names)
        return anyof("_ips", ip.startswith) and anyof("_tokens", lambda x: token is not None and token != "" and x == token)
    def target(s, name):
        for d in s.db:
            if s.name(d) == name: return d
        return None
    def resolve(s, params, recs):
        """the parameters with the placeholders replaced"""
        def rid(m):
            k = int(m[1]); return str(recs[k].id) if k < len(recs) else "3"
        return [[k, s.sub(v) if k == "db" else re.sub(r"@(\d+)", rid, v) if k in ("recids", "value") and (k == "recids" or v[:1] == "@") else v] for k, v in params]
    def expect(s, mode, P, conf):
        """-> (kind, value, options) for parameters P; raises Refused"""
        get = lambda k: [v for x, v in P if x == k]
        ops = get("op")
        if any(k == "db" and v and re.match(r"\s*[-+]?0*(\D|$)", v) and v != "0" for k, v in P): raise Refused()
        name = next((v for k, v in P if k == "db" and v), conf.get("default_dbase", ["1000"])[0])
        if not ops: raise Refused()
        op = ops[0]
        if op not in ("search", "select", "count", "delete", "create", "drop"): raise Refused()
        own = dict(create=["db", "size"], drop=["db"]).get(op, ["recids", "field", "value", "compare", "type", "from", "count"])
        opt = dict(showid=False, format="json", escape="json", depth=100)
        for k, v in P:
            if k in own or k in ("token", "jsonp", "_", "db", "op"): continue
            if k == "depth": opt["depth"] = int(v)
            elif k == "showid":
                if v not in ("yes", "no"): raise Refused()
                opt[k] = v == "yes"
            elif k == "format":
                if v not in ("json", "csv"): raise Refused()
                opt[k] = v
            elif k == "escape":
                if v not in ("no", "url", "json"): raise Refused()
                opt[k] = v
            else: raise Refused()
        tok = get("token"); tok = tok[-1] if tok else None
        level = dict(delete=WRITE, create=ADMIN, drop=ADMIN).get(op, READ)
        s.opt = opt
        if op in ("create", "drop"):
            if any(not re.match(r"[1-9]", v) for v in get("db")): raise Refused()
        allowed = "dbases" not in conf or name in conf["dbases"]
        d = s.target(name)
        if op == "create":
            mx = int(conf.get("max_dbase_size", ["1000000000"])[0]); size = 0
            for v in get("size"):
                m = re.match(r"\d+", v); size = int(m[0]) if m else 0
                if size <= 0 or size > 2**31 - 1 or size > mx: raise Refused()
            if not s.level_ok(mode, level, name if get("db") else None, tok): raise Refused()
            if not get("db") and mode in ("http", "hpost") and not allowed: raise Refused()
            if not size: size = int(conf.get("default_dbase_size", ["10000000"])[0])
            if not allowed or size <= 0 or size > mx: raise Refused()
            if d is None: raise Inconclusive("other database")
            return "create", (d, size), opt
        if not s.level_ok(mode, level, name, tok) or not allowed: raise Refused()
        if op == "drop":
            if d is None or s.db[d] is None: raise Refused()
            return "drop", d, opt
        F, V, C, T = get("field"), get("value"), get("compare"), get("type"); ids = get("recids")
        if ids and F: raise Refused()
        if not ids and not F and (V or C or T): raise Refused()
        if d is None and name in ("77", "78", "1000"): raise Inconclusive("other database")
        if d is None or s.db[d] is None: raise Refused()
        frm = int((get("from") or ["0"])[-1]); count = int((get("count") or [str(2**62 if op == "count" else 100000)])[-1])
        rows = s.db[d]; ordered = True
        if ids:
            l = []; by = {o.id: o for o in rows}
            for x in ids[-1].split(","):
                m = re.match(r"\s*\d+", x)
                if m and int(m[0]) in by: l.append(by[int(m[0])])
            if op == "delete": return "delete", (d, l, count), opt
            l = l[:count]
        elif not F: l = rows[frm:][:count]
        else:
            conds = []
            for i, f in enumerate(F):
                if not ISINT.match(f) or int(f) < 0: raise Refused()
                c = C[i] if i < len(C) else "equal"
                if c not in COMPARES: raise Refused()
                t = T[i] if i < len(T) else ""
                if i >= len(V): raise Refused()
                v = V[i]
                if t == "": t = "int" if ISINT.match(v) else "double" if ISDBL.match(v) else "str"
                if t == "null": w = ["n"]
                elif t == "int":
                    if not ISINT.match(v): raise Refused()
                    w = ["i", sat(v)]
                elif t == "record":
                    if not ISINT.match(v): raise Refused()
                    z = [o for o in rows if o.id == int(v)]
                    if not z: raise Refused()
                    w = ["r", z[0]]
                elif t == "double":
                    if not ISDBL.match(v): raise Refused()
                    w = ["d", float(v)]
                elif t == "str": w = ["s", v]
                elif t == "char": w = ["c", (sb(v) + b"\0")[0]]
                else: raise Refused()
                conds.append((int(f), c, w))
                if int(f) in s.indexed[d]: ordered = False
            if s.cyclic and any(w[0] == "r" for _, _, w in conds): raise Inconclusive("comparison of cyclic records")
            full = [o for o in rows if all(f < len(o.vals) and holds(o.vals[f], c, w) for f, c, w in conds)]
            if len(F) >= 1 and not ordered: l = (full, max(0, min(len(full) - frm, count)))
            else: l = full[frm:][:count]
        if op == "count": return "number", len(l) if isinstance(l, list) else l[1], opt
        if op == "delete":
            if isinstance(l, tuple):
                if len(l[0]) != l[1] or any(s.referenced(d, x) for x in l[0]): return "delete-any", (d, l[0], l[1]), opt
                l = l[0]
            return "delete", (d, l), opt
        return "rows", (d, l), opt
    def op_req(s, mode, params, es):
        if mode in ("http", "hpost") and not s.srv: mode = "cli"
        conf = {} if mode in ("get", "post") else s.conf
        k = [i for i, x in enumerate(params) if x[0] == "db"]
        params = [x for i, x in enumerate(params) if i not in k[:-1]]
        name = next((s.sub(v) for k, v in params if k == "db" and v), conf.get("default_dbase", ["1000"])[0]); d = s.target(name)
        if any(k == "db" and v[:1] != "#" and v != "x" for k, v in params) or d is None and not any(k == "db" for k, v in params):
            if "default_dbase" not in conf: params = [["db", "#0"]] + params; d = 0      # never the databases of others
        if params and params[-1][1] == "": params = params + [["_", "1"]]
        P = s.resolve(params, getattr(s, "orig", {}).get(d, []))
        q = encode(P, es, s.name, None)
        s.opt = dict(format="json"); err = None
        try:
            if len(q) > 2000: s.opt = dict(format="json"); raise Refused()
            kind, val, opt = s.expect(mode, P, conf)
        except Refused: kind = "refused"; val = opt = None
        jsonp = next((v for k, v in P if k == "jsonp"), None)
        b = s.send(mode, q); s.alive()
        if kind == "refused":
            if len(q) > 2000: jsonp = None
            plain = rb'"ERROR: .*"\Z'       # also when the parameters are not looked at
            pat = plain if jsonp is None else re.escape(sb(jsonp)) + rb'\("ERROR: .*"\);\Z'
            if not re.match(pat, b, re.S) and not re.match(plain, b, re.S) and not (jsonp and len(jsonp) > 700): raise Fail("%s %s is answered %r, expected an error" % (mode, q[:300], b[:200]))
            note("refused"); s.checkall(); return
        if b.find(b'"ERROR: database locked"') >= 0: raise Inconclusive("lock")
        if b.find(b'"ERROR: ') >= 0 and b.find(b"[") < 0 and not (kind == "create" and s.db[val[0]] is not None): raise Fail("%s %s is answered %r" % (mode, q[:300], b[:200]))
        if mode in ("get", "post") and s.ctype != (b"text/csv" if opt["format"] == "csv" else b"application/json") and kind in ("rows", "number"): raise Fail("content type %r" % s.ctype)
        if opt["format"] == "json" and jsonp is not None:
            pre = sb(jsonp) + b"("
            if not b.startswith(pre) or not b.endswith(b");"): raise Fail("jsonp answer %r" % b[:200])
            b = b[len(pre):-2]
        fail = lambda what: Fail("%s %s is answered %r, expected %s" % (mode, q[:300], b[:300], what))
        if kind in ("number", "delete", "delete-any", "create", "drop"):
            if kind == "number": n = val; note("count")
            elif kind == "delete": n = s.delete(*val); note("delete with effect" if n else "delete of none")
            elif kind == "delete-any":
                dd, full, k = val
                ids = [int(x.split()[0]) for x in s.helper(dd, "list")[1:]]
                gone = [o for o in s.db[dd] if o.id not in ids]
                if any(o not in full for o in gone) or len(gone) > k: raise fail("a deletion of some %d of %d records" % (k, len(full)))
                if not any(s.referenced(dd, o) for o in full) and len(gone) != k: raise fail("a deletion of %d records" % k)
                n = len(gone); s.db[dd] = [o for o in s.db[dd] if o not in gone]
            elif kind == "create":
                n = 1; dd, size = val
                if s.db[dd] is None:
                    s.db[dd] = []; s.indexed[dd] = set(); s.orig = dict(getattr(s, "orig", {})); s.orig[dd] = []
                    l = s.helper(dd, "list")[0]
                    if l != "size %d" % size and l.split()[0] == "size" and abs(int(l.split()[1]) - size) > 4096: raise fail("a database of %d bytes, not %s" % (size, l))
                    note("create")
                elif b.find(b'"ERROR: ') >= 0: n = None
            else: n = 1; s.db[val] = None; note("drop")
            if n is not None and b != b"%d" % n: raise fail(str(n))
            s.checkall(); return
        dd, l = val
        try:
            if opt["format"] == "csv":
                lines = lambda rs: [(b"%d," % o.id if opt["showid"] else b"") + b",".join(csv_val(v) for v in o.vals) + b"\r\n" for o in rs]
                if isinstance(l, list):
                    if b != b"".join(lines(l)): raise fail(repr(b"".join(lines(l)))[:300])
                else:
                    if opt["showid"] and not any(v[0] in "sux" and re.search(r"[\r\n]", "".join(v[1:])) or v[0] == "c" for o in l[0] for v in o.vals):
                        got = [x + b"\r\n" for x in b.split(b"\r\n")[:-1]]; w = lines(l[0])
                        if len(got) != l[1] or len(set(got)) != len(got) or any(x not in w for x in got): raise fail("%d of %r" % (l[1], w[:5]))
                note("csv with rows" if l else "csv without rows")
            else:
                budget = [20000]
                w = [json_rec(o, 0, opt, budget) for o in (l if isinstance(l, list) else l[0])]
                try: got = json.loads(b.decode("latin-1"))
                except ValueError as e: raise fail("JSON (%s)" % e)
                if not isinstance(got, list): raise fail("a list")
                if isinstance(l, list):
                    if not same(got, w): raise fail(json.dumps(w)[:300])
                    if not (b.startswith(b"[\n") and b.endswith(b"\n]")): raise fail("a list in lines")
                else:
                    rest = list(w)
                    for g in got:
                        for k in range(len(rest)):
                            if same(g, rest[k]): del rest[k]; break
                        else: raise fail("%d of %s" % (l[1], json.dumps(w)[:300]))
                    if len(got) != l[1]: raise fail("%d rows" % l[1])
                note("json with rows" if got else "json without rows")
                if any(v[0] == "r" for o in (l if isinstance(l, list) else l[0]) for v in o.vals): note("nested records")
        except Unchecked: note("unescaped answers, not compared")
    def op_rawq(s, hx):
        q = bytes.fromhex(hx)
        if b"db=" in q or b"db" in q:
            q = re.sub(rb"db=[^&]*", b"db=" + s.name(0).encode(), q)
        else: q = b"db=" + s.name(0).encode() + b"&" + q
        s.run([q.decode("latin-1").encode("latin-1")] + ([s.confpath] if s.confpath else [])); note("mutated queries"); s.checkall()
    def op_raw(s, hx):
        if not s.srv: return
        b = bytes.fromhex(hx); b = re.sub(rb"db=[^& ]*", b"db=5", b)
        s.talk(b); s.alive(); note("mutated HTTP requests")
        s.checkall()
    def op_burst(s, reqs):
        if not s.srv or s.db[0] is None: return
        conf = s.conf; plans = []
        for P in reqs:
            P = [[k, s.sub(v) if k == "db" else v] for k, v in P]
            try: plans.append((P, s.expect("http", P, conf)))
            except Refused: plans.append((P, None))
        out = [None] * len(plans); it = iter(range(len(plans))); lk = threading.Lock(); bad = []
        def work():
            while True:
                with lk: i = next(it, None)
                if i is None or bad: return
                try: out[i] = s.http(b"GET /?" + encode(plans[i][0], i, s.name, None).encode() + b" HTTP/1.0\r\n\r\n")
                except Exception as e: bad.append(e); return
        th = [threading.Thread(target=work) for _ in range(min(12, len(plans)))]
        for t in th: t.start()
        for t in th: t.join()
        s.alive()
        if bad: raise bad[0]
        rows = s.db[0]; before = len(rows); tgt = set(); total = 0; byid = {o.id: o for o in rows}
        want = lambda e: e[1][1] if isinstance(e[1][1], list) else e[1][1][0]
        for P, e in plans:
            if e and e[0].startswith("delete"):
                tgt |= {o.id for o in want(e)}
        for (P, e), b in zip(plans, out):
            q = "&".join("=".join(x) for x in P)
            if e is None:
                if not b.startswith(b'"ERROR: '): raise Fail("%s is answered %r in a burst, expected an error" % (q, b[:200]))
                continue
            if b == b'"ERROR: database locked"': note("locked"); continue
            if e[0].startswith("delete"):
                if not re.fullmatch(rb"\d+", b): raise Fail("%s is answered %r in a burst" % (q, b[:200]))
                total += int(b)
            elif e[0] == "number":
                if not re.fullmatch(rb"\d+", b) or int(b) > e[1]: raise Fail("%s is answered %r in a burst, at most %d are possible" % (q, b[:200], e[1]))
            else:
                try: got = json.loads(b.decode("latin-1"))
                except ValueError: raise Fail("%s is answered %r in a burst" % (q, b[:200]))
                l = want(e); seen = set()
                for g in got:
                    o = byid.get(g[0]) if isinstance(g, list) and g else None
                    if o is None or o not in l or o.id in seen or not same(g, json_rec(o, 0, e[2], [20000])): raise Fail("%s shows %r in a burst" % (q, g))
                    seen.add(o.id)
                miss = [o.id for o in l if o.id not in seen and o.id not in tgt]
                if miss: raise Fail("%s misses records %s in a burst" % (q, miss[:10]))
        ids = [int(x.split()[0]) for x in s.helper(0, "list")[1:]]
        gone = [o for o in rows if o.id not in ids]
        if any(o.id not in tgt for o in gone) or len(ids) + len(gone) != before or len(gone) != total: raise Fail("burst: %d records before, %d after, %d reported deleted" % (before, len(ids), total))
        s.db[0] = [o for o in rows if o.id in ids]; note("bursts with deletions" if total else "bursts"); s.checkall()

def run_case(exe, dsdb, case, base, scratch):
    w = World(exe, dsdb, base, scratch, case); w.cyclic = False
    try:
        for i, o in enumerate(case["ops"]):
            try: getattr(w, "op_" + o[0])(*o[1:])
            except Fail as e: raise Fail("op %d %s: %s" % (i, o[0], e))
            except Inconclusive as e: note("not decided: " + str(e)); return
            except RecursionError: note("not decided: answer nested thousands of levels deep"); w.alive(); return
    finally:
        w.stop()
        for d in w.db: subprocess.run([dsdb, w.name(d), "drop"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=w.env, cwd=scratch)

def nontrivial(d):
    a = ("count", "delete with effect", "delete of none", "create", "drop", "csv with rows", "csv without rows", "json with rows", "json without rows", "refused", "bursts", "bursts with deletions")
    return sum(d.get(k, 0) for k in a) >= 3 and sum(d.get(k, 0) for k in ("delete with effect", "json with rows", "csv with rows", "refused", "bursts with deletions")) >= 1

def main():
    sys.setrecursionlimit(4000)
    sys.stdout.reconfigure(errors="backslashreplace"); sys.stderr.reconfigure(errors="backslashreplace")
    a = sys.argv[1:]
    if a[0] == "gen": print(json.dumps(generate(int(a[1]), int(a[2])))); return 0
    exe, dsdb = a[1], a[2]; base = int(os.environ.get("WG_KEY", "0")) or 0x70000000 + ((os.getpid() & 0xfffff) << 4)
    scratch = tempfile.mkdtemp(prefix="wgds")
    try:
        if a[0] == "run":
            try: run_case(exe, dsdb, json.load(sys.stdin), base, scratch)
            except Fail as e: print("FAIL " + str(e)); return 1
            return 0
        seed, first, step, n = map(int, a[3:7]); out = a[7]; deadline = time.time() + float(a[8])
        seen = set(); nt = 0; samples = []; ran = 0; i = first
        with open(out, "w") as f:
            while i < n and time.time() < deadline:
                case = generate(seed, i); f.write(json.dumps({"at": i}) + "\n"); f.flush(); before = dict(STATS)
                try: run_case(exe, dsdb, case, base, scratch)
                except Fail as e: f.write(json.dumps({"fail": i, "msg": str(e)}) + "\n"); f.flush(); return 1
                ran += 1; h = hashlib.sha256(json.dumps(case).encode()).digest()[:8]
                if h not in seen and nontrivial({k: v - before.get(k, 0) for k, v in STATS.items()}):
                    seen.add(h); nt += 1
                    if len(samples) < 2 and len(json.dumps(case)) < 3000: samples.append(case)
                i += step
            f.write(json.dumps({"done": ran, "nontrivial": nt, "stats": STATS, "samples": samples}) + "\n")
        return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
