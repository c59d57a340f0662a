#!/usr/bin/env python3
"""C37: histories of calls of the Java binding against a list model and a second process.
gen SEED INDEX | run DIR < case | batch DIR SEED FIRST STEP N OUT WALL"""
import sys, os, json, random, subprocess, time, hashlib, ctypes, select

JAVA = ["java", "-Xmx96m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-XX:ErrorFile=/dev/null", "-XX:-CreateCoredumpOnCrash", "-XX:CICompilerCount=1"]
CONDS = {1: lambda c: c == 0, 2: lambda c: c != 0, 4: lambda c: c < 0, 8: lambda c: c > 0, 16: lambda c: c <= 0, 32: lambda c: c >= 0}
KINDS = [["only"], ["zeta", "alpha", "M", "beta"], ["g", "f", "e", "d", "c", "b", "a"]]

# ------------------------------------------------------------ generator
def g_int(r): return r.choice([r.randint(-3, 5), r.randint(-3, 5), r.randint(-3, 5), r.randint(-2**31, 2**31 - 1), 2**31 - 1, -2**31, 2**27, -2**28 - 1, 2**28])
def g_str(r):
    k = r.random()
    if k < .45: return r.choice(["", "a", "b", "abc", "hello world", "a" * 31, "a" * 32, "b" * 33])
    if k < .75: return "".join(r.choice("abc \u00e9\u0436\u20ac\uffff\x00\x7f\t\n\u07ff\u0800\ud83d\ude00\ud800\udfff") for _ in range(r.randint(1, 40)))
    return "".join(r.choice("abcdef") for _ in range(r.choice([100, 255, 256, 1000, 5000])))
def g_blob(r): return [r.choice([0, 1, 255, 128, 10, 65]) if r.random() < .7 else r.randrange(256) for _ in range(r.choice([1, 2, 3, 8, 31, 32, 33, 100, 1000, 5000]))]
def g_field(r, n): return r.choice([r.randint(0, max(0, n - 1))] * 9 + [n, -1, n + 5])
def gen(seed, index):
    r = random.Random(int(hashlib.sha256(("C37 %d %d" % (seed, index)).encode()).hexdigest()[:16], 16))
    ops = [["local", r.choice([1000000, 3000000])] if r.random() < .3 else ["open", r.choice([1000000, 3000000])]]
    nf = r.choice([1, 2, 3, 3, 4])
    for _ in range(r.choice([8, 20, 40, 80])):
        k = r.random(); rec = r.randrange(1 << 20)
        if k < .18: ops.append(["create", r.choice([nf, nf, nf, r.randint(0, 6), r.randint(0, 40)])])
        elif k < .40:
            t = r.random(); f = r.choice([r.randint(0, nf - 1)] * 8 + [-1, r.randint(0, 12)])
            ops.append(["seti", rec, f, g_int(r)] if t < .5 else ["sets", rec, f, None if r.random() < .06 else g_str(r)] if t < .8 else ["setb", rec, f, None if r.random() < .06 else g_blob(r)])
        elif k < .46: ops.append(["row", [r.choice([None, g_int(r), g_int(r), g_int(r), [g_str(r)]]) for _ in range(nf)], r.choice([1, 1, 2, 70])])
        elif k < .53: ops.append(["del", rec])
        elif k < .62: ops.append(["read", rec, r.randint(-1, 8)])
        elif k < .74: ops.append(["query", [[r.choice([r.randint(0, nf - 1)] * 6 + [r.randint(0, 8)]), r.choice([1, 1, 2, 4, 8, 16, 32]), r.choice([rec, g_int(r)]), r.random() < .7] for _ in range(r.choice([1, 1, 1, 2, 3, 0]))], r.choice([0, 0, 0, 1, 2, 50, 100])])
        elif k < .79: ops.append(["match", rec, r.choice([0, 0, 1, 3])])
        elif k < .83: ops.append(["two", r.randrange(1 << 20), r.randint(0, nf - 1), g_int(r), r.choice([1, 2, 8, 16])])
        elif k < .87: c = r.randrange(3); ops.append(["put", c, [g_int(r) for _ in KINDS[c]]])
        elif k < .89: ops.append(["lock", r.choice("rw"), r.random() < .5])
        elif k < .92: ops.append(["scan"])
        elif k < .94: ops.append(["again", r.random() < .5])
        elif k < .97: ops.append(["c", [r.choice([None, g_int(r), g_int(r), [g_str(r).replace("\x00", "n").encode("utf-16", "surrogatepass").decode("utf-16", "replace").replace("\U0001f600", "x")], r.choice([0.5, -2.25, 1e10])]) for _ in range(nf)]])
        else: ops.append(["gc"])
    return {"ops": ops}

# ------------------------------------------------------------ values: None, int, float, ["text"], {"blob"}
def mutf8(s):
    o = b""
    for ch in s:
        c = ord(ch)
        for u in ([c] if c < 0x10000 else [0xd800 + (c - 0x10000 >> 10), 0xdc00 + (c - 0x10000 & 0x3ff)]):
            o += bytes([u]) if 0 < u < 0x80 else bytes([0xc0 | u >> 6, 0x80 | u & 63]) if u < 0x800 else bytes([0xe0 | u >> 12, 0x80 | u >> 6 & 63, 0x80 | u & 63])
    return o
def u16(s): return "x" + s.encode("utf-16-be", "surrogatepass").hex()
def order(v): return 1 if v is None else 3 if isinstance(v, int) else 4 if isinstance(v, float) else 5 if isinstance(v, bytes) else 8
def cmp_int(v, k):
    if order(v) != 3: return -1 if order(v) < 3 else 1
    return (v > k) - (v < k)

class Fail(Exception): pass
class Jvm:
    def __init__(self, d):
        self.p = subprocess.Popen(JAVA + ["-Djava.library.path=" + d, "-cp", d, "Jdrv"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd="/")
    def __call__(self, *a):
        l = " ".join(str(x) for x in a)
        try:
            self.p.stdin.write((l + "\n").encode()); self.p.stdin.flush()
            while True:
                if not select.select([self.p.stdout], [], [], 40)[0]: raise Fail("no answer to: " + l[:200])
                o = self.p.stdout.readline()
                if not o: raise Fail("the Java process died (status %s) at: %s" % (self.p.wait(), l[:200]))
                if o[:1] == b"@": return o[1:].strip().decode()
        except BrokenPipeError: raise Fail("the Java process died (status %s) at: %s" % (self.p.wait(), l[:200]))
    def end(self):
        self.p.stdin.close()
        try: self.p.wait(10)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()

class Peer:
    """the library, called from this process"""
    def __init__(self, d):
        L = self.L = ctypes.CDLL(d + "/libwhitedbDriver.so"); V, I, S = ctypes.c_void_p, ctypes.c_ssize_t, ctypes.c_char_p
        for n, res, arg in (("wg_attach_existing_database", V, [S]), ("wg_detach_database", ctypes.c_int, [V]), ("wg_get_first_record", V, [V]), ("wg_get_next_record", V, [V, V]), ("wg_get_record_len", I, [V, V]), ("wg_get_field", I, [V, V, I]), ("wg_get_encoded_type", I, [V, I]), ("wg_decode_int", I, [V, I]), ("wg_decode_double", ctypes.c_double, [V, I]), ("wg_decode_str", S, [V, I]), ("wg_decode_blob", V, [V, I]), ("wg_decode_blob_len", I, [V, I]), ("wg_create_record", V, [V, I]), ("wg_set_field", I, [V, V, I, I]), ("wg_encode_int", I, [V, I]), ("wg_encode_double", I, [V, ctypes.c_double]), ("wg_encode_str", I, [V, S, S]), ("wg_delete_database", ctypes.c_int, [S])):
            f = getattr(L, n); f.restype = res; f.argtypes = arg
        self.db = None
    def attach(self, name): self.db = self.L.wg_attach_existing_database(str(name).encode()); return self.db
    def detach(self):
        if self.db: self.L.wg_detach_database(self.db)
        self.db = None
    def value(self, rec, i):
        L, db = self.L, self.db; e = L.wg_get_field(db, rec, i); t = L.wg_get_encoded_type(db, e)
        if t == 1: return None
        if t == 3: return L.wg_decode_int(db, e)
        if t == 4: return L.wg_decode_double(db, e)
        if t == 5: return L.wg_decode_str(db, e)
        if t == 8: return (ctypes.string_at(L.wg_decode_blob(db, e), L.wg_decode_blob_len(db, e)),)
        return "type %d" % t
    def rows(self):
        L, db = self.L, self.db; out = []; r = L.wg_get_first_record(db)
        while r and len(out) < 5000:
            out.append([self.value(r, i) for i in range(L.wg_get_record_len(db, r))]); r = L.wg_get_next_record(db, r)
        return out
def key(row): return repr(row)

def run(case, d, jvm, peer, base, stats):
    J = jvm; recs = {}; name = None; local = False; D = 0; did = 0
    def st(k): stats[k] = stats.get(k, 0) + 1
    def need(c, m, *a):
        if not c: raise Fail(m % a)
    def pick(n): return None if not recs else sorted(recs)[n % len(recs)]
    def jval(v): return None if v is None else v
    def check(p, i):
        v = recs[p][i] if 0 <= i < len(recs[p]) else None
        if isinstance(v, bytes): need(mutf8_of(J("gets", D, p, i)) == v, "a string field reads differently from what was stored")
        elif v is None or isinstance(v, int): need(J("gets", D, p, i) == "null", "reading a string from a field that holds none gives one")
        if isinstance(v, tuple): need(J("getb", D, p, i) == "x" + v[0].hex(), "a blob field reads differently from what was stored")
        if isinstance(v, int): need(J("geti", D, p, i) == str(v), "an int field reads %s, stored %d", J("geti", D, p, i), v)
    def mutf8_of(h):
        if h == "null": return None
        return mutf8(bytes.fromhex(h[1:]).decode("utf-16-be", "surrogatepass"))
    def scan():
        seen = []; p = J("first", D)
        if not recs: need(p == "0", "the first record of an empty database is %s", p); return
        while p != "null":
            need(int(p) in recs, "the scan returns something that is no record"); seen.append(int(p)); need(len(seen) <= len(recs), "the scan returns a record twice"); p = J("next", D, p)
        need(sorted(seen) == sorted(recs), "the scan returns %d of %d records", len(seen), len(recs)); return seen
    def compare_peer():
        if local: return
        need(peer.attach(name), "the database is not there for another process"); w = sorted(key(x) for x in peer.rows()); m = sorted(key(x) for x in recs.values()); peer.detach()
        for a, b in zip(w, m): need(a == b, "another process reads %s, stored %s", a[:300], b[:300])
        need(len(w) == len(m), "another process finds %d records, stored %d", len(w), len(m)); st("compared by another process")
    def fetch_all(q, lim):
        got = []
        while True:
            p = J("fetch", D, q)
            if p == "null": break
            got.append(int(p)); need(len(got) <= len(recs), "a query returns more rows than there are records")
        need(J("fetch", D, q) == "null", "a finished query returns a row")
        return got
    def expect(got, want, lim):
        if lim and len(want) > lim: need(len(got) == lim and set(got) <= set(want) and len(set(got)) == lim, "a query of at most %d rows over %d matching gives %d", lim, len(want), len(got)); st("row limit reached")
        else: need(sorted(got) == sorted(want), "the query returns %d rows, %d match", len(got), len(want))
        if want: did_query()
    def did_query():
        nonlocal did
        did += 1; st("query with rows")
    def sat(conds): return [p for p, v in recs.items() if all(c < len(v) and CONDS[k](cmp_int(v[c], x)) for c, k, x in conds)]
    created = 0
    try:
        for op in case["ops"]:
            k = op[0]
            if k in ("local", "open"):
                if D: continue
                D = 1; local = k == "local"
                if local: J("local", D, op[1])
                else: name = base; J("open", D, name, op[1])
                need(int(J("create", D, 1)) != 0, "no record can be created in a new database"); p = int(J("first", D)); recs[p] = [None]; st(k); continue
            if not D: continue
            if k == "create":
                p = int(J("create", D, op[1])); need(p and p not in recs, "creating a record fails"); recs[p] = [None] * op[1]; need(J("len", D, p) == str(op[1]), "a new record has length %s instead of %d", J("len", D, p), op[1]); created += 1
            elif k == "row":
                for _ in range(op[2]):
                    p = int(J("create", D, len(op[1]))); need(p and p not in recs, "creating a record fails"); recs[p] = [None] * len(op[1]); created += 1
                    for i, v in enumerate(op[1]):
                        if v is None: continue
                        if isinstance(v, list): need(J("sets", D, p, i, u16(v[0])) == "0", "storing a string fails"); recs[p][i] = mutf8(v[0])
                        else: need(J("seti", D, p, i, v) == "0", "storing an int fails"); recs[p][i] = v
            elif k in ("seti", "sets", "setb"):
                p = pick(op[1])
                if p is None: continue
                i, v = op[2], op[3]; r = J(k, D, p, i, "null" if v is None else v if k == "seti" else u16(v) if k == "sets" else "x" + bytes(v).hex())
                if v is None or not 0 <= i < len(recs[p]): need(int(r) < 0, "storing %s in field %d of %d is not refused (%s)", "null" if v is None else "a value", i, len(recs[p]), r); st("refused"); 
                else: need(r == "0", "%s gives %s", k, r); recs[p][i] = v if k == "seti" else mutf8(v) if k == "sets" else (bytes(v),); check(p, i); did += 1
            elif k == "del":
                p = pick(op[1])
                if p is None: continue
                need(J("del", D, p) == "0", "deleting a record fails"); del recs[p]; did += 1
            elif k == "read":
                p = pick(op[1])
                if p is None: continue
                need(J("len", D, p) == str(len(recs[p])), "the length of a record is wrong"); check(p, op[2])
                for i in range(len(recs[p])): check(p, i)
            elif k == "query":
                conds = []
                for c, cc, x, fromrow in op[1]:
                    p = pick(x if x >= 0 else -x)
                    if fromrow and p is not None and c < len(recs[p]) and isinstance(recs[p][c], int): x = recs[p][c]
                    if not -2**31 <= x < 2**31: x = 0
                    conds.append((c, cc, x))
                q = J("query", D, "args", op[2], *[y for c in conds for y in c])
                if not conds: need(q == "null", "a query without conditions is accepted"); continue
                need(q != "null", "a query is refused: %s", conds)
                expect(fetch_all(q, op[2]), sat(conds), op[2]); J("freeq", D, q)
            elif k == "match":
                p = pick(op[1])
                if p is None: continue
                m = recs[p]
                q = J("query", D, p, op[2])
                if not m:
                    if q != "null": fetch_all(q, 0); J("freeq", D, q)
                    continue
                need(q != "null", "a query is refused"); expect(fetch_all(q, op[2]), [x for x, v in recs.items() if len(v) >= len(m) and v[:len(m)] == m and [order(a) for a in v[:len(m)]] == [order(a) for a in m]], op[2]); J("freeq", D, q); st("match record")
            elif k == "two":   # two queries at once
                q1 = J("query", D, "args", 0, op[2], op[4], op[3]); q2 = J("query", D, "args", 0, op[2], 2, op[3]); need(q1 != "null" and q2 != "null", "a query is refused")
                g1, g2, e1, e2 = [], [], False, False
                while not (e1 and e2):
                    if not e1:
                        x = J("fetch", D, q1)
                        if x == "null": e1 = True
                        else: g1.append(int(x))
                    if not e2:
                        x = J("fetch", D, q2)
                        if x == "null": e2 = True
                        else: g2.append(int(x))
                    need(len(g1) + len(g2) <= 2 * len(recs), "queries return more rows than there are records")
                J("freeq", D, q1 if op[1] & 1 else q2); J("freeq", D, q2 if op[1] & 1 else q1)
                expect(g1, sat([(op[2], op[4], op[3])]), 0); expect(g2, sat([(op[2], 2, op[3])]), 0)
            elif k == "put":
                names = KINDS[op[1]]; before = set(recs); J("put", D, op[1], *[y for x in zip(names, op[2]) for y in x])
                p = J("first", D); new = []
                while p != "null":
                    if int(p) not in before: new.append(int(p))
                    p = J("next", D, p)
                need(len(new) == 1, "writing an object makes %d records", len(new)); p = new[0]; v = dict(zip(names, op[2])); recs[p] = [v[n] for n in sorted(names)]; created += 1
                for i in range(len(names)): check(p, i)
                need(J("get", D, op[1], p, *names) == "= " + " ".join(str(x) for x in op[2]), "an object read back differs from the one written"); st("object")
            elif k == "lock":
                a, b = ("sr", "er") if op[1] == "r" else ("sw", "ew"); l = J(a, D); need(int(l) > 0, "no lock granted on a database nobody locks")
                l2 = J("sr", D) if op[1] == "r" and op[2] else None
                if l2: need(int(l2) > 0, "no second read lock granted"); need(int(J("er", D, l2)) > 0, "a read lock is not released")
                if op[1] == "w":
                    p = pick(7)
                    if p is not None and recs[p]: need(J("seti", D, p, 0, 77) == "0", "storing an int fails"); recs[p][0] = 77
                need(int(J(b, D, l)) > 0, "a lock is not released"); st("locks")
            elif k == "scan": scan(); compare_peer()
            elif k == "again":   # a second connection, or the only one closed and opened again
                if local: continue
                rows = sorted(key(v) for v in recs.values())
                if op[1]: J("close", D); J("open", D, name)
                else: J("open", D + 1, name); J("close", D); D += 1
                # the addresses change: records are found again by their content
                old = list(recs.values()); recs.clear(); p = J("first", D); n = 0
                peer_rows = []
                while p not in ("null", "0"):
                    need(n < len(old), "a database opened again has more records than before"); recs[int(p)] = None; n += 1; p = J("next", D, p)
                need(n == len(old), "a database opened again has %d records, %d before", n, len(old))
                need(peer.attach(name), "the database is not there"); 
                for q, v in zip(list(recs), peer.rows()): recs[q] = v
                peer.detach(); need(sorted(key(v) for v in recs.values()) == rows, "a database opened again has other content"); st("opened again")
                for q in recs:
                    need(J("len", D, q) == str(len(recs[q])), "a record changes its length")
                    for i in range(len(recs[q])): check(q, i)
            elif k == "c":   # a record of another process
                if local: continue
                peer.attach(name); L = peer.L; r = L.wg_create_record(peer.db, len(op[1])); need(r, "creating a record fails"); vals = []
                for i, v in enumerate(op[1]):
                    w = v
                    if v is None: vals.append(None); continue
                    if isinstance(v, list): w = v[0].encode("utf-8", "replace"); w = mutf8(w.decode()); e = L.wg_encode_str(peer.db, w, None)
                    elif isinstance(v, float): e = L.wg_encode_double(peer.db, v)
                    else: e = L.wg_encode_int(peer.db, v)
                    L.wg_set_field(peer.db, r, i, e); vals.append(w)
                peer.detach(); before = set(recs); p = J("first", D); new = []
                while p not in ("null", "0"):
                    if int(p) not in before: new.append(int(p))
                    p = J("next", D, p)
                need(len(new) == 1, "a record of another process is not seen"); recs[new[0]] = vals; created += 1; st("record of another process")
                for i in range(len(vals)): check(new[0], i)
            elif k == "gc": J("gc")
        if not D: return False
        scan(); compare_peer()
        for p in sorted(recs)[:40]:
            for i in range(len(recs[p])): check(p, i)
        if D:
            if not local: need(J("drop", D, name) == "0", "deleting the database fails"); need(not peer.attach(name), "a deleted database can still be attached")
            J("close", D); D = 0
    finally:
        peer.detach()
        if name is not None: peer.L.wg_delete_database(str(name).encode())
    return created >= 2 and did >= 2

def main():
    a = sys.argv[1:]
    if a[0] == "gen": print(json.dumps(gen(int(a[1]), int(a[2])))); return 0
    d = a[1]; os.dup2(os.open("/dev/null", os.O_WRONLY), 2) if a[0] == "batch" else None
    peer = Peer(d); base = int(os.environ["WG_KEY"])
    if a[0] == "run":
        j = Jvm(d); case = json.load(sys.stdin)
        try: run(case, d, j, peer, base, {})
        except Fail as e: print("FAIL " + str(e).replace("\n", " ")); return 1
        finally: j.end()
        return 0
    seed, first, step, n, out, wall = int(a[2]), int(a[3]), int(a[4]), int(a[5]), open(a[6], "w"), float(a[7]); t0 = time.time(); stats = {}; done = nt = 0; samples = []; j = Jvm(d)
    for i in range(first, n, step):
        if time.time() - t0 > wall: break
        out.write(json.dumps({"at": i}) + "\n"); out.flush(); c = gen(seed, i)
        try: ok = run(c, d, j, peer, base, stats)
        except Fail as e: out.write(json.dumps({"fail": i, "msg": str(e)}) + "\n"); out.flush(); j.p.kill(); return 1
        done += 1; nt += bool(ok)
        if ok and len(samples) < 1: samples.append(json.dumps(c)[:600])
    j.end(); out.write(json.dumps({"done": done, "nontrivial": nt, "stats": stats, "samples": samples}) + "\n"); return 0
if __name__ == "__main__": sys.exit(main())
