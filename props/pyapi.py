#!/usr/bin/env python3
"""C32: generated histories of calls to the Python module against a list model.
  pyapi.py gen   SEED INDEX            prints a generated case (needs no module)
  pyapi.py run   SODIR PYDIR < case    runs one case, exit 1 + message if it fails
  pyapi.py batch SODIR PYDIR SEED FIRST STEP N OUT   runs generated cases"""
import sys, os, json, random, datetime, math, struct, locale

# ---------------------------------------------------------------- generation
WORDS = ["", "a", "b", "ab", "abc", "hello", "hello world", "x" * 31, "y" * 32, "z" * 40, "long text " * 30, "0", "None", "  ", "tab\tnl\n"]
UNI = ["\u00e9", "\u4e2d\u6587", "na\u00efve text", "\U0001f600 smile", "\u00e9" * 40, "a\u0301"]
INTS = [0, 1, -1, 2, 7, 100, -100, 2**28, -2**28, 2**28 - 1, 2**31, -2**31, 2**31 - 1, 2**60, 2**61, -2**61, 2**63 - 1, -2**63, 2**62]
DBL = [0.0, -0.0, 1.0, -1.5, 3.14, 1e300, -1e300, 5e-324, float("inf"), float("-inf"), 0.1, 2.0**53]
FIX = [0.0, 1.0, -1.0, 3.5, 799.9999, -799.9999, 800.0, -800.0, 0.0001, 12.3456]
BADVAL = ["bytes", "bytearray", "list", "object", "complex", "set", "dict", "type", "bigint", "bigneg", "int-as-str", "str-as-int", "none-as-int", "float-as-int", "date-as-time",
  "type99", "typeneg", "typestr", "typehuge", "tuple4", "tuple0", "ext-int", "nul", "nul-uri", "nul-xml", "surrogate", "surrogate-uri", "charwide", "fix-big", "fix-small", "fix-nan", "rec-as-int", "nul-char", "ext-nul", "varbig", "inttype-huge", "blobtype"]

def gen_text(r, c):
    k = r.random()
    if k < 0.55: return r.choice(WORDS)
    if k < 0.75 and c["loc"] == "C.UTF-8": return r.choice(UNI)
    if k < 0.80: return "b\udc80\udcfe"          # undecodable bytes, as Python represents them
    n = r.choice([1, 3, 5, 8, 30, 31, 32, 33, 64, 200])
    return "".join(r.choice("abcdefgh XYZ'\"\\,;%09") for _ in range(n))

def gen_value(r, c, nrows, typ=None, query=False):
    t = typ or r.choice("niiifssssuuxcpdttrv" if nrows else "niiifssssuuxcpdttv")
    if t == "n": return ["n"]
    if t == "i": return ["i", r.choice(INTS) if r.random() < 0.5 else r.randint(-20, 20)]
    if t == "b": return ["b", r.randint(0, 1)]
    if t == "f":
        if r.random() < 0.03 and not query: return ["f", "nan"]
        return ["f", repr(r.choice(DBL) if r.random() < 0.6 else round(r.uniform(-50, 50), 3))]
    if t == "s":
        ext = r.choice([None, None, None, "en", "et"])
        return ["s", gen_text(r, c), ext]
    if t == "u": return ["u", gen_text(r, c), r.choice([None, "http://example.org/", "p#", ""])]
    if t == "x": return ["x", gen_text(r, c), r.choice(["xsd:string", "xsd:date", "x", ""])]
    if t == "c": return ["c", r.choice("aAzZ0 ~b") + r.choice(["", "", "", "b", "2467305", "\u00e9"])]
    if t == "p": return ["p", repr(r.choice(FIX) if r.random() < 0.6 else round(r.uniform(-799, 799), 4))]
    if t == "d":
        if r.random() < 0.3: return ["d"] + r.choice([[1, 1, 1], [9999, 12, 31], [2000, 2, 29], [1900, 3, 1], [1970, 1, 1]])
        return ["d", r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28)]
    if t == "t":
        if r.random() < 0.3: return ["t"] + r.choice([[0, 0, 0, 0], [23, 59, 59, 999999], [0, 0, 0, 9999], [0, 0, 0, 10000], [12, 0, 0, 0]])
        return ["t", r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.randint(0, 99) * 10000 + r.choice([0, 0, 1234])]
    if t == "r": return ["r", r.randrange(max(nrows, 1))]
    if t == "v": return ["v", r.choice([0, 1, 2, 77, 2**20, 2**31 - 1, 2**31, 2**40, -1, -2**33])]

def gen_fields(r, c, nrows, bad=0.1):
    f = [gen_value(r, c, nrows) for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 8]))]
    if r.random() < 0.04: f += [["i", j] for j in range(r.choice([60, 150, 300]))]
    if r.random() < bad: f[r.randrange(len(f))] = ["bad", r.choice(BADVAL)]
    return f

def gen_arg(r, c, nrows):
    v = gen_value(r, c, nrows, r.choice("niiifsssuxcpdt"), query=True)
    return [r.randint(0, 4), r.choice(["EQUAL", "NOT_EQUAL", "LESSTHAN", "GREATER", "LTEQUAL", "GTEQUAL"]), v]

def gen_query(r, c, nrows):
    q = {"args": None, "match": None}
    k = r.random()
    if k < 0.6: q["args"] = [gen_arg(r, c, nrows) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
    if k > 0.45 and k < 0.9:
        if r.random() < 0.25 and nrows: q["match"] = ["rec", r.randrange(nrows)]
        else: q["match"] = [gen_value(r, c, nrows, r.choice("niiifsssuxcpdt"), query=True) if r.random() < 0.5 else ["v", 0] for _ in range(r.choice([0, 1, 2, 3]))]
    if r.random() < 0.1:
        b = r.choice(["arg-not-seq", "arg-not-tuple", "arg-2tuple", "arg-badcol", "arg-badcond", "arg-colneg", "arg-colhuge", "arg-condunk", "match-int", "match-badval", "arg-badval", "arg-badseq", "match-badseq"])
        q["bad"] = b; q["badval"] = r.choice(BADVAL)
    q["how"] = r.choice(["cursor", "cursor", "conn", "low"])
    q["take"] = r.choice(["all", "all", "one", "some"])
    return q

def generate(seed, index):
    r = random.Random("%d/%d/py" % (seed, index))
    c = {"mode": r.choice(["local"] * 4 + ["shm"]), "loc": r.choice(["C.UTF-8"] * 3 + ["C"]), "ops": []}
    n = 0
    for _ in range(r.choice([3, 6, 10, 15, 25, 40])):
        k = r.random(); o = None
        pick = lambda: r.randrange(max(n, 1))
        if n == 0 or k < 0.24:
            o = ["insert", r.choice(["conn", "conn", "cursor", "low", "lowraw"]), gen_fields(r, c, n, 0.12)]; n += 1
        elif k < 0.28: o = ["create", r.choice(["conn", "low", "raw"]), r.choice([1, 2, 3, 5, 17, 200])]; n += 1
        elif k < 0.30: o = ["badcreate", r.choice(["conn", "low", "raw"]), r.choice(["-1", "-1000", "10**9", "2**40", "2**62", "10**20", "'3'", "None", "1.5"])]
        elif k < 0.46: o = ["set", r.choice(["rec", "item", "conn", "low", "lowkw"]), pick(), r.randint(0, 5), gen_value(r, c, n) if r.random() < 0.85 else ["bad", r.choice(BADVAL)]]
        elif k < 0.50: o = ["badfield", r.choice(["rec", "item", "conn", "low"]), pick(), r.choice(["-1", "L", "L+3", "2**31", "2**32", "2**40", "-2**32", "10**20", "None", "'0'", "0.0"]), r.choice(["get", "set"])]
        elif k < 0.57: o = ["update", pick(), gen_fields(r, c, n, 0.1)]
        elif k < 0.64: o = ["delete", r.choice(["rec", "conn", "low"]), pick()]
        elif k < 0.66: o = ["usedeleted", pick()]
        elif k < 0.82: o = ["query", gen_query(r, c, n)]
        elif k < 0.86: o = ["index", r.choice([0, 0, 1, 1, 2, 3])]
        elif k < 0.875: o = ["badindex", r.choice(["-1", "128", "1000", "2**32", "10**20", "'a'", "dup"])]
        elif k < 0.90: o = ["scan", r.choice(["conn", "low"])]
        elif k < 0.92: o = ["iter", pick()]
        elif k < 0.94: o = ["dumpload", r.random() < 0.25]
        elif k < 0.955: o = ["lock", r.choice(["write", "read"]), r.choice(["double", "end", "pair", "off"])]
        elif k < 0.965: o = ["closed", r.choice(["call", "all"]), r.randrange(1000)]
        elif k < 0.975: o = ["fake", r.randrange(1000)]
        elif k < 0.985: o = ["queryfree", gen_query(r, c, n), r.choice(["fetch", "count", "free", "repr"])]
        elif k < 0.995: o = ["second", r.choice(["read", "write", "existing"])]
        else: o = ["sizes"]
        c["ops"].append(o)
    c["ops"].append(["final"])
    return c

# ---------------------------------------------------------------- execution
class Fail(Exception): pass
STATS = {}
def note(k): STATS[k] = STATS.get(k, 0) + 1

class Row:
    def __init__(s, vals, rec, low): s.vals, s.rec, s.low, s.dead = vals, rec, low, False

class World:
    def __init__(s, case, scratch, tag):
        import wgdb, whitedb
        s.w, s.wd, s.case, s.scratch = wgdb, whitedb, case, scratch
        s.T = {"n": wgdb.NULLTYPE, "r": wgdb.RECORDTYPE, "i": wgdb.INTTYPE, "f": wgdb.DOUBLETYPE, "s": wgdb.STRTYPE, "x": wgdb.XMLLITERALTYPE, "u": wgdb.URITYPE, "c": wgdb.CHARTYPE, "p": wgdb.FIXPOINTTYPE, "d": wgdb.DATETYPE, "t": wgdb.TIMETYPE, "v": wgdb.VARTYPE}
        s.name = str(tag) if case["mode"] == "shm" else None
        if s.name:
            try: wgdb.delete_database(s.name)
            except wgdb.error: pass
        s.size = 4000000
        s.conn = whitedb.connect(shmname=s.name, shmsize=s.size, local=0 if s.name else 1)
        s.rows, s.idx, s.by = [], set(), {}
        s.nan = False; s.alive_q = []
    @property
    def db(s): return s.conn._db
    def close(s):
        s.conn.close()
        if s.name: s.w.delete_database(s.name)

    # values ------------------------------------------------------------
    def fits(s, v):
        """does the value have a stored form in this locale"""
        for t in v[1:]:
            if isinstance(t, str) and s.case["loc"] == "C" and any(ord(ch) > 127 and not 0xdc80 <= ord(ch) <= 0xdcff for ch in t): return False
        return True
    def py(s, v, rng_alt=0):
        """-> (data, extra args) as the calls want them"""
        w = s.w; t = v[0]
        if t == "n": return None, ()
        if t in "ib": return (v[1] if t == "i" else bool(v[1])), ()
        if t == "f": return float(v[1]), ()
        if t == "s": return v[1], (() if v[2] is None else (w.STRTYPE, v[2]))
        if t == "u": return v[1], ((w.URITYPE,) if v[2] is None else (w.URITYPE, v[2]))
        if t == "x": return v[1], ((w.XMLLITERALTYPE,) if v[2] is None else (w.XMLLITERALTYPE, v[2]))
        if t == "c": return v[1], (w.CHARTYPE,)
        if t == "p": return float(v[1]), (w.FIXPOINTTYPE,)
        if t == "d": return datetime.date(*v[1:]), ()
        if t == "t": return datetime.time(*v[1:]), ()
        if t == "v": return v[1], (w.VARTYPE,)
        if t == "r": return s.live(v[1]).low, ()
        if t == "bad": return s.badval(v[1])
        raise KeyError(t)
    def badval(s, k):
        w = s.w
        return {"bytes": (b"abc", ()), "bytearray": (bytearray(b"x"), ()), "list": ([1, 2], ()), "object": (object(), ()), "complex": (1j, ()), "set": ({1}, ()), "dict": ({}, ()), "type": (int, ()),
          "bigint": (2**63, ()), "bigneg": (-2**63 - 1, ()), "inttype-huge": (10**30, (w.INTTYPE,)), "int-as-str": (5, (w.STRTYPE,)), "str-as-int": ("5", (w.INTTYPE,)), "none-as-int": (None, (w.INTTYPE,)), "float-as-int": (1.5, (w.INTTYPE,)),
          "date-as-time": (datetime.date(2000, 1, 1), (w.TIMETYPE,)), "type99": ("a", (99,)), "typeneg": ("a", (-1,)), "typestr": ("a", ("x",)), "typehuge": ("a", (10**20,)), "tuple4": ("a", (w.STRTYPE, "en", "x")), "tuple0": ((), ()),
          "ext-int": ("a", (w.STRTYPE, 5)), "nul": ("a\0b", ()), "nul-uri": ("a\0b", (w.URITYPE,)), "nul-xml": ("a\0b", (w.XMLLITERALTYPE,)), "nul-char": ("\0", (w.CHARTYPE,)), "ext-nul": ("a", (w.URITYPE, "p\0q")), "surrogate": ("\ud800", ()), "surrogate-uri": ("x\udfff", (w.URITYPE,)), "charwide": ("\u00e9", (w.CHARTYPE,)),
          "fix-big": (800.5, (w.FIXPOINTTYPE,)), "fix-small": (-1e6, (w.FIXPOINTTYPE,)), "fix-nan": (float("nan"), (w.FIXPOINTTYPE,)), "rec-as-int": (s.anyrec(), (w.INTTYPE,)), "varbig": (2**62, (w.VARTYPE,)), "blobtype": ("a", (w.BLOBTYPE,))}[k]
    def anyrec(s):
        for r in s.rows:
            if not r.dead: return r.low
        return None
    def live(s, i):
        l = [r for r in s.rows if not r.dead]
        return l[i % len(l)] if l else None
    def norm(s, v):
        """value as the model keeps it; record links as Row objects"""
        if v[0] == "r":
            r = s.live(v[1])
            return ["r", r] if r else ["n"]
        if v[0] == "b": return ["i", v[1]]
        if v[0] == "c": return ["c", v[1], v[1][0]]     # the first character is stored
        return v
    def pyn(s, v):
        if v[0] == "r": return v[1].low, ()
        return s.py(v)
    def tup(s, v, wrap=False):
        d, e = s.pyn(v)
        if v[0] == "r" and wrap: d = v[1].rec
        return d if not e and not isinstance(d, tuple) else (d,) + e
    def same(s, v, got, where):
        t = v[0]; ok = False
        if t == "n": ok = got is None
        elif t == "i": ok = type(got) is int and got == v[1]
        elif t == "f":
            x = float(v[1]); ok = type(got) is float and (struct.pack("d", got) == struct.pack("d", x) or (math.isnan(x) and math.isnan(got)))
        elif t == "s" or t == "x": ok = type(got) is str and got == v[1]
        elif t == "c": ok = type(got) is str and got == v[2]
        elif t == "u": ok = type(got) is str and got == (v[2] or "") + v[1]
        elif t == "p": ok = type(got) is float and abs(got - float(v[1])) < 1.1e-4
        elif t == "d": ok = type(got) is datetime.date and got == datetime.date(*v[1:])
        elif t == "t": ok = type(got) is datetime.time and got == datetime.time(v[1], v[2], v[3], v[4] // 10000 * 10000)
        elif t == "v": ok = got == (v[1], s.w.VARTYPE)
        elif t == "r":
            low = got.get__rec() if isinstance(got, s.wd.Record) else got
            ok = s.w.is_record(low) and repr(low) == repr(v[1].low)
        if not ok: raise Fail("%s: stored %s, read back %r" % (where, s.show(v), got))
    def show(s, v): return "a link to record %d" % s.rows.index(v[1]) if v[0] == "r" else json.dumps(v)
    # comparison --------------------------------------------------------
    def key(s, v):
        t = s.T[v[0]]; enc = lambda x: x.encode("utf-8", "surrogateescape")
        if v[0] == "n": return (t, 0)
        if v[0] == "i" or v[0] == "v": return (t, v[1])
        if v[0] == "f": return (t, float(v[1]))
        if v[0] == "p": return (t, round(float(v[1]) * 10000))
        if v[0] == "s": return (t, enc(v[1]))
        if v[0] in "ux": return (t, enc(v[2] or ""), enc(v[1]))
        if v[0] == "c": return (t, ord(v[1][0]))
        if v[0] == "d": return (t,) + tuple(v[1:])
        if v[0] == "t": return (t,) + (v[1], v[2], v[3], v[4] // 10000)
        if v[0] == "r": return (t,)
    def holds(s, fv, cond, pv):
        a, b = s.key(fv), s.key(pv)
        return {"EQUAL": a == b, "NOT_EQUAL": a != b, "LESSTHAN": a < b, "GREATER": a > b, "LTEQUAL": a <= b, "GTEQUAL": a >= b}[cond]

    # checks ------------------------------------------------------------
    def expect_error(s, f, what, allow=()):
        try: x = f()
        except SystemError as e: raise Fail("%s: internal error %r" % (what, e))
        except Exception as e:
            note("refused"); return e
        raise Fail("%s: accepted, returned %r" % (what, x))
    def check_row(s, r, where, low=True, full=False):
        n = s.w.get_record_len(s.db, r.low)
        if n != len(r.vals): raise Fail("%s: record %d has %d fields, should have %d" % (where, s.rows.index(r), n, len(r.vals)))
        step = 1 if n < 40 or full else 17
        for i in range(0, n, step):
            s.same(r.vals[i], s.w.get_field(s.db, r.low, i) if low else r.rec.get_field(i), "%s: record %d field %d" % (where, s.rows.index(r), i))
    def check_all(s, where):
        seen = s.scan_low()
        want = sorted(repr(r.low) for r in s.rows if not r.dead)
        if sorted(seen) != want: raise Fail("%s: the scan finds %d records, the model has %d%s" % (where, len(seen), len(want), "" if len(seen) != len(want) else " (others)"))
        for r in s.rows:
            if not r.dead: s.check_row(r, where)
    def scan_low(s):
        out = []
        try:
            r = s.w.get_first_record(s.db)
            while True:
                out.append(repr(r))
                if len(out) > 100000: raise Fail("the scan does not end")
                r = s.w.get_next_record(s.db, r)
        except s.w.error: pass
        return out
    def links_to(s, row): return any(v[0] == "r" and v[1] is row for r in s.rows if not r.dead for v in r.vals)

    # operations --------------------------------------------------------
    def step(s, o):
        getattr(s, "op_" + o[0])(*o[1:])
    def add(s, vals, rec, low): s.rows.append(Row(vals, rec, low))
    def usable(s, vals):
        return all(v[0] != "bad" and s.fits(v) for v in vals)
    def op_insert(s, how, fields):
        vals = [s.norm(v) for v in fields]
        if not s.db: return
        def go():
            w, c = s.w, s.conn
            if how in ("conn", "cursor"):
                data = [s.tup(v, wrap=(i % 2 == 0)) for i, v in enumerate(vals)]
                r = c.insert(data) if how == "conn" else c.cursor().insert(tuple(data))
                return r, r.get__rec()
            ex = [s.pyn(v) for v in vals]
            low = w.create_record(s.db, len(vals)) if how == "low" else w.create_raw_record(s.db, len(vals))
            f = w.set_field if how == "low" else w.set_new_field
            for i, (d, e) in enumerate(ex): f(s.db, low, i, d, *e)
            return c._new_record(low), low
        if s.usable(vals):
            rec, low = go()
            if rec.get_size() != len(vals) or len(rec) != len(vals): raise Fail("insert: the new record says it has %d fields, not %d" % (rec.get_size(), len(vals)))
            s.add(vals, rec, low); note("insert")
            for v in vals: note("value " + v[0])
            s.check_row(s.rows[-1], "after insert", low=False)
        elif how in ("conn", "cursor"):
            s.expect_error(go, "insert of %s" % json.dumps(fields)); note("insert refused"); s.check_all("after a refused insert of %s" % json.dumps(fields)[:200])
    def op_create(s, how, n):
        c, w = s.conn, s.w
        if how == "conn": rec = c.create_record(n); low = rec.get__rec()
        else:
            low = (w.create_record if how == "low" else w.create_raw_record)(s.db, n); rec = c._new_record(low)
            if how == "raw":
                for i in range(n): w.set_new_field(s.db, low, i, None)
        s.add([["n"]] * n, rec, low)
        if rec.get_size() != n: raise Fail("a created record has %d fields, not %d" % (rec.get_size(), n))
    def op_badcreate(s, how, n):
        v = eval(n)
        if how == "conn" and v == -1: v = 0
        f = {"conn": s.conn.create_record, "low": lambda k: s.w.create_record(s.db, k), "raw": lambda k: s.w.create_raw_record(s.db, k)}[how]
        s.expect_error(lambda: f(v), "create_record(%s)" % n); s.check_all("after a refused create_record(%s)" % n)
    def setter(s, how, row, f, v):
        d, e = s.pyn(v)
        if how == "rec": return lambda: row.rec.set_field(f, row_or(d, v, s), *e)
        if how == "item":
            if e: return lambda: row.rec.set_field(f, d, *e)
            def g(): row.rec[f] = row_or(d, v, s)
            return g
        if how == "conn": return lambda: s.conn.set_field(row.rec, f, d, *e)
        if how == "lowkw":
            kw = {"db": s.db, "rec": row.low, "fieldnr": f, "data": d}
            if len(e) > 0: kw["encoding"] = e[0]
            if len(e) > 1: kw["ext_str"] = e[1]
            if len(e) > 2: kw["more"] = e[2]
            return lambda: s.w.set_field(**kw)
        return lambda: s.w.set_field(s.db, row.low, f, d, *e)
    def op_set(s, how, i, f, v):
        row = s.live(i)
        if not row: return
        v = s.norm(v); f %= len(row.vals)
        g = s.setter(how, row, f, v)
        if s.usable([v]):
            g(); row.vals = row.vals[:f] + [v] + row.vals[f + 1:]; note("set"); note("value " + v[0])
            s.same(v, row.rec[f], "after set")
        else:
            s.expect_error(g, "set_field of %s" % json.dumps(v)); s.check_all("after a refused set_field of %s" % json.dumps(v))
    def op_badfield(s, how, i, f, what):
        row = s.live(i)
        if not row: return
        n = eval(f, {"L": len(row.vals)})
        if what == "get":
            g = {"rec": lambda: row.rec.get_field(n), "item": lambda: row.rec[n], "conn": lambda: s.conn.get_field(row.rec, n), "low": lambda: s.w.get_field(s.db, row.low, n)}[how]
        else:
            def item(): row.rec[n] = 5
            g = {"rec": lambda: row.rec.set_field(n, 5), "item": item, "conn": lambda: s.conn.set_field(row.rec, n, 5), "low": lambda: s.w.set_field(s.db, row.low, n, 5)}[how]
        s.expect_error(g, "%s of field %s of a record of %d fields" % (what, f, len(row.vals))); s.check_all("after a refused %s of field %s" % (what, f))
    def op_update(s, i, fields):
        row = s.live(i)
        if not row: return
        vals = [s.norm(v) for v in fields]
        data = [s.tup(v, wrap=(k % 2 == 0)) for k, v in enumerate(vals)]
        g = lambda: row.rec.update(data)
        n = len(row.vals); old = row.vals
        if s.usable(vals) and len(vals) <= n:
            g(); row.vals = vals + [["n"]] * (n - len(vals)); note("update"); s.check_row(row, "after update")
            return
        s.expect_error(g, "update of a record of %d fields with %s" % (n, json.dumps(fields)[:200]))
        # the values before the refused one are stored, as the existing tests of the module say
        k = min(next((j for j, v in enumerate(vals) if not s.usable([v])), len(vals)), n)
        row.vals = vals[:k] + old[k:]; note("refused update")
        s.check_row(row, "after a refused update", full=True)
        s.check_all("after a refused update")
    def op_delete(s, how, i):
        row = s.live(i)
        if not row: return
        others = any(v[0] == "r" and v[1] is row for r in s.rows if not r.dead and r is not row for v in r.vals)
        selfref = any(v[0] == "r" and v[1] is row for v in row.vals)
        g = {"rec": row.rec.delete, "conn": lambda: s.conn.delete_record(row.rec), "low": lambda: s.w.delete_record(s.db, row.low)}[how]
        if others or selfref:
            s.expect_error(g, "deleting a record that others refer to"); note("delete refused")
        else:
            g(); row.dead = True; note("delete"); row.wrapped = how != "low"
        s.check_all("after delete")
    def op_usedeleted(s, i):
        l = [r for r in s.rows if r.dead and getattr(r, "wrapped", False)]
        if not l: return
        r = l[i % len(l)].rec
        for nm, f in (("get_field", lambda: r.get_field(0)), ("set_field", lambda: r.set_field(0, 1)), ("update", lambda: r.update([1])), ("delete", r.delete), ("next", lambda: s.conn.next_record(r))):
            s.expect_error(f, "%s of a deleted record" % nm)
        s.check_all("after use of a deleted record")
    def op_scan(s, how):
        if how == "low": return s.check_all("scan")
        out = []; r = s.conn.first_record()
        while r:
            out.append(repr(r.get__rec())); r = s.conn.next_record(r)
            if len(out) > 100000: raise Fail("the scan does not end")
        want = sorted(repr(r.low) for r in s.rows if not r.dead)
        if sorted(out) != want: raise Fail("first_record/next_record visit %d records, the model has %d" % (len(out), len(want)))
    def op_iter(s, i):
        row = s.live(i)
        if not row: return
        got = list(row.rec)
        if len(got) != len(row.vals): raise Fail("iterating a record of %d fields yields %d values" % (len(row.vals), len(got)))
        for k, v in enumerate(row.vals): s.same(v, got[k], "iterating, field %d" % k)
    def op_index(s, col):
        if s.has_nan(): return
        if col in s.idx:
            s.expect_error(lambda: s.w.createindex(s.db, col), "a second index on column %d" % col)
        else:
            if s.w.indexid(s.db, col) is not None: raise Fail("indexid names an index on column %d, which has none" % col)
            s.w.createindex(s.db, col); s.idx.add(col); note("index")
        x = s.w.indexid(s.db, col)
        if type(x) is not int or x <= 0: raise Fail("indexid of an indexed column is %r" % (x,))
    def op_badindex(s, what):
        if what == "dup":
            if not s.idx: return
            v = min(s.idx)
        else: v = eval(what)
        s.expect_error(lambda: s.w.createindex(s.db, v), "createindex(%s)" % what)
        if what != "dup":
            try: x = s.w.indexid(s.db, v)
            except SystemError as e: raise Fail("indexid(%s): internal error %r" % (what, e))
            except Exception: x = None
            if x is not None: raise Fail("indexid(%s) is %r" % (what, x))
        s.check_all("after a refused createindex")
    def has_nan(s): return any(v == ["f", "nan"] for r in s.rows if not r.dead for v in r.vals)
    def build_query(s, q):
        args, match = None, None; conds = []
        if q["args"] is not None:
            args = []
            for col, cond, v in q["args"]:
                args.append((col, getattr(s.w, "COND_" + cond), s.tup(v))); conds.append((col, cond, v))
        if q["match"] is not None:
            if q["match"][:1] == ["rec"]:
                row = s.live(q["match"][1])
                if row and not any(v[0] == "r" for v in row.vals):
                    match = row.rec
                    conds += [(k, "EQUAL", v) for k, v in enumerate(row.vals) if v[0] != "v"]
            else:
                match = [s.tup(v) for v in q["match"]]
                conds += [(k, "EQUAL", v) for k, v in enumerate(q["match"]) if v[0] != "v"]
        return args, match, conds
    def start_query(s, q, args, match):
        if q["how"] == "cursor":
            cur = s.conn.cursor(); cur.execute(matchrec=match, arglist=args); return cur
        if q["how"] == "conn": return s.conn.make_query(match, args)
        if isinstance(match, s.wd.Record): match = match.get__rec()
        if args is None and match is None: return s.w.make_query(s.db)
        return s.w.make_query(s.db, matchrec=match, arglist=args)
    def op_query(s, q):
        if s.has_nan(): return
        args, match, conds = s.build_query(q)
        bad = q.get("bad")
        if bad or not all(s.fits(v) for _, _, v in conds):
            return s.bad_query(q, bad, args, match)
        want = sorted(repr(r.low) for r in s.rows if not r.dead and all(col < len(r.vals) and s.holds(r.vals[col], cond, v) for col, cond, v in conds))
        h = s.start_query(q, args, match)
        cnt = h.rowcount if q["how"] == "cursor" else h.res_count
        desc = "query %s" % json.dumps({"args": q["args"], "match": q["match"]})[:300]
        if cnt != len(want): raise Fail("%s: row count %r, the model has %d rows" % (desc, cnt, len(want)))
        got = []
        if q["how"] == "cursor" and q["take"] == "all": got = [repr(r.get__rec()) for r in h.fetchall()]
        else:
            lim = {"all": 10**9, "one": 1, "some": len(want) // 2}[q["take"]]
            while len(got) < lim:
                if q["how"] == "cursor": r = h.fetchone()
                elif q["how"] == "conn": r = s.conn.fetch(h)
                else:
                    try: r = s.w.fetch(s.db, h)
                    except s.w.error: r = None
                if r is None: break
                got.append(repr(r.get__rec() if isinstance(r, s.wd.Record) else r))
                if len(got) > len(want) + 5: break
            if q["take"] != "all" and not (len(got) == min(lim, len(want)) and len(set(got)) == len(got) and set(got) <= set(want)): raise Fail("%s: fetched %d rows, %d of them expected" % (desc, len(got), len(set(got) & set(want))))
        if q["take"] == "all":
            if sorted(got) != want: raise Fail("%s: %d rows, the model has %d (missing %d, unexpected %d)" % (desc, len(got), len(want), len(set(want) - set(got)), len(set(got) - set(want))))
            if q["how"] == "cursor" and h.fetchone() is not None: raise Fail("%s: fetchone after the last row returns something" % desc)
        note("query"); note("query with rows" if want else "query without rows")
        if conds: note("query cond")
        if s.idx and conds: note("query with index")
        if q["how"] == "cursor":
            h.close(); s.expect_error(h.fetchone, "fetchone of a closed cursor"); h.close()
        elif q["how"] == "low": s.w.free_query(s.db, h)
        else: del h
        s.check_all("after a query") if q["take"] == "one" else None
    def bad_query(s, q, bad, args, match):
        w = s.w; a = args if args is not None else []
        a = list(a)
        class Seq:
            def __init__(z, n, v): z.n, z.v = n, v
            def __len__(z): return z.n
            def __getitem__(z, i):
                if z.v is None: raise ValueError("no item")
                return z.v
        bv = s.badval(q.get("badval", "list")); bt = (bv[0],) + bv[1] if bv[1] or isinstance(bv[0], tuple) else bv[0]
        if bad == "arg-not-seq": a = 5
        elif bad == "arg-not-tuple": a.append(3)
        elif bad == "arg-2tuple": a.append((0, w.COND_EQUAL))
        elif bad == "arg-badcol": a.append(("x", w.COND_EQUAL, 1))
        elif bad == "arg-badcond": a.append((0, None, 1))
        elif bad == "arg-colneg": a.append((-1, w.COND_EQUAL, 1))
        elif bad == "arg-colhuge": a.append((2**32, w.COND_EQUAL, 1))
        elif bad == "arg-condunk": a.append((0, 12345, 1))
        elif bad == "match-int": match = 5
        elif bad == "match-badval": match = [(0, w.VARTYPE), bt]
        elif bad == "arg-badval": a.append((0, w.COND_EQUAL, bt))
        elif bad == "arg-badseq": a = Seq(2, None)
        elif bad == "match-badseq": match = Seq(3, None)
        if bad == "arg-colhuge":     # no record is that long: an error or an empty result
            try: h = s.start_query(q, a, match)
            except SystemError as e: raise Fail("query of column 2**32: internal error %r" % e)
            except Exception: return
            c = h.rowcount if q["how"] == "cursor" else h.res_count
            if c: raise Fail("a query of column 2**32 finds %d rows" % c)
            return
        s.expect_error(lambda: s.start_query(q, a, match), "query with %s" % (("%s (%s)" % (bad, q.get("badval"))) if bad else "a value without stored form")); note("query refused")
        s.check_all("after a refused query")
    def op_queryfree(s, q, what):
        if q.get("bad") or s.has_nan(): return
        args, match, conds = s.build_query(q)
        if not all(s.fits(v) for _, _, v in conds): return
        if isinstance(match, s.wd.Record): match = match.get__rec()
        h = s.w.make_query(s.db, matchrec=match, arglist=args)
        s.w.free_query(s.db, h)
        if what == "fetch": s.expect_error(lambda: s.w.fetch(s.db, h), "fetch from a freed query")
        elif what == "count": s.expect_error(lambda: h.res_count, "res_count of a freed query")
        elif what == "free": s.w.free_query(s.db, h)
        else: repr(h)
        note("freed query")
    def op_dumpload(s, bad):
        f = os.path.join(s.scratch, "d.dump")
        if bad:
            s.expect_error(lambda: s.w.dump(s.db, os.path.join(s.scratch, "no", "such")), "dump into a missing directory")
            s.expect_error(lambda: s.w.load(s.db, os.path.join(s.scratch, "none")), "load of a missing file")
            return s.check_all("after a refused dump or load")
        s.w.dump(s.db, f)
        # a copy of the database holds the same rows
        c2 = s.wd.connect(local=1, shmsize=s.size)
        s.w.load(c2._db, f)
        def content(db):
            recs = []
            try:
                r = s.w.get_first_record(db)
                while True: recs.append(r); r = s.w.get_next_record(db, r)
            except s.w.error: pass
            n = {repr(r): k for k, r in enumerate(recs)}
            return [[("rec", n.get(repr(x))) if s.w.is_record(x) else repr(x) for x in (s.w.get_field(db, r, k) for k in range(s.w.get_record_len(db, r)))] for r in recs]
        a, b = content(s.db), content(c2._db)
        c2.close(); os.unlink(f); note("dump")
        if a != b: raise Fail("a database loaded from a dump reads differently: %d and %d records" % (len(a), len(b)))
        s.check_all("after dump")
    def op_lock(s, kind, what):
        c = s.conn; st = getattr(c, "start_" + kind); en = getattr(c, "end_" + kind); other = getattr(c, "start_" + ("read" if kind == "write" else "write"))
        PE = s.wd.ProgrammingError
        if what == "end":
            e = s.expect_error(en, "end_%s without a transaction" % kind)
            if not isinstance(e, PE): raise Fail("end_%s without a transaction raises %r" % (kind, e))
        elif what == "double":
            st()
            for f in (st, other):
                e = s.expect_error(f, "a second transaction")
                if not isinstance(e, PE): raise Fail("a second transaction raises %r" % e)
            en()
        elif what == "pair": st(); en(); st(); en()
        else:
            c.set_locking(0); st()
            if kind == "write":
                row = s.live(0)
                if row: row.rec.set_field(0, 4242); row.vals = [["i", 4242]] + row.vals[1:]
            s.check_all("inside a transaction"); en(); c.set_locking(1)
        note("lock")
        s.check_all("after lock")
    def low_calls(s, db, rec, q):
        w = s.w; f = os.path.join(s.scratch, "x")
        return [("create_record", lambda: w.create_record(db, 2)), ("create_raw_record", lambda: w.create_raw_record(db, 2)), ("get_first_record", lambda: w.get_first_record(db)), ("get_next_record", lambda: w.get_next_record(db, rec)),
          ("get_record_len", lambda: w.get_record_len(db, rec)), ("delete_record", lambda: w.delete_record(db, rec)), ("set_field", lambda: w.set_field(db, rec, 0, 1)), ("set_field text", lambda: w.set_field(db, rec, 0, "x" * 50)), ("set_field none", lambda: w.set_field(db, rec, 0, None)),
          ("set_new_field", lambda: w.set_new_field(db, rec, 0, 1)), ("get_field", lambda: w.get_field(db, rec, 0)), ("start_write", lambda: w.start_write(db)), ("end_write", lambda: w.end_write(db, 1)), ("start_read", lambda: w.start_read(db)), ("end_read", lambda: w.end_read(db, 1)),
          ("make_query", lambda: w.make_query(db)), ("make_query args", lambda: w.make_query(db, arglist=[(0, w.COND_EQUAL, "abc")])), ("make_query match", lambda: w.make_query(db, [1.5, 2])), ("fetch", lambda: w.fetch(db, q)), ("dump", lambda: w.dump(db, f)), ("load", lambda: w.load(db, f)),
          ("start_logging", lambda: w.start_logging(db)), ("stop_logging", lambda: w.stop_logging(db)), ("replay_log", lambda: w.replay_log(db, f)), ("size", lambda: w.size(db)), ("free", lambda: w.free(db)), ("createindex", lambda: w.createindex(db, 0)), ("indexid", lambda: w.indexid(db, 0)), ("date", lambda: w.set_field(db, rec, 0, datetime.date(2000, 1, 1))), ("double", lambda: w.set_field(db, rec, 0, 1.5)), ("record", lambda: w.set_field(db, rec, 0, rec)), ("match rec", lambda: w.make_query(db, rec))]
    def op_closed(s, what, k):
        w = s.w
        # a database object that has been detached
        c2 = s.wd.connect(local=1, shmsize=2000000)
        d = c2._db; r = c2.insert([1, "two"]); q = w.make_query(d, arglist=[(0, w.COND_EQUAL, 1)])
        cur = c2.cursor(); cur.execute()
        c2.close()
        note("closed")
        for nm, f in [("cursor", c2.cursor), ("insert", lambda: c2.insert([1])), ("create_record", lambda: c2.create_record(2)), ("get_field", lambda: r.get_field(0)), ("set_field", lambda: r.set_field(0, 2)), ("update", lambda: r.update([1])), ("delete", r.delete), ("fetchone", cur.fetchone), ("close", cur.close), ("start_write", c2.start_write)]:
            s.expect_error(f, "%s on a closed connection" % nm)
        calls = s.low_calls(d, r.get__rec() or s.anyrec(), q)
        if what == "call": calls = [calls[k % len(calls)]]
        for nm, f in calls:
            if r.get__rec() is None and s.anyrec() is None: break
            s.expect_error(f, "wgdb call %s with a detached database" % nm)
        w.detach_database(d); c2.close(); repr(d); repr(q)
        s.check_all("after use of a closed connection")
    def op_fake(s, k):
        # objects made by calling the types have no database, record or query behind them
        row = s.live(k)
        if not row: return
        q = s.w.make_query(s.db)
        def mk(x):
            try: return type(x)()
            except TypeError: return None
        fd, fr, fq = mk(s.db), mk(row.low), mk(q)
        note("fake")
        if fd is not None:
            for nm, f in s.low_calls(fd, row.low, q): s.expect_error(f, "wgdb call %s with an empty database object" % nm)
            s.w.detach_database(fd); repr(fd)
        if fr is not None:
            for nm, f in s.low_calls(s.db, fr, q):
                if nm in ("get_next_record", "get_record_len", "delete_record", "set_field", "set_field text", "set_field none", "set_new_field", "get_field", "date", "double", "record", "match rec"): s.expect_error(f, "wgdb call %s with an empty record object" % nm)
            s.expect_error(lambda: s.w.set_field(s.db, row.low, 0, fr), "storing an empty record object"); repr(fr)
        if fq is not None:
            s.expect_error(lambda: s.w.fetch(s.db, fq), "fetch from an empty query object"); s.expect_error(lambda: fq.res_count, "res_count of an empty query object"); s.w.free_query(s.db, fq); repr(fq)
        s.w.free_query(s.db, q)
        s.check_all("after use of empty objects")
    def op_second(s, what):
        if not s.name: return
        if what == "existing":
            d = s.w.attach_existing_database(s.name); n = 0
            s.w.detach_database(d)
            s.expect_error(lambda: s.w.attach_existing_database(str(int(s.name) - 1)), "attaching to a missing database")
            return
        c2 = s.wd.connect(s.name)
        rows = []
        r = c2.first_record()
        while r: rows.append([("R" if isinstance(x, s.wd.Record) else repr(x)) for x in r]); r = c2.next_record(r)
        mine = []
        r = s.conn.first_record()
        while r: mine.append([("R" if isinstance(x, s.wd.Record) else repr(x)) for x in r]); r = s.conn.next_record(r)
        if rows != mine: raise Fail("a second connection reads other rows: %d and %d" % (len(rows), len(mine)))
        if what == "write":
            c2.insert([17, "from the second connection", 2.5]); c2.close()
            q = s.conn.make_query(arglist=[(1, s.w.COND_EQUAL, "from the second connection")]) if not s.has_nan() else None
            known = set(repr(x.low) for x in s.rows if not x.dead); low = None
            r = s.conn.first_record()
            while r:
                if repr(r.get__rec()) not in known: low = r
                r = s.conn.next_record(r)
            if low is None: raise Fail("a row inserted through a second connection is not found")
            s.add([["i", 17], ["s", "from the second connection", None], ["f", "2.5"]], low, low.get__rec()); note("second")
        else: c2.close()
        s.check_all("after a second connection")
    def op_sizes(s):
        a, b = s.w.size(s.db), s.w.free(s.db)
        if not 0 < b <= a: raise Fail("size %r, free %r" % (a, b))
        if a < s.size: raise Fail("a database asked to be %d bytes says it has %d" % (s.size, a))
    def op_final(s):
        s.check_all("at the end")
        for r in s.rows:
            if not r.dead: s.check_row(r, "at the end (wrapper)", low=False)

def row_or(d, v, s): return v[1].rec if v[0] == "r" else d

def run_case(case, scratch, tag):
    locale.setlocale(locale.LC_CTYPE, case["loc"])
    w = World(case, scratch, tag)
    done = 0
    try:
        for i, o in enumerate(case["ops"]):
            try: w.step(o)
            except Fail as e: raise Fail("op %d %s: %s" % (i, o[0], e))
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                raise Fail("op %d %s: unexpected %s: %s (at %s:%d)" % (i, json.dumps(o)[:200], type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    finally:
        try: w.close()
        except Exception: pass
    return w

def nontrivial(case, before):
    d = {k: STATS.get(k, 0) - before.get(k, 0) for k in STATS}
    return d.get("insert", 0) >= 2 and (d.get("query with rows", 0) + d.get("set", 0) + d.get("update", 0) + d.get("delete", 0) + d.get("refused", 0)) >= 2

def main():
    sys.stdout.reconfigure(errors="backslashreplace"); sys.stderr.reconfigure(errors="backslashreplace")
    a = sys.argv[1:]
    if a[0] == "gen": print(json.dumps(generate(int(a[1]), int(a[2])))); return 0
    sys.path[:0] = [a[1], a[2]]
    import tempfile, shutil, hashlib
    scratch = tempfile.mkdtemp(prefix="wgpy")
    os.chdir(scratch)
    tag = int(os.environ.get("WG_KEY", "0")) or 0x70000000 + ((os.getpid() & 0xfffff) << 4)
    try:
        if a[0] == "run":
            case = json.load(sys.stdin)
            try: run_case(case, scratch, tag)
            except Fail as e: print("FAIL " + str(e)); return 1
            for k in sorted(STATS):
                if k.startswith("KNOWN"): print(k)
            return 0
        seed, first, step, n = map(int, a[3:7]); out = a[7]
        seen = set(); nt = 0; samples = []; ran = 0
        import time
        deadline = time.time() + float(a[8])
        with open(out, "w") as f:
            i = first
            while i < n and time.time() < deadline:
                case = generate(seed, i)
                f.write(json.dumps({"at": i}) + "\n"); f.flush()
                before = dict(STATS)
                try: run_case(case, scratch, tag)
                except Fail as e:
                    f.write(json.dumps({"fail": i, "msg": str(e)}) + "\n"); f.flush(); return 1
                ran += 1
                h = hashlib.sha256(json.dumps(case).encode()).digest()[:8]
                if h not in seen and nontrivial(case, before):
                    seen.add(h); nt += 1
                    if len(samples) < 2 and len(case["ops"]) < 12: samples.append(case)
                i += step
            f.write(json.dumps({"done": ran, "nontrivial": nt, "stats": STATS, "samples": samples}) + "\n")
        return 0
    finally:
        os.chdir("/"); shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
