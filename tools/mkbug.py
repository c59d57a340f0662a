"""mkbug.py SPEC.py: each spec entry BUG(id, prop, edits, needs, breaks, demo_c=..., demo_sh=..., files={})
writes /verif/seeded/<id>/. edits = [(file, old, new)] applied to /repo's HEAD in a scratch copy."""
import os, sys, json, subprocess, tempfile, shutil
REPO = os.environ.get("WG_BASE", "/repo")
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HDR = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "dbapi.h"
#include "indexapi.h"
#define REQ(c) do { if(!(c)) { printf("line %d: failed: %s\\n", __LINE__, #c); exit(3); } } while(0)
static unsigned long long rs_ = 88172645463325252ULL;
static unsigned rnd(unsigned n) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return (unsigned)((rs_ >> 11) % n); }
'''
CSH = '''#!/bin/bash
# builds the demonstration against the built library and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -g -w -I/repo/Db -I/repo/_build/%s/Db -I/repo "$here/demo.c" /repo/_build/%s/Main/.libs/libwgdb.a -lm -lpthread -o "$T/demo" || exit 9
cd "$T" && timeout %d ./demo
'''
def BUG(id, prop, edits, needs, breaks, c=None, sh=None, files={}, cfg="main", t=60):
    d = os.path.join(V, "seeded", id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="mkbug"); subprocess.check_call(["git", "-C", REPO, "worktree", "add", "-q", "--detach", tmp + "/w", "HEAD"])
    try:
        for f, old, new in edits:
            p = tmp + "/w/" + f; s = open(p, encoding="latin1", newline="").read()
            n = s.count(old)
            if n != 1: raise SystemExit("%s: %d matches in %s for %r" % (id, n, f, old[:80]))
            open(p, "w", encoding="latin1", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/w", "diff"])
    finally:
        subprocess.call(["git", "-C", REPO, "worktree", "remove", "--force", tmp + "/w"]); shutil.rmtree(tmp)
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if c is not None: open(d + "/demo.c", "w").write(HDR + c); sh = sh or CSH % (cfg, cfg, t)
    open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
    for k, v in files.items(): open(d + "/" + k, "w").write(v)
    print("wrote", id)
exec(open(sys.argv[1]).read())
