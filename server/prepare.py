#!/usr/bin/env python3
"""prepare.py DST REPO VERIF: the server's current sources with the harness attached."""
import os, re, shutil, sys
dst, repo, verif = sys.argv[1:4]
src = repo + "/src/polodb"
out = dst + "/src"
own = [f for f in os.listdir(out)]
for n in os.listdir(src):
    a = os.path.join(src, n)
    if os.path.isdir(a) and n not in ("target", "tests"):
        shutil.copytree(a, os.path.join(out, n))
    elif n.endswith(".rs"):
        if n in own and n != "main.rs":
            sys.exit("name clash " + n)
        shutil.copy(a, os.path.join(out, n))
for n in ("vf", "env", "store", "kv", "native"):
    shutil.copy(f"{verif}/harness/src/{n}.rs", f"{out}/vh_{n}.rs")
m = open(out + "/main.rs").read()
m, k = re.subn(r"#\[\s*tokio\s*::\s*main[^\]]*\]\s*((?:pub\s*(?:\([^)]*\)\s*)?)?async\s+fn\s+)main\b", r"#[allow(dead_code)] \1server_main", m)
if k != 1:
    sys.exit("main function not found")
m += open(f"{verif}/server/attach.rs").read()
open(out + "/main.rs", "w").write(m)
