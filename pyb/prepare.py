#!/usr/bin/env python3
"""prepare.py DST REPO VERIF: the Python binding's current sources with the harness attached."""
import os, shutil, sys
dst, repo, verif = sys.argv[1:4]
src = repo + "/py-polodb/src"
out = dst + "/src"
own = set(os.listdir(out))
for n in os.listdir(src):
    a = os.path.join(src, n)
    if n in own:
        sys.exit("name clash " + n)
    if os.path.isdir(a):
        shutil.copytree(a, os.path.join(out, n))
    elif n.endswith(".rs"):
        shutil.copy(a, os.path.join(out, n))
for n in ("vf", "env", "store", "kv", "native"):
    shutil.copy(f"{verif}/harness/src/{n}.rs", f"{out}/vh_{n}.rs")
os.rename(out + "/lib.rs", out + "/main.rs")
m = open(out + "/main.rs").read()
# inner attributes of the crate stay first
k = 0
lines = m.split("\n")
while k < len(lines) and (lines[k].startswith(("#![", "//!")) or not lines[k].strip()):
    k += 1
m = "\n".join(lines[:k]) + "\n" + open(f"{verif}/pyb/attach_head.rs").read() + "\n".join(lines[k:])
open(out + "/main.rs", "w").write(m + open(f"{verif}/pyb/attach.rs").read())
with open(out + "/py_database.rs", "a") as f:
    f.write('\n#[path = "vh_p26.rs"]\npub mod vh_p26;\n')
