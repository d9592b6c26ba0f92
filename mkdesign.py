#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, propmeta.py, props.py and known_findings.jsonl."""
import json, os
import propmeta, props
V = os.path.dirname(os.path.abspath(__file__))
ORACLE = {
 "P01": "The filter's meaning on two stored values is computed in the harness by exact integer/double comparison (sign, exponent and mantissa taken apart; no rounding) and by byte order for the other types.",
 "P02": "Each shape carries its boolean expression over the truth values of its conditions.",
 "P03": "Each document shape carries the value a path reaches in it, or none.",
 "P04": "Membership computed over candidate and element lists with the comparison of P01.",
 "P05": "The same condition evaluated on every document by the harness.",
 "P06": "What the other collection answers (find, count, lookup by key and by index) before and after.",
 "P07": "Equality of type and bits of the two keys decides whether the second insert must fail.",
 "P08": "The inserted document itself, compared field by field with type and order.",
 "P09": "A list of documents on which the steps are repeated; the answer without index.",
 "P10": "Each pattern carries a predicate over bytes written by hand. The `regex` crate is part of the encoded program: its compiler and engines run symbolically on the free string.",
 "P11": "A list of documents; an operation must fail exactly if the list would hold a value twice.",
 "P12": "The operator's result computed on the value (128-bit for overflow) and on the field list.",
 "P13": "Selection and effect computed by the harness on the list of documents.",
 "P14": "Everything a client can see before the failed operation, compared with after; then the operation is repeated and must work. The failing storage call is a free choice (each Put, Delete, Get, Commit, Seek, Next, Begin).",
 "P15": "The sets of handles, committed and pending documents; the storage model and the native interposer both refuse the use of an iterator whose transaction has released its changes and the closing of a store with transactions.",
 "P16": "Two lists (inside, outside) on which the operations are repeated; the ending chooses which is the outcome.",
 "P17": "The outcomes of the two serial orders (and of one operation alone if the other fails), from the same code run serially on other stores. The second client runs, whole, at one storage call of the first; the call is a free choice.",
 "P18": "The durable image is taken at a freely chosen storage call; the reopened database must hold one of the two states around the operation in flight, never less than what was reported.",
 "P19": "The list of documents without the selected ones; counts, find and lookups must agree with it.",
 "P20": "Stable insertion sort by the harness's order, then the slice.",
 "P21": "Every stage computed on the list of documents.",
 "P22": "A list of names with their documents and indexes.",
 "P23": "The executor itself: any reachable panic, abort, out-of-bounds access, overflow check, unbounded loop (step limit) or deadlock is a violation; then the database must still answer.",
 "P24": "A second decoder in the harness, written from the MongoDB wire protocol, applied to the same free bytes. A global allocator that refuses more than 32 MiB bounds allocations.",
 "P25": "The commands' effect computed on the list of documents; the answers' counts, batches and ids; the collection read by the embedded interface.",
 "P26": "The Rust value and its Python counterpart, compared by exact type, value and order on both sides; the embedded interface reading the same store; the effect computed on the list of documents.",
 "P27": "The printed differences are parsed back and applied to the first text; the lines between them must be equal in both texts.",
}
o = open(V + "/design_head.md").read()
o += "\n## The properties\n"
for p in propmeta.ALL:
    i = p["id"]
    d = props.PROPS[i]
    o += f"\n### {i} — {p['title']}\n\n{p['statement']}\n\n"
    o += f"- **Oracle.** {ORACLE[i]}\n- **Harnesses.** {', '.join('`'+e+'`' for e in d['entries'])} (`{dict(server='server/src/vh_', pyb='pyb/src/vh_').get(d.get('crate'), 'harness/src/')}{i.lower()}.rs`).\n"
    o += f"- **Bounds.** {d['bounds']}.\n" if not d['bounds'].endswith('.') else f"- **Bounds.** {d['bounds']}\n"
    o += f"- **Outside.** {d['outside']}.\n- **Why tests cannot settle it.** {p['why_tests_cant']}\n"
o += open(V + "/design_tail.md").read()
k = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
o += "\n## Genuine defects\n\nRecorded, not repaired (`known_findings.jsonl`, printed as KNOWN-FINDING):\n\n"
for x in k:
    if x["status"] == "open": o += f"- **{x['finding']}** ({x['property']}): {x['what']}.\n"
o += "\nRepaired by a `fix:` commit each; the check of the property reports the violation if it returns:\n\n| property | commit | what failed |\n|---|---|---|\n"
for x in k:
    if x["status"] == "fixed":
        _, q, c, w = x["entry"].split(" ", 3)
        o += f"| {q.split('=')[1]} | {c} | {w} |\n"
if os.path.exists(V + "/design_catches.md"): o += open(V + "/design_catches.md").read()
open(V + "/DESIGN.md", "w").write(o)
