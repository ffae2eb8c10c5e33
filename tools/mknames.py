#!/usr/bin/env python3
"""Writes contracts/names.json: the locals and closures of every function under contract on the tree the contracts
were written for, so that a contract that mentions one can follow a new name, and contracts/decls.json: its types,
fields and functions, for the same purpose.  Run by hand; not part of a check."""
import json, os, subprocess, sys
import assemble

repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
d = subprocess.run([assemble.HERE + "/extract/target/debug/extract"] + [f"{repo}/src/{m}.rs" for m in assemble.MODULES],
                   capture_output=True, text=True, env=dict(os.environ, VV_MKDECLS="1")).stdout
open(assemble.HERE + "/contracts/decls.json", "w").write(d)
data = assemble.extract(repo, assemble.HERE + "/extract/target/debug/extract")
a = assemble.Assembler(data)
a.names = {}
a.run()
out, raw = {}, {}
for f in data["files"]:
    for it in f["items"]:
        for g in it.get("fns", []) + ([it["fn"]] if "fn" in it else []):
            raw[(f["module"], g["line0"])] = g
for k, i in a.fns.items():
    if i["has_spec"]:
        g = raw[(i["module"], i["line0"])]
        if g["lets"] or g["closures"]:
            out[k] = dict(lets=g["lets"], clos=g["closures"])
json.dump(out, open(assemble.HERE + "/contracts/names.json", "w"), indent=0, sort_keys=True)
