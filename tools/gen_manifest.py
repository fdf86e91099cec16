#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json
NA = {"C19": "The guarantee is about file system effects (reading, truncating, writing a file, exit codes) of the binary, i.e. about system calls; the executor runs "
             "the library's code over symbolic documents and has no model of files, processes or arguments. What the tool adds to the library is about forty lines of main.rs "
             "without any decision on the document's content; its text is exactly the library's output, which the other properties decide."}
NOTE = ("Symbolic execution of the compiled LLVM IR of markdown-fmt, pulldown-cmark and std together; every branch on symbolic data is decided by Z3; the verdict covers every "
        "input the templates denote (bounds in evidence). Every path's representative is replayed on the native build. Trusts: rustc's IR, pulldown-cmark as the definition of "
        "what a document means, the oracle in harness/src/oracle.rs. Documents outside the templates are not decided.")
checks = []
na = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the LLVM IR, decided by Z3", "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
