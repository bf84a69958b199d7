"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
DOC = ("Random documents over the whole format are written by independent writers, the real parser runs on "
       "them and a monitor compares every attribute of the result with the model the documents were written from. ")
NOTE = ("Exploration: held on every execution observed (counts in the evidence file), no claim about inputs not "
        "generated. Trusts the reference model and writers in /verif/vm and CPython.")
TECH = {
    "C10": "differential runtime monitor: one model rendered as TMX, JSON and mixtures, results compared",
    "C11": "runtime monitor resolving every observed gid through the parsed tileset table against the author's tile",
    "C13": "document oracle under varied directory layouts, path spellings and working directories, plus file-open events",
    "C14": "runtime monitor of worlds over generated directories against a reference model, with audit-hook file events",
    "C15": "runtime monitor over enumerated and random colours, directly and in every place of a document",
    "C16": "history monitor: random histories of parses, edits, mutations and failures against fresh expectations, object-graph aliasing walk",
    "C17": "audit-hook, file-descriptor, output and process-state monitor around each parse, with injected faults",
    "C18": "controlled thread scheduler at line and opcode events with an oracle over every parse's result",
    "C19": "fault injection (truncation at every byte, failing opens and reads, damaged payloads) with an outcome monitor",
    "C20": "document oracle under varied names, leading layouts and contents; outcome monitor for neither-format content",
    "C21": "differential monitor across child processes in a matrix of environments",
    "C22": "metamorphic runtime monitor: rewritings of one document compared pairwise and with the model",
    "C23": "metamorphic runtime monitor: legacy and modern spellings compared pairwise and with the model",
    "C24": "runtime outcome monitor: one unsupported feature planted in random documents",
    "C25": "work monitor (sys.monitoring events and file opens) compared across sizes of one growing dimension",
    "C26": "runtime type monitor walking whole results against a table of declared types",
    "C27": "runtime monitor of comparison, copying, pickling and printing over random documents, with single changed values",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "vm", "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check under construction"})
        continue
    mod = importlib.import_module("vm.checks." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i}",
        "thorough_cmd": f"bin/check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, "runtime monitor: reference-model oracle over parse results of generated documents"),
        "level": getattr(mod, "LEVEL", "exploration"),
        "level_note": getattr(mod, "NOTE", NOTE),
    })
out = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "hooks": {"guard": "none", "enable": "No hooks were added to /repo: the monitors observe the unmodified "
                 "working tree from outside (imported directly, pure Python, nothing to build).", "source_commits": []},
       "notes": "bin/check <id> picks its tier from VERIF_TIER (quick or thorough) and its seed from VERIF_SEED; "
                "bin/check <id> --replay DIR re-runs a recorded violation. KNOWN_FINDINGS.txt lists findings and fixes."}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
