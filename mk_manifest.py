#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
G = "generated-input search"
CHECKS = {
 "C02": ("generated well-formed documents (grammar-based) and bounded-exhaustive small documents, accepted-or-not against an independent reference parser", ""),
 "C03": ("single-edit mutation of generated documents, token soup and bounded-exhaustive small documents, against the verdict of an independent reference parser", ""),
 "C04": ("every cut of generated documents, against an independent reference parser run on the prefix", ""),
 "C05": ("generated and bounded-exhaustive documents, token list compared with an independent reference parser", ""),
 "C06": ("generated namespace declarations and uses, verdict compared with an independent resolver", ""),
 "C07": ("generated attribute lists, verdict compared with an independent reference", ""),
 "C08": ("stateful model-based search: random move sequences against an element-tree model", ""),
 "C09": ("generated documents with references, strings compared with an independent resolver", ""),
 "C01": ("generated bytes (random, XML-like, mutated, cut, UTF-16, oversized), options and moves; no panic, CPU and memory bound per case", ""),
 "C11": ("bounded-exhaustive and generated XML declarations, byte-order marks and encodings, verdict compared with an independent model of the declaration", ""),
 "C12": ("generated documents around each size limit, verdict and split tokens compared with the documented maxima", ""),
 "C13": ("metamorphic: generated documents inside generated surroundings, window parse compared with the parse of the copied slice", ""),
 "C14": ("metamorphic: the same generated document and moves under every option setting and order", ""),
 "C15": ("stateful: interleaved jobs on read-only document memory compared with each job alone; output descriptors watched", ""),
 "C16": ("generated ill-formed documents, error type and line compared with the place an independent parser finds the error at", ""),
 "C17": ("stateful model-based search: operation sequences on paged buffers against a plain slice", ""),
 "C18": ("stateful model-based search: operations on the byte buffer against a plain slice", ""),
 "C19": ("stateful model-based search: reader operations against a decoded character list", ""),
 "C20": ("exhaustive over ranges' ends and 0..0x110000 plus generated 32-bit values against the specification's tables", ""),
 "C21": ("generated record lists, decoded fields compared with the fields packed", ""),
 "C22": ("generated damaged records, indexes and ranges: error or bytes of the document, bounded time", ""),
 "C23": ("generated document shapes and sizes with allocated bytes measured against a linear bound", ""),
 "C24": ("generated error chains against a model of kind, message and cause", ""),
 "C25": ("generated option lists against a model of acceptance", ""),
 "C26": ("generated jobs on concurrent goroutines under the race detector, results compared with each job alone", ""),
 "C10": ("generated documents, bytes and ranges, raw strings compared with the source bytes", ""),
}
NOTE = ("Holds on every generated case of the run (the evidence file gives counts, classes and samples); no claim beyond them. "
        "Trusts the harness's own reference model, which shares no code with the library, and the Go toolchain. ")
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh warm", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + tech, "level": "exploration", "level_note": NOTE + note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
