#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from ion.checks import CHECKS

AI = "abstract interpretation of the clang AST (path-partitioned linear/value-set/bit-slice domain)"
TRUST = (" Trusts: clang's AST, the extractor in tools/ionfacts, the hand-written models of std/POSIX/OpenSSL calls, and the domain. "
         "States the domain cannot express are counted as undecided, never reported.")
T = {
 "C01": (AI + ": every memory access an obligation", "Every access in frame/HPACK parsing and encoding is proved inside its object on all paths with the stated loop peelings (two header fields, bounded integer continuations, first octets of Huffman strings); later iterations are not unrolled."),
 "C02": (AI + " compared with an RFC 7541 reference reading", "All inputs with up to two field representations (and, alone, integers of up to 8 octets); table and Huffman tree replaced by summaries that C04/C06/C30 check."),
 "C03": (AI + " compared with an RFC 7541 reference reading", "All inputs with up to two field representations, any table content; longer blocks repeat the same loop body and are not unrolled."),
 "C04": ("constant evaluation of the tables by the compiler's AST values, plus abstract interpretation of the decoder's constructor", "Complete: all 61 + 256 entries and the built tree are compared with the appendices (oracle: an independent transcription)."),
 "C05": (AI + ": the emitted octets are read back by an RFC 7541 reference", "All header contents for fixed lists of string lengths (up to three headers), any table content at entry; all 32-bit integers at every prefix width; BitWriter exact for up to 10 bits at a time."),
 "C06": (AI + " of histories of table operations against a reference list", "All header sizes and limits for every history of up to three (thorough: five) operations from the empty table."),
 "C07": (AI + " with bit slices against the RFC 9113 layout", "Complete for the fixed-size structures: every bit of every field."),
 "C13": (AI + " of the decoder and of the connection's read path", "String limit: all inputs with up to two header fields. Input buffer: every read of every path of one processing pass, from any buffer content within the limit."),
 "C30": (AI + " of the decoder on the tree its constructor builds, against RFC 7541 section 5.2", "Bounded: every string of at most one octet after 0-3 octets of ones (thorough: two octets); longer strings are not covered, nor is the inverse on whole strings beyond the per-character rule of C05."),
}
NA = {
 "C32": "ion does not track flow-control windows at all (WINDOW_UPDATE increments are logged only), so the property is not implemented; bounding DATA by peer-granted windows is a runtime quantity with no code to analyse. Recorded as a known gap in DESIGN.md.",
 "C33": "Bounded service time is a quantitative scheduling property; no static argument in reach bounds the time a peer's input keeps the processing loop busy. C27 covers the static part (no blocking call).",
}
LATER = "not claimed yet"

def main():
    extra = json.load(open(os.path.join(HERE, "tools", "manifest_texts.json"))) if os.path.exists(os.path.join(HERE, "tools", "manifest_texts.json")) else {}
    T.update({k: tuple(v) for k, v in extra.items()})
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in CHECKS:
            tech, note = T[p]
            checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                           "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "other", "level_note": note + TRUST})
        else:
            na.append({"property": p, "reason": NA.get(p, LATER)})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "check.py parses every translation unit of /repo's working tree (tools/ionfacts), caches the facts by content hash in .cache, and runs the registered analyses of ion/checks."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")

main()
