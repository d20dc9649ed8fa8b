#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the rules that exist and from the list of properties not decided statically."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "analysis"))
NA = {
    "C28": "Equality of a value with what is read back quantifies over the arithmetic of dates, decimals, floats and encodings for every value; no sound "
           "static argument in reach decides it. The structural half (layout written = layout read) is C17.",
    "C29": "Quantifies over multi-threaded schedules: the count and the push that starts a connection are two separate atomic operations, so the bound "
           "depends on run-time interleavings; a per-path static argument cannot bound it. The per-path half is C05.",
    "C23": "Absence of panics for every byte sequence needs a bound on every index, slice, subtraction, shift and time conversion whose operands the "
           "server chooses, many of them related only across columns and calls (offsets against nested rows, precision and scale against powers "
           "of ten, time stamps against the calendar); in this code most of those bounds are not established where they are used, so a sound "
           "analysis reports sites nobody can act on and a quiet one would decide nothing. What is decided of it: raw reads (C24), incomplete "
           "packets (C13), compressed frames (C12, C14), and the repaired sites in known_findings.txt.",
}
TECH = {}
def main():
    import importlib
    checks, na = [], []
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(l)
        pid = d["id"]
        p = os.path.join(VERIF, "analysis", "rules", pid.lower() + ".py")
        if os.path.exists(p) and pid not in NA:
            m = importlib.import_module("rules." + pid.lower())
            checks.append({"property": pid,
                           "quick_cmd": "python3 analysis/run.py %s" % pid,
                           "thorough_cmd": "VERIF_TIER=thorough python3 analysis/run.py %s" % pid,
                           "evidence_file": "evidence/%s.json" % pid,
                           "technique": getattr(m, "TECHNIQUE", "path-sensitive typestate/dataflow analysis over MIR"),
                           "level": "other",
                           "level_note": m.RULE})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "not decided yet")})
    out = {"version": 1, "setup_cmd": "python3 analysis/run.py setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")
main()
