#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "cpp-checkpointed-size": "workloads with streams beyond the 32 MB buffers were added to crashes and faults",
    "cpp-remap-files": "several storages and archives opened over the same path while files change were added",
    "generator-unordered-constants": "schemas with constants nothing refers to were added",
    "cpp-statistics-lost-bits": "threads read every n-th element instead of everything, and nothing reads all afterwards",
    "rust-tar-first-wins": "several members with one name were added to the Rust TAR runs",
    "rust-memory-seek-clamped": "streams that seek behind their end were added to the storage comparison",
    "py-frame-cache": "nearly the same look again (another column set, another range) was added",
    "py-iterator-one-element": "elements kept while iterating are looked at again later",
}


def main():
    rows = ["| bug | caught by | breaks | needs | missed first |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        i = os.path.basename(d)
        rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], MISSED.get(i, "")))
    p = os.path.join(ROOT, "DESIGN.md")
    t = open(p).read()
    a, b = "<!-- seeds -->", "<!-- /seeds -->"
    if a not in t:
        t = t.replace("%SEEDS%", a + b)
    t = t[:t.index(a)] + a + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
    open(p, "w").write(t)


main()
