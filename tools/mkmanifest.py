#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that are registered in sim/registry.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.registry import CHECKS  # noqa

NOT_APPLICABLE = {
    "P20": "a pure function of the schema text: no schedule, clock, I/O or second party takes part, so there is nothing for a simulator to vary",
    "P21": "acceptance of a schema is a pure function of its text; simulation has no fault or interleaving to inject (that a rejection leaves files alone is P14)",
}
TECH = {
    "P01": ("deterministic simulation of the generated C++ builder over a simulated disk with injected I/O faults, against an independent encoder", "exploration"),
    "P02": ("deterministic simulation of the generated C++ builder with crash injection at every operation and inside writes, then reopening", "fault_enumeration"),
    "P03": ("deterministic simulation of the Python builder over a simulated disk with injected I/O faults, against an independent encoder", "exploration"),
    "P04": ("deterministic simulation of the Python builder with crash injection at every operation and inside writes, then reopening and rerunning", "fault_enumeration"),
    "P05": ("deterministic simulation of opening C++ archives under seeded damage of the stored files and injected I/O errors, against a reference model", "exploration"),
    "P06": ("deterministic simulation of opening Python archives under seeded damage of the stored files and injected I/O errors, against a reference model", "exploration"),
    "P07": ("deterministic simulation: C++ writer threads under a seeded scheduler with a happens-before race detector, compared with the sequential archive", "exploration"),
    "P08": ("deterministic simulation: C++ reader threads under a seeded scheduler with a happens-before race detector, compared with the sequential result", "exploration"),
    "P09": ("deterministic simulation of C++ builder call sequences on existing archives with injected I/O errors, comparing every stored byte before and after", "exploration"),
    "P10": ("deterministic simulation of reading packed archives with seeded packing, damage and I/O faults, compared with reading the directory", "exploration"),
    "P11": ("deterministic simulation of interleaved C++ streaming with seeded slicing, element edits and short writes, against an independent encoder", "exploration"),
    "P12": ("deterministic simulation: several writer tool runs interleaved at every file operation by a seeded scheduler, killed and rerun, compared with one sequential run", "exploration"),
    "P13": ("deterministic simulation of generator processes with seeded hash randomisation, histories and environments, comparing outputs", "exploration"),
    "P14": ("deterministic simulation of the generator command over a simulated disk with injected I/O errors and kills", "exploration"),
    "P15": ("deterministic simulation of both builders over a simulated disk with short and interrupted writes, differential against each other and an independent encoder", "exploration"),
    "P16": ("deterministic simulation of reads interleaved with replacement, renaming and deletion of the files and with I/O errors", "exploration"),
    "P17": ("deterministic simulation with allocation failures injected at every allocation of a C++ builder or reader run", "fault_enumeration"),
    "P18": ("deterministic simulation of the inspector on seeded archives, places and damage with injected I/O errors, against the stored values", "exploration"),
    "P22": ("deterministic simulation of histories of accesses to an open archive with replaced and removed files, I/O errors, collected garbage and seeded content of fresh memory", "exploration"),
    "P23": ("deterministic simulation of the generated Rust builder over a simulated disk with injected I/O faults, against an independent encoder", "exploration"),
    "P24": ("deterministic simulation of the generated Rust builder with crash injection at every operation and inside writes, then reopening", "fault_enumeration"),
    "P25": ("deterministic simulation of opening Rust archives under seeded damage of the stored files and injected I/O errors, against a reference model", "exploration"),
    "P26": ("deterministic simulation of call sequences on Rust file and in-memory storages and of reading seeded TAR packings under damage and I/O faults, differential and against a model", "exploration"),
    "P27": ("deterministic simulation: Rust writer threads under a seeded scheduler with a happens-before race detector, compared with the sequential archive", "exploration"),
    "P28": ("deterministic simulation: Rust reader threads under a seeded scheduler with a happens-before race detector, against the stored values", "exploration"),
    "P29": ("deterministic simulation of interleaved Rust streaming and editing with seeded slicing and short writes, against an independent encoder", "exploration"),
    "P30": ("deterministic simulation of histories of looks at open C++ archives, their copies and iterators, with archives destroyed, files replaced and removed, throwing callbacks and I/O errors, against the stored values", "exploration"),
    "P31": ("deterministic simulation of histories of looks at open Rust archives, their clones and iterators, with archives dropped, files replaced and removed and I/O errors, against the stored values", "exploration"),
    "P32": ("deterministic simulation: Python threads under a seeded scheduler that hands over at lines or bytecode instructions of the library, with I/O errors, against the stored values and the complete files", "exploration"),
    "P33": ("deterministic simulation of Rust build scripts: the real flatdata::generate() with generator, interpreter and installer processes failing or killed as planned, I/O errors and obstacles, against the complete outputs", "exploration"),
    "P19": ("deterministic simulation of one operation sequence on the in-memory and on the file storage, comparing every result", "exploration"),
}
NOTE = {}


def main():
    checks, na = [], []
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    for p in props:
        if p in CHECKS:
            cls_note = __import__("sim.notes", fromlist=["NOTES"]).NOTES.get(p)
            tech, level = TECH[p]
            checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p,
                           "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level,
                           "level_note": cls_note})
        elif p in NOT_APPLICABLE:
            na.append({"property": p, "reason": NOT_APPLICABLE[p]})
        else:
            na.append({"property": p, "reason": "no check has been built for it yet"})
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
