#!/usr/bin/env python3
"""Writes known_findings.json: the genuine defects found (and fixed) by the checks.  Fixed entries suppress nothing."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
P03 fd64d50 empty vectors and raw data written by Python came back as None (also P15)
P03 257a14f unaligned 64 bit fields read with bits of the following field in Python (also P15)
P04 1918030 a file cut or grown behind its size header, and element sizes which do not divide it, opened silently in Python (also P06)
P04 60edf90 empty files and undecodable schemas raised undocumented errors (also P06)
P04 198acd5 an optional resource whose data file is missing kept the whole archive from opening in Python (also P06)
P06 91665cb I/O errors of the Python file storage made resources look absent
P06 79d23ed the schema of multivector indexes was not checked when Python opened an archive
P12 272055e concurrent Python writers failed on creating the archive directory
P03 5335f30 the buffered data of a failed write reached the file later, when the file object was collected
P18 0ffe565 archives in nested or in several namespaces could not be found in the rendered module (also P12)
P18 55705ad the inspector failed on a file name without directory
P10 6767d3f the inspector could not read the schema of archives in TAR files (also P18)
P10 ab39c81 sub-archives were not found in TAR files without directory members in Python
P13 bd1f86b fields of Python structures were presented in alphabetical instead of schema order, data frames included
P03 9871d2e repeating a multivector after a write error was refused or left its index stale in Python
P03 7e95a1c raw data given as a list or memoryview was silently dropped by the Python writer (also P12)
P11 4391cfb optional values could not be assigned to optional fields in C++ (also P01)
P01 84f80d3 opening a builder without storage crashed
P02 cc9e3c0 streamed resources cut off by a crash looked like complete empty ones
P01 b5a3eee storages which provide no output stream crashed the C++ writers
P09 e767f3d existing archives were taken for missing, and overwritten, when their status was unavailable
P07 b987a2e memory storages of one archive and its sub-archives guarded shared data with different mutexes
P17 a7f69ba the C++ memory storage lost a stream when reading it ran out of memory
P19 9041623 created directories did not exist in the C++ memory storage while empty
P01 9da4827 closing a C++ vector twice crashed (also P11)
P11 bf3a381 negative enumeration values overwrote the neighbouring fields in C++ (also P15)
P05 d00e1c9 describing C++ archives with a different schema read out of bounds
P01 a704d86 writing empty arrays of range structs read past their data and wrote a wrong size
P10 3e78980 entries larger than the TAR file made the C++ TAR reader wrap around
P10 afe31d8 the name prefix of POSIX TAR entries was ignored in C++
P05 f0a267c instance resources too small for their structure were opened in C++
P15 bf94dd5 structures with signed enumerations of full width did not compile in C++
P11 fec50df new elements of C++ vectors contained the values of removed ones
P17 7c5b44c repeating a failed close of a C++ multivector added an empty bucket
P10 31191ec long names of TAR directories were given to the next file in C++
P18 ad4fd36 schemas with nested namespace blocks, as stored in archives, could not be parsed
P18 f7c7337 the inspector took an unreadable directory for a file and opened its parent
P14 8618c3a concurrent runs of the generator failed on creating their common output directory
P13 3938329 the generator depended on the locale when reading schemas and writing code
P04 dbffb33 a crash while overwriting an archive of another schema version presented the old data with the new schema
P23 82374e1 fields of more than 57 bits at unaligned positions behind the first byte were read and written wrongly in Rust
P24 3226bd9 unfinished streamed resources in Rust looked like empty ones
P23 4068a23 Rust file storage took I/O errors for missing resources and overwrote existing archives
P26 47a7d25 a resource written twice to the Rust memory storage could not be read
P26 ffaee73 truncated TAR files made the Rust TAR storage panic
P28 028a551 Rust file storage: threads reading a resource for the first time mapped it several times and dropped mappings already handed out (also P27)
P28 c3358b3 Rust memory storage: threads reading a resource for the first time replaced data already handed out, and printing the storage could deadlock with readers (also P27)
P10 d228544 C++ TAR reader showed the first of several members with one name, Python and Rust the last
P22 42a078c Python vector slices: limited arrays and data frames, and descriptions of short slices, showed uninitialised rows, those of long slices raised
P22 c654338 Python multivectors gave an empty element for the index -1 and wrong ones for others below zero
P22 5726c6e Python raw data: negative indices showed the size header, open-ended slices the padding, slices without a start raised and iterating did not end
P23 c9738ed schema comments with lines not starting with an asterisk (or starting with //!) became code in the generated Rust module, which did not compile
P30 da484a9 C++ array views: the distance from an iterator to an earlier one was a huge positive number
P33 d350ab0 Rust generate() placed outputs at the wrong path, and answered Ok, when the status of the schema folder was unavailable
P33 7136c58 Rust generate() ran the generator for directories with the extension flatdata
"""
# genuine defects which are recorded and not repaired: property, match (a substring of the violation message), what
FINDINGS = [
    {"property": "P25",
     "match": "short-instance-panic: opening an archive with an instance resource smaller than its structure panics: panic assertion `left == right` failed",
     "what": "opening an archive in Rust panics instead of answering UnexpectedDataSize when an instance resource is intact but smaller than its "
             "structure: generated from_bytes_slice contains assert_eq!(data.len(), N). The generated text is fixed by the expectation files of the "
             "generator's tests, so it cannot be repaired without editing them"},
]


def main():
    d = {"findings": FINDINGS, "fixed": []}
    for l in FIXED.strip().splitlines():
        p, c, what = l.split(" ", 2)
        d["fixed"].append("fixed: property=%s %s %s" % (p, c, what))
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


main()
