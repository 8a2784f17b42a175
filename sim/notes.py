"""What each check assures and what it trusts (MANIFEST level_note)."""
_SEARCH = "Seeded search, not a proof: the assurance is the runs listed in the evidence. "
_CRASH = ("Process-crash model: bytes a write call accepted survive; the code never syncs, so power loss is outside. ")
NOTES = {
    "P03": _SEARCH + "Real Python library, generator and CPython I/O; simulated file-system calls. Schema texts are taken from the generated classes, payloads from an independent bit-level encoder.",
    "P04": _SEARCH + _CRASH + "Every file operation and several byte positions inside each write of each workload are crash points; workloads are seeded.",
    "P01": _SEARCH + "Real generated C++ code and library, compiled with AddressSanitizer and library assertions, on simulated file-system calls; expectations from an independent bit-level encoder.",
    "P02": _SEARCH + _CRASH + "Every operation and many byte positions inside each write of each workload are crash points; workloads are seeded.",
    "P05": _SEARCH + "Damage is applied to the stored files; an independent decoder of these files says what must be shown. I/O errors are injected at every stat, open and mmap of the open.",
    "P09": _SEARCH + "Every byte of the existing archive is compared before and after; the injected errors concentrate on the existence checks.",
    "P11": _SEARCH + "Real generated C++ code; seeded slicing and interleaving of several streams, element edits through every accessor, lengths beyond the 32 MB buffers, short and interrupted writes; expected bytes from an independent encoder.",
    "P17": _SEARCH + "Every allocation (operator new, below the given size class) of each workload fails once, and seeded combinations; AddressSanitizer and library assertions watch for crashes. Allocations made by libc and boost through malloc directly are not failed.",
    "P19": _SEARCH + "Both storages are real code; what is written twice, or read while it is written, is left out because the storages may differ there by design.",
    "P23": _SEARCH + "Real generated Rust code and library (overflow checks and debug assertions on); simulated file-system calls; expectations from an independent bit-level encoder.",
    "P24": _SEARCH + _CRASH + "Every operation and many byte positions inside each write of each workload are crash points; workloads are seeded.",
    "P25": _SEARCH + "Damage is applied to the stored files; an independent decoder of these files says what must be shown. I/O errors are injected at every stat, open and mmap of the open. One known finding (panic on a too small instance resource) is recorded.",
    "P26": _SEARCH + "Both kinds of storages are real code; TAR files come from an own packer. What is written again after it was read is left out: a storage object keeps what it read.",
    "P27": _SEARCH + "Real generated Rust code and library, instrumented by the nightly compiler; the precompiled parts of std run between two scheduling points. Threads run one at a time as the seeded scheduler decides at every memory access, atomic, futex wait and file operation; a vector-clock detector reports races, stale accesses show because neither heap nor mappings are reused; a reference model judges answers and files.",
    "P28": _SEARCH + "Real generated Rust code and library, instrumented by the nightly compiler; the precompiled parts of std run between two scheduling points. Threads run one at a time as the seeded scheduler decides at every memory access, atomic, futex wait and file operation; a vector-clock detector reports races, stale accesses show because neither heap nor mappings are reused; a reference model judges answers.",
    "P29": _SEARCH + "Real generated Rust code and library (overflow checks and debug assertions on); the model follows every call, an independent bit-level encoder gives the stored bytes.",
    "P06": _SEARCH + "Damage is applied to the stored files; an independent decoder of these files says what must be shown or which documented error is due. I/O errors are injected at every stat, open and mmap of the open.",
    "P15": _SEARCH + "Both libraries and both code generators are real; short and interrupted writes on both sides; an independent bit-level encoder arbitrates.",
    "P10": _SEARCH + "TAR files come from an own packer (ustar, GNU long names, base-256 sizes, prefixes, any member order); the C++ and Python storages and the inspector are real, and compared with the directory the TAR was made from.",
    "P16": _SEARCH + "Replacements, removals and later I/O errors are interleaved with reads of the open archive by the seeded scheduler; expectations are the values at opening.",
    "P22": _SEARCH + "Real Python reader, numpy and pandas; the only stand-in is numpy.empty as the reader sees it, which hands out memory with seeded content. Expectations come from the stored values.",
    "P30": _SEARCH + "Real generated C++ code and library, compiled with AddressSanitizer and library assertions; expectations are lists of the stored values. Looks outside a view, and at views of which no archive is left, are undefined and not made.",
    "P33": _SEARCH + "Real generate(), walkdir and process start; the processes it starts are a stand-in which follows the plan of the run (in some runs the real generator). File-system calls of generate() itself are interposed, not those of the processes. The exit status of the installers is not part of the answer: generate() finds out when what they should have installed cannot be started.",
    "P32": _SEARCH + "Real threads of the real interpreter, of which one runs at a time: a trace function hands over at the lines or bytecode instructions of flatdata-py and the generated classes the plan of the run names, so the run and its replay are exact. What pandas, numpy and the interpreter do inside one call is not interleaved. Unfinished iterations belong to one thread, and one builder is used by one thread: nothing is promised for sharing these.",
    "P31": _SEARCH + "Real generated Rust code and library, with overflow checks and debug assertions; expectations are lists of the stored values, including the exact Debug texts. Views of which no archive object is left cannot exist in safe Rust and are not looked at.",
    "P18": _SEARCH + "Real inspector, parser and Python generator working on the stored schema; an independent decoder of the stored files says what may be shown.",
    "P12": _SEARCH + "Every invocation is a real process (fork of an interpreter with the library loaded), suspended before each file-system call until the seeded scheduler lets it go on; kills land before a call or inside a write. Parsing and rendering of the schema happen once per text.",
    "P14": _SEARCH + "Every run is a real process (fork of an interpreter with the generator loaded), suspended before each file-system call until the seeded scheduler lets it go on. The expected output is the engine's in a fault-free process; what the engine itself should accept or refuse is only checked for a list of broken schemas.",
    "P13": _SEARCH + "Interpreters with seeded hash seed, locale, optimisation, clock and host name run seeded histories; threads are interleaved line by line by a trace hook. Every product is compared with the one of a fresh process with hash seed 0.",
    "P07": _SEARCH + "Real library code, instrumented; threads run one at a time as the seeded scheduler decides at every memory access, lock and file operation. Accesses are simulated as sequentially consistent; unordered accesses are reported as races by a vector-clock detector. A reference model judges answers and files.",
    "P08": _SEARCH + "Real library code, instrumented, with and without data access statistics; threads run one at a time as the seeded scheduler decides. A vector-clock detector reports races, stale accesses show because nothing is reused; values are judged by a reference model, statistics by a sequential execution.",
}
