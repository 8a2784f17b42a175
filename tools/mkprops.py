#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
CI, PY, GE = "flatdata-cpp/include/flatdata/", "flatdata-py/flatdata/lib/", "flatdata-generator/flatdata/generator/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "C++: a write reported as successful is complete, a failed one is reported",
     "When the C++ archive builder reports success - the archive was created, a resource was set, a streamed vector or "
     "multivector was closed with a valid view - the storage holds exactly the values written and a fresh open of the "
     "archive returns them, bit for bit, for every schema and value. When disk errors, a full disk, failing opens or a "
     "storage that cannot provide an output stream kept the data from being stored, that same call reports failure (false, "
     "an invalid view, a builder that is not open, or an exception) and nothing crashes. Short writes and interrupted "
     "calls on their own never lead to a failure or to wrong data.",
     ["fault_sequences", "inputs"],
     "for every schema, every value and every sequence of I/O faults hitting any of the operations of writing it",
     "The unit tests write to healthy storages; no test makes an open, a write or a flush fail, and none can try every "
     "operation with every kind of error.",
     ["flatdata-cpp/src/ResourceStorage.cpp", CI + "internal/ResourceStorage.inl", CI + "internal/ResourceHandle.h",
      CI + "ExternalVector.h", CI + "MultiVector.h", CI + "FileResourceStorage.h", "flatdata-cpp/src/ArchiveBuilder.cpp",
      CI + "internal/Writer.h", GE + "templates/cpp/archive.jinja2", GE + "templates/cpp/structure.jinja2"],
     [("stream state is checked after flushing, before success is returned", "flatdata-cpp/src/ResourceStorage.cpp: write_to_stream"),
      ("close() rereads what was written through the storage", CI + "internal/ResourceHandle.h: close")],
     ["return values of builder calls", "files below the storage directory", "a fresh open of the archive"])

prop("P02", "C++: a crash while writing leaves every resource whole or absent",
     "If a process writing an archive with the C++ builder stops at any instant, even in the middle of a single write to "
     "disk, then a later open sees each resource either with exactly the values that were being written or as not "
     "available, never partial or different content. Every resource whose write had been reported as successful before "
     "the stop is available, and the archive reports itself open exactly when its signature and all of its mandatory "
     "resources are available.",
     ["crash_points", "inputs"],
     "for every schema, every value, every operation boundary and every byte position inside every write",
     "The unit tests never stop a writer half way; the crash points are every byte of every write and the tests reopen only "
     "completed archives.",
     [CI + "internal/ResourceHandle.h", CI + "internal/ResourceStorage.inl", "flatdata-cpp/src/ResourceStorage.cpp",
      "flatdata-cpp/src/ArchiveBuilder.cpp", "flatdata-cpp/src/Archive.cpp", CI + "Archive.h", CI + "FileResourceStorage.h"],
     [("size header compared with the file length, and schema text compared, on every read",
       CI + "internal/ResourceStorage.inl: read_and_check_schema"),
      ("schema written after the data of a resource set at once", "flatdata-cpp/src/ResourceStorage.cpp: write_to_stream")],
     ["a fresh open of the archive after the stop"])

prop("P03", "Python writer: success means stored, a failure is raised",
     "When creating a Python archive builder or setting one of its resources returns normally, the archive directory holds "
     "exactly the bytes of the values given, and opening the archive with the Python reader returns these values, for every "
     "schema and value. When an I/O error kept data from being stored, the call raises, and after any such failure the "
     "archive never presents content for a resource that differs from what was asked to be written: the resource is either "
     "complete or reported as missing or corrupt, and repeating the failed call once the errors have stopped succeeds. A "
     "resource that was set keeps its content: setting it again is refused.",
     ["fault_sequences", "inputs"],
     "for every schema, every value and every sequence of I/O faults hitting any of the operations of writing it",
     "The tests write a few small archives on a healthy disk; they never make a mkdir, open, write or close fail.",
     [PY + "archive_builder.py", PY + "resource_storage.py", PY + "file_resource_writer.py", PY + "data_access.py",
      PY + "flatdata_writer.py", PY + "resources.py", PY + "archive.py", GE + "templates/py/python.jinja2"],
     [("size header and padding are added before the buffered data is written in one go", PY + "resource_storage.py: add_size, close")],
     ["exceptions from the builder", "files below the archive directory", "a fresh open with the Python reader"])

prop("P04", "Python writer: a crash leaves every resource whole or recognisably damaged",
     "If a Python process writing an archive stops at any instant, even in the middle of a single write to disk, then each "
     "resource that a later open with the Python reader makes available has exactly the values that were being written, or "
     "those of the archive of the same schema it replaces; anything else is reported as a missing or corrupt resource or a schema mismatch, or as an absent optional resource. "
     "Every resource whose write had returned before the stop is intact, and writing the archive again from the start "
     "after the crash yields a complete archive.",
     ["crash_points", "inputs"],
     "for every schema, every value, every operation boundary and every byte position inside every write",
     "No test interrupts the writer; partial files are never opened.",
     [PY + "archive_builder.py", PY + "resource_storage.py", PY + "file_resource_writer.py", PY + "resources.py", PY + "archive.py"],
     [("resource size and padding checks on open", PY + "resources.py"), ("schema check on open", PY + "archive.py")],
     ["a fresh open with the Python reader after the stop"])

prop("P05", "C++ reader: damaged, mismatching or unreadable archives are detected on open",
     "A C++ archive reports itself open only if its signature and every mandatory resource, including those of mandatory "
     "sub-archives, exist with exactly the schema text the program was generated for and with a size header that agrees with "
     "the file length and, where references limit it, only resources (optional ones included) within that limit; a multivector needs this for both its "
     "data and its index, and an optional resource failing it is reported absent while everything else stays readable. I/O "
     "errors while opening lead to the same outcomes, never to a crash or to other values than the stored ones, and opening again "
     "after the errors stop succeeds. Describing an archive, opened or not, never crashes.",
     ["fault_sequences", "inputs"],
     "for every archive, every combination of damaged, lost, truncated, extended or foreign files and every I/O error while opening",
     "The tests damage a handful of archives by hand and never inject an error into stat, open or mmap.",
     [CI + "internal/ResourceStorage.inl", "flatdata-cpp/src/Archive.cpp", CI + "Archive.h", CI + "FileResourceStorage.h",
      CI + "MemoryMappedFileStorage.h", GE + "templates/cpp/archive.jinja2"],
     [("size and schema check", CI + "internal/ResourceStorage.inl: read_and_check_schema"),
      ("open state accumulated over mandatory resources", CI + "Archive.h: read_resource, load_archive")],
     ["is_open, resource accessors and describe of a freshly opened archive"])

prop("P06", "Python reader: damaged, mismatching or unreadable archives are detected on open",
     "Opening an archive with the Python reader raises one of the library's documented errors (missing resource, corrupt "
     "resource or archive, schema mismatch) when the signature or a mandatory resource is missing, has a schema text that "
     "differs in any way, or has a size header that disagrees with the file length or with the element size; multivector "
     "indexes are held to the same rules. An optional resource whose files are missing is absent, and a damaged optional resource is reported like a mandatory one. An I/O error while opening is "
     "raised, never turned into other values than the stored ones, and opening again after the errors stop succeeds.",
     ["fault_sequences", "inputs"],
     "for every archive, every combination of damaged, lost, truncated, extended or foreign files and every I/O error while opening",
     "The tests cover one or two hand-made corruptions on an in-memory storage and no I/O errors.",
     [PY + "archive.py", PY + "resources.py", PY + "file_resource_storage.py", PY + "errors.py"],
     [("minimum size check", PY + "resources.py: ResourceBase"), ("schema comparison", PY + "archive.py: _check_non_subarchive_schema")],
     ["exceptions and resource contents of a freshly opened archive"])

prop("P07", "C++: concurrent writers of different resources behave as if they ran one by one",
     "Threads that write different resources of one C++ archive - at once or streamed, in the archive itself or in its "
     "sub-archives, on file or in-memory storage - produce, under every interleaving, the archive that writing the "
     "resources one after the other produces, each write reports success and its returned view shows the written values. "
     "No interleaving has a data race, deadlocks, or crashes.",
     ["schedules", "inputs"],
     "for every set of resources assigned to threads and every interleaving of the threads' memory and I/O operations",
     "No test writes from more than one thread; the storages' locks are never contended.",
     [CI + "FileResourceStorage.h", CI + "MemoryResourceStorage.h", CI + "MemoryMappedFileStorage.h",
      CI + "internal/ResourceStorage.inl", CI + "DebugDataAccessStatistics.h"],
     [("storage mutex", CI + "FileResourceStorage.h: m_storage_mutex"), ("storage mutex", CI + "MemoryResourceStorage.h: m_storage_mutex")],
     ["results of the writers, the final files, races reported by the simulator"])

prop("P08", "C++: concurrent readers see the same data as a single reader",
     "Threads that concurrently open archives over one shared C++ storage (directory, TAR file or memory) and read their "
     "resources see, under every interleaving, exactly the stored values, with no data race, deadlock or crash; this also holds "
     "when the build collects data access statistics, whose counts then equal those of some sequential execution.",
     ["schedules", "inputs"],
     "for every archive, every number of readers and every interleaving of their memory operations",
     "Only one test reads from a single thread; nothing controls the interleaving of lazily filled caches or statistics.",
     [CI + "FileResourceStorage.h", CI + "MemoryResourceStorage.h", CI + "MemoryMappedFileStorage.h",
      CI + "MemoryMappedTarFileStorage.h", CI + "DebugDataAccessStatistics.h"],
     [("storage mutex guards the mapping cache", CI + "FileResourceStorage.h: read_resource"),
      ("shared lock around statistics", CI + "DebugDataAccessStatistics.h: read")],
     ["values read by every thread, races reported by the simulator"])

prop("P09", "C++: a builder never modifies an archive that already exists",
     "A C++ builder opened on a storage that already holds the archive changes no existing file or stored resource: every "
     "attempt to set or start a resource is rejected with an exception, and only sub-archives that do not exist yet may be "
     "created. This holds for every sequence of builder calls and whatever I/O errors hit the checks that look for the existing "
     "archive.",
     ["histories", "fault_sequences"],
     "for every sequence of builder calls on an existing archive and every I/O error while it is opened",
     "One test checks one rejected write; no test makes the existence check itself fail.",
     ["flatdata-cpp/src/ArchiveBuilder.cpp", CI + "FileResourceStorage.h", CI + "MemoryResourceStorage.h", GE + "templates/cpp/archive.jinja2"],
     [("existence check decides whether the builder may write", "flatdata-cpp/src/ArchiveBuilder.cpp: initialize"),
      ("every setter checks it first", GE + "templates/cpp/archive.jinja2: check_created")],
     ["exceptions from the builder", "bytes of every pre-existing file"])

prop("P10", "Reading a TAR file equals reading the directory it was made from",
     "For every archive packed into an uncompressed TAR file, with members in any order, with or without directory members and "
     "a leading './', with GNU long names and base-256 sizes, also when updated by appending newer members (the last one of a name counts), the C++ and the Python TAR storages and the Python inspector give "
     "exactly what they give for the original directory, sub-archives included. A truncated or corrupted TAR "
     "file, or an I/O error while reading it, is reported as an error or as missing or damaged resources; it never causes a crash, a hang or content "
     "that is not in the file.",
     ["inputs", "fault_sequences"],
     "for every archive, every valid packing of it, every damage to the TAR file and every I/O error while opening it",
     "The tests open a few small TAR files produced by one tool with one layout.",
     ["flatdata-cpp/src/TarReader.cpp", CI + "MemoryMappedTarFileStorage.h", CI + "TarArchiveResourceStorage.h",
      PY + "tar_archive_resource_storage.py", PY + "inspector.py"],
     [("header checksum and size decoding", "flatdata-cpp/src/TarReader.cpp"), ("offset table", PY + "tar_archive_resource_storage.py: create")],
     ["archive contents read through both storages"])

prop("P11", "C++: streaming gives the same data however the writes are sliced and buffered",
     "Data streamed element by element into C++ vectors and multivectors - interleaved over several resources, of any length "
     "including beyond the internal buffers, with elements modified until the next one is added and the disk accepting any "
     "part of each write - is stored and returned exactly as if it had been given at once in the order it was added. Every "
     "element has the values last assigned to its fields and assigning one field never changes another.",
     ["histories", "inputs", "fault_sequences"],
     "for every sequence of add, assign, close and set operations over several resources and every split of the resulting writes",
     "The tests stream a few elements; almost none crosses a buffer boundary and none interleaves resources or splits writes.",
     [CI + "ExternalVector.h", CI + "MultiVector.h", CI + "internal/ResourceHandle.h", CI + "internal/Writer.h", CI + "Vector.h", CI + "Struct.h"],
     [("buffer flushed when it exceeds a threshold", CI + "ExternalVector.h: grow"), ("index counts flushed bytes", CI + "MultiVector.h: add_to_index")],
     ["the stored files and the views returned by close"])

prop("P12", "Separate writer processes converge on one archive despite crashes and reruns",
     "When the resources of one archive are written by separate invocations of the Python writer tool, running one after "
     "the other or concurrently in any interleaving, with any invocation killed at any point and run again, then once the "
     "last invocation for each resource has succeeded the archive is byte for byte the one written by a single process. An invocation that reports "
     "success has its resource completely stored, and none fails because of what the others are doing.",
     ["schedules", "crash_points"],
     "for every assignment of resources to invocations, every interleaving of their I/O operations, every kill point and every rerun",
     "The tests call the writer once, in one process, on a fresh directory.",
     [PY + "writer.py", PY + "flatdata_writer.py", PY + "archive_builder.py", PY + "resource_storage.py", PY + "file_resource_writer.py"],
     [("archive directory created on demand", PY + "file_resource_writer.py: open"), ("each invocation rewrites signature and schema", PY + "archive_builder.py")],
     ["exit status of every invocation and the final directory"])

prop("P13", "Generated code depends on the schema alone",
     "The output of the generator for a schema and target language, and the behaviour of the Python classes generated from it "
     "including the order of fields and resources they present, are identical in every run: independent of hash randomisation, of "
     "what else the process generated before, of repeated or concurrent use of the same schema, and of the environment.",
     ["configurations", "histories"],
     "for every schema, every target, every hash seed and every history of earlier generations in the same process",
     "The tests compare selected lines of output in one process under one fixed hash seed.",
     [GE + "engine.py", GE + "generators/__init__.py", GE + "tree/builder.py", GE + "tree/syntax_tree.py", GE + "templates", PY + "structure.py"],
     [("ordered tree traversal", GE + "tree/syntax_tree.py"), ("field tables in generated classes", GE + "templates/py/python.jinja2")],
     ["generated text and introspection of generated modules"])

prop("P14", "Generator tool: success means complete output, failure leaves files alone",
     "The generator command exits successfully only if the output file then holds the complete generated code. An invalid schema, an unknown target or an "
     "unreadable schema file makes it exit with an error and leaves an existing output file untouched and creates no new one; an I/O error while writing makes it exit with an "
     "error, and running it again after the errors stop produces the complete output whatever an earlier failed or killed run left behind. Runs that write different outputs at the same time do not make each other fail or touch each other's output.",
     ["fault_sequences", "crash_points", "schedules", "inputs"],
     "for every schema, valid or not, every I/O error or kill point during the run, every interleaving with other runs and every left-over of earlier runs",
     "The tests call the engine as a library; the command itself and its output file are never exercised under faults.",
     [GE + "app.py", GE + "engine.py"],
     [("code is rendered completely before the output is opened", GE + "app.py: _run")],
     ["exit status and output file"])

prop("P15", "C++ and Python produce and read the same archives",
     "For every schema without sub-archives and every value, the C++ builder and the Python builder write byte-identical archives, in whatever order the resources are "
     "written and however the disk splits or interrupts the writes. For every schema, an archive written by the C++ builder and read with the Python reader, or "
     "written by the Python builder and read with the C++ reader, returns exactly the values written.",
     ["programs", "inputs", "fault_sequences"],
     "for every schema, every value, every order of writing and every benign I/O disturbance",
     "Each language's tests use their own fixed archives and mostly byte strings pasted by hand; no test writes with one and reads with the other.",
     [CI + "internal/Writer.h", CI + "internal/Reader.h", PY + "data_access.py", PY + "archive_builder.py", PY + "resources.py",
      GE + "templates/py/python.jinja2", GE + "templates/cpp/structure.jinja2", GE + "templates/cpp/archive.jinja2"],
     [("field offsets and widths computed once by the generator", GE + "tree/nodes/trivial/structure.py")],
     ["archive files and values read back in the other language"])

prop("P16", "An open archive is a stable snapshot",
     "Once a C++ or Python archive has been opened, its content does not change and stays readable while its files are deleted, "
     "renamed away or replaced by other versions, at any moment and in any interleaving with reads, and whatever errors later file operations would hit. Opening and reading an archive never "
     "creates or modifies a file.",
     ["schedules", "fault_sequences"],
     "for every archive, every interleaving of replacements with reads and every I/O error after the open",
     "The tests read archives nobody touches while they are open.",
     [CI + "MemoryMappedFileStorage.h", CI + "Archive.h", PY + "archive.py", PY + "file_resource_storage.py", CI + "MemoryMappedTarFileStorage.h"],
     [("resources are mapped when the archive is opened", CI + "Archive.h: initialize"), ("resources are preloaded", PY + "archive.py: Archive")],
     ["values read through an archive opened before the replacement"])

prop("P17", "C++: running out of memory is reported and leaves the data consistent",
     "If any memory allocation fails while a C++ archive is written or opened, the operation throws or reports failure, never "
     "crashes, and never reports success for data that is not stored. Elements added to a streamed vector or multivector "
     "before a failed addition are unaffected, and adding may go on and be completed once memory is available again.",
     ["fault_sequences", "inputs"],
     "for every schema, every value and every allocation at which memory runs out",
     "No test makes an allocation fail.",
     [CI + "ExternalVector.h", CI + "MultiVector.h", CI + "MemoryResourceStorage.h", CI + "MemoryMappedFileStorage.h",
      CI + "internal/ResourceStorage.inl", "flatdata-cpp/src/ResourceStorage.cpp"],
     [("buffers are grown before counters change", CI + "ExternalVector.h: grow")],
     ["exceptions and return values, and a fresh open"])

prop("P18", "An archive can be opened from the schema it carries",
     "The Python inspector opens every archive written by the C++ or Python builder, from its directory, from any file in it or "
     "from a TAR file, using only the schema stored inside it, and shows exactly the stored values; with several archives in one place it opens the one "
     "that was asked for. When the stored schema or the signature is missing, damaged or unreadable, a resource is never shown with other than its stored values, and what cannot be opened raises an error.",
     ["programs", "inputs", "fault_sequences"],
     "for every schema and value, every placement of archives, every damage to the stored schema and every I/O error",
     "The tests open one archive with one simple schema.",
     [PY + "inspector.py", GE + "engine.py", GE + "generators/flatdata.py", GE + "templates/flatdata", PY + "archive.py"],
     [("archive schema stored next to the signature", "flatdata-cpp/src/ArchiveBuilder.cpp: initialize"), ("bindings generated on the fly", GE + "engine.py: render_python_module")],
     ["the archive object returned by the inspector"])

prop("P19", "C++: in-memory and file storage are interchangeable",
     "Every sequence of builder, reader and storage operations that writes each resource once and reads it only when it is not being written gives the same "
     "results on the in-memory storage and on the file storage of the C++ library: the same successes and failures, the same stored bytes for every resource and the same values on reopening.",
     ["histories", "inputs"],
     "for every schema, every value and every sequence of create, set, stream, close, open, exists and sub-archive operations",
     "The tests run different scenarios on the two storages and compare them only by example.",
     [CI + "MemoryResourceStorage.h", CI + "FileResourceStorage.h", CI + "ResourceStorage.h", CI + "internal/ResourceStorage.inl"],
     [("common logic sits above two primitive operations", CI + "ResourceStorage.h: create_output_stream, read_resource")],
     ["results of the operations on both storages"])

# ---- stated, but decided by nothing that simulation could vary: see DESIGN.md, not_applicable
RS = "flatdata-rs/lib/src/"
prop("P23", "Rust: success means stored, a failure is reported, existing archives stay",
     "When the Rust archive builder reports success - a builder was created, a resource was set, a streamed vector or "
     "multivector was closed - the archive directory holds exactly the bytes of the values given, identical to what the C++ and "
     "Python libraries store, for every schema and value (every field width and offset, enumerations, ranges, sub-archives). When disk "
     "errors, a full disk or failing opens kept the data from being stored, that same call returns an error and nothing panics. "
     "Creating a builder for an archive that exists is refused, also while I/O errors happen, and changes nothing.",
     ["fault_sequences", "inputs"],
     "for every schema, every value and every sequence of I/O faults hitting any of the operations of writing it",
     "The Rust tests write fixed small archives to memory; none makes a call of the file system fail, and field layouts are sampled only at offsets "
     "within the first byte.",
     [RS + "storage.rs", RS + "filestorage.rs", RS + "vector.rs", RS + "multivector.rs", RS + "bytewriter.rs", RS + "bytereader.rs",
      GE + "templates/rust/archive.jinja2", GE + "templates/rust/structure.jinja2"],
     [("errors of every write are returned, close() reads the resource back", RS + "storage.rs: ResourceHandle"),
      ("the signature of an existing archive is looked for before anything is written", RS + "storage.rs: create_archive")],
     ["results of builder calls", "files below the archive directory", "a fresh open of the archive"])

prop("P24", "Rust: a crash while writing leaves every resource whole or absent",
     "If a process writing an archive with the Rust builder stops at any instant, even in the middle of a single write to disk, "
     "then a later open either fails with an error or shows each resource with exactly the values that were being written, optional ones possibly "
     "as absent - never partial, empty or other content. If everything had been reported as written before the stop, the "
     "archive opens and shows all of it.",
     ["crash_points", "inputs"],
     "for every schema, every value, every operation boundary and every byte position inside every write",
     "The Rust tests never stop a writer half way and reopen only completed archives.",
     [RS + "storage.rs", RS + "vector.rs", RS + "multivector.rs", RS + "filestorage.rs", GE + "templates/rust/archive.jinja2"],
     [("an impossible size stands in the header until the stream is closed", RS + "storage.rs: ResourceHandle::try_new"),
      ("size header compared with the file length, schema text compared", RS + "storage.rs: read_and_check_schema")],
     ["a fresh open of the archive after the stop"])

prop("P25", "Rust: opening detects missing, damaged and foreign data",
     "Opening an archive with the Rust library answers with an error - never a panic, a crash or wrong content - when the signature or a mandatory resource "
     "is missing, when any stored resource is damaged (size header, length, schema text, element size) or larger than what references "
     "to it can address, or when an I/O error hits one of its files; missing optional resources and sub-archives are shown as absent and only those. An archive that opens shows "
     "exactly the stored values, errors leave no trace once they have stopped, and nothing on disk changes.",
     ["inputs", "fault_sequences"],
     "for every stored archive, every damage of its files and every I/O error while opening it",
     "The Rust tests damage one or two files by hand and never see an I/O error.",
     [RS + "storage.rs", RS + "filestorage.rs", RS + "arrayview.rs", RS + "multiarrayview.rs", RS + "error.rs", GE + "templates/rust/archive.jinja2"],
     [("size, schema and element size checks", RS + "storage.rs: read_and_check_schema, check_resource, check_optional_resource"),
      ("an I/O error is not a missing resource", RS + "filestorage.rs: read_resource")],
     ["result of open", "every element of the opened archive", "files below the archive directory"])

prop("P26", "Rust: in-memory and TAR storages present what a directory presents",
     "The same sequence of calls on the Rust in-memory storage and on a directory gives the same answers and the same stored bytes, and an archive "
     "packed into a TAR file - at any path in it, by any packer, in any member order, also when updated by appending newer members - opens with the Rust TAR storage exactly as the directory it was packed from. A truncated or "
     "damaged TAR file leads to an error, or to absent optional parts, never to a panic or other content; writing to it is refused.",
     ["inputs", "fault_sequences", "histories"],
     "for every sequence of calls, every packing of every archive, every damage of the TAR file and every I/O error",
     "The Rust tests open one TAR file, packed by one tool from one schema, and use the in-memory storage for single archives.",
     [RS + "memstorage.rs", RS + "tarstorage.rs", RS + "storage.rs"],
     [("member ranges are collected once and checked against the file", RS + "tarstorage.rs"),
      ("a new stream replaces what was written before", RS + "memstorage.rs: create_output_stream")],
     ["results of all calls", "every element of the opened archives", "stored bytes"])

prop("P27", "Rust: threads sharing a builder or storage write as if they ran one by one",
     "Threads that write different resources of one Rust archive - at once or streamed, in the archive itself or in its sub-archives, through one shared builder or "
     "storage, on a directory or in memory - produce, under every interleaving, the archive that writing the resources one after the other produces; each write "
     "succeeds, what it returns shows the written values, and stays valid. No interleaving has a data race, uses freed or unmapped memory, deadlocks or panics.",
     ["schedules", "inputs"],
     "for every set of resources assigned to threads and every interleaving of the threads' memory and I/O operations",
     "No Rust test starts a thread, although the handles are shared between threads by type (StorageHandle is Send and Sync) and their reads are unsafe code.",
     [RS + "memstorage.rs", RS + "filestorage.rs", RS + "storage.rs", RS + "vector.rs", RS + "multivector.rs", GE + "templates/rust/archive.jinja2"],
     [("one lock spans looking a resource up and storing it", RS + "memstorage.rs: read_resource"),
      ("handles are shared between threads", RS + "storage.rs: StorageHandle")],
     ["results of all calls", "every element of the reopened archive", "stored bytes", "data races, stale accesses, deadlocks"])

prop("P28", "Rust: concurrent readers see the same data as a single reader",
     "Threads that concurrently open archives over one shared Rust storage (directory, TAR file or memory), read them, describe them and drop them see, under every interleaving, exactly the "
     "stored values, as long as they keep the archive; no mapping or copy an archive refers to goes away because another thread opened the same resource. No interleaving has a data race, uses freed or unmapped "
     "memory, deadlocks or panics.",
     ["schedules", "inputs"],
     "for every archive, every number of readers and every interleaving of their memory and I/O operations",
     "No Rust test starts a thread; the storages extend the lifetime of what they return with unsafe code, which the compiler cannot check.",
     [RS + "filestorage.rs", RS + "memstorage.rs", RS + "tarstorage.rs", RS + "storage.rs"],
     [("mappings and copies are never replaced", RS + "filestorage.rs: MemoryMappedFileStorage::read; " + RS + "memstorage.rs: read_resource")],
     ["results of all calls", "every element read", "data races, stale accesses, deadlocks"])

prop("P29", "Rust: what is streamed or edited in memory is stored as last assigned",
     "Whatever is grown, assigned, overwritten, copied, cleared and flushed in Rust streams, multivectors, vectors and structures - in any order, interleaved between resources, across the streams' internal "
     "buffers, with the disk accepting any part of each write - the views show, and the archive stores, exactly the elements in order with the values last assigned to each of their fields.",
     ["inputs", "histories"],
     "for every sequence of calls on the streams, vectors and structures and every way in which the writes are split",
     "The Rust tests grow small vectors once; none crosses the 32 MB buffers, interleaves streams or edits elements repeatedly.",
     [RS + "vector.rs", RS + "multivector.rs", RS + "bytewriter.rs", RS + "bytereader.rs", RS + "storage.rs", GE + "templates/rust/structure.jinja2"],
     [("buffers are flushed before they grow", RS + "vector.rs: ExternalVector::grow; " + RS + "multivector.rs: MultiVector::grow"),
      ("the hidden last element of range vectors", RS + "vector.rs: as_view; " + RS + "arrayview.rs")],
     ["views of vectors and streams", "every element of the reopened archive", "stored bytes"])

prop("P20", "Schema normalisation is stable",
     "Normalising a schema yields a schema that describes the same layout, and normalising it again changes nothing.",
     ["programs"], "for every schema", "The tests normalise a few schemas.",
     [GE + "generators/flatdata.py", GE + "templates/flatdata"], [("schema extraction", GE + "tree/syntax_tree.py: schema")], ["generated schema text"])
prop("P21", "The generator rejects every invalid schema with a syntax error",
     "Every schema that breaks a rule of the schema language is rejected with the documented error, and every schema that follows the rules is accepted.",
     ["programs"], "for every text", "The tests try a list of examples.",
     [GE + "grammar.py", GE + "tree/builder.py", GE + "tree/resolver.py"], [("checks while building the tree", GE + "tree/builder.py")], ["result of parsing"])
prop("P22", "Python views agree with element access",
     "Whatever an open Python archive is asked through, from a directory or a TAR file - indices counted from either end, iteration, slices with any bounds and step, numpy arrays and data frames (limited or "
     "not), single columns, element tables, buckets of multivectors, slices and texts of raw data, the table of the archive, and textual descriptions - shows the stored values, in the same order, as reading "
     "the elements one by one; an index outside raises IndexError. This holds in every order of accesses, whatever fresh memory happens to contain, and however opening was disturbed or the files are "
     "removed or replaced between accesses.",
     ["inputs", "schedules", "fault_sequences"],
     "for every schema, value, view, history of accesses and disturbance between them",
     "The tests use a few slices of one vector in an undisturbed process.",
     [PY + "resources.py", PY + "structure.py", PY + "archive.py", GE + "generators/python.py", GE + "templates/py/python.jinja2"],
     [("slices computed from element access", PY + "resources.py: _VectorSlice"), ("bounds of multivectors and raw data", PY + "resources.py: Multivector, RawData")],
     ["values of the views"])

prop("P30", "C++ views agree with the stored values",
     "Whatever an open C++ archive is looked at through - elements by index, first and last, iteration in both directions, iterators moved by any distance, subtracted, compared and dereferenced, slices "
     "and slices of slices taken in any of the ways offered, also of structures with ranges, algorithms of the standard library, buckets walked whole, by one or several types or with an iterator, elements "
     "compared, hashed and printed, sizes and descriptions - shows the stored values, in order. A callback that throws leaves the view usable. Views stay valid and unchanged while any copy of the archive "
     "(or of the sub-archive they came from) exists, however archives are copied, moved, assigned and destroyed, whichever storage they came from (directory, TAR file, memory), and whatever happens to the files.",
     ["inputs", "schedules", "fault_sequences"],
     "for every schema, value, storage, history of looks, copies and destructions, and disturbance between them",
     "The tests look at a few elements of undisturbed archives in one way each.",
     [CI + "ArrayView.h", CI + "internal/ArrayView.inl", CI + "internal/ArrayViewIterator.inl", CI + "MultiArrayView.h", CI + "Archive.h", GE + "templates/cpp/structure.jinja2", GE + "templates/cpp/archive.jinja2"],
     [("iterators step by whole elements", CI + "internal/ArrayViewIterator.inl"), ("archives share the storage their views point into", CI + "Archive.h: m_storage")],
     ["values of the views"])

RS = "flatdata-rs/lib/src/"
prop("P31", "Rust views agree with the stored values",
     "Whatever an open Rust archive is looked at through - slices of vectors and slices of slices, also of structures with ranges and turned into bytes and back, buckets by index, iterators of multivectors "
     "moved from both ends, skipped, cloned and asked again after their end, iterators of buckets, substrings of raw data in every form, elements and buckets compared, everything printed with Debug - shows the "
     "stored values, in order. Views stay valid and unchanged while the archive object (or the clone, or sub-archive clone) they were taken from exists, whatever else is cloned and dropped, whichever storage they "
     "came from (directory, TAR file, memory), and whatever happens to the files.",
     ["inputs", "schedules", "fault_sequences"],
     "for every schema, value, storage, history of looks, clones and drops, and disturbance between them",
     "The tests look at a few elements of undisturbed archives in one way each.",
     [RS + "multiarrayview.rs", RS + "rawdata.rs", RS + "arrayview.rs", RS + "filestorage.rs", RS + "memstorage.rs", RS + "tarstorage.rs", GE + "templates/rust/structure.jinja2", GE + "templates/rust/archive.jinja2", GE + "templates/rust/variadic.jinja2"],
     [("iterators shrink a view from both ends", RS + "multiarrayview.rs: MultiArrayViewIter"), ("archives hold the storage their views point into", GE + "templates/rust/archive.jinja2: _storage")],
     ["values of the views"])

prop("P32", "Python: threads reading, opening and writing archives do not disturb each other",
     "Threads of one Python process that look at one open archive - its resources, and elements, slices, arrays and tables another thread obtained from it -, open archives from one shared storage (directory or "
     "TAR file), or write archives of their own with builders of the same generated classes, get under every interleaving what each would get alone: every look shows the stored values, every archive written is "
     "complete and exactly what its thread set, whatever the other threads do, the first use of the generated classes included; a failing file operation is raised in the thread that asked for it, and "
     "trying again succeeds once the errors stop.",
     ["schedules", "inputs", "fault_sequences"],
     "for every archive, every number of threads, every interleaving of their steps in the library and every position of the failing file operations",
     "No Python test starts a thread.",
     [PY + "resources.py", PY + "structure.py", PY + "archive.py", PY + "tar_archive_resource_storage.py", PY + "file_resource_storage.py", PY + "archive_builder.py", PY + "resource_storage.py",
      PY + "file_resource_writer.py", PY + "data_access.py", GE + "templates/py/python.jinja2"],
     [("archives read all their resources when they are opened, views hold no position", PY + "archive.py: __init__; " + PY + "resources.py"),
      ("every resource written has a writer of its own", PY + "file_resource_writer.py: create_instance")],
     ["values of the views", "bytes of the archives written", "errors raised"])

prop("P33", "Rust generate(): a build that succeeds has complete code for every schema",
     "When flatdata::generate() answers Ok for a schema file or a folder of schemas, the generator has run exactly once for every file with the extension flatdata found there and for nothing else, its complete "
     "output lies at the same relative place with the extension rs, whatever was there before, cargo is told to watch every schema (and the source of the generator if one is given), and no other file was "
     "touched; a generator that answers with an error, is killed or cannot be started, a missing interpreter or installer, schemas that do not exist, failing file operations and obstacles at the destination "
     "are never taken for success but reported as an error which names the schema and the output concerned, without panic; a schema whose output is not complete is never reported as generated; and once "
     "everything is in order the next call succeeds and leaves the same files as if nothing had failed before.",
     ["fault_sequences", "crash_points", "inputs"],
     "for every tree of files, every place at which a process or a file operation fails and every state of the destination",
     "generate() has no tests: it is called by the build script of the tests, on one tree and without failures.",
     ["flatdata-rs/lib/src/generator.rs"],
     [("the exit status of the generator decides", "flatdata-rs/lib/src/generator.rs: generate"),
      ("outputs lie at the relative place of their schema", "flatdata-rs/lib/src/generator.rs: generate")],
     ["result of generate()", "files at the destination", "processes started", "lines printed for cargo"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
