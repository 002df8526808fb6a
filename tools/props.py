#!/usr/bin/env python3
"""The one place the properties are written down; generates properties.jsonl, MANIFEST.json and needs.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "crates/symbolicator-sources/src/"
SS = "crates/symsorter/src/"
WS = "crates/wasm-split/src/"
MECH = lambda *a: [{"name": n, "where": w} for n, w in a]

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note,
         builds=("harness",), quick=30, thorough=600, level="exploration", grace=180, observe=None, state=None, features=""):
    a = {"files": files, "mechanism": mechanism, "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append(dict(
        rec={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
             "why_tests_cant": why, "anchors": a},
        check={"property": id, "quick_cmd": f"python3 check.py {id}",
               "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {id}",
               "technique": technique, "level": level, "level_note": note},
        needs={"builds": list(builds), "quick_s": quick, "thorough_s": thorough, "grace_s": grace, "level": level, **({"features": features} if features else {})}))


# ------------------------------------------------------------------ symbol sources
prop("C01", "Lookups never leave the configured source location",
     "Whatever identifiers an event supplies (debug file, code file, debug id, code id, checksum), every file location computed for a filesystem, HTTP, S3 or GCS source lies below the root, base URL or key prefix configured for it. No location contains an empty, '.' or '..' segment that comes from the identifiers, and no absolute path replaces the root.",
     ["inputs", "configurations"],
     "for all object identifiers, including hostile file names, and all sources, layouts, casings and file types",
     "The unit tests look up a handful of well-formed identifiers in fixed layouts; containment must hold for arbitrary attacker-supplied names.",
     [S + "paths.rs", S + "sources.rs", S + "sources/filesystem.rs", S + "sources/http.rs", S + "sources/s3.rs", S + "sources/gcs.rs", S + "remotefile.rs"],
     MECH(("validation of file names before they enter a path", S + "paths.rs"), ("joining of location and root", S + "sources.rs"), ("URL construction from path segments", S + "sources/http.rs")),
     "runtime monitor: containment oracle over real lookups with hostile identifiers",
     "Held on the lookups observed (tens of thousands of hostile identifier/source pairs per run). Trusts the url crate's parser as the definition of what a URL denotes.",
     observe=["list_files of a source", "url/path/key of a remote file"])
prop("C02", "Computed locations follow the documented directory layouts",
     "For every identifier, file type, layout and casing, the locations at which a file is looked up are exactly those the documentation prescribes for that layout, in the configured casing. A file that a documented layout cannot hold is looked up nowhere. An object is looked for as every kind of file that objects of its type come as.",
     ["inputs", "configurations"],
     "for all identifiers x 7 layouts x 3 casings x all file types",
     "Snapshot tests pin a few identifiers per layout; the conventions must hold for every id length, file name and casing combination.",
     [S + "paths.rs", S + "types.rs", S + "filetype.rs", "docs/advanced/symbol-lookup.md", "docs/advanced/symbol-server-compatibility.md"],
     MECH(("per-layout path builders", S + "paths.rs"), ("casing of file names and signatures", S + "paths.rs")),
     "runtime monitor: independent model of the documented layouts compared with every observed location",
     "The model was written from the documentation and symbol server conventions; where the documentation is silent it records the conventions the fixtures use.",
     observe=["get_directory_paths"])
prop("C03", "Symstore request paths and lookup paths are inverse",
     "A path computed for a symstore or ssqp lookup parses back, in any letter case, into identifiers that address the same file. Parsing any other path ends without a crash: it is refused, or taken for a file of the type its signature and name say (a debug file asked for under its own name `*.debug` or `*.dwarf` is the one stored as `_.debug` or `_.dwarf`), whose symstore path is the parsed one up to letter case wherever the identifier is well-formed.",
     ["inputs"],
     "for all identifiers, casings and arbitrary path strings, including non-ASCII and malformed ones",
     "The tests parse nine literal paths; the round trip is a statement about all names and ids.",
     [S + "paths.rs"],
     MECH(("parsing of symstore paths", S + "paths.rs"), ("symstore path builders", S + "paths.rs")),
     "runtime monitor: round-trip oracle and crash detection over generated and mutated paths",
     "Held on the paths observed; identifiers whose names need no escaping round-trip exactly, others must at least not crash.",
     observe=["parse_symstore_path", "get_directory_paths"])
prop("C04", "Source indexes reproduce the index files and are authoritative",
     "An index assembled from any number of index files contains exactly the well-formed paths those files list, each once, whatever their order, duplication, line ends or malformed lines, and it survives being written and read again. When a source has an index, a location is looked up if and only if the index lists it.",
     ["inputs", "histories"],
     "for all index contents and all ways of splitting them into pieces",
     "The tests parse one small sorted index; ordering, duplication, merging of segments and consistency with the compressed form are untested.",
     [S + "index.rs", S + "sources.rs"],
     MECH(("index construction and lookup", S + "index.rs"), ("filtering of candidate locations by the index", S + "sources.rs")),
     "runtime monitor: reference-set oracle over index parsing, serialisation and lookups",
     "Held on the indexes observed, up to tens of thousands of lines; the reference is an ordinary set of lines.",
     observe=["SourceIndex::contains", "list_files with an index"])
prop("C05", "Source filters admit exactly the configured lookups",
     "A source offers locations only for the requested file types its filter admits, only for objects whose file names match its path patterns, and only with a checksum when it requires one; everything it admits is offered, in the documented order, once per location.",
     ["inputs", "configurations"],
     "for all filters, identifiers, requested file type lists and indexes",
     "The tests cover one pattern and one file type; combinations of filters, both file names, letter case and order are not sampled.",
     [S + "sources.rs", S + "types.rs", S + "filetype.rs"],
     MECH(("source filters", S + "sources.rs"), ("file type table per object type", S + "filetype.rs")),
     "runtime monitor: independent filter model compared with every offered location",
     "The glob model is implemented separately for the pattern forms generated; backslash separators are not generated.",
     observe=["list_files of a source"])
prop("C06", "Source configurations survive reading and writing unchanged",
     "A source configuration read from JSON or YAML and written out again means the same source; options left out take the documented defaults. Configurations that lack mandatory parts or carry values outside the documented sets are refused instead of being taken for something else.",
     ["inputs", "configurations"],
     "for all source kinds with any subset of optional parts, and for malformed variants",
     "The tests deserialise a few literal configurations and rarely write them back.",
     [S + "sources.rs", S + "sources/s3.rs", S + "sources/gcs.rs", S + "sources/http.rs", S + "sources/sentry.rs", S + "sources/filesystem.rs", S + "types.rs"],
     MECH(("configuration schema", S + "sources.rs"), ("defaults of optional parts", S + "sources.rs")),
     "runtime monitor: round-trip and refusal oracle over generated configurations",
     "Held on the configurations observed; the defaults table was written from the documentation.",
     observe=["reading and writing a source configuration"])
prop("C07", "Remote files are identified by what they denote",
     "Two locations within one source have the same identity (URI and cache key) if and only if they denote the same remote object, and the same location always has the same identity. The identity names the object that is fetched, and distinguishes public sources from private ones.",
     ["inputs", "configurations"],
     "for all pairs of locations over all source kinds, including names that need escaping",
     "The tests format one URI per source kind; injectivity is a statement about pairs of arbitrary locations.",
     [S + "remotefile.rs", S + "sources/http.rs", S + "sources/s3.rs", S + "sources/gcs.rs", S + "sources/sentry.rs", S + "sources/filesystem.rs"],
     MECH(("remote file URIs", S + "remotefile.rs"), ("per-kind URIs", S + "sources/")),
     "runtime monitor: injectivity and denotation oracle over collected identities",
     "Held on the pairs observed. Denotation is decided by decoding the URI independently.",
     observe=["uri and cache key of a remote file"])
prop("C08", "Credentials identify the client that may use them",
     "Two sources share cached clients or tokens exactly when every part of their credentials that reaches the remote service agrees; credentials that differ in any such part are unequal, and equal ones hash equally.",
     ["configurations"],
     "for all pairs of S3 and GCS credentials differing in any subset of their parts",
     "There is no test comparing credentials; a part forgotten in a comparison silently serves one tenant with another's client.",
     [S + "sources/s3.rs", S + "sources/gcs.rs"],
     MECH(("equality and hash of S3 keys", S + "sources/s3.rs"), ("equality and hash of GCS keys", S + "sources/gcs.rs")),
     "runtime monitor: pairwise equality/hash oracle over a credential grid",
     "Exhaustive over the generated grid of parts; parts added to the credentials later need a new column.",
     observe=["S3SourceKey/GcsSourceKey comparison and hash"])
# ------------------------------------------------------------------ symsorter
SF = [SS + "app.rs", SS + "utils.rs", SS + "config.rs"]
prop("C10", "Every debug file is stored once, intact, where symbolicator finds it",
     "After a successful sort, every object found in the inputs, whether in plain files, universal binaries or zip archives, exists exactly once below the output at the path of the unified layout, with identical bytes after decompression, and with metadata naming its file, architecture and format. Symbolicator's own lookup for that object yields that path, nothing else is stored, and the printed count is the number stored.",
     ["inputs", "configurations", "schedules"],
     "for all input trees over all supported formats, packings, options and thread schedules",
     "One shell-level fixture is not part of the tests here; conservation over many formats, archives and parallel workers is not sampled at all.",
     SF + [S + "paths.rs"],
     MECH(("target file name", SS + "utils.rs"), ("parallel sorting and storing", SS + "app.rs"), ("unified layout lookup", S + "paths.rs")),
     "runtime monitor: offline conservation checker over the store the real binary leaves, against a model of the inputs",
     "Objects are synthesised (ELF, Mach-O, universal, PE, PDB, portable PDB, WASM, Breakpad, source bundles) and cross-checked with the format library before use. Breakpad files and source bundles are checked for storage, lookup is checked for formats with a lookup file type.",
     quick=35, observe=["store directory", "stdout of symsorter"])
prop("C11", "Bundle manifests list exactly the objects their sort stored",
     "A sort with a bundle id leaves a manifest listing the ids of exactly the objects it stored (also when errors in other files or in later parts of an archive are ignored), and every object it met carries a reference to that bundle; references of other bundles stay. With one bundle per input folder each folder's manifest lists that folder's objects only.",
     ["inputs", "histories", "schedules"],
     "for all sequences of sorts into one store with distinct bundle ids, with parallel workers",
     "No test sorts twice into a store or looks at manifests.",
     SF, MECH(("bundle manifests and references", SS + "app.rs"), ("derivation of bundle ids", SS + "utils.rs")),
     "runtime monitor: offline reconciliation of manifests and references over multi-run histories",
     "Bundle ids are distinct between runs: re-using an id replaces its manifest by design.",
     quick=30, observe=["bundles/ and refs/ in the store"])
prop("C12", "Duplicate debug files never overwrite or displace stored ones",
     "When several inputs carry the same identity and kind, within one sort or across sorts, exactly one of them is stored and stays byte for byte what it was; its metadata describes the stored one. All other objects of the same files and archives are still stored and counted once.",
     ["inputs", "histories", "schedules"],
     "for all sequences of sorts offering duplicates in any packing and under parallel workers",
     "No test offers a duplicate; which of several parallel writers wins depends on the schedule.",
     SF, MECH(("exclusive creation of stored files", SS + "app.rs"), ("skipping of duplicates", SS + "app.rs")),
     "runtime monitor: offline history checker over stores with duplicates offered in parallel and across runs",
     "Any of the offered candidates may win within a run; schedules are varied through thread counts and file order, not enumerated.",
     quick=35, observe=["store directory before and after each run"])
prop("C13", "Broken inputs and failed writes are reported, never half-stored",
     "A sort over malformed inputs or with failing writes ends with an error and a message, and with errors ignored it reports them, still stores every object of the well-formed files, counts what it stored and succeeds (what follows the broken part inside one archive may be lost); it never crashes or hangs. What a failed sort leaves behind does not keep a retry from storing every object completely.",
     ["inputs", "fault_sequences"],
     "for all malformed inputs and for write failures at any point of a sort",
     "No test feeds a damaged file or makes a write fail.",
     SF, MECH(("error handling and --ignore-errors", SS + "app.rs"), ("removal of truncated files", SS + "app.rs")),
     "runtime monitor with fault injection: mutated inputs and write limits, judged by exit code and store contents",
     "Whether a mutated file is malformed is decided by the format library. Write faults are file size limits; a killed process is not covered.",
     quick=45, level="fault_enumeration", observe=["exit code", "stderr", "store directory"])
prop("C14", "Sorting writes nothing outside the store",
     "A sort creates and changes files only below the output directory, in the documented shapes, whatever names, identifiers, archive members and folder names its inputs carry; inputs stay untouched. Bundle ids that could name another place are refused before anything is written.",
     ["inputs", "configurations"],
     "for all hostile input names, archive members, identifiers and bundle ids",
     "The tests do not run the binary.",
     SF, MECH(("target file names from identifiers", SS + "utils.rs"), ("bundle id validation", SS + "utils.rs")),
     "runtime monitor: system call trace plus before/after snapshots of the surroundings",
     "System calls are observed with strace where the sandbox permits; otherwise the snapshots alone decide.",
     quick=40, observe=["system calls that create or change files", "surrounding directories"])
prop("C15", "Source bundles carry exactly the sources of their debug files",
     "With sources requested, every debug file that names readable, admissible sources gets one source bundle stored under the same id, holding exactly those sources with identical contents; files that already have a bundle keep the given one. The reported number of created bundles is the number created.",
     ["inputs"],
     "for all debug files and all mixtures of readable, missing, oversized and precompiled sources",
     "No test creates a source bundle.",
     SF, MECH(("source candidates", SS + "app.rs"), ("source bundle creation and filters", SS + "utils.rs")),
     "runtime monitor: offline comparison of bundled sources with the files named by the debug info",
     "Sources come from Breakpad file records and from DWARF compiled by gcc (no DWARF part without gcc).",
     quick=35, observe=["source bundles in the store", "stdout of symsorter"])
prop("C16", "Hostile debug files cause no memory errors",
     "Processing arbitrary malformed debug files and WASM modules never reads or writes outside allocated memory and never uses freed memory.",
     ["inputs"],
     "for all input files",
     "The tests run without sanitizers on well-formed data.",
     SF + [WS + "main.rs"], MECH(("memory-mapped views of inputs", SS + "app.rs"), ("safe parsing of modules", WS + "main.rs")),
     "AddressSanitizer builds of the real binaries under mutated inputs",
     "Red-zone detection on the executed paths only; C dependencies are instrumented only where their build honours the flags.",
     builds=("harness", "asan"), quick=40, observe=["sanitizer reports"])
# ------------------------------------------------------------------ wasm-split
WF = [WS + "main.rs"]
prop("C20", "Build ids are stable, unique and identical in both halves",
     "A module that has a build id keeps it whatever is asked; otherwise it gets the id given on the command line or a fresh random one. The printed id, the one in the main module and the one in the debug companion are the same, and processing the result again reports the same id and changes nothing.",
     ["inputs", "histories"],
     "for all modules, option combinations and repeated runs",
     "wasm-split has no tests.",
     WF, MECH(("search for an existing id", WS + "main.rs"), ("embedding of new ids", WS + "main.rs")),
     "runtime monitor: independent section walker over outputs of first and second runs",
     "Held on the modules observed; freshness is observed as absence of repeats.",
     quick=25, observe=["stdout", "output modules"])
prop("C21", "The debug companion keeps every section of the original",
     "The debug companion contains every section of the input module in order and byte for byte, plus the build id if there was none, independent of what is stripped from the main module.",
     ["inputs", "configurations"],
     "for all modules and option combinations",
     "wasm-split has no tests.",
     WF, MECH(("writing of the companion before stripping", WS + "main.rs")),
     "runtime monitor: independent section walker comparing companion and input",
     "Sections are compared by id and payload; size encodings are canonicalised by the tool.",
     quick=25, observe=["debug companion"])
prop("C22", "Stripping removes the debug sections and nothing else",
     "Stripping removes exactly the custom sections that hold DWARF, and the name section only on request; all other sections keep order and contents, followed by the build id and the reference to the debug file (the given URL or the companion's file name). No other file changes, and a module that needs no change is left as it is.",
     ["inputs", "configurations"],
     "for all modules and option combinations",
     "wasm-split has no tests.",
     WF, MECH(("strippable sections", WS + "main.rs"), ("external debug info", WS + "main.rs")),
     "runtime monitor: independent section walker and filter model over the main output",
     "Sections are compared by id and payload; sections the walker cannot name are expected to stay.",
     quick=25, observe=["main output", "surrounding directory"])
prop("C23", "wasm-split succeeds only with complete outputs",
     "A successful exit means every requested output exists completely; malformed modules are refused with a message and leave every file as it was. Failing writes at any point are reported as errors; an input that is not the output survives them, and one that is modified in place is not touched when its companion cannot be written.",
     ["inputs", "fault_sequences"],
     "for all malformed modules and for write failures at any point",
     "wasm-split has no tests.",
     WF, MECH(("decoding before writing", WS + "main.rs"), ("flushing of outputs", WS + "main.rs")),
     "runtime monitor with fault injection: damaged modules, full devices and write limits judged by exit code and files",
     "Write faults are file size limits, full devices and unsuitable targets.",
     quick=25, level="fault_enumeration", observe=["exit code", "stderr", "all files involved"])

NOT_APPLICABLE = []  # {"property", "reason"}
NA_RECS = []

try:
    from props_svc import extend
    extend(prop, NOT_APPLICABLE, NA_RECS, MECH)
except ImportError:
    pass


def main():
    recs = sorted([p["rec"] for p in P] + NA_RECS, key=lambda r: r["id"])
    for r in recs:
        assert len(r["title"]) <= 80, r["id"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --build",
        "checks": [p["check"] for p in P],
        "not_applicable": NOT_APPLICABLE,
        "notes": "check.py rebuilds the monitors and the real binaries from /repo's working tree (into /verif/target), runs one monitor, compares its violations with known_findings.txt and writes the evidence file. No hooks in /repo are needed: everything is observed at public boundaries.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    with open(os.path.join(V, "tools", "needs.json"), "w") as f:
        json.dump({p["rec"]["id"]: p["needs"] for p in P}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
