#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vk"))
from units import UNITS, PROPS

L = []
def prop(id, title, st, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    L.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": None}})

prop("C01", "Jail shim never touches paths outside its root",
 "Every path the jail shim hands to the underlying VFS, for any operation and any client path (absolute, relative, with \"..\", duplicate or alternative separators, or too long), lies at or beneath the jail root after normalisation; no client path or working-directory history can name anything outside it. When a client path cannot be converted the operation fails with an error and the underlying VFS is not called with a partial path.",
 ["inputs", "histories"], "All client paths, all set_cur_dir histories, all shim operations",
 "Tests try a handful of fixed paths; containment is a universal claim over path strings and cwd histories.",
 ["src/shim_jail.c", "src/evfs_path.c"],
 [("unjail_path", "src/shim_jail.c"), ("evfs_vfs_path_absolute", "src/evfs_path.c")],
 ["paths received by the base VFS methods"], [("cur_dir", "working directory inside the jail", "src/shim_jail.c JailData")])
prop("C02", "Trace shim is transparent",
 "A VFS wrapped by the trace shim behaves exactly like the base VFS: each operation reaches the base exactly once with the caller's arguments, and its return value, output data, handle state and directory entries reach the caller unchanged. Reporting only ever goes to the trace callback.",
 ["inputs", "histories"], "All operations, arguments and base results, including errors",
 "Tests exercise successful calls on one backend; transparency is over every argument and every base result.",
 ["src/shim_trace.c"], [("trace__* forwarding methods", "src/shim_trace.c")], ["base VFS call log", "caller-visible results"])
prop("C03", "Jail shim maps paths and passes operations through faithfully",
 "A successful jail operation on client path P is the same operation on root+absolute(P) of the base VFS, with the caller's flags, buffers, sizes and offsets, and the base result returned unchanged. The jail's working directory starts at \"/\", is reported relative to the jail, and changes only by a successful set_cur_dir to an existing directory.",
 ["inputs", "histories"], "All operations and arguments through the jail",
 "Tests compare a few files; argument order and result propagation are per-call contracts.",
 ["src/shim_jail.c"], [("jail__* methods", "src/shim_jail.c")], ["base VFS call log", "caller-visible results"])
prop("C04", "Path normalisation yields the canonical form or an overflow error",
 "For every path, normalising produces the minimal root followed by the segments left after removing \".\" and empty segments and resolving each \"..\" against the preceding segment (\"..\" is dropped at an absolute root and kept at the start of a relative path; an empty result is \".\"), joined by single forward separators with no trailing separator. The result is NUL terminated inside the output range, in-place use gives the same result, and a result that does not fit gives an error with nothing written outside the range.",
 ["inputs", "configurations"], "All path strings, output sizes, in-place and separate output, VFSs with and without drive prefixes",
 "Tests list about thirty paths with one ample buffer size; the claim is over all strings and sizes.",
 ["src/evfs_path.c"], [("evfs_vfs_path_normalize", "src/evfs_path.c"), ("path_normalize_long", "src/evfs_path.c")], ["evfs_path_normalize result"])
prop("C05", "Absolute and joined paths compose correctly within the output range",
 "Making a path absolute gives the normalised path itself if it is already absolute, else the normalised concatenation of the working directory and the path (keeping a relative drive prefix), also when input and output share a buffer. Joining gives head, one separator if needed, then tail, NUL terminated. A result that does not fit is an error, and nothing outside the output range is written.",
 ["inputs", "configurations"], "All paths, working directories, buffer sizes and overlaps",
 "Tests use a few paths and ample buffers; overlap and tight-buffer branches are not reached.",
 ["src/evfs_path.c"], [("evfs_vfs_path_absolute", "src/evfs_path.c"), ("path_absolute_from_rel_overlap", "src/evfs_path.c"), ("evfs_vfs_path_join", "src/evfs_path.c")], ["evfs_path_absolute", "evfs_path_join", "evfs_path_join_str"])
prop("C06", "Path splitting returns exact substrings of the input",
 "basename, dirname and extname return ranges inside the given path that agree with Python's os.path: basename is everything after the last separator, dirname everything before it (or the whole root), extname the suffix from the last period of the name, ignoring leading periods. Scanning a path yields each of its segments once, in order.",
 ["inputs"], "All path strings", "Tests sample a few strings; boundary positions need all strings.",
 ["src/evfs_path.c"], [("evfs_path_basename/extname/evfs_vfs_path_dirname/evfs_vfs_scan_path", "src/evfs_path.c")], ["returned ranges"])
prop("C07", "String range building never writes outside its range",
 "Every copy, append, pad, format and trim operation on a string range writes only inside the range it is given, keeps appended text NUL terminated (except in the no_nul variants), and reports either the number of characters appended or a negative value when the text did not fit. The appended text is exactly the requested text; when it does not fit, nothing is appended, except that a truncating copy keeps the longest fitting prefix. (For fixed-point numbers only the bounds are specified, not the digits.)",
 ["inputs"], "All range sizes including empty, all strings, all integers",
 "Tests use roomy buffers and a few values; bounds are universal over sizes.",
 ["src/util/range_strings.c"], [("range_cat_* / range_copy_* / range_pad_right / range_terminate", "src/util/range_strings.c")], ["buffer contents and return values"])
prop("C08", "Tokenising and comparing string ranges is exact and bounded",
 "Tokenising a string yields exactly its maximal runs of non-delimiter characters in order and nothing else, and with a length limit never reads or returns anything past the limit. Comparing a range with a string or another range tells exactly whether their bytes agree, and a range is an integer exactly when it holds only digits.",
 ["inputs"], "All strings, delimiters and limits", "Tests sample a few strings.",
 ["src/util/range_strings.c"], [("range_token / range_token_limit / range_eq / range_is_int", "src/util/range_strings.c")], ["returned ranges and results"])
prop("C09", "VFS registry keeps a correct name map and default",
 "After any sequence of register, re-register and unregister calls, looking up a name finds the registered object of that name and no other; registering before initialisation fails. There is a default VFS exactly when some VFS is registered, it is always a registered one, it follows the make_default rules, and operations with an unknown or missing name go to it.",
 ["histories"], "All histories of registration calls", "Tests register one or two VFSs in one order.",
 ["src/evfs.c"], [("evfs_register/evfs_unregister/evfs_find_vfs", "src/evfs.c")], ["evfs_find_vfs, evfs_default_vfs_name"], [("s_vfs_list/s_default_vfs", "registered objects and default", "src/evfs.c")])
prop("C10", "Generic API dispatches faithfully and manages handles exactly",
 "Each generic call reaches the chosen VFS's (or handle's) method once, with the caller's arguments, and returns its result; unimplemented optional methods report no support and null arguments are rejected without a call. A failed open leaves a null handle and frees its memory; a successful open allocates exactly the size the VFS declares; close frees the handle once whatever the backend returns.",
 ["inputs", "fault_sequences"], "All calls, backend results and allocation failures", "Tests never inject backend or allocation failures.",
 ["src/evfs.c"], [("evfs_open_ex … evfs_dir_find", "src/evfs.c")], ["method calls, allocations, results"])
prop("C11", "Copying to a file copies every byte or reports an error",
 "Copying an open file to a new path either succeeds with the destination containing exactly the source bytes, or returns an error; short reads, short writes and I/O errors are never reported as success. It uses the caller's buffer within its size (or a temporary of its own), never replaces an existing file, and always closes the destination and frees what it allocated.",
 ["inputs", "fault_sequences"], "All file sizes, buffer sizes, short and failing reads and writes", "Tests copy one file with no faults.",
 ["src/evfs.c"], [("evfs_copy_to_file_ex", "src/evfs.c")], ["destination contents, result, allocations"])
prop("C12", "Making a path creates exactly the missing directories",
 "Making a path creates each missing directory of the path, parents first, each exactly once and nothing else, stopping at the first error and returning it. Only the given range of the path is used, and nothing beyond its end is read or created.",
 ["inputs", "fault_sequences"], "All paths, ranges, existing subsets and error points", "Tests make one or two fixed paths.",
 ["src/evfs.c"], [("evfs_make_path_range_ex", "src/evfs.c")], ["stat and make_dir calls on the base VFS"])
prop("C13", "Rotating container respects its capacity and keeps the newest data",
 "A rotating file's readable size never exceeds its configured capacity, and after any history of appends, across close and reopen, its content is the most recent suffix of everything appended, in order, with no gap, duplicate or reordering. Eviction removes only the oldest data, in whole chunks.",
 ["histories", "inputs"], "All append histories, write sizes and chunk geometries", "Tests use one geometry and a few writes.",
 ["src/shim_rotate.c"], [("rotate write/append path", "src/shim_rotate.c")], ["file content read back, chunk files in the base VFS"])
prop("C14", "Rotating file reads and seeks like one contiguous file",
 "Reading a rotating file from any position with any buffer size returns the same bytes as one contiguous file of its current content would, stopping at the end, wherever the chunk boundaries fall. Seek, tell, size and end-of-file agree with that content.",
 ["inputs", "histories"], "All contents, positions, sizes and chunk geometries", "Tests read sequentially from a few positions.",
 ["src/shim_rotate.c"], [("rotate read/seek", "src/shim_rotate.c")], ["read/seek/tell/size/eof results"])
prop("C15", "Truncating and trimming a rotating file keep the right bytes",
 "Truncating a rotating file to a smaller size keeps exactly its first bytes; trimming removes only whole chunks from its oldest end and no more than asked for, and deletes their chunk files. Everything kept is readable unchanged and later writes and reopens see the reduced file.",
 ["inputs", "histories"], "All contents, sizes and geometries", "Tests truncate to a few sizes.",
 ["src/shim_rotate.c"], [("rotate truncate/trim", "src/shim_rotate.c")], ["content read back"])
prop("C16", "Tar iteration visits exactly the archive's members",
 "Iterating a well-formed tar archive yields each member once, in order, with its exact name, size, time and type and the offset of its data, and stops at the end marker or the end of the archive. Nothing outside the archive or a header is read, and damaged or truncated archives stop the iteration instead of yielding wrong members.",
 ["inputs"], "All archives: member counts, sizes, name lengths up to the field limits, truncations", "Tests use one archive.",
 ["src/tar_iter.c", "src/tar_iter_rsrc.c", "include/evfs/tar_common.h"], [("tar_iter_begin/next", "src/tar_iter.c"), ("tar_rsrc_iter_begin/next", "src/tar_iter_rsrc.c")], ["iterator results"])
prop("C17", "Files in a tar archive read back exactly their member bytes",
 "A file opened from a mounted tar archive (from a file or from memory) delivers exactly the bytes of that member, for any sequence of reads and seeks, and never bytes outside it; reads stop at its end. Size, position and end-of-file agree, a missing name fails to open, and closing or failing never leaks or corrupts another handle.",
 ["inputs", "histories"], "All members, offsets, sizes and read/seek histories", "Tests read whole files sequentially.",
 ["src/tar_fs.c", "src/tar_rsrc_fs.c"], [("tarfs__file_*", "src/tar_fs.c"), ("tar_rsrc__file_*", "src/tar_rsrc_fs.c")], ["read/seek/tell/size/eof results"])
prop("C18", "Romfs lookup finds exactly the entries in the image",
 "Looking up a path in a romfs image finds the file or directory of that exact path with its recorded size and type, and reports not-found for every other path. Headers outside the image are never followed and invalid images are rejected without memory errors.",
 ["inputs"], "All images (including malformed) and paths", "Tests use one image.",
 ["src/romfs_common.c", "src/romfs_fs.c"], [("romfs_init/romfs_lookup_abs_path/romfs_read_file_header", "src/romfs_common.c")], ["stat/open results"])
prop("C19", "Romfs reads and directory listings are exact",
 "A file opened from romfs delivers exactly its recorded bytes for any sequence of reads and seeks and never bytes beyond its end, with size, position and end-of-file agreeing. Listing a directory yields each of its entries once with name, size and type, and can be rewound.",
 ["inputs", "histories"], "All files, offsets, sizes, read/seek histories", "Tests read whole files sequentially.",
 ["src/romfs_fs.c", "src/romfs_common.c"], [("romfs__file_* / romfs__dir_*", "src/romfs_fs.c")], ["read/seek/tell/size/eof, dir_read results"])
prop("C20", "Read-only filesystems reject every mutation",
 "The tar and romfs filesystems, and a stdio VFS switched to read-only, refuse every operation that would create, change or remove anything: opens with any write-capable flag, writes, truncation, deletion, renaming and directory creation. The refusal is an error and the underlying storage is not touched.",
 ["inputs", "configurations"], "All flags and operations", "Tests do not try to write to read-only backends.",
 ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/stdio_fs.c"], [("open flag checks, m_write/m_truncate", "the read-only backends")], ["results and base calls"])
prop("C21", "Stdio backend honours open flags, offsets and error codes",
 "The stdio VFS opens files as the flags say (read, write, create, fail-if-exists, overwrite, append; never truncating or creating otherwise), transfers exactly the reported number of bytes at the file position, and seek, tell, size, truncate and end-of-file agree with the host file. Host errors are reported as errors with the matching EVFS code and handles are not leaked.",
 ["inputs", "fault_sequences"], "All flag combinations, offsets, sizes and host failures", "Tests use a few flag combinations with no host failures.",
 ["src/stdio_fs.c"], [("stdio__open and file methods", "src/stdio_fs.c")], ["host calls and results"])
prop("C22", "Hash map behaves as a finite map under any history",
 "After any sequence of insertions, removals, lookups, updates and iteration, the hash map contains exactly the keys inserted and not since removed, each once, with the last value stored; growing, collisions and removals never lose, duplicate or resurrect an entry. Ownership callbacks run exactly once per discarded item, and iteration visits each entry once.",
 ["histories", "inputs"], "All operation histories, including colliding hashes", "Tests do not force collisions, tombstones or resizing.",
 ["src/util/dhash.c"], [("dh_insert/dh_remove/dh_lookup/dh_update_inplace", "src/util/dhash.c")], ["lookup and iteration results"])
prop("C23", "Glob matching decides the documented pattern language",
 "A name matches a glob pattern exactly when the documented rules say so: literal characters, \"?\" for one character other than a directory separator, \"*\" for any run (possibly empty) not crossing a directory separator, and bracketed sets of characters and ranges, inverted by a leading \"!\" (whether a set can match a separator is left open). Matching terminates for every pattern and never reads beyond either string.",
 ["inputs"], "All patterns and names", "Tests sample a few patterns.",
 ["src/util/glob.c"], [("glob_match", "src/util/glob.c")], ["match result"])
prop("C24", "Search, byte-order and bounded-copy helpers meet their definitions",
 "Exact search finds an equal element of a sorted array if and only if one exists, and nearest search returns the documented neighbour. Byte-order accessors are exact inverses of each other with the documented layout, integer helpers (logarithms, powers of two, digit counts) equal their mathematical definitions, and bounded string copies and appends never read or write past the given size and return the length they tried to create.",
 ["inputs"], "All arrays, keys, integers and buffer sizes", "Tests sample values; boundary values are not covered.",
 ["src/util/search.c", "src/util/intmath.c", "src/util/bsd_string.c", "include/evfs/util/unaligned_access.h"], [("search_exact/search_nearest, intmath, strlcpy/strlcat", "src/util"), ("get_unaligned_*/set_unaligned_*", "include/evfs/util/unaligned_access.h")], ["results"])
prop("C25", "Every call releases the locks it takes",
 "In threaded builds, every public operation returns with all internal locks released, on success and on every error path, never releases a lock it does not hold and never takes one twice. No error can leave the library or a mounted filesystem deadlocked for the next caller.",
 ["inputs", "fault_sequences"], "All calls, arguments, backend failures and allocation failures", "Tests run single-threaded on success paths.",
 ["src/evfs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_jail.c", "src/shim_rotate.c"], [("LOCK/UNLOCK pairs", "all backends")], ["lock and unlock calls"])
prop("C26", "Seek origins are applied consistently on every backend",
 "On every backend, seeking from the start, the current position or the end places the position at offset, position+offset or size-offset, clamped at the start, and on read-only backends reading from there returns the bytes at that position or end-of-file. No offset makes position arithmetic overflow or a later access leave the file.",
 ["inputs"], "All offsets, origins, positions and sizes", "Tests seek to a few positions.",
 ["src/evfs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/stdio_fs.c", "src/shim_rotate.c"], [("evfs__absolute_offset and m_seek methods", "all backends")], ["tell and read results after seek"])
prop("C27", "Option parsing reports each option once, in order, and then the operands",
 "Parsing a command line with the re-entrant getopt returns each short or long option once, in order, with its argument when it takes one, an error for unknown options, missing or superfluous arguments, and -1 at the end with the index of the first operand. Long names match in full only; without a long option table a \"--name\" argument ends the parse. With argument permutation enabled operands move behind the options in their original order. Two parsers never interfere, and nothing outside the argument vector is read.",
 ["inputs"], "All argument vectors and option tables", "There are no tests of the option parser.",
 ["src/util/getopt_r.c"], [("getopt_r/getopt_long_r", "src/util/getopt_r.c")], ["parser results"])
prop("C28", "Threads using one VFS see atomic operations",
 "When several threads use the registry or one mounted filesystem concurrently in a threaded build, each operation takes effect atomically: results equal those of some sequential order, and no interleaving corrupts shared buffers, hash maps or lists.",
 ["schedules"], "All thread interleavings", "Tests are single-threaded.",
 ["src/evfs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_jail.c"], [("LOCK/UNLOCK", "all backends")], ["results under concurrency"])
prop("C29", "Rotating container survives a crash at any point",
 "If the process stops at any point during a rotate operation, reopening the container yields a prefix-consistent suffix of the appended data; no crash point makes the container unreadable.",
 ["crash_points"], "All crash points of all operations", "Tests never crash mid-operation.",
 ["src/shim_rotate.c"], [("chunk and geometry files", "src/shim_rotate.c")], ["content after reopen"])
prop("C30", "Littlefs backend maps EVFS operations onto littlefs faithfully",
 "Each operation on the littlefs backend is the corresponding littlefs operation with equivalent flags and offsets, with littlefs errors translated to the matching EVFS codes.",
 ["inputs"], "All operations", "No tests build this backend here.",
 ["src/littlefs_fs.c"], [("lfs__* wrappers", "src/littlefs_fs.c")], ["results"])

ROT = ("The rotate shim is not under contract yet: its functions share one mutable container state whose invariant the code itself does not keep "
       "(a write at an exactly full container wraps, overwriting inflates total_size, a failed base write loops, the geometry file is not validated; see DESIGN.md), "
       "so no inductive contract holds without redesigning the module. Only its lock discipline is decided, in C25.")
NA = {
 "C13": ROT, "C14": ROT, "C15": ROT,
 "C28": "Thread interleavings are outside the reach of CBMC/contract reasoning over sequential C here (no permission logic for C is installed); the sequential half (lock balance, state touched only under lock) is C25.",
 "C29": "Contracts speak about completed calls; crash points inside a call need a persistence model of the base VFS, and the code documents no crash-consistency protocol to verify against.",
 "C30": "The littlefs headers and library are not installed in this sandbox, so the translation unit cannot be compiled and no verifier can read it.",
}

def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in L:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in L:
        i = p["id"]
        if i in PROPS:
            q = PROPS[i]
            checks.append({"property": i, "quick_cmd": "python3 vk/run.py check " + i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 vk/run.py check " + i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "contract-based deductive verification (CBMC contract harnesses on /repo sources)",
                           "level": q["level"], "level_note": q.get("note") or q["explanation"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "Not claimed: no check has been built for it in this framework yet.")})
    m = {"version": 1, "setup_cmd": "python3 vk/run.py setup",
         "hooks": {"guard": "EVFS_VERIFY", "enable": "goto-cc -DEVFS_VERIFY (loop contracts in /repo sources are macros that expand to nothing otherwise)", "source_commits": ["9cf2421d638dcb517dfc39d1e11aa94249119a3f", "61c54703e1899028f4865a22b7a215c56a744f27"]},
         "checks": checks, "not_applicable": na,
         "notes": "One driver (vk/run.py); units in vk/units.py; contract harnesses in harness/. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
write()
