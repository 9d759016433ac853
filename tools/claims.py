X, F = "exploration", "fault_enumeration"
CLAIMED = {
"C01": (X, "runtime monitor: hostile and damaged archives unpacked by the real code deep inside a scratch tree (file rights given up); an inventory of everything outside must not change, and every link left inside is followed to its end as the kernel would",
  "Member names, links, pax/GNU overrides, duplicates and conspiring links are generated; archives that clearly break the rules must be refused, every file inside must hold the first member written to its place. Sampled archives; POSIX path semantics only."),
"C02": (X, "runtime monitor: differential oracle (a tree model written as many different archives, also by Python and GNU tar) over the real unpacking code, node by node; launchers are executed",
  "Exact comparison of names, bytes, executable bits, link targets and wheel layout for each generated archive; inconsistent wheels must be refused. Sampled trees; the 'headers' category is left out."),
"C03": (X, "runtime monitor: real downloads from a local server that corrupts, truncates, redirects, drops or mislabels the bytes; every delivery compared with the true file, and the by-hash store inventoried after each fetch",
  "Every delivery and every store entry is compared byte for byte with the true artifact; includes wrong and unknown hashes, concurrent fetchers, full disks (RLIMIT_FSIZE) and sinks that write short. Sampled histories."),
"C04": (X, "runtime monitor: worker processes and threads run random histories on shared stores under injected pauses and signals; the event logs are checked offline for overlapping locks, double production and linearizability (Wing-Gong search per key)",
  "The verdict per recorded history is exact; the interleavings are the ones that occurred (counted in the evidence), not all. Signals interrupt lock waits; producers fail by error and by panic."),
"C05": (F, "fault injection: an LD_PRELOAD shim kills the process before each of its file-system calls in turn (optionally tearing the write) or makes the call fail; an oracle compares every store entry with the set of values the interrupted history allows, then uses every key again",
  "Exhaustive over the kill points of each executed script (long HTTP scripts are sampled), also crash after crash on one store; scripts are random. Process death only, not power loss."),
"C06": (X, "runtime monitor: hostile hash texts used as keys of the real stores and through real index pages, deep inside a scratch tree whose inventory outside the store must not change; entries hold unique values so that sharing shows",
  "Exact verdict per executed text; sampled text space concentrated on path tricks, near-equal digests and odd lengths."),
"C07": (X, "runtime monitor: recorded request/response histories against a live local origin server, judged by an online RFC 9111 freshness/validation monitor over the real HTTP cache; fault injection on the transport",
  "Every response the server gives carries a unique body, so each answer the client gets identifies the response it came from; the monitor decides whether that response may still be used (age, validators, Vary, no-store, no-cache, completeness). Sampled histories; heuristic freshness is left to the implementation. One known finding (ureq accepts a connection cut inside a chunk)."),
"C08": (X, "runtime monitor: byte-level model of the remote file run in lockstep with the real lazy reader over a local HTTP server with many range behaviours, plus an online count of the bytes and ranges fetched",
  "Every read/seek result is compared with the complete file; servers cover honest ranges, no ranges, contradictory or truncated Content-Range, changed files, and cut connections. Sampled operation sequences, dense around the fetch-window boundaries."),
"C09": (X, "runtime monitor: differential oracle (independent PEP 440 reference) over generated specifier/version pairs, executed on the real parser, matcher and interval code",
  "Every executed case is decided exactly by an independent PEP 440 implementation (itself cross-checked against pypa/packaging on 60,000 cases); coverage is sampled, dense around the boundaries of each specifier. Trusts the reference."),
"C10": (X, "runtime monitor: order-law and differential oracle over generated versions, executed on the real Version type",
  "Exact verdict per executed pair/triple; sampled input space concentrated on near neighbours. Trusts the reference ordering (cross-checked against pypa/packaging)."),
"C11": (X, "runtime monitor: differential oracle (independent PEP 508 marker parser and evaluator) over generated marker expressions and environments, executed on the real parser and evaluator",
  "Exact verdict per executed (expression, environment) pair; sampled input space including mutated and malformed expressions. Trusts the reference (cross-checked against pypa/packaging); '===' and a few ambiguous spellings are left out."),
"C12": (X, "runtime monitor: print/parse and serialise/deserialise round-trip oracle over generated values of every vocabulary type",
  "Every generated value that posy accepts must read back equal and with the same meaning (probe evaluations); sampled value space."),
"C13": (X, "runtime monitor: differential oracle (PEP 503 normal form) over generated name pairs, observed through Eq, Hash, Ord, artifact names, dist-info directories and real index lookups over HTTP",
  "Exact verdict per generated pair/lookup; sampled name space concentrated on separator runs and case."),
"C14": (X, "runtime monitor: every blueprint the real resolver returns for a generated package universe (served to it as a real index) is checked against an independent model of what the requirements, markers, extras, requires-python and file hashes demand",
  "Exact verdict per blueprint, also when resolving again with the blueprint as a hint, and after a round trip through its file format. Universes are sampled: up to 8 packages, adversarial constraints, odd names, locals, epochs, pre-releases, several indexes."),
"C15": (X, "runtime monitor: the outcome of the real resolver on generated package universes compared with an exhaustive search for a solution",
  "The exhaustive search decides each universe exactly (universes over its step limit are skipped and counted); panics, hangs, wrong refusals and solutions of unsolvable universes are reported. The interpreter is chosen first, as posy does; solvability is for that interpreter."),
"C16": (X, "runtime monitor: preference oracle over resolutions of generated universes and of edited copies of them (new releases, yanks, changed pins), on the real resolver",
  "Newest-first is judged by single-package replacement (a newer eligible version that satisfies everything chosen must not exist), pin stability by resolving again with the previous blueprint. What replaces an unusable pin is left open."),
"C17": (X, "runtime monitor: reference model of the platform tag tables compared with the real ones, and real environments built from generated sets of wheels and interpreters; what was installed is compared with the model's choice",
  "Tag tables are compared for every known core platform exactly (both directions); the selection is sampled, in any index order, with yanked, unhashed and incompatible competitors."),
"C18": (X, "runtime monitor: blueprints resolved from a generated index are installed by the real code after the index has been edited; an oracle over the inventories and provenance of everything installed (files carry markers) and over the reported failures",
  "Every file in the environment must come from an artifact whose hash is pinned for its package and version; failures are required when nothing pinned and compatible is on offer or the metadata differs. Sampled edits (added, removed, replaced, re-hashed, unhashed, yanked files; wheels and sdists, cached or not). Order and spelling of equal metadata and the build environments of sdists are not judged here."),
"C19": (X, "runtime monitor: environments installed from generated wheels are entered and their programs really run; what each program reports about itself (arguments, stdin, interpreter, sys.path, importable packages, __main__) and its exit status are compared with what the wheels declare",
  "Exact verdict per run program. Generated entry points, scripts (also with encodings, future imports, shebang variants), namespace packages, .pth files, pybi layouts, odd install locations; also with user site-packages and PYTHON* lures. One interpreter (the system's Python 3.12) behind the generated pybis. One known finding."),
"C20": (X, "runtime monitor: scripted PEP 517 backends log what they see (working directory, sys.path, installed packages, arguments, leftovers) while the real code builds generated graphs of source packages in histories of repeated, concurrent (with injected delays), failing and killed processes; an oracle judges every call and every outcome",
  "Exact verdict per backend call and per outcome (loops, failures, contents). Backends really run in Python subprocesses; faults are scripted per hook and call (raise, exit, kill, wrong answers, before or after the output is there). Builds are also interrupted (killed, torn writes, failing calls) before their n-th change to the files, in the backend's process and in posy's, and asked for again. Sampled. One known finding: mutual builds in two processes."),
"C21": (X, "runtime monitor: real index-page parsing and PackageDB lookups against a local HTTP server, compared with the anchor list the page generator intended",
  "The generator knows every link it wrote (resolved URL, hash, requires-python, yanked state), so each page has an exact expected answer; hostile pages are only required not to panic or mix attributes. Sampled page space."),
"C22": (X, "runtime monitor: the real parsers (and whole HTTP responses) run in supervised child processes on an 8 MiB stack; panics, deaths, hangs and superlinear CPU growth are detected",
  "Mutation and grammar-based inputs for 17 parsers, ~150 growth families, raw hostile HTTP answers. Time is judged only by growth (two successive doublings that each more than triple CPU time). Three known findings, all inside dependencies."),
"C23": (X, "runtime monitor: differential oracle (a live Python email.parser process plus the mandatory-field rules) over generated metadata files, executed on the real readers, also from inside wheels",
  "Exact comparison of fields, body and extracted values per generated file; files that email.parser itself calls defective are only required not to panic. Sampled input space."),
"C24": (X, "runtime monitor with fault injection: an LD_PRELOAD shim kills installers at chosen C library calls, makes calls fail (ENOSPC, EIO, EMFILE, EINTR, ...) or delays them, the server withholds or cuts files; full inventories after every step of a history are compared with two undisturbed reference installations, and finished directories with their first snapshot (content, mode, inode, mtime)",
  "Exact verdict per step. Kill and fault points are sampled over the whole installation by kind of call, with torn writes; concurrent processes and threads, shared and separate caches, forests and build stores. SIGKILL only: the page cache survives."),
"C25": (X, "runtime monitor: the server-side trace of attempts (what was answered, when) checked against the client's final result by a trace oracle; failures scripted per attempt",
  "Statuses, hang-ups, refused connections, a stall, redirects in between; every entry point that makes requests. The retry budget is read from the documented table (five retries)."),
"C26": (X, "runtime monitor: metadata answered by the real package database in histories over changing indexes, servers and cache directories, compared with the metadata the generator put into each file (told apart by markers)",
  "Exact verdict per query; routes covered: lazy ranges, whole files, caches (also corrupted or shared between kinds of files), built sdists; servers are honest about contents here. Sampled histories."),
}
NOT_APPLICABLE = {}
