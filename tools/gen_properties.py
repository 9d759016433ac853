#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept in one readable place)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))
HOOK = "re-export only (cfg posy_verif): posy is a binary crate, so its public items must be made reachable from a harness"

prop("C01", "Unpacking an archive never touches anything outside its destination",
 "Whatever bytes an archive contains (zip or tar.gz; member names with .., absolute paths, backslashes, drive letters or NULs; symlinks, symlink chains, hardlinks, devices; duplicate or conflicting members), unpacking it as a pybi, wheel or sdist creates, changes, deletes or follows nothing outside the destination directory. No symlink that unpacking leaves behind resolves to a place outside the destination, and unpacking never overwrites a file that an earlier member of the same archive wrote. Archives that break these rules are refused with an error, not a panic.",
 ["inputs"], "Every archive: all member names, kinds, orders and combinations, including several members that only escape together.",
 "No existing test unpacks a hostile archive: the only tests are on the path normaliser (a handful of strings). Escapes need particular combinations and orders of members.",
 ["src/tree.rs", "src/vocab/artifact_formats.rs", "src/trampolines/mod.rs"],
 [("NicePathBuf / NiceSymlinkPaths lexical checks", "src/tree.rs"), ("create_new writes, symlinks written last and longest source first", "src/tree.rs unpack_zip_carefully, unpack_tar_gz_carefully, WriteTreeFS"), ("wheel path mapping", "src/vocab/artifact_formats.rs Wheel::unpack")],
 observe=["the real filesystem around the destination (canaries, inventory before/after)", "readlink/realpath of every symlink left behind"], hook=HOOK)

prop("C02", "Unpacking reproduces a well-formed archive exactly, in the right layout",
 "Unpacking any well-formed wheel puts each member exactly once where the wheel format says (archive root to purelib or platlib as Root-Is-Purelib says, NAME-VERSION.data/{purelib,platlib,scripts,data}/... to those directories), with byte-identical contents, INSTALLER naming posy, scripts executable, and '#!python' scripts and console/gui entry points turned into launchers; pybis and sdists are reproduced with identical names, bytes, executable bits and relative symlinks. The result does not depend on the order of the members in the archive, on compression, or on explicit directory members being present or not. A wheel whose metadata is inconsistent with its file name, or whose format version is unsupported, is refused.",
 ["inputs"], "Every well-formed archive, in every member order, with and without directory entries, stored or deflated.",
 "The tests never unpack a wheel, pybi or sdist to disk.",
 ["src/tree.rs", "src/vocab/artifact_formats.rs", "src/trampolines/mod.rs"],
 [("Wheel::unpack transform, script rewriting, entry points", "src/vocab/artifact_formats.rs"), ("WriteTreeFS", "src/tree.rs")],
 observe=["the unpacked directory tree compared with a reference model of the archive"], hook=HOOK)

prop("C03", "Downloaded artifacts always match the expected hash or fail",
 "Whatever a server or network sends for an artifact with a known hash (flipped, missing, extra, truncated or swapped bytes, error pages, redirects, dropped connections, wrong lengths, compressed encodings), what the caller receives are bytes with exactly that hash, or an error. Nothing that fails verification or was cut short ever enters the by-hash cache, so a later fetch with a good server succeeds, and a verified artifact is later served identically without asking the network again.",
 ["inputs", "fault_sequences", "histories"], "Every transport fault or corruption at every byte position, every hash, every sequence of faulty and good fetches.",
 "The hash checker is tested on a single value; no test exercises the download path with a corrupting or dying server.",
 ["src/package_db/http/http.rs", "src/vocab/artifact_hash.rs", "src/kvstore.rs"],
 [("HashChecker::finish inside get_or_set", "src/vocab/artifact_hash.rs, src/package_db/http/http.rs get_hashed"), ("temporary file persisted only on success", "src/kvstore.rs")],
 observe=["bytes returned to the caller, requests seen by the server, files in the by-hash store"], hook=HOOK)

prop("C04", "Concurrent store users see each entry written once and never partially",
 "When any number of threads and processes use the same on-disk store at the same time, holders of one key's lock never overlap, the producer of a get-or-set entry runs to success at most once per entry, and every reader of that key gets the complete bytes or directory tree of a completed write, never a mixture or a prefix. Replacing a file entry never disturbs readers that already opened the old one, an unsuccessful producer leaves the key absent so that a later attempt can succeed, and different keys never share an entry.",
 ["schedules", "histories"], "All interleavings of get, get-or-set, lock, replace and remove by threads and processes on the same and on different keys, with producers that fail, panic or stall.",
 "The store's own comment says 'seriously need some tests that validate the locking'; the three existing tests are single-threaded.",
 ["src/kvstore.rs"],
 [("flock on a per-key lock file", "src/kvstore.rs lock"), ("write to tmp then rename", "src/kvstore.rs LockedWrite::commit, KVDirStore::get_or_set")],
 observe=["call/return history of each client with unique values per write, checked offline", "directory trees returned"], hook=HOOK)

prop("C05", "A crash at any point leaves the store usable and without partial entries",
 "If the process is killed at any instant while it reads, fills, replaces or removes entries of an on-disk store, or one of its file-system calls fails (I/O error, full disk, too many open files, no permission), then afterwards every key is either absent, or holds the complete value of some write that was begun for it, and once a write has been reported complete its value (or a later one) is still there. The next process can lock, read and fill every key without manual clean-up.",
 ["crash_points"], "A kill at, or a failure of, every system call of a fill, replace or remove, and kills at random instants of a concurrent workload.",
 "No test kills anything; the guarantee is about every point of the write protocol.",
 ["src/kvstore.rs"],
 [("sync_data and atomic rename into place", "src/kvstore.rs LockedWrite::commit"), ("directory renamed into place from tmp", "src/kvstore.rs KVDirStore::get_or_set"), ("flock released by the kernel on death", "src/kvstore.rs lock")],
 observe=["store contents after SIGKILL injected before each file-system call, and after the failure of each call"], hook=HOOK)

prop("C06", "Index-supplied hashes cannot make posy write outside its stores, nor crash it",
 "Whatever hash fragment a package index page attaches to a file URL (any algorithm name, including path separators, '..', absolute paths or empty text; any digest length or text), using that file's hash as a cache or store key only ever creates files below the store's own directory, and never panics. Distinct hashes never share a store entry, and hashes that posy cannot verify are refused or ignored before any file content is accepted under them.",
 ["inputs"], "Every '#algo=digest' fragment an index or a lock file can supply.",
 "Existing tests only use well-formed sha256 fragments.",
 ["src/vocab/artifact_hash.rs", "src/kvstore.rs", "src/package_db/simple_api/project_info.rs"],
 [("ArtifactHash::from_url / from_hex", "src/vocab/artifact_hash.rs"), ("PathKey for ArtifactHash", "src/kvstore.rs")],
 observe=["file-system inventory outside the store, unwinding caught at the API boundary"], hook=HOOK)

prop("C07", "The HTTP cache never changes what a caller would correctly receive",
 "For any history of responses (with any combination of max-age, ETag, Last-Modified, Vary, no-store, no-cache, redirects, errors and empty bodies) every request that succeeds returns the exact status and body bytes of one response the server gave for that URL and that may still be used: within its freshness lifetime without contacting the server, otherwise revalidated with the stored validators, where a 304 keeps the stored body and anything else replaces it. Responses marked no-store are never stored, a cache-only request never contacts the server and reports 'not cached' when it cannot be answered, and a no-store request neither reads nor writes the cache. At most five redirects are followed in a row, and cached bodies behave as seekable files: any pattern of seeks and reads gives the same bytes as the original body.",
 ["histories", "inputs"], "Every sequence of requests in every cache mode against every sequence of server responses and headers.",
 "Two tests exercise a handful of fixed scenarios; cache correctness is about histories and header combinations.",
 ["src/package_db/http/http.rs", "src/package_db/http/ureq_glue.rs", "src/seek_slice.rs"],
 [("CachePolicy before_request/after_response", "src/package_db/http/http.rs one_request"), ("redirect loop", "src/package_db/http/http.rs request"), ("SeekSlice window over the cache file", "src/seek_slice.rs")],
 state=[("http cache entry", "serialized policy followed by the body", "src/package_db/http/http.rs fill_cache, read_cache")],
 observe=["server-side event log versus client-side results"], hook=HOOK)

prop("C08", "Reading a remote file lazily gives exactly the bytes of the full file",
 "For any remote file and any sequence of seeks and reads, a file opened lazily over HTTP range requests yields the same bytes, positions and end of file as the complete file, fetching no more than it needs rather than the whole file when the server supports ranges. If the server does not support ranges, posy falls back to fetching the whole file with the same results; if the server answers ranges with the wrong offset, wrong length, truncated or missing data, the reader gets an error, never wrong bytes, an endless loop or a panic.",
 ["inputs", "histories", "fault_sequences"], "Every file length, read/seek pattern and server behaviour.",
 "The existing lazy-file test needs a specific well-behaved server and a few reads; misbehaving servers are not covered.",
 ["src/package_db/http/lazy_remote_file.rs", "src/package_db/http/http.rs"],
 [("loaded-interval bookkeeping and Content-Range parsing", "src/package_db/http/lazy_remote_file.rs"), ("fallback on LazyRemoteFileNotSupported", "src/package_db/http/http.rs get_lazy")],
 observe=["bytes and positions versus an in-memory model; requests seen by the server"], hook=HOOK)

prop("C09", "Version specifiers select exactly the versions PEP 440 says",
 "For every specifier set and every version, posy accepts the version exactly when PEP 440 does: ==, !=, <=, >=, <, >, ~= with and without .* wildcards, epochs, pre/post/dev releases and local versions. The interval form used by the resolver agrees with the direct test on every version, and text that is not a valid specifier (or uses the unsupported ===) is rejected with an error rather than a panic, whatever the size of its numbers.",
 ["inputs"], "All pairs of specifier sets and versions.",
 "Tests sample a few dozen pairs; the interval arithmetic (next version, zero, infinity, local parts) has boundary cases no sample covers.",
 ["src/vocab/specifier.rs", "src/vocab/version.rs", "src/vocab/reqparse.rs"],
 [("CompareOp::to_ranges", "src/vocab/specifier.rs"), ("Version::next and VERSION_ZERO/INFINITY", "src/vocab/version.rs")],
 observe=["accept/reject decisions versus a reference PEP 440 implementation"], hook=HOOK)

prop("C10", "Versions form a total order consistent with equality and hashing",
 "Version comparison is a total order that agrees with PEP 440 (epoch, release with trailing zeros ignored, dev < pre < final < post, local versions last), versions that compare equal are equal and hash alike whatever their spelling, and parsing what posy prints gives an equal version. The successor of a version used for interval bounds is strictly greater than it, with no other public version in between.",
 ["inputs"], "All pairs and triples of versions, in all spellings PEP 440 allows.",
 "Ordering is inherited from a library and extended with sentinel values; tests compare a few pairs.",
 ["src/vocab/version.rs"],
 [("Version newtype, Ord/Hash, next(), pubgrub Version impl", "src/vocab/version.rs")],
 observe=["comparison, equality and hash results versus a reference implementation"], hook=HOOK)

prop("C11", "Environment markers evaluate as PEP 508 says",
 "For every marker expression and environment, posy's evaluation gives the value PEP 508 defines: version comparison where both sides are versions, plain string comparison otherwise, in and not in, either operand order, and/or precedence and parentheses. Extra names are compared after normalisation, a variable the environment does not define is an error when evaluation reaches it instead of a silent value, and parsing accepts exactly the well-formed expressions.",
 ["inputs"], "All marker expressions and environments.",
 "Tests sample a few expressions.",
 ["src/vocab/requirement.rs", "src/vocab/reqparse.rs", "src/vocab/extra.rs"],
 [("marker::EnvMarkerExpr::eval", "src/vocab/requirement.rs"), ("marker grammar", "src/vocab/reqparse.rs")],
 observe=["evaluation result versus a reference evaluator"], hook=HOOK)

prop("C12", "Saved text and lock files read back to the same value",
 "Any requirement, specifier set, marker, version, package name, extra, hash or artifact file name that posy accepts can be printed and parsed again to an equal value with the same meaning. Any brief or blueprint serialised to JSON can be read back to an equal one, whatever requirements, markers, extras, empty fields and pre-release settings it contains.",
 ["inputs"], "All values of those types.",
 "Tests only check a few hand-picked requirement strings and never reload a brief or a blueprint.",
 ["src/vocab/requirement.rs", "src/vocab/specifier.rs", "src/vocab/artifact_name.rs", "src/vocab/artifact_hash.rs", "src/resolve.rs"],
 [("Display / FromStr pairs", "src/vocab/*.rs"), ("Serialize / Deserialize of Brief and Blueprint", "src/resolve.rs")],
 observe=["parse(print(x)) == x and semantic probes"], hook=HOOK)

prop("C13", "Different spellings of a package name always denote the same package",
 "Two package names (or two extra names) are treated as the same exactly when their PEP 503 normal forms are equal: runs of '-', '_' and '.' and letter case never matter, and nothing else is conflated. This holds for equality, hashing, ordering, index lookups, wheel and sdist file names, dist-info directories and requirement matching, while the spelling the user gave is kept for display.",
 ["inputs"], "All pairs of valid names, in all the places names are compared.",
 "Tests try a handful of names, none with runs of mixed separators.",
 ["src/vocab/package_name.rs", "src/vocab/extra.rs", "src/vocab/artifact_name.rs", "src/vocab/artifact_formats.rs"],
 [("PackageName normalisation; Eq/Hash/Ord on normalized only", "src/vocab/package_name.rs")],
 observe=["equality, hash, URL path requested, dist-info lookup"], hook=HOOK)

prop("C14", "A resolved blueprint satisfies every requirement it is subject to",
 "Every blueprint that resolution returns is a consistent solution: every top-level requirement, and every dependency of every chosen release including those of the extras that were asked for, whose marker holds for the chosen interpreter, is satisfied by exactly one pinned version of that package, and nothing unrelated is pinned. The interpreter and each chosen release satisfy the requires-python and python constraints, each pin carries the hashes of exactly that release's files on the index, and each recorded marker has the value it has for that interpreter.",
 ["inputs", "configurations"], "All package universes (index contents, metadata, extras, markers, requires-python) and all briefs.",
 "No existing test resolves anything.",
 ["src/resolve.rs", "src/package_db/package_db.rs"],
 [("PubgrubState dependency provider", "src/resolve.rs"), ("pinned()", "src/resolve.rs")],
 observe=["the returned Blueprint checked against the generated universe"], hook=HOOK)

prop("C15", "If a solution exists, resolution finds one; if none exists, it says so",
 "For any brief and any index contents with well-formed metadata, resolution terminates, and it returns a blueprint whenever some choice of eligible versions satisfies all requirements for the chosen interpreter, and an error whenever none does. It never fails, loops or panics because a package is missing, has cyclic dependencies, names the same dependency several times, or has unusable versions that another choice avoids.",
 ["inputs", "configurations"], "All package universes and briefs.",
 "No existing test resolves anything; incompleteness shows only for particular combinations of constraints.",
 ["src/resolve.rs"],
 [("requirements to pubgrub constraints, get_dependencies, choose_package_version", "src/resolve.rs")],
 observe=["success/failure compared with exhaustive search over a small universe"], hook=HOOK)

prop("C16", "Resolution prefers the newest usable versions, or the ones already pinned",
 "Without existing pins, posy chooses for the interpreter and for each package it must pick freely the newest version that is allowed: pre-releases only if the user opted in for that package (or for all), or if the package has nothing but pre-releases; yanked files only if an existing pin names their hash; files whose requires-python excludes the interpreter never. With existing pins, every pin that is still usable is kept, so resolving again with the previous blueprint and an unchanged index gives the same pins, and new releases on the index do not move them.",
 ["inputs", "histories", "configurations"], "All version sets, yank and pre-release mixtures, briefs and previous blueprints.",
 "No existing test resolves anything or re-resolves with pins.",
 ["src/resolve.rs", "src/package_db/package_db.rs"],
 [("fetch_and_sort_versions", "src/resolve.rs"), ("VersionHints", "src/resolve.rs")],
 observe=["chosen versions versus the reference preference order"], hook=HOOK)

prop("C17", "Only compatible artifacts are chosen, and the most preferred one wins",
 "A wheel or interpreter is selected for a platform only if one of its tags (compressed tag sets expanded) is supported by that platform, the sets of supported tags follow the platform rules (manylinux and musllinux: same architecture and glibc/musl version not newer; legacy manylinux aliases; macOS: same or older versions, single-architecture and universal2/fat binaries on the architectures they contain; Windows exact), and of several compatible artifacts of a pinned release the one whose best tag ranks highest in the platform's preference order is installed, whatever their order on the index. Earlier platforms in the list are preferred over later ones.",
 ["inputs", "configurations"], "All tag sets, platforms and artifact lists, in any order.",
 "Tests expand a few tags and never select among several artifacts.",
 ["src/platform_tags/expand.rs", "src/platform_tags/platform.rs", "src/env.rs", "src/resolve.rs"],
 [("expand_platform_tag and PybiPlatform/WheelPlatform scores", "src/platform_tags"), ("pick_pinned_binary, pick_best_pybi", "src/env.rs, src/resolve.rs")],
 observe=["compatibility scores versus a reference model; which artifact URL the server is asked for and which content is installed"], hook=HOOK)

prop("C18", "Only content pinned in the blueprint is ever installed",
 "Installing a blueprint only installs interpreter and package files whose hash is among the hashes pinned for that package and version, whether the file is a wheel or an sdist that has to be built, no matter what the index offers at install time. If no pinned, compatible file is available, or the metadata of what would be installed differs from the metadata recorded in the blueprint (dependencies, requires-python, extras), installation fails instead of producing an environment.",
 ["inputs", "histories"], "All index contents at install time versus all blueprints made earlier, including files added, removed, replaced or re-hashed in between.",
 "No existing test installs a blueprint.",
 ["src/env.rs", "src/resolve.rs"],
 [("pick_pinned_binary hash check", "src/env.rs"), ("metadata mismatch check", "src/env.rs get_env")],
 observe=["success or failure of get_env and the content installed, versus the set of pinned hashes"], hook=HOOK)

prop("C19", "Installed environments run what their packages declare",
 "In an installed environment, the interpreter of the blueprint runs with exactly the pinned packages importable (and neither user nor foreign site packages promised by them), and every console or gui entry point and every '#!python' script of every installed wheel is an executable on the environment's PATH that runs the declared object with that interpreter, passes its arguments and returns its exit status. Parsing entry_points.txt accepts exactly the declared scripts, extras stripped, whatever the spacing, comments and other sections.",
 ["inputs", "configurations"], "All entry-point files, script bodies, argument lists and install locations (including paths with spaces or long paths).",
 "Tests parse a few entry-point files; launchers are never executed.",
 ["src/env.rs", "src/trampolines/mod.rs", "src/vocab/entry_points.rs", "src/data-files/sitecustomize.py", "src/vocab/artifact_formats.rs"],
 [("TrampolineMaker", "src/trampolines/mod.rs"), ("Env::env_vars", "src/env.rs"), ("parse_entry_points", "src/vocab/entry_points.rs")],
 observe=["stdout, argv, exit status and sys.path of launched programs"], hook=HOOK)

prop("C20", "Source packages are built in isolation, once, and without build loops",
 "When a release has no usable wheel, posy builds one from its sdist following PEP 517/518: in a fresh environment containing exactly the declared build requirements plus those the backend asks for, calling the declared backend (or the setuptools fallback) with the sdist as working directory, and using the metadata hook's result or, lacking it, the wheel's own. The build runs on an interpreter for this machine: the very version the wheel is for, else the newest of the same minor version, else the newest; a wheel that does not suit the environment it was built for, a source without exactly one top-level directory and a malformed pyproject.toml or build requirement are errors. A package that needs itself to be built, directly or through others, is reported as an error rather than recursing for ever, a failing backend is reported as an error and leaves nothing half-built that a later attempt would use, wherever the backend or posy was interrupted, and a wheel that has been built is reused instead of being built again.",
 ["inputs", "histories", "fault_sequences"], "All backend configurations, dependency graphs among build requirements, and failure points.",
 "No existing test builds an sdist.",
 ["src/package_db/build_wheel.rs", "src/package_db/data-files/build-frontend.py", "src/env.rs"],
 [("WheelBuilder, build_stack", "src/package_db/build_wheel.rs"), ("build-frontend.py hook protocol", "src/package_db/data-files/build-frontend.py")],
 observe=["log written by an instrumented backend: hook, cwd, sys.path, config; number of invocations"], hook=HOOK)

prop("C21", "Index pages are read completely and correctly, and degrade safely",
 "From any HTML index page (PEP 503/592/629, arbitrary markup around the links, relative URLs, base elements, entities, percent escapes), posy extracts for each anchor that names a recognisable file of that project its resolved URL, hash, requires-python and yanked state exactly as given, groups files by version, and ignores anchors it does not understand. Each lookup gives the page as the index serves it at that time, even where an earlier answer is still in the HTTP cache. A missing project is treated as having no files, pages with an unsupported major repository version are refused, and no page content makes it panic or attach one file's attributes to another.",
 ["inputs"], "All index pages.",
 "One snapshot test on a small page.",
 ["src/package_db/simple_api/html.rs", "src/package_db/simple_api/project_info.rs", "src/package_db/simple_api/fetch.rs"],
 [("html5ever token sink", "src/package_db/simple_api/html.rs"), ("pack_by_version", "src/package_db/simple_api/project_info.rs")],
 observe=["parsed ProjectInfo versus the generator's model of the page"], hook=HOOK)

prop("C22", "No external text makes posy panic, hang or exhaust its stack",
 "Any text or bytes that come from outside (requirements, markers, specifiers, versions, names, file names, hashes, METADATA and WHEEL files, entry points, index pages, JSON blueprints, HTTP header values) are either parsed or rejected with an error, in time roughly proportional to their size, without panicking, overflowing or looping.",
 ["inputs"], "All byte strings.",
 "Tests feed well-formed inputs and a short list of malformed ones.",
 ["src/vocab", "src/platform_tags/expand.rs", "src/package_db/simple_api/html.rs", "src/package_db/http/lazy_remote_file.rs"],
 [("Result-returning parsers", "src/vocab/*.rs")],
 observe=["unwinding caught at the API boundary; time per input"], hook=HOOK)

prop("C23", "Core metadata is read as the packaging standards define it",
 "For any METADATA, WHEEL or pybi metadata file in email-header format (folded lines, CRLF or LF, repeated and differently-cased field names, bodies, non-ASCII text), posy reads the same field names, values and body as the standard reader, and extracts name, version, every Requires-Dist, Requires-Python and Provides-Extra. Files with missing or contradictory mandatory fields or an unsupported major Metadata-Version are refused, while unknown fields and newer minor versions are accepted.",
 ["inputs"], "All metadata files.",
 "A few snapshot tests on small files.",
 ["src/vocab/rfc822ish.rs", "src/vocab/core_metadata.rs"],
 [("RFC822ish parser", "src/vocab/rfc822ish.rs"), ("TryFrom<&[u8]> for the metadata types", "src/vocab/core_metadata.rs")],
 observe=["parsed fields versus the generator's model (and Python's email parser)"], hook=HOOK)

prop("C24", "Installing is idempotent, concurrent-safe and recovers from interruption",
 "Installing the same blueprint again, from several processes at once, or after an earlier attempt failed or was killed at any point, gives the same environment as a single undisturbed installation: same files, same contents, same variables. A finished environment is never modified by later installs, and an interrupted or failed install never leaves a partially unpacked package or interpreter that a later install or another process would use.",
 ["schedules", "crash_points", "fault_sequences", "histories"], "All interleavings of installers and all kill points and transport faults during an install.",
 "No existing test installs anything.",
 ["src/env.rs", "src/kvstore.rs", "src/package_db/package_db.rs"],
 [("per-hash directories filled in tmp and renamed", "src/kvstore.rs, src/env.rs get_env")],
 observe=["full inventories (path, type, mode, content hash) of the forest after each history"], hook=HOOK)

prop("C25", "Transient HTTP failures are retried a bounded number of times, others are not",
 "A request whose failure is transient (connection errors, or the gateway and overload statuses posy treats as retryable) is retried with pauses and succeeds if the server recovers within the retry budget, returning the recovered response only. The number of attempts is bounded, so a permanently failing server yields that failure instead of an endless loop, and responses that are not transient (success, redirects, 4xx) are never retried.",
 ["fault_sequences"], "All sequences of failures and responses.",
 "No existing test makes a server fail.",
 ["src/package_db/http/ureq_glue.rs"],
 [("retry loop", "src/package_db/http/ureq_glue.rs")],
 observe=["server-side count and timing of attempts versus the client's result"], hook=HOOK)

prop("C26", "Metadata used for resolving is the metadata of the artifact itself",
 "The metadata posy reports for a release equals the metadata contained in one of that release's files, by whichever route it was obtained: read lazily over the network, from a fully downloaded file, from the metadata cache, or by building the sdist. Repeated queries in the same or later runs with the same cache give equal metadata, and cached metadata is only ever used for the file (by hash) it came from.",
 ["histories", "configurations"], "All artifacts, server capabilities and cache histories.",
 "No existing test queries metadata through the package database.",
 ["src/package_db/package_db.rs", "src/vocab/artifact_formats.rs"],
 [("get_metadata route selection and caching by hash", "src/package_db/package_db.rs")],
 observe=["returned metadata versus the generator's; requests seen by the server"], hook=HOOK)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
