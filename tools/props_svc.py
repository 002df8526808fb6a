"""Properties of symbolicator-service (monitored by svc/svcmon)."""
SV = "crates/symbolicator-service/src/"
CA = SV + "caching/"


def extend(prop, NOT_APPLICABLE, NA_RECS, MECH):
    def svc(*a, **k):
        k.setdefault("builds", ("svc",))
        k.setdefault("grace", 240)
        prop(*a, **k)

    svc("C30", "Concurrent requests for one cache item share one computation",
        "However many requests ask for the same cache item at the same time, at most one computation of it runs, and once an outcome has been handed out it is reused for as long as it is kept. A requester that goes away or a computation that crashes never fails, blocks or corrupts the answers of others; the next waiting requester takes over. Different items never wait for each other, and no temporary files remain.",
        ["schedules", "histories"],
        "for all interleavings of requests, cancellations and crashing computations, with and without a disk cache",
        "The tests fire one fixed batch of requests; coalescing has to hold under every interleaving, cancellation point and crash.",
        [CA + "memory.rs", CA + "fs.rs"],
        MECH(("in-memory entry coalescing", CA + "memory.rs"), ("computation and storing of items", CA + "memory.rs")),
        "runtime monitor: event log of computations and answers under concurrent stress, cancellation and panics",
        "Held on the interleavings observed (a multi-threaded runtime with random delays). moka, which is not available offline, is replaced by a stand-in with its documented semantics.",
        quick=20, level="exploration", observe=["Cacher::compute_memoized", "CacheItemRequest::compute"])
    svc("C31", "Cached outcomes come back as they were computed",
        "Whatever a computation yields - contents or any kind of error with its message - later requests get back unchanged, from memory, from disk and after a restart, together with the scope and time it was computed for. Internal errors are never written. What is visible under a cache path is always one complete outcome of that item, also while it is written and after the process was killed at any moment.",
        ["inputs", "crash_points", "histories"],
        "for all outcomes, partial outputs before errors, restarts and kill times",
        "The tests store a few literal errors; fidelity across restarts and crashes is a statement about all outcomes and crash points.",
        [CA + "memory.rs", CA + "fs.rs", CA + "cache_error.rs", CA + "metadata.rs"],
        MECH(("error serialisation", CA + "cache_error.rs"), ("atomic persisting", CA + "memory.rs"), ("metadata files", CA + "metadata.rs")),
        "runtime monitor: recorded outcomes compared across restarts, directory scanner, kill -9 fault injection",
        "Contents that begin like an error marker are outside the claim: the on-disk format cannot tell them apart.",
        quick=25, level="fault_enumeration", observe=["Cacher::compute_memoized", "files in the cache directory"])
    svc("C32", "Cache entries live exactly as long as configured",
        "A stored entry is used until the limit configured for its kind has passed and is computed again afterwards: contents by the time since their last use, misses by their age and separately for public and private scopes, malformed entries by their age and never across a restart. A limit of null means unlimited. Using contents renews them, at most hourly, and each cache follows the limits of its category.",
        ["configurations", "histories", "inputs"],
        "for all outcomes, scopes, ages and configured limits, in memory and on disk",
        "The tests try one or two ages against default limits; kinds, scopes, categories and unlimited settings combine freely.",
        [CA + "fs.rs", CA + "memory.rs", CA + "mod.rs", SV + "config.rs"],
        MECH(("expiry computation", CA + "fs.rs"), ("in-memory deadlines", CA + "memory.rs"), ("limits per category", SV + "config.rs")),
        "runtime monitor: lifetime model compared with real lookups of aged entries, and real-time expiry",
        "Ages are set through file times and metadata, with a distance of 25 s to every limit; a few histories wait in real time.",
        quick=25, observe=["Cacher::compute_memoized", "Cache::open_cachefile", "file times"])
    svc("C33", "Cleanup removes exactly the expired entries",
        "A cleanup removes the files of all expired entries with their metadata and the directories this leaves empty, in every cache, and nothing else: entries that are alive, that cannot be examined, or that are being written at the same time keep their contents and metadata. A dry run changes nothing. Requests running at the same time are answered correctly.",
        ["histories", "schedules", "configurations"],
        "for all populations of the caches, configured limits and concurrent requests",
        "The tests clean one small directory; the removal decision, metadata pairing and concurrent requests need many populations.",
        [CA + "cleanup.rs", CA + "fs.rs"],
        MECH(("recursive cleanup", CA + "cleanup.rs"), ("expiry check", CA + "fs.rs")),
        "runtime monitor: directory snapshots against a lifetime model, concurrent cleanup stress, unprivileged cleanup",
        "An expired entry that is replaced in the very moment it is removed may be lost and is computed again; that is outside the claim.",
        quick=25, observe=["cleanup", "cache directory"])
    svc("C35", "Older cache versions serve while they are being replaced",
        "When only an entry of a compatible older version exists, requests are answered from it at once, while one computation in the background replaces it; an entry of the current version always wins, older ones that are expired or incompatible are never used. At most the configured number of such refreshes runs at a time, every slot is given back, also after failures, and after a refresh the older files are gone. Entries lie where the layout of their version says, whatever the release.",
        ["histories", "schedules", "configurations"],
        "for all sets of stored versions, outcomes, concurrent requests and refresh limits",
        "The tests check one fallback and one refresh; order of versions, expiry, failing refreshes and the limit combine freely.",
        [CA + "memory.rs", SV + "caches/versions.rs"],
        MECH(("lookup through versions", CA + "memory.rs"), ("background refresh and its limit", CA + "memory.rs"), ("version lists", SV + "caches/versions.rs")),
        "runtime monitor: model of the documented version lookup, refresh counters and surviving files under stress",
        "Held on the populations and interleavings observed.",
        quick=20, observe=["Cacher::compute_memoized", "cache directory", "max_lazy_refreshes"])
    DL = SV + "download/"
    svc("C37", "A downloaded file is complete and correct, or the download fails",
        "When a download reports success, the destination holds exactly the bytes of the remote file: not truncated, padded or mixed with error pages, earlier attempts, earlier contents of the destination or other parts of the file. This holds however the response is framed, compressed, redirected or split into ranges, and however server, connection or disk misbehave. A file that is served properly is stored.",
        ["inputs", "fault_sequences", "histories"],
        "for all file sizes, ways to serve them and faults of servers, connections and disk, up to three attempts",
        "The tests download a few small files from well-behaved servers; each fault in each phase of plain, redirected and ranged transfers matters.",
        [DL + "mod.rs", DL + "partial.rs", DL + "destination.rs", DL + "http.rs", DL + "gcs.rs", DL + "sentry.rs"],
        MECH(("range requests and their combination", DL + "mod.rs"), ("splitting into ranges", DL + "partial.rs"), ("writing at offsets", DL + "destination.rs")),
        "runtime monitor: scripted faulty server, every stored file compared with what was served",
        "The HTTP client library is not available offline and replaced by a stand-in on real sockets. Truncation that HTTP cannot express (a body ended by closing the connection) is not counted as a fault.",
        quick=30, level="fault_enumeration", observe=["DownloadService::download", "destination file"])
    svc("C47", "Download failures are classified, repeated and bounded as documented",
        "A download reports not-found, permission-denied (with the status or the login page hint), timeout or download-error according to what the server did in the last attempt. Errors that may pass are tried again up to three times with a pause, definite answers are not. Redirects are followed up to ten times, except to suspected login pages. No attempt waits longer for a response than head_timeout and no download longer than max_download_timeout.",
        ["inputs", "fault_sequences", "configurations"],
        "for all status codes, connection faults, redirect chains and sequences of attempts",
        "The tests have one retry and a few status cases; classification depends on the sequence of attempts and on how each one fails.",
        [DL + "mod.rs", SV + "utils/http.rs"],
        MECH(("status classification", DL + "mod.rs"), ("retries", DL + "mod.rs"), ("timeouts and redirects", SV + "utils/http.rs")),
        "runtime monitor: scripted faulty server, result and request log compared with a model of the documented attempts",
        "Held on the sequences observed. TLS errors are only simulated by the stand-in client.",
        quick=30, observe=["DownloadService::download", "requests the server saw"])
    svc("C38", "Internal addresses and untrusted servers are only contacted if allowed",
        "Unless connect_to_reserved_ips is set, downloads from sources configured by users never connect to an address that is not publicly routable - loopback, private, link-local, shared, documentation, multicast, reserved or an IPv6 form of one of these - whatever name, literal address or redirect leads there; Sentry's own and built-in sources are exempt as documented. A server with an invalid certificate only gets requests from sources that accept invalid certificates. Suspected login pages are not followed.",
        ["inputs", "configurations"],
        "for all addresses a name resolves to, redirect chains, source types and settings",
        "The tests look up a handful of addresses; the filter has to hold for every reserved block and every way of getting there.",
        [SV + "utils/http.rs", DL + "mod.rs", DL + "http.rs", "docs/index.md"],
        MECH(("address filter", SV + "utils/http.rs"), ("choice of the client per source", DL + "mod.rs")),
        "runtime monitor: recorded connections, redirects and requests of every download judged against an independent table of reserved blocks",
        "The HTTP client is a stand-in that applies address filter, redirect policy and certificate setting as reqwest documents. The custom endpoint of S3 sources is a known finding.",
        quick=20, observe=["DownloadService::download", "connections", "requests"])
    svc("C39", "Origins are allowed exactly if a pattern says so",
        "A URL is an allowed origin exactly if one of the configured patterns matches it: `*` matches everything; otherwise scheme and port of the pattern, where given, must be those of the URL, the host must be the pattern's, or a subdomain of it for patterns beginning with `*.`, and the path must be the pattern's or continue it. Anything else, in particular lookalike hosts, is refused.",
        ["inputs"],
        "for all patterns and URLs",
        "The tests list some twenty pairs; matching has to hold for every combination of scheme, host, port and path.",
        [SV + "utils/http.rs"],
        MECH(("parsing and matching of origin patterns", SV + "utils/http.rs")),
        "runtime monitor: decisions of the real code compared with an independent matcher on generated pattern/URL pairs",
        "Patterns with both a subdomain wildcard and a port or path are not described and not claimed.",
        quick=15, observe=["is_valid_origin"])
    svc("C40", "Failing hosts are blocked for their time and only they",
        "A host of a custom source that failed the configured number of downloads within the configured window is not contacted again for the block time and refused at once with an error that says so; afterwards it is contacted again. Hosts with fewer failures, failures that left the window, failures that do not count, hosts that are exempt and built-in sources are never blocked, and hosts do not affect each other.",
        ["histories", "configurations", "schedules"],
        "for all histories of downloads, windows, thresholds and block times",
        "The tests drive one host over one threshold; windows, buckets, exemptions and concurrent failures need histories.",
        [DL + "deny_list.rs", DL + "mod.rs", SV + "config.rs"],
        MECH(("failure buckets and blocking", DL + "deny_list.rs"), ("which downloads count", DL + "mod.rs")),
        "runtime monitor: real-time histories of downloads, requests at the server compared with a model of the window",
        "Times are real, with a distance to every limit; results in between are not judged.",
        quick=30, level="exploration", observe=["DownloadService::download", "requests the server saw"])
    svc("C41", "Indexes limit a source to the files they name",
        "A Symstore source with an index offers exactly those files which the complete current index - all segments up to the last one - names, and is not asked for others. While the number of the last segment or any segment cannot be fetched or read it offers nothing; an incomplete index is never kept as a complete one, and after the source has recovered and the failure has expired the index is complete. Segments already fetched are not fetched again; a grown index is picked up.",
        ["inputs", "fault_sequences", "histories"],
        "for all indexes, faults while they are fetched, growth and restarts",
        "The tests fetch one small index once; faults at each segment, growth and restarts need histories.",
        [DL + "index.rs", "crates/symbolicator-sources/src/index.rs", DL + "mod.rs"],
        MECH(("fetching and combining segments", DL + "index.rs"), ("index parsing and storage", "crates/symbolicator-sources/src/index.rs")),
        "runtime monitor: scripted faulty server over restarts, listed files and requested segments compared with a model",
        "The 24 hour life of the last number in memory is crossed by restarts only.",
        quick=20, level="fault_enumeration", observe=["SourceIndexService", "list_files", "requests the server saw"])
    svc("C42", "Sentry's files are listed as Sentry answers",
        "Sentry is asked once per query, by debug id or else by code id, with the token of the source; the files offered are exactly those of the answer whose type is wanted, each for the source that was asked. Without an identifier nothing is asked. Answers are reused for their configured time for the same address, query and token only; failures are tried again and never kept; a failing source does not affect the files of others.",
        ["inputs", "histories", "fault_sequences"],
        "for all identifiers, answers, faults, tokens and file types",
        "No test covers the listing; types, cache keys and failures combine freely.",
        [DL + "sentry.rs", DL + "mod.rs"],
        MECH(("query and its cache", DL + "sentry.rs"), ("type filter", DL + "sentry.rs")),
        "runtime monitor: scripted Sentry API, listings and requests compared with a model",
        "moka is a stand-in with the documented semantics.",
        quick=20, observe=["list_files", "requests the server saw"])
    svc("C43", "Compressed downloads yield exactly their contents",
        "A fetched file compressed with zstd, gzip, zlib, as cabinet or as zip archive of a single file is replaced by its contents, completely, unchanged and one layer deep. Truncated or unreadable archives and archives of several files are malformed, never partially accepted. Everything else comes through unchanged, whatever its first bytes resemble. No temporary files stay behind.",
        ["inputs", "fault_sequences"],
        "for all contents, formats, members, truncations and damage",
        "No test feeds truncated or multi-member streams; acceptance of partial data only shows for particular cuts.",
        [DL + "compression.rs", DL + "fetch_file.rs"],
        MECH(("format detection and decompression", DL + "compression.rs"), ("error mapping", DL + "fetch_file.rs")),
        "runtime monitor: fetched files compared with generated originals, truncated and damaged archives",
        "cabextract is not installed; a script with its interface stands in. zlib streams are those with the recognised headers.",
        quick=15, observe=["fetch_file"])
    svc("C48", "Credentials go exactly where they belong",
        "Every request for a file carries the credentials and headers configured for its source - headers of HTTP sources, the bearer token of Sentry unless the file is fetched without, keys of S3, an access token obtained with the very key of the GCS source - and no credential of a source ever reaches another source, also when sources share an id. Access tokens are obtained once and reused while valid, never after a failure to get one.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "for all sets of sources with equal or different ids and keys, concurrent downloads and token failures",
        "The tests have no two sources at once; mixing up credentials needs several sources sharing caches of clients and tokens.",
        [DL + "gcs.rs", DL + "s3.rs", DL + "http.rs", DL + "sentry.rs", SV + "utils/gcs.rs"],
        MECH(("token cache", DL + "gcs.rs"), ("client cache", DL + "s3.rs"), ("headers", DL + "http.rs")),
        "runtime monitor: every request recorded by the server checked against the secrets of all sources",
        "HTTP client, AWS SDK and JWT signing are stand-ins; signatures themselves are not examined.",
        quick=20, observe=["DownloadService::download", "requests the server saw"])
    svc("C34", "Scopes are isolated from each other",
        "What a request gets for files of non-public sources depends only on what its own scope may see: it never receives data, features, candidates or source files that only another scope's credentials gave access to, nor another scope's failures, even if both use sources with the same id and address, at the same time, or after a restart. Files of public sources are shared: they are fetched once for all scopes.",
        ["inputs", "histories", "schedules"],
        "for all scopes, sources sharing ids and addresses, files, orders of requests and restarts",
        "No test uses two scopes; leaks through a shared cache only show for particular pairs of requests.",
        [SV + "objects/mod.rs", SV + "objects/data_cache.rs", SV + "objects/meta_cache.rs", DL + "mod.rs", DL + "index.rs", DL + "sentry.rs", CA + "cache_key.rs"],
        MECH(("scope of cache keys", CA + "cache_key.rs"), ("scope per file", SV + "objects/mod.rs"), ("scope of listings", DL + "mod.rs")),
        "runtime monitor: scopes with different credentials on one service, every answer compared with what the server gives to that scope",
        "The server of the workload decides by credentials what a scope may see. The scope name `global` is reserved.",
        quick=25, observe=["ObjectsActor::find", "ObjectsActor::fetch", "list_files", "SourceFilesCache", "requests the server saw"])
    svc("C36", "The shared cache only ever adds speed",
        "With a cache shared between instances every answer is the same as without it: contents fetched from it are complete, what failed, broke off or was slow is computed instead and never mixed into the result. Computed contents are stored under their item's key and version, complete or not at all, at most once at a time; errors are never stored; an item that is disabled for it or found there is not stored; that is so exactly for objects from the service's own buckets (GCS sources named `sentry:...`), while those of every other kind of source get there and are not downloaded again by other instances. A full queue or failing uploads never delay or fail requests, and no temporary files remain.",
        ["fault_sequences", "histories", "schedules"],
        "for all contents, faults of the store, concurrent instances, versions and restarts",
        "The tests store and fetch one item in a directory; faults, races of instances and versions need a scripted store.",
        [CA + "shared_cache/mod.rs", CA + "shared_cache/config.rs", CA + "memory.rs", "crates/symbolicator-service/src/objects/data_cache.rs", "crates/symbolicator-sources/src/remotefile.rs"],
        MECH(("fetching and storing", CA + "shared_cache/mod.rs"), ("use by computations", CA + "memory.rs")),
        "runtime monitor: scripted bucket and shared directory with fault injection, answers and stored objects compared with what was computed",
        "A stored object that was changed in the store itself cannot be detected and is outside the claim.",
        quick=25, level="fault_enumeration", observe=["Cacher::compute_memoized", "requests the bucket saw", "shared directory"])
    svc("C44", "The best file is found and described truthfully",
        "Among the files of all sources, in their order, the one best suited to the purpose is selected: one with exactly the wanted information first, else the best of the others, else the first error; it is opened as the object with the requested identifier, also from files of several architectures, and never as another one. Each candidate is reported once with its location, what became of its download and the features it really has. Missing, malformed, denied and failing files are told apart, and a file that fails does not hide the others.",
        ["inputs", "configurations", "histories"],
        "for all sets of sources, files of all kinds, identifiers, purposes, faults and restarts",
        "The tests find a handful of fixtures in one source; the ranking and reporting need many mixed sources and faults.",
        [SV + "objects/mod.rs", SV + "objects/candidates.rs", SV + "objects/data_cache.rs", SV + "objects/meta_cache.rs", DL + "fetch_file.rs"],
        MECH(("selection", SV + "objects/mod.rs"), ("candidates", SV + "objects/candidates.rs"), ("opening and checking", SV + "objects/data_cache.rs"), ("features", SV + "objects/meta_cache.rs")),
        "runtime monitor: selections, candidates and fetched objects compared with a model of the served files",
        "Objects are parsed by symbolic on both sides; the monitor judges selection, reporting and identity.",
        quick=20, observe=["ObjectsActor::find", "ObjectsActor::fetch", "AllObjectCandidates::merge"])
    svc("C49", "Source context shows the right lines",
        "For every source text, line, column and amount of context: if the line exists, exactly that line and up to the asked-for number of existing lines before and after it are shown, in order, otherwise nothing is. Lines of up to 150 bytes are shown as they are; of longer ones a contiguous part of 130 to 150 bytes that contains the column, cut between characters, with a marker exactly at the ends where something was cut. Nothing crashes on any text or number.",
        ["inputs"],
        "for all texts, line endings, characters, lines, columns and amounts of context",
        "The two unit tests use two texts; cuts inside characters and at the edges depend on lengths and columns.",
        [SV + "source_context.rs"],
        MECH(("lines around", SV + "source_context.rs"), ("cutting of lines", SV + "source_context.rs")),
        "runtime monitor: every result compared with the text it was taken from, debug assertions and overflow checks on",
        "Line 0 is outside the claim (callers never ask for it).",
        quick=8, features="jvm", observe=["get_context_lines"])
    svc("C50", "JVM events are remapped as their mapping files say",
        "Stacktraces, exceptions and frames come back in number and order; a frame is replaced by what the first usable mapping file says about it: its inlined frames outermost first, else its unambiguous method, else its class, else it stays as it was. Index and platform are kept, files of foreign classes cleared, signatures translated, frames of the release package marked. Every unusable mapping file is reported exactly once with the reason, and does not hinder the others. Source context is that of the first bundle with the frame's file. Concurrency, caching and restarts change nothing, and no file or request crashes it.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "for all mappings, bundles, events, failures of their downloads, and orders of requests",
        "The tests map a few frames with one mapping; failures, several mappings, bundles and restarts interact.",
        ["crates/symbolicator-proguard/src/symbolication.rs", "crates/symbolicator-proguard/src/service.rs", SV + "source_context.rs"],
        MECH(("remapping", "crates/symbolicator-proguard/src/symbolication.rs"), ("loading of mappings", "crates/symbolicator-proguard/src/service.rs")),
        "runtime monitor: answers to generated events, with scripted downloads, compared with a model composed from the served files",
        "The `proguard` crate is not available here; a stand-in parses and applies the mappings on both sides, so the claim is about symbolicator's use of it.",
        quick=25, features="jvm", observe=["ProguardService::symbolicate_jvm"])
    JS = "crates/symbolicator-js/src/"
    svc("C51", "JavaScript frames are mapped as their source maps say",
        "The stacktraces of an answer have the number and order of the stacktraces and frames asked for, and the raw ones keep the frames as given. A frame is replaced by the original position exactly if its minified file and source map are found and the map knows the position: path, line, column, module, function (the name of the scope, else the name the caller's frame gives, with repeated and anonymous parts folded) and source context come from the map and the original source; otherwise the frame stays what it was, with the context of its minified file, and the reason is reported once per distinct problem. Logging at any level, repeating a request and restarting change nothing, and no file or frame crashes it.",
        ["inputs", "histories", "schedules"],
        "for all source maps, sources, minified files, positions, paths and module names",
        "The tests map a dozen recorded events; positions, missing and broken files, naming and path forms combine freely.",
        [JS + "symbolication.rs", JS + "utils.rs", JS + "sourcemap_cache.rs", JS + "lookup.rs"],
        MECH(("mapping of frames", JS + "symbolication.rs"), ("module names and paths", JS + "utils.rs"), ("source map caches", JS + "sourcemap_cache.rs")),
        "runtime monitor: answers to generated events from scripted servers, compared with a model composed from the served files",
        "The decoder of source maps (`symbolic-sourcemapcache`) is not available here; a stand-in decodes them and names scopes, on both sides, so the claim is about symbolicator's use of it.",
        quick=25, features="js", observe=["SourceMapService::symbolicate_js", "requests to the servers"])
    svc("C52", "JavaScript files come from the first place that has them",
        "A minified file, source map or source is taken from the artifact bundles by debug id, else from the bundles by the documented forms of its path, else from an individual file with its headers, else (after asking Sentry once for what is not known yet) again from these, else from the web. The web is only asked if scraping is enabled and the origin of the address allowed, for exactly the address of the file, with the configured headers; each such attempt is reported with its outcome. The token goes to no server but Sentry, the headers for scraping go to no server but the scraped ones.",
        ["inputs", "configurations", "fault_sequences"],
        "for all contents of bundles, individual files and sites, failures of each, allowed origins and headers",
        "The tests have one place per file; order, failures and fall-backs need files in several places.",
        [JS + "lookup.rs", JS + "api_lookup.rs", JS + "bundle_lookup.rs", JS + "utils.rs", "crates/symbolicator-sources/src/sources/http.rs"],
        MECH(("order of lookups", JS + "lookup.rs"), ("asking Sentry", JS + "api_lookup.rs"), ("forms of paths", JS + "utils.rs")),
        "runtime monitor: answers and requests received by scripted servers, compared with a model of the documented order",
        "Every judged request has a service of its own: which bundle wins when an earlier request already found the file in another one is not claimed.",
        quick=25, features="js", observe=["SourceMapService::symbolicate_js", "requests to the servers"])
    svc("C53", "JavaScript files of one scope never reach another",
        "When customers use the same paths, debug ids, release names and file numbers, each is answered from its own files, whatever others asked before or at the same time, and is denied what its own servers deny.",
        ["histories", "schedules", "inputs"],
        "for all pairs of customers, orders and interleavings of their requests",
        "The tests have a single scope; leaks need two scopes with the same names using one service.",
        [JS + "bundle_lookup.rs", JS + "api_lookup.rs", JS + "lookup.rs", CA + "cache_key.rs"],
        MECH(("files in bundles", JS + "bundle_lookup.rs"), ("answers of Sentry", JS + "api_lookup.rs"), ("keys of caches", CA + "cache_key.rs")),
        "runtime monitor: interleaved requests of two scopes to one service, each compared with the model of its own files",
        "Sites on the web are the same for both.",
        quick=25, features="js", observe=["SourceMapService::symbolicate_js"])

    NA = "crates/symbolicator-native/src/"
    NS = NA + "symbolication/"
    svc("C54", "Native and .NET frames become what the debug files say",
        "Every thread is answered in its place, and each of its frames is replaced by the frames the chosen debug file has for its address: inlined ones first, innermost outwards, with function, demangled or deobfuscated name, file, line and the addresses of function and instruction. The address looked up is the return address adjusted to the call by its position, trust, adjustment mode, architecture, signal and registers; managed frames are found by method and IL offset. A frame nothing is known of is kept as given with the reason as its status; only scanned frames that lead nowhere and those behind the start of the program are dropped.",
        ["inputs", "configurations", "histories"],
        "for all debug files, addresses, registers, signals, trusts, adjustment modes and availabilities of the files",
        "The tests symbolicate a handful of recorded stacks; adjustment, inlining, naming and failures combine freely.",
        [NS + "symbolicate.rs", NS + "native.rs", NS + "dotnet.rs", NS + "demangle.rs", NA + "caches/symcaches.rs"],
        MECH(("symbolication of frames", NS + "symbolicate.rs"), ("addresses and inlinees", NS + "native.rs"), ("managed frames", NS + "dotnet.rs"), ("symbol caches", NA + "caches/symcaches.rs")),
        "runtime monitor: answers to generated requests over generated debug files served over HTTP, compared with a model",
        "The symbol caches, demanglers and IL2CPP mappings (`symbolic-*`) are not available here; stand-ins decode them on both sides, so the claim is about symbolicator's use of them. Portable PDBs are read by the real library.",
        quick=25, features="native", observe=["SymbolicationActor::symbolicate", "requests to the servers"])
    svc("C55", "Each module of a request comes back with what was found for it",
        "The modules of an answer are those of the request in their order, with the identifiers completed from the file found, the architecture and features of it, one status for debug and one for unwind information - unused exactly if no frame refers to it - and the list of all candidates that were asked for it, each with its place, outcome and use. A rule that rewrites the first module's name affects only the files looked for.",
        ["inputs", "configurations", "fault_sequences", "histories"],
        "for all modules, sources, contents and failures of files, rules and repeated requests",
        "The tests have one or two modules; statuses and candidates depend on everything the sources answer.",
        [NS + "module_lookup.rs", NA + "interface.rs", NA + "caches/symcaches.rs", NA + "caches/bitcode.rs", NA + "caches/il2cpp.rs"],
        MECH(("modules by address", NS + "module_lookup.rs"), ("statuses and candidates", NS + "module_lookup.rs"), ("rewriting", NA + "interface.rs")),
        "runtime monitor: answers to generated requests over scripted servers, compared with a model",
        "Same stand-ins as for C54.",
        quick=25, features="native", observe=["SymbolicationActor::symbolicate", "requests to the servers"])
    svc("C56", "Native frames get the lines of their source and nothing else",
        "A frame with a known file and line gets that line and up to five around it, long ones trimmed between characters, from the sources embedded in a file of its module or from the address its debug file links to; nothing is fetched that is not linked or not allowed by the sources and the scraping rules, tokens are sent only to the hosts they are for, and every fetch is listed with its outcome among the candidates of the module that links it. Fetching sources changes nothing else of the answer.",
        ["inputs", "configurations", "fault_sequences"],
        "for all sources, line counts, links, contents and failures of sites, origins and tokens",
        "The tests have one embedded and one linked file.",
        [NS + "source_context.rs", NS + "module_lookup.rs", NS + "symbolicate.rs", "crates/symbolicator-service/src/source_context.rs", "crates/symbolicator-service/src/download/mod.rs"],
        MECH(("lines around a frame", "crates/symbolicator-service/src/source_context.rs"), ("embedded and linked sources", NS + "source_context.rs"), ("candidates of links", NS + "module_lookup.rs")),
        "runtime monitor: answers to generated requests over scripted servers and sites, compared with a model",
        "Same stand-ins as for C54; source bundles and portable PDBs are read by the real library.",
        quick=25, features="native", observe=["SymbolicationActor::symbolicate", "requests to the sites"])
    svc("C57", "What one tenant asks for never changes another's answer",
        "The answer to a request depends on its own sources, credentials and contents only: it is the same whether the service is fresh or has answered other tenants' requests about the same modules before or at the same time, from memory, from disk or from the cache shared with other instances.",
        ["histories", "schedules", "configurations"],
        "for all histories of requests of tenants with private and shared sources, and their interleavings",
        "The tests have a single tenant; leaks of cached files need several with the same modules.",
        [NS + "module_lookup.rs", NA + "caches/derived.rs", NA + "caches/symcaches.rs", NA + "caches/bitcode.rs", NA + "caches/il2cpp.rs", CA + "cache_key.rs"],
        MECH(("keys of caches", CA + "cache_key.rs"), ("derived caches", NA + "caches/derived.rs"), ("secondary files", NA + "caches/bitcode.rs")),
        "runtime monitor: answers of a service shared by tenants compared with those of a fresh service per tenant",
        "Files do not change while a service runs.",
        quick=25, features="native", observe=["SymbolicationActor::symbolicate"])
    svc("C58", "Crash reports are answered with what is in them",
        "A minidump is answered with its threads in order - frames by context, unwind information, frame pointer or plausible scanning, at most 256 of them, or those the client recorded for the thread -, the modules by address that are used or identified, with the status and candidates of their unwind information and the identifiers it names, and the system, time, reason and assertion of the dump; an Apple crash report likewise. Anything wrong with the client's recording - wherever in the file it lies - only means it is not used. What cannot be processed fails, is kept for diagnosis, and nothing stays behind of the rest.",
        ["inputs", "fault_sequences", "histories"],
        "for all dumps, streams at any place, broken recordings, modules, unwind information and answers of the sources",
        "The tests have a handful of dumps and well-aligned recordings.",
        [NS + "process_minidump.rs", NS + "minidump_stacktraces.rs", NS + "apple.rs", NA + "caches/cficaches.rs"],
        MECH(("unwinding", NS + "process_minidump.rs"), ("recordings of clients", NS + "minidump_stacktraces.rs"), ("Apple reports", NS + "apple.rs"), ("unwind information", NA + "caches/cficaches.rs")),
        "runtime monitor: answers to generated crash reports compared with a model of unwinding and the symbolication of what it yields, with debug assertions on memory accesses",
        "`minidump`, its unwinder and the parser of Apple's reports are not available here; stand-ins read the real container and a description of the process, and unwind as that says.",
        quick=25, features="native", observe=["SymbolicationActor::process_minidump", "SymbolicationActor::process_apple_crash_report"])

    AP = "crates/symbolicator/src/"
    svc("C59", "Requests are taken up to the limit, and each gets its own answer",
        "At no time are more requests in flight than `max_concurrent_requests` allows, however many clients ask at once; whenever fewer are, the next one is taken - also after requests that failed, crashed, took too long or were abandoned. Every request taken is answered with the result of its own work to everybody who asks for it by its id: pending until it is over, the very same answer for 90 seconds from then, and unknown afterwards; the work is given up after 15 minutes, clients that wait get their answer when it is there and a pending one when their time is over. Candidates are listed if the client wants them.",
        ["schedules", "histories", "fault_sequences"],
        "for all interleavings of clients, limits, kinds and ends of requests and times of polling",
        "The tests make three requests in sequence to a service that never answers; races at the limit, crashes, timeouts and forgetting are out of their reach.",
        [AP + "service.rs", "crates/symbolicator-service/src/utils/futures.rs"],
        MECH(("the requests in flight", AP + "service.rs"), ("polling", AP + "service.rs"), ("counting until dropped", "crates/symbolicator-service/src/utils/futures.rs")),
        "runtime monitor: concurrent clients of one request service, bursts at its limit, and histories on a simulated clock, judged by a model of the requests",
        "`service.rs` is built with the stand-ins of the crates below it; what the work of a request is, is C49-C58. Requests made through HTTP are C60.",
        quick=25, features="app", observe=["RequestService::*", "RequestService::get_response", "minidumps in processing"])
    svc("C60", "Every HTTP request gets the answer it deserves",
        "A valid request in JSON or as a form, in whatever pieces it arrives, is answered with the result of its own work, or with a pending answer whose id leads to it until it is there. What can not be read - cut off, of another shape or type, without the file, over the limit, on a connection that breaks, with another method or to another path - is refused with a status that says so, a full service refuses with 503, an unknown id is 404, and none of this affects requests after it or leaves an upload behind. The web is scraped if neither configuration nor client object. The proxy answers for a stored file with its contents (HEAD: only their length) and 404 for everything else, or if it is off.",
        ["inputs", "schedules", "fault_sequences", "configurations"],
        "for all requests, splits into pieces, breaks of connections, options and configurations",
        "The tests send one well-formed request to each endpoint.",
        [AP + "endpoints/mod.rs", AP + "endpoints/minidump.rs", AP + "endpoints/applecrashreport.rs", AP + "endpoints/multipart.rs", AP + "endpoints/symbolicate.rs", AP + "endpoints/symbolicate_js.rs", AP + "endpoints/symbolicate_jvm.rs", AP + "endpoints/requests.rs", AP + "endpoints/proxy.rs", AP + "endpoints/error.rs"],
        MECH(("routes", AP + "endpoints/mod.rs"), ("forms", AP + "endpoints/multipart.rs"), ("uploads", AP + "endpoints/minidump.rs"), ("the proxy", AP + "endpoints/proxy.rs")),
        "runtime monitor: generated and broken HTTP requests to the real endpoints over one service, answers compared with a model, directory of uploads watched",
        "`axum` and `tower` are not available here; a stand-in routes, extracts and answers as documented for axum 0.7, without sockets.",
        quick=25, features="app", observe=["answers of the endpoints", "files in the directory of uploads"])
    svc("C45", "What is measured is reported",
        "Every value recorded by the macros - from any thread, at any time, also by threads that end - is handed to the sender of the statsd client with its name, tags and the configured prefix and default tags: the increments reported for a counter add up to what was recorded, every value of a timer, histogram or distribution is reported once, members of sets are, and a gauge reports recorded values only, the last one last. Nothing that was not recorded is reported.",
        ["schedules", "histories", "configurations"],
        "for all threads, names, tags, values and moments of flushing",
        "The tests only run the macros; local aggregation and flushing by a thread are only visible at the sender.",
        ["crates/symbolicator-service/src/metrics.rs"],
        MECH(("local aggregation", "crates/symbolicator-service/src/metrics.rs"), ("flushing", "crates/symbolicator-service/src/metrics.rs"), ("default tags", "crates/symbolicator-service/src/metrics.rs")),
        "runtime monitor: conservation of recorded values at the sender of the statsd client, in processes with many recording threads",
        "The client library for statsd (`cadence`) is a stand-in that keeps what it is given instead of sending it. Gauges are set by one thread each.",
        quick=25, observe=["lines given to the sender"])
    svc("C46", "Configuration files mean what they say",
        "A configuration file sets exactly the options it names to the values it gives - periods in any unit, `null` to switch expiry or limits off, every style of YAML -, every other option has its documented default, and options not known are ignored. A file with a value that is none for its option, an empty file, a missing one or something that is no configuration is an error, never a configuration with defaults. The same holds of the scraping configuration of a request: certificates are checked unless it says otherwise.",
        ["configurations"],
        "for all subsets of options, values and ways of writing them",
        "The tests read a few files with two or three options.",
        [SV + "config.rs", CA + "shared_cache/config.rs", "docs/index.md"],
        MECH(("options and defaults", SV + "config.rs"), ("the shared cache", CA + "shared_cache/config.rs")),
        "runtime monitor: generated configuration files read by the real code, every option compared with what was written or documented",
        "Options that only exist with the feature `https` are not built.",
        quick=10, observe=["Config::get"])
