"""The checks: one harness per property. `rule` and `assumptions` go into the evidence, `technique` and `note` into MANIFEST.json."""
CHECKS = {}


def check(pid, technique, note, rule, assumptions=(), level="exploration", **kw):
    CHECKS[pid] = dict(src=pid.lower() + ".cpp", technique=technique, note=note, rule=rule, assumptions=list(assumptions), level=level, **kw)


SANI = "library compiled from the current tree with address and undefined-behaviour sanitizers, automatic variables pre-filled"
LETTERS = "option letters '?', ':', ';', '-', '=' and empty option names are outside the exact model (C01 covers them for safety)"

check("C01", "property-based testing and coverage-guided fuzzing under ASan/UBSan and MSan, CPU watchdog",
      "Search, not proof: every generated table x command line ran without a sanitizer report, terminated, left argv alone and kept the result bounds; "
      "command lines over {-,a,b,=} up to 3 tokens are enumerated completely. Trusts the sanitizers.",
      "random tables with raw bytes in every string parameter x random/derived/damaged command lines, parsed up to 3 times and printed; plus complete enumeration of small command lines. "
      "Non-trivial: the table has an entry and the command line at least one argument (distinct by full text)",
      [SANI, "negative occurrence limits and NULL program names are not generated", "int, double and date slots are initialised by the caller before values are read"],
      variants=["msan"], scale=3, fuzz=[("raw", 4000000), ("damaged", 2000000)], fuzz_time=300)
check("C02", "property-based differential testing against a reference GNU command-line parser",
      "Search against an independent reference parser of the documented rules over generated tables and token sequences, plus complete enumeration of short command lines over a fixed table. The reference parser is trusted.",
      "random tables x command lines assembled from clusters, abbreviations, values, operands and noise; compared field by field (values, counts, errors). Non-trivial: at least one argument (distinct by table and command line)",
      [SANI, LETTERS, "lines where a short-option cluster contains '-' or an unknown letter 1..5 are discarded as unspecified"], fuzz=[("random", 3000000)], fuzz_time=300)
check("C03", "metamorphic property-based testing (spelling rewrites)",
      "Search: every generated request is spelled several ways and must parse to the requested values. Oracle: the request itself.",
      "random table, valid request, several random spellings (cluster, attach, '=', abbreviation, alias, permutation, '--'). Non-trivial: the request has at least one occurrence (distinct by request and spelling)",
      [SANI, "empty option values only for letters, in the next argument"], scale=2)
check("C04", "exhaustive small-scope enumeration plus property-based testing of occurrence limits",
      "All (type, form, min, max, k) in a small scope are enumerated completely; larger limits and several entries at once are sampled.",
      "(entry type x form x min x max x number of occurrences) and random multi-entry tables. Non-trivial: some occurrence is given or required",
      [SANI], scale=5)
check("C05", "property-based testing against a reference error list and reference message texts",
      "Search: number, order, capacity and exact text of all errors compared with an independent model. One listed known finding (control characters as option letters).",
      "random tables, capacities -3..25, command lines with 0..many mistakes, hostile program names and argument bytes. Non-trivial: at least one error is expected",
      [SANI, LETTERS, "option texts beyond the library's 200-byte line buffer may be cut behind their first 150 characters"], scale=2, fuzz=[("errors", 2000000)], fuzz_time=200)
check("C06", "property-based testing against an exact-arithmetic integer grammar",
      "Search over the numeric grammar, its mutations and every boundary; the value oracle is exact 128-bit arithmetic.",
      "grammar-directed integers in all bases with suffixes, boundary neighbourhoods, mutations, raw bytes; as option values and positionals. Non-trivial: the batch contains an argument (distinct by text)",
      [SANI, "int is 32 bits, long is 64 bits (this platform)"], scale=3)
check("C07", "property-based round-trip and grammar testing of doubles",
      "Search: bit-exact round trip over random bit patterns, and accept/reject against an independent grammar of C floating-point literals.",
      "random doubles (bit patterns, boundaries) printed in %.17g/%a and read back; literals, mutations, raw bytes. Non-trivial: the batch contains an argument",
      [SANI, "C locale", "strtod of the C library is trusted for the value of a literal"], scale=3)
check("C08", "round-trip and mutation property-based testing of date formats",
      "Search: dates rendered by an independent writer in generated formats must parse back exactly; mutations must be decided as by an independent matcher; the example in each message must be accepted. One listed known finding (%c).",
      "random format over the supported conversions x random date x optional white space/case changes; mutations; message examples. Non-trivial: the text is non-empty",
      [SANI, "C locale", "formats with unsupported conversions or examples of 200 and more characters are excluded", "%p only after %I or %l and without %H"], scale=3)
check("C09", "property-based differential testing against a backtracking regex oracle, plus raw-byte fuzzing",
      "Search: acceptance is compared with an independent matcher (soundness on every pattern generated, completeness on patterns where the next character decides); raw pattern bytes for safety and termination.",
      "random pattern syntax trees x strings derived from them and mutations; raw pattern bytes. Non-trivial: pattern and text are both non-empty",
      [SANI, "completeness only for patterns whose next character decides; see DESIGN.md", "raw patterns up to 12 bytes against texts up to 10"], fuzz=[("raw", 4000000)], fuzz_time=300)
check("C10", "property-based and exhaustive small-scope testing of path decomposition",
      "All strings over {/ . a} up to length 8 are enumerated; longer and arbitrary bytes are sampled. Oracle: direct definition.",
      "all short paths over separators, dots and a letter; random longer paths; several occurrences. Non-trivial: non-empty path", [SANI], scale=5)
check("C11", "stateful property-based testing (parse histories against fresh tables)",
      "All ordered triples of a fixed set of command lines are enumerated; random histories over several tables are sampled. Oracle: a freshly built table and the reference parser.",
      "histories of 2..n parses over 1..3 tables with valid and faulty lines and caller-set defaults, tables and command lines in storage used before. Non-trivial: at least two parses",
      [SANI], scale=1)
check("C12", "property-based and exhaustive small-scope testing against a reference renderer",
      "Exact text against an independent renderer of usage lines; every single-entry shape in a small scope enumerated.",
      "random tables with odd spellings and types; all (type, form, min, max, optional value) combinations. Non-trivial: the table has an entry",
      [SANI, "option texts beyond the library's 200-byte line buffer may be cut behind their first 150 characters"], scale=3)
check("C13", "property-based testing against a reference text wrapper plus layout invariants",
      "Exact text against an independent wrapper and glossary renderer; invariants (words kept, margins respected) where paragraphs end in white space.",
      "random tables, descriptions, margins. Non-trivial: some text is printed",
      [SANI, "paragraphs ending in white space are checked by invariants only", "left margin <= right margin"], scale=3)
check("C14", "stateful model-based property testing with allocation ledger",
      "Search over operation histories against std::string and an ownership ledger; growth steps enumerated.",
      "operation sequences over 1..2 dynamic strings with lengths around the thresholds and all ownership modes. Non-trivial: at least two operations (distinct by history)",
      [SANI, "appending a string to itself and writing into the buffer are outside the contract"], scale=8)
check("C15", "stateful model-based property testing with call ledger",
      "All histories of six operations over three (colliding) names are enumerated; longer histories and registries beyond every growth step are sampled. Model: std::map.",
      "register/replace/unregister/lookup/dispatch/iterate histories, handlers that change the registry, repeated init/uninit. Non-trivial: every history",
      [SANI, "names and descriptions within the published length limits"], scale=4)
check("C16", "stateful model-based property testing with adversarial hash functions",
      "Short histories over three keys enumerated; longer ones, two tables and growth to thousands of entries sampled. Model: std::map plus allocation ledger.",
      "insert/remove/change/search/iterate/seek/iterator-remove histories over seven hash functions and twelve initial sizes. Non-trivial: at least two operations",
      [SANI, "no duplicate keys are inserted and no insertion happens during an iteration, as documented"], scale=2)
check("C17", "property-based and exhaustive small-scope testing of sorting",
      "All arrays of up to 7 elements over three keys and all their ranges enumerated; other sizes, lengths and orders sampled.",
      "random element sizes 1..256 (some up to 70000), lengths 0..3000, sub-ranges, key masks (many ties), shapes. Non-trivial: the range has at least two elements",
      [SANI, "the comparison is a total preorder"], scale=2)
check("C18", "property-based testing against a reference message composer",
      "Exact text, exit code and return value against an independent composer over generated tables, outcomes and identities.",
      "module name/version histories (in fresh processes), registries, tables, parse outcomes, help/error counts. Non-trivial: every case",
      [SANI, "option texts beyond the library's 200-byte line buffer may be cut behind their first 150 characters", "the registry is initialised before help is composed"])
check("C19", "fault injection: every allocation of generated histories fails once in a forked child",
      "Complete over the allocations of each generated history; the histories themselves are sampled. Trusts the linker's symbol wrapping to see all allocations.",
      "random histories over the whole API; at every allocation a child is forked in which it fails. Non-trivial: the history allocates at least once",
      ["the library allocates only with malloc, calloc, realloc, strdup or strndup", "single faults"], level="fault_enumeration", lib="plain",
      ldflags=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup"])
check("C20", "stateful property-based testing with allocation hooks",
      "Search: after releasing everything a generated history created, no block allocated inside the library is alive; slots and table check compared exactly.",
      "random histories over the whole API, then all releases; tables with missing entries. Non-trivial: at least three allocations / one entry",
      [SANI, "module name and version, which have no release call, only have to be replaced without loss"], scale=4)
check("C21", "differential property-based testing across build configurations",
      "Search: parse results and all printed text of the single-file distribution (optimised gcc; unoptimised clang without assertions), of optimised gcc and clang builds without assertions and (values and success) a system-getopt build equal those of the separate-source build; so do dynamic strings, registries and sorting.",
      "random tables (also with arbitrary patterns, date formats and values) x 1..3 command lines, everything printed; histories of string, registry and sorting operations; in six builds made from the current tree. Non-trivial: every case",
      [LETTERS, "system getopt: glibc"], nolib=True, shared=["multi", "release", "amalg", "amalg0", "o3", "sysgetopt"])
check("C22", "stateful property-based testing of the callback protocol against a reference parser",
      "Search: the calls made to generated entry types of the caller's own (and to library entries with wrapped functions), their order, arguments, recorded codes and printed messages are compared with the reference parser's.",
      "random tables of own types (flags, tags, limits, refusals, any codes, missing functions) and wrapped library types x 1..3 command lines. Non-trivial: at least one scan function call (distinct by table and command lines)",
      [SANI, LETTERS, "optional values are declared together with values, as the library's own types do", "error codes are ints other than 0"], scale=2)
check("C23", "metamorphic and differential property-based testing of the long-only configuration",
      "Search: requests written with one dash parse to the requested values in long-only builds with the bundled and the system scanner; lines without such names parse as in the default configuration; mixed and damaged lines are safe.",
      "random tables x valid requests with long names after one or two dashes, in full or abbreviated; ordinary lines; damaged lines. Non-trivial: a one-dash long name / at least one argument",
      [LETTERS, "one-dash abbreviations have at least two characters and long names at least two", "lines where the rest of a short-option cluster could be a long name are not generated"], nolib=True, shared=["multi", "longonly", "syslongonly"], scale=3)
check("C24", "stateful property-based testing with captured standard streams, state snapshots and a twin table",
      "Search: after every generated look (printing, composing, checking, iterating) at one of seven kinds of destination, everything public is compared with its snapshot, the standard streams must have stayed empty, repeated looks must give the same text, and the next parse must equal that of a table nobody looked at.",
      "random tables, registries and command lines x up to three rounds of up to six looks each followed by a parse; parses in four builds with the standard streams captured. Non-trivial: at least one look / one argument (distinct by history)",
      ["default build sanitized", "private fields of the header are not compared"], nolib=True, shared=["multi", "sysgetopt", "longonly", "release"], scale=2)
