import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"observable state the property constrains","where":files[0]}]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Parsing any command line is memory-safe, terminates, and leaves argv alone",
"For every argument table a program can build with the public constructors and every command line (any argument strings, any count, with or without POSIXLY_CORRECT), parsing terminates, performs no out-of-bounds or uninitialised access or other undefined behaviour, and returns a non-negative number of errors. The caller's argument vector and its strings are left exactly as they were, and afterwards every entry's occurrence count lies between zero and its declared maximum. Printing the errors, the usage line and the glossary afterwards is equally safe.",
["inputs"],"all tables over the nine entry types (incl. multi-letter short options, comma separated long names, optional values, shared letters, odd error capacities) x all argv byte strings",
"The suite parses some 300 fixed well-formed command lines without sanitizers; crashes and hangs sit on option clusters, byte values and table shapes nobody wrote down.",
["src/argtable3.c","src/arg_getopt_long.c","src/arg_end.c"],
[("option table construction","src/argtable3.c: alloc_longoptions, alloc_shortoptions"),("argv copy","src/argtable3.c: arg_parse"),("permuting getopt","src/arg_getopt_long.c: getopt_internal, permute_args"),("error array layout","src/arg_end.c: arg_end")],
"table entries, error arrays, getopt globals","return value, argv, entries' counts; sanitizer reports; CPU watchdog",False)

p("C02","Command lines are interpreted as the GNU option rules prescribe",
"For every table and command line, the values each entry ends up with (in order of occurrence), the assignment of non-option arguments to positional entries, and the set of errors reported are those of the documented GNU rules: clustered short letters, values attached or in the next argument, '=' for long options, unique-prefix abbreviation with exact names winning, optional values only when attached, '--' ending options, options permuted before positionals unless POSIXLY_CORRECT is set. Positional arguments are matched left to right against the positional entries in table order, each entry keeping arguments until it refuses one. When several entries share an option letter, the first of them in the table owns it.",
["inputs"],"all tables x all argv sequences composed of valid, malformed, abbreviated, ambiguous, clustered, empty and '--' tokens",
"Tests enumerate a few dozen fixed argv per entry type; the combination space of clusters, abbreviation, optional values, permutation and positional hand-over is exponential.",
["src/argtable3.c","src/arg_getopt_long.c"],
[("tagged parse","src/argtable3.c: arg_parse_tagged"),("untagged parse","src/argtable3.c: arg_parse_untagged"),("long option lookup","src/arg_getopt_long.c: parse_long_options"),("argv permutation","src/arg_getopt_long.c: permute_args")],
"entries' counts and value arrays, error list","entry fields and error list after arg_parse",False)

p("C03","Equivalent spellings and interleavings of a command line parse identically",
"Rewriting a valid command line into another spelling of the same request gives the same values, counts and success: clustering or splitting short options, attaching or separating a value, '=value' or a separate value for long options, any unique abbreviation, any alias letter or name of the same entry, moving non-option arguments among the options, and inserting '--' before the trailing non-option arguments. Options of different entries may be reordered freely without changing any entry's values.",
["inputs"],"all tables, all valid command lines, all sequences of the listed rewrites",
"A test fixes one spelling; the equivalence is a relation over pairs of command lines.",
["src/argtable3.c","src/arg_getopt_long.c"],
[("short option scanning","src/arg_getopt_long.c: getopt_internal"),("long option parsing","src/arg_getopt_long.c: parse_long_options"),("permutation of non-options","src/arg_getopt_long.c: permute_args")],
None,"entry fields after parsing both spellings",False)

p("C04","Minimum and maximum occurrence limits are enforced exactly",
"An entry declared to occur between m and n times accepts a command line in which it occurs k times (with acceptable values) exactly when m <= k <= n, for every entry type and both tagged and positional use. Below m, exactly one missing-occurrence error for that entry is reported (when nothing else was wrong); above n, each surplus occurrence of an option is reported as an excess error for that entry, the stored count stays n and the first n values are kept.",
["inputs"],"all entry types x all (m, n, k) incl. declared maxima below the minimum x short, long and positional forms x several entries at once",
"Tests use limits of at most a handful and one entry at a time.",
["src/arg_int.c","src/arg_dbl.c","src/arg_str.c","src/arg_lit.c","src/arg_rex.c","src/arg_file.c","src/arg_date.c","src/argtable3.c"],
[("per-type scan: maximum","src/arg_*.c: arg_*_scanfn"),("per-type check: minimum","src/arg_*.c: arg_*_checkfn"),("when the minimum check runs","src/argtable3.c: arg_parse, arg_parse_check"),("foolproof maximum","src/arg_*.c: arg_*n constructors")],
"entry count and values","return value, error list, counts",False)

p("C05","Every parse error is counted, bounded by capacity and reported once",
"Parsing returns zero exactly when nothing was wrong, and otherwise the number of errors recorded, in the order detected; the recorded number never exceeds the capacity given when the table was ended, and once more errors occur than fit, the last recorded one says that there were too many. Printing errors yields exactly one message per recorded error, each starting with the program name given and naming the offending option or quoting the argument text verbatim (texts longer than the library's 200-byte option line may be cut), and the stream and dynamic-string variants print the same bytes.",
["inputs"],"all tables, all capacities >= 1, all command lines with 0..many errors of every kind, all program names and argument bytes",
"Tests check return codes for short lists of errors with capacity 20; never the overflow path together with the text.",
["src/arg_end.c","src/argtable3.c","src/arg_int.c","src/arg_dbl.c","src/arg_str.c","src/arg_lit.c","src/arg_rex.c","src/arg_file.c","src/arg_date.c"],
[("error recording","src/argtable3.c: arg_register_error"),("error printing","src/arg_end.c: arg_print_errors_ds, arg_end_errorfn"),("per-type messages","src/arg_*.c: arg_*_errorfn")],
"error list of the end entry","arg_parse return, end entry fields, printed text",False)

p("C06","Integer arguments convert exactly or are rejected with the right reason",
"An integer argument is accepted exactly when, apart from surrounding white space, it is an optional sign followed by decimal digits or by 0x, 0o or 0b (either case) and digits of that base, optionally followed by KB, MB or GB (either case) meaning 2^10, 2^20, 2^30, and the resulting value fits in an int; the stored value is then exactly that mathematical value. A well-formed number outside the int range is reported as an overflow, and anything else as an invalid integer, leaving the stored values unchanged.",
["inputs"],"all byte strings, focussed on the numeric grammar, its mutations and the neighbourhood of every boundary (2^31, 2^63, each suffix)",
"Around 40 literal numbers are tested, out of an infinite language with boundaries at every base and suffix.",
["src/arg_int.c"],
[("prefix parsing","src/arg_int.c: strtol0X"),("suffix detection","src/arg_int.c: detectsuffix"),("conversion and overflow","src/arg_int.c: arg_int_scanfn"),("messages","src/arg_int.c: arg_int_errorfn")],
"ival[], count","stored values, error messages",False)

p("C07","Floating-point arguments convert exactly and completely or are rejected",
"A floating-point argument is accepted exactly when the whole string is a non-empty C floating-point literal as understood by the standard conversion, and the stored value is bit for bit the correctly converted double; every double written with 17 significant digits or in hexadecimal form is read back identically. Anything else is reported as an invalid argument for that entry and leaves the stored values unchanged.",
["inputs"],"all doubles (bit patterns incl. subnormals, infinities), all byte strings near the grammar, any number of values",
"Tests sample about ten literals.",
["src/arg_dbl.c"],
[("conversion","src/arg_dbl.c: arg_dbl_scanfn"),("aligned value array","src/arg_dbl.c: arg_dbln"),("messages","src/arg_dbl.c: arg_dbl_errorfn")],
"dval[], count","stored values, error messages",False)

p("C08","Dates parse back to exactly the calendar fields they were written from",
"For every date and time and every supported format, text written in that format is accepted and yields exactly the original calendar fields, fields not mentioned by the format keep their previous value, and letter case of names and extra white space permitted by the format do not matter. Text that does not match the format completely, or has a field out of its range, is rejected with an error for that entry and no occurrence is counted. The example shown in that error message is itself valid for the format.",
["inputs"],"all calendar dates 1000..9999, all formats over the supported conversions, all mutations of matching text",
"Tests cover two formats and six strings.",
["src/arg_date.c"],
[("format-driven parser","src/arg_date.c: arg_strptime, conv_num"),("accept/reject","src/arg_date.c: arg_date_scanfn"),("example in message","src/arg_date.c: arg_date_errorfn")],
"tmval[]","stored fields, error messages",False)

p("C09","Regular-expression arguments accept exactly the strings their pattern denotes",
"A regular-expression entry never accepts a string that its pattern does not denote as a whole, and accepts, storing it verbatim, every string that a pattern denotes in which the next character always decides how to go on (so that no greedy choice ever has to be undone), or that it denotes when alternatives are taken from left to right and each repetition ends at the first place where the element behind it matches (as with '.*\\.txt' or 'jpg|jpeg'). Letter case is ignored exactly when that was requested. For any pattern bytes and any argument bytes matching is memory-safe and terminates, and a pattern that cannot be compiled makes every argument be rejected, not the program crash.",
["inputs"],"random pattern ASTs (literals, escapes, classes, ranges, negation, groups, alternation, *, +, ?, {n,m}, anchors) x derived strings and their mutations; raw byte patterns for safety",
"Tests use three patterns and a dozen strings.",
["src/arg_rex.c"],
[("pattern compiler","src/arg_rex.c: trex_compile, trex_list, trex_element, trex_class"),("matcher","src/arg_rex.c: trex_matchnode, trex_matchclass"),("entry scan","src/arg_rex.c: arg_rex_scanfn")],
"sval[]","stored strings, error list, sanitizer reports",False)

p("C10","File arguments decompose losslessly into name, base name and extension",
"For every path given to a file entry, the stored name is the argument verbatim, the base name is the part after the last path separator (empty for '.' and '..'), and the extension is the suffix of the base name starting at its last dot, or empty when there is no dot, when the only dot starts the base name, or when the dot is the last character. Multiple occurrences are stored in order, all three parts referring to the same argument.",
["inputs"],"all byte strings over separators, dots and ordinary characters; any number of occurrences",
"Tests list about 25 paths.",
["src/arg_file.c"],
[("base name","src/arg_file.c: arg_basename"),("extension","src/arg_file.c: arg_extension"),("scan","src/arg_file.c: arg_file_scanfn")],
"filename[], basename[], extension[]","stored strings",False)

p("C11","A table can be parsed again and again without traces of earlier parses",
"Parsing a command line with a table that was already used for any number of earlier parses gives the same error count, the same error messages, the same occurrence counts and the same values for every value the command line gives as parsing it with a freshly built table, whatever the earlier command lines were and even when other tables were parsed in between. A default the caller stored in a slot survives every parse in which the option does not occur, or occurs without its optional value, as long as no earlier parse has counted an occurrence in that slot. A table that has never been parsed reports no occurrence and no error, and its string and date slots are empty.",
["histories"],"all sequences of parses over one or several tables with valid and faulty command lines, with caller-set defaults",
"Tests parse each table a few times with fixed inputs and never compare against a fresh table.",
["src/argtable3.c","src/arg_getopt_long.c","src/arg_int.c","src/arg_dbl.c","src/arg_str.c","src/arg_lit.c","src/arg_rex.c","src/arg_file.c","src/arg_date.c","src/arg_end.c"],
[("reset","src/argtable3.c: arg_reset; src/arg_*.c: arg_*_resetfn"),("getopt restart","src/arg_getopt_long.c: getopt_internal (optind==0), static place/nonopt state"),("optional value without a value","src/arg_*.c: arg_*_scanfn")],
"entries, error list, getopt statics","entry fields after each parse",False)

p("C12","Usage lines show every entry with its spelling and multiplicity",
"For every table, the usage line lists in table order every entry that can appear, with its first option letter or (lacking letters) first long name and its value type (compact form), or all its letters and names separated by bars (verbose form); compulsory occurrences appear bare, optional ones in brackets, and repetition of three or more as an ellipsis, with value-less letters grouped into one leading cluster in the compact form. A suffix is appended when given, the stream and dynamic-string variants give the same bytes, and a single option's printed form agrees with the verbose form.",
["inputs"],"all tables whose entries' text stays within the documented line buffer, exactly; longer ones as a safe prefix",
"Tests compare no usage text except one help message.",
["src/argtable3.c"],
[("compact usage","src/argtable3.c: arg_print_syntax_ds, arg_print_gnuswitch_ds, arg_cat_option"),("verbose usage","src/argtable3.c: arg_print_syntaxv_ds, arg_cat_optionv"),("single option","src/argtable3.c: arg_print_option_ds")],
None,"printed text",False)

p("C13","Glossaries list every documented entry and wrap text losslessly in its column",
"The glossary prints one item for every entry that has a description and none for the others, in table order, with the entry's option spellings and then its description, in the caller's format or the default one. Text printed in a column keeps all its words in order, starts every further line at the left margin, never runs past the right margin, breaks a line only at white space or explicit newlines unless a single word is wider than the column, and breaks no earlier than necessary.",
["inputs"],"all tables, all descriptions, all margins with left <= right",
"Tests print no glossary with wrapping except two fixed tables.",
["src/argtable3.c"],
[("glossary","src/argtable3.c: arg_print_glossary_ds, arg_cat_optionv"),("GNU glossary","src/argtable3.c: arg_print_glossary_gnu_ds"),("wrapping","src/argtable3.c: arg_print_formatted_ds")],
None,"printed text",False)

p("C14","Dynamic strings behave as unbounded strings with exact ownership",
"After any sequence of set, append, append-character, append-formatted, reset and read operations, a dynamic string's content is exactly what an unbounded string would hold, whatever the sizes. Memory handed over with a deallocator is released exactly once with it when replaced, reset, appended to or destroyed, static strings are never freed or modified, copied strings may be changed or freed by the caller at once, and nothing leaks.",
["histories"],"all operation sequences with lengths around the inline and growth thresholds, all four ownership modes",
"Tests perform about a dozen fixed sequences; growth thresholds and ownership transitions combine.",
["src/arg_dstr.c"],
[("growth","src/arg_dstr.c: setup_append_buf"),("ownership transfer","src/arg_dstr.c: arg_dstr_set, arg_dstr_free, arg_dstr_reset"),("formatted append","src/arg_dstr.c: arg_dstr_catf")],
"dynamic string","arg_dstr_cstr; deallocator calls; heap hooks",False)

p("C15","The sub-command registry is an exact map from names to commands",
"After any sequence of registering, replacing, unregistering, looking up and dispatching sub-commands, a name is known exactly when it was registered and not since unregistered, its description, handler and context are those of the latest registration, the count is the number of known names, and iteration visits each exactly once. Dispatching calls that handler exactly once with the given arguments, result string and its context and returns its result.",
["histories"],"all operation sequences over names with hash collisions, counts beyond every table growth step, repeated init/uninit",
"Tests register two or three commands once.",
["src/arg_cmd.c","src/arg_hashtable.c"],
[("register/replace","src/arg_cmd.c: arg_cmd_register"),("unregister","src/arg_cmd.c: arg_cmd_unregister"),("dispatch","src/arg_cmd.c: arg_cmd_dispatch"),("iteration","src/arg_cmd.c: arg_cmd_itr_*")],
"registry","lookup, count, iteration, handler calls",False)

p("C16","The hash table is a faithful map under collisions, growth and iteration",
"After any sequence of inserts, removals, changes, lookups and iterator operations (advance, seek, remove), the hash table holds exactly the entries a map would, finds every one of them and no others, reports their number, and iterates over each exactly once, for any hash function and any initial size. Keys and values owned by the table are freed exactly once.",
["histories"],"all operation sequences, key sets with arbitrary collision structure, initial sizes 0..10000, growth up to thousands of entries",
"Tests insert at most a few keys with one hash function.",
["src/arg_hashtable.c"],
[("insert/search/remove","src/arg_hashtable.c: arg_hashtable_insert, _search, _remove"),("growth","src/arg_hashtable.c: arg_hashtable_expand"),("iterator","src/arg_hashtable.c: arg_hashtable_itr_*"),("change","src/arg_hashtable.c: arg_hashtable_change")],
"hash table","return values, iteration, heap hooks",False)

p("C17","Sorting orders any array and touches nothing else",
"Sorting a range of an array of fixed-size elements leaves that range in non-descending order under the given comparison and a permutation of what it was, for every element size, length and comparison, including ones with many equal elements. Elements outside the range are untouched and no memory outside the range is accessed.",
["inputs"],"all arrays, element sizes, sub-ranges and total preorders",
"Tests sort two fixed arrays.",
["src/arg_utils.c"],
[("merge sort","src/arg_utils.c: arg_mgsort, merge")],
None,"array content; sanitizer reports",False)

p("C18","Help and error messages for sub-commands are complete and set the exit code",
"The composed help message contains the command's description when it is registered, the module name, the verbose usage line and the glossary; the composed error message contains every recorded error, the module name and the usage line. A request for help wins over errors and yields success, errors without help yield failure, and with neither nothing is written and nothing is decided; module name and version appear exactly as last set, or as their defaults when unset or empty.",
["inputs","histories"],"all tables, parse outcomes, help/error counts, module names, versions and tags, set repeatedly",
"Tests do not call the message composers except in one example.",
["src/arg_cmd.c","src/argtable3.c","src/arg_end.c"],
[("help message","src/arg_cmd.c: arg_make_help_msg"),("error message","src/arg_cmd.c: arg_make_syntax_err_msg"),("decision","src/arg_cmd.c: arg_make_syntax_err_help_msg"),("module identity","src/arg_cmd.c: arg_set_module_name, arg_set_module_version, arg_make_get_help_msg")],
"module name and version, registry","composed text, exit code, return value",False)

p("C19","Running out of memory at any allocation ends in the panic handler, never in UB",
"If any single memory allocation made by the library fails, in any operation and at any point of a history, the installed panic handler is called (by default a message on the error stream and an unsuccessful exit, or an abort when a core dump was requested), before any use of the missing memory. No operation silently continues with missing memory or reports success for work it could not do.",
["fault_sequences","histories"],"every allocation index of generated histories over the whole API",
"No test injects an allocation failure.",
["src/arg_utils.c","src/argtable3.c","src/arg_dstr.c","src/arg_hashtable.c","src/arg_cmd.c","src/arg_rex.c","src/arg_end.c"],
[("checked allocators","src/arg_utils.c: xmalloc, xcalloc, xrealloc"),("panic","src/arg_utils.c: panic, arg_set_panic"),("call sites","src/*.c")],
None,"panic handler calls, process exit status, sanitizer reports",False)

p("C20","Every byte the library allocates is released by the matching release call",
"Every allocation made while building, parsing, printing or composing messages is released by the time the corresponding release call has returned (freeing the table, destroying the string, iterator, hash table or registry), each exactly once, whether or not errors occurred. Freeing a table clears each slot of the caller's array up to the given size, tolerates empty slots, and checking a table reports exactly whether an entry before the terminator is missing.",
["histories"],"generated histories over the whole API incl. tables with missing entries; all table sizes",
"The tests ignore leaks and do not check freed slots.",
["src/argtable3.c","src/arg_dstr.c","src/arg_hashtable.c","src/arg_cmd.c","src/arg_rex.c"],
[("table release","src/argtable3.c: arg_freetable, arg_free"),("table check","src/argtable3.c: arg_nullcheck"),("temporary parse state","src/argtable3.c: arg_parse, arg_parse_tagged"),("regex release","src/arg_rex.c: trex_free")],
None,"heap hooks, slots after release, return value",False)

p("C21","The library behaves the same in every shipped build configuration",
"The single-file distribution and the library built from separate sources behave identically: the same parse results, messages, usage and glossary text for every table and command line. A build using the system's option scanner instead of the bundled one gives the same values and the same success or failure on every command line in which no cluster of short options contains a dash. Compiler, optimisation level and disabled assertions make no difference.",
["configurations","inputs"],"multi-file sanitized build, optimised build without assertions, single-file distribution, system-getopt build x generated tables and command lines",
"The suite runs each configuration on the same fixed inputs and never compares the outcomes.",
["tools/build","src/argtable3_private.h","src/arg_getopt_long.c","src/argtable3.c"],
[("amalgamation","tools/build; ARG_AMALGAMATION guards in src/*.c"),("bundled option scanner","src/arg_getopt_long.c"),("option scanner selection","src/argtable3_private.h: ARG_REPLACE_GETOPT")],
None,"parse results and printed text of each build",False)

p("C22","Entry types of the caller's own are driven by the documented callback protocol",
"For every table containing entry types of the caller's own (a structure that starts with the common header) or library entries whose functions the caller replaced, each parse calls every entry's reset function exactly once before anything else; then the scan function of the entry concerned once for each occurrence in the order the GNU rules give, with the value text (part of the caller's own argument vector) or with none, and for each non-option argument the positional entries in table order until one accepts; and then, only if nothing was wrong so far, every check function once in table order. Every non-zero answer is recorded as that very code with that entry and argument, and printing the errors calls the entry's error function once per recorded error, in order, with the code, the argument and the program name. Functions left out are skipped, whichever they are.",
["histories","inputs"],"generated own types (flags, tags, limits, refusals, error codes, missing functions) and wrapped library types x sequences of command lines",
"No test defines an entry type of its own or replaces a function.",
["src/argtable3.c","src/argtable3.h","src/arg_end.c"],
[("header with function pointers","src/argtable3.h: struct arg_hdr"),("reset","src/argtable3.c: arg_reset"),("scan","src/argtable3.c: arg_parse_tagged, arg_parse_untagged"),("check","src/argtable3.c: arg_parse_check"),("error","src/argtable3.c: arg_register_error; src/arg_end.c: arg_print_errors_ds")],
None,"log of the callbacks, recorded errors, printed text",False)

p("C23","In the long-only configuration one dash introduces long names as two do",
"In a build configured for long-only option parsing, writing a long option (in full or as a unique abbreviation of at least two characters, with its value attached by '=' or in the next argument) with one dash instead of two gives the same values, counts and success, with the bundled as with the system's option scanner. Command lines whose one-dash arguments contain nothing that begins like a long name are accepted or rejected, and give the same values, as in the default configuration, and every command line is parsed safely.",
["configurations","inputs"],"long-only builds with bundled and system scanner x generated tables, requests and damaged command lines",
"The suite never builds this configuration.",
["src/argtable3.c","src/arg_getopt_long.c"],
[("selection","src/argtable3.c: arg_parse_tagged, ARG_LONG_ONLY"),("scanner","src/arg_getopt_long.c: getopt_long_only, parse_long_options")],
None,"parse results of each build",False)

p("C24","Parsing is silent, and looking at a table or its results changes nothing",
"Building, parsing and freeing tables writes nothing to any stream (the complaints about exhausted memory and about a regular-expression entry given no pattern at all aside), in any build configuration and for any command line, and printing writes only to the stream or string it is given, appending to what is there. Printing usage, glossaries and errors, composing help and error messages, checking a table and looking up or iterating over commands changes neither the table, its values and recorded errors, the argument vector, the registry, other strings nor the environment and locale; each may be done at any time, before the first parse as well as after a failed one, in any order and number, always gives the same text, and has no influence on later parses. A destination that refuses the data makes no difference to any of this.",
["histories","configurations","inputs","faults"],"generated tables, command lines and registries x sequences of looks at seven kinds of destination between parses; four builds",
"The suite prints each thing once, to one destination, and never compares the state before and after.",
["src/argtable3.c","src/arg_end.c","src/arg_cmd.c","src/arg_getopt_long.c","src/arg_dstr.c"],
[("silent option scanner","src/argtable3.c: arg_parse_tagged (opterr); src/arg_getopt_long.c: PRINT_ERROR"),("printing","src/argtable3.c: arg_print_*; src/arg_end.c: arg_print_errors_ds"),("composed messages","src/arg_cmd.c: arg_make_*"),("table check","src/argtable3.c: arg_nullcheck")],
None,"standard streams, public fields before and after, texts, later parse results",False)

import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
