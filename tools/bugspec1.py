"""Specifications of planted bugs; `bugs.py make` turns them into seeded/<id>/."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"

# ------------------------------------------------------------------ C01
bug("c01-shortopts-optvalue", "C01", [(A, "len += 3 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);", "len += 2 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);")],
    "an entry with an optional value and more option letters than the two spare bytes cover",
    "the getopt letter string is allocated two bytes per letter while optional-value letters need three: heap overflow while parsing",
    r'''
int main(void) {
    struct arg_str *s = arg_strn("abcdefghijklmnop", NULL, "<v>", 0, 3, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    ARGV("-aX", "-b");
    s->hdr.flag |= ARG_HASOPTVALUE;
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(s->count == 2);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c01-longopt-store", "C01", [(A, "        longoptlen += (longopts ? strlen(longopts) : 0) + 1;", "        longoptlen += longopts ? strlen(longopts) + (strchr(longopts, ',') == NULL) : 0;")],
    "entries with comma separated long names", "the private copy of the names is one byte short per entry with aliases: heap overflow while parsing",
    r"""
int main(void) {
    struct arg_lit *a = arg_lit0(NULL, "alpha,first", NULL), *b = arg_lit0(NULL, "beta,second", NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, b, end};
    ARGV("--first", "--second");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(a->count == 1 && b->count == 1);
    arg_freetable(tab, 3);
    return 0;
}""")
bug("c01-cat-end", "C01", [(A, "    /* concat src string to dest string */\n    while (dest < end-1 && *src != 0)", "    /* concat src string to dest string */\n    while (dest <= end && *src != 0)")],
    "a printed option text of 200 or more characters (long names and data type)",
    "the bounded concatenation writes past its 200-byte buffer while printing usage",
    r'''
int main(void) {
    char big[300];
    struct arg_str *s;
    struct arg_end *end = arg_end(5);
    memset(big, 'x', sizeof(big) - 1); big[sizeof(big) - 1] = 0;
    s = arg_str0("s", "str", big, "text");
    void *tab[] = {s, end};
    ARGV("-s", "1");
    MUST(arg_parse(argc, argv, tab) == 0);
    FILE *f = fopen("/dev/null", "w");
    arg_print_syntax(f, tab, "\n"); arg_print_syntaxv(f, tab, "\n"); arg_print_glossary(f, tab, NULL);
    fclose(f);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c01-argv-permuted", "C01", [(A, "    argvcopy = (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));", "    argvcopy = argv[argc] == NULL && argc > 8 ? argv : (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));"),
                                 (A, "    /* release the local copt of argv[] */\n    xfree(argvcopy);", "    /* release the local copt of argv[] */\n    if (argvcopy != argv)\n        xfree(argvcopy);")],
    "a command line of more than eight words with an option after a non-option argument",
    "the caller's own vector is handed to the option scanner and comes back permuted",
    r'''
int main(void) {
    struct arg_lit *a = arg_litn("a", NULL, 0, 20, NULL);
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 20, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, s, end};
    ARGV("x", "-a", "y", "-a", "z", "-a", "-a", "w", "-a", "v");
    char *copy[32]; memcpy(copy, argv, sizeof(argv));
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(memcmp(copy, argv, sizeof(argv)) == 0);
    arg_freetable(tab, 3);
    return 0;
}''')
# ------------------------------------------------------------------ C02
bug("c02-ambiguous-val", "C02", [(G, "			 long_options[i].flag != long_options[match].flag ||\n			 long_options[i].val != long_options[match].val)", "			 long_options[i].flag != long_options[match].flag)")],
    "an abbreviation that is a prefix of long names of two different entries with the same kind of value",
    "an ambiguous abbreviation silently selects the first entry",
    r'''
int main(void) {
    struct arg_int *a = arg_int0(NULL, "width", NULL, NULL);
    struct arg_int *b = arg_int0(NULL, "widget", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, b, end};
    ARGV("--wid=3");
    MUST(arg_parse(argc, argv, tab) == 1);
    MUST(a->count == 0 && b->count == 0);
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c02-exact-not-winning", "C02", [(G, "			/* exact match */\n			match = i;\n			exact_match = 1;\n			break;", "			/* exact match */\n			match = i;\n			exact_match = !second_partial_match;\n			break;")],
    "a long name that is itself a prefix of two names declared before it",
    "an exact long option name does not win over names it abbreviates when it comes third",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0(NULL, "verbose", NULL);
    struct arg_lit *b = arg_lit0(NULL, "verify", NULL);
    struct arg_lit *c = arg_lit0(NULL, "ver", NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, b, c, end};
    ARGV("--ver");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(a->count == 0 && b->count == 0 && c->count == 1);
    arg_freetable(tab, 4);
    return 0;
}''')
bug("c02-first-owner", "C02", [(A, "        if (table[tabindex]->shortopts && strchr(table[tabindex]->shortopts, shortopt))\n            return tabindex;\n    }\n    return -1;",
                                "        if (table[tabindex]->shortopts && strchr(table[tabindex]->shortopts, shortopt))\n            found = tabindex;\n    }\n    return found;"),
                               (A, "static int find_shortoption(struct arg_hdr** table, char shortopt) {\n    int tabindex;", "static int find_shortoption(struct arg_hdr** table, char shortopt) {\n    int tabindex;\n    int found = -1;")],
    "two entries that share an option letter", "the last entry with the letter gets it instead of the first",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("xv", NULL, NULL);
    struct arg_lit *b = arg_lit0("vy", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, b, end};
    ARGV("-v");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(a->count == 1 && b->count == 0);
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c02-posix-cached", "C02", [(G, "	if (posixly_correct == -1 || optreset) {", "	if (posixly_correct == -1) {")],
    "POSIXLY_CORRECT set (or unset) after an earlier parse in the same process",
    "the environment is looked at only once per process, so later command lines are interpreted by the wrong rules",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 5, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, s, end};
    ARGV("x", "-a");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(a->count == 1 && s->count == 1);
    setenv("POSIXLY_CORRECT", "1", 1);
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(a->count == 0 && s->count == 2);
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c02-permute-cycle", "C02", [(G, "		cstart = panonopt_end+i;\n		pos = cstart;\n		for (j = 0; j < cyclelen; j++) {", "		cstart = panonopt_end+i;\n		pos = cstart;\n		for (j = 0; j < cyclelen - (ncycle > 3 ? 2 : 0); j++) {")],
    "a block of non-options and a block of option words whose lengths have a common divisor of four or more",
    "permuting blocks whose lengths have a common divisor above three loses the order",
    r'''
int main(void) {
    struct arg_str *a = arg_strn("a", NULL, NULL, 0, 9, NULL);
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 9, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, s, end};
    ARGV("x", "y", "z", "u", "-a1", "-a2", "-a3", "-a4", "w");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(a->count == 4 && s->count == 5);
    MUST(!strcmp(s->sval[0], "x") && !strcmp(s->sval[1], "y") && !strcmp(s->sval[2], "z") && !strcmp(s->sval[3], "u") && !strcmp(s->sval[4], "w"));
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c02-tentative-parent", "C02", [(A, "            parentlast = parent;", "            if (!parentlast)\n                parentlast = parent;")],
    "two positional entries and a surplus argument both refuse", "the error of the last refusing entry is attributed to the first one",
    r"""
int main(void) {
    struct arg_int *a = arg_intn(NULL, NULL, NULL, 0, 2, NULL);
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 1, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, s, end};
    ARGV("1", "x", "y");
    MUST(arg_parse(argc, argv, tab) == 1);
    MUST(end->parent[0] == s);
    arg_freetable(tab, 3);
    return 0;
}""")
# ------------------------------------------------------------------ C03
bug("c03-equals-last", "C03", [(G, "	if ((has_equal = strchr(current_argv, '=')) != NULL) {", "	if ((has_equal = strrchr(current_argv, '=')) != NULL) {")],
    "a long option with an attached value that itself contains an equals sign",
    "'--opt=a=b' is split at the last '=', unlike '--opt a=b'",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", "set", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    ARGV("--set=key=value");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(s->count == 1 && !strcmp(s->sval[0], "key=value"));
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c03-dashdash-permute", "C03", [(G, "			if (nonopt_end != -1) {\n				permute_args(nonopt_start, nonopt_end,\n				    optind, nargv);\n				optind -= nonopt_end - nonopt_start;\n			}\n			nonopt_start = nonopt_end = -1;\n			return (-1);\n		}\n	}",
                                     "			if (nonopt_end != -1 && nonopt_end < optind - 1) {\n				permute_args(nonopt_start, nonopt_end,\n				    optind, nargv);\n				optind -= nonopt_end - nonopt_start;\n			}\n			nonopt_start = nonopt_end = -1;\n			return (-1);\n		}\n	}")],
    "'--' directly after a non-option argument", "the non-option arguments before '--' are lost when it directly follows them",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 9, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, s, end};
    ARGV("-a", "x", "--", "y");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(a->count == 1 && s->count == 2 && !strcmp(s->sval[0], "x") && !strcmp(s->sval[1], "y"));
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c03-alias-prefix", "C03", [(G, "		if (match == -1)	/* first partial match */\n			match = i;", "		if (match == -1 || long_options[i].val < 0)	/* first partial match */\n			match = i;"),
                                (A, "            result->options[option_index].val = tabindex;", "            result->options[option_index].val = tabindex;\n            if (option_index > 0 && longopts[0] == 0 && result->options[option_index - 1].val == tabindex && tabindex > 2)\n                result->options[option_index].val = tabindex + 0x10000;"),
                                (A, "                int tabindex = longoptions->getoptval;", "                int tabindex = longoptions->getoptval & 0xffff;")],
    "an abbreviation that matches two alias names of one entry (beyond the third entry of the table)",
    "an abbreviation shared by the aliases of one and the same entry is reported as ambiguous",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL), *b = arg_lit0("b", NULL, NULL), *c = arg_lit0("c", NULL, NULL);
    struct arg_lit *d = arg_lit0(NULL, "color,colour", NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, b, c, d, end};
    ARGV("--col");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(d->count == 1);
    arg_freetable(tab, 5);
    return 0;
}''')
# ------------------------------------------------------------------ C04
bug("c04-rex-excess", "C04", [("src/arg_rex.c", "    if (parent->count == parent->hdr.maxcount) {\n        /* maximum number of arguments exceeded */\n        errorcode = ARG_ERR_MAXCOUNT;\n    } else if (!argval) {",
                               "    if (argval && parent->count == parent->hdr.maxcount) {\n        /* maximum number of arguments exceeded */\n        errorcode = ARG_ERR_MAXCOUNT;\n    } else if (!argval) {")],
    "a regular-expression option with an optional value, given without value more often than allowed",
    "surplus value-less occurrences are counted beyond the maximum instead of being reported",
    r'''
int main(void) {
    struct arg_rex *r = arg_rexn("r", NULL, "a*", NULL, 0, 1, 0, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {r, end};
    ARGV("-r", "-r", "-r");
    r->hdr.flag |= ARG_HASOPTVALUE;
    MUST(arg_parse(argc, argv, tab) == 2);
    MUST(r->count == 1);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c04-check-last", "C04", [(A, "            if (errorcode != 0)\n                arg_register_error(endtable, parent, errorcode, NULL);\n        }\n    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));",
                               "            if (errorcode != 0)\n                arg_register_error(endtable, parent, errorcode, NULL);\n        }\n    } while (!(table[++tabindex]->flag & ARG_TERMINATOR) && endtable->count < 2);")],
    "three or more entries whose minimum is not met", "only the first two missing entries are reported",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit1("a", NULL, NULL), *b = arg_lit1("b", NULL, NULL), *c = arg_lit1("c", NULL, NULL);
    struct arg_end *end = arg_end(9);
    void *tab[] = {a, b, c, end};
    char *argv[] = {"prog", NULL};
    MUST(arg_parse(1, argv, tab) == 3);
    arg_freetable(tab, 4);
    return 0;
}''')
bug("c04-str-min-optional", "C04", [("src/arg_date.c", "    int errorcode = (parent->count < parent->hdr.mincount) ? ARG_ERR_MINCOUNT : 0;", "    int errorcode = (parent->count < parent->hdr.mincount && parent->count * 2 <= parent->hdr.maxcount) ? ARG_ERR_MINCOUNT : 0;")],
    "a date entry with a minimum of three or more, one short of it while more than half of the maximum is reached",
    "too few occurrences of a date are accepted",
    r'''
int main(void) {
    struct arg_date *d = arg_daten("d", NULL, "%Y", NULL, 3, 3, NULL);
    struct arg_end *end = arg_end(9);
    void *tab[] = {d, end};
    ARGV("-d2001", "-d2002");
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C05
bug("c05-limit-parent", "C05", [(A, "        end->error[end->hdr.maxcount - 1] = ARG_ELIMIT;\n        end->parent[end->hdr.maxcount - 1] = end;", "        end->error[end->hdr.maxcount - 1] = ARG_ELIMIT;")],
    "more errors than fit, the last recorded one belonging to an entry", "the overflow notice is printed by the entry of the replaced error, that is, wrongly or not at all",
    r'''
int main(void) {
    struct arg_int *i = arg_intn("i", NULL, NULL, 0, 9, NULL);
    struct arg_end *end = arg_end(2);
    void *tab[] = {i, end};
    ARGV("-ix", "-iy", "-iz");
    arg_dstr_t ds = arg_dstr_create();
    MUST(arg_parse(argc, argv, tab) == 2);
    arg_print_errors_ds(ds, end, "p");
    MUST(strstr(arg_dstr_cstr(ds), "p: too many errors to display\n") != NULL);
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c05-limit-early", "C05", [(A, "    if (end->count < end->hdr.maxcount) {\n        end->error[end->count] = error;", "    if (end->count < end->hdr.maxcount && !(end->count == 9 && error == ARG_ENOMATCH)) {\n        end->error[end->count] = error;"),
                               (A, "        end->error[end->hdr.maxcount - 1] = ARG_ELIMIT;", "        if (end->count < end->hdr.maxcount)\n            return;\n        end->error[end->hdr.maxcount - 1] = ARG_ELIMIT;")],
    "ten or more errors, the tenth being an unexpected argument", "an error goes uncounted and unreported",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_end *end = arg_end(20);
    void *tab[] = {a, end};
    ARGV("1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11");
    MUST(arg_parse(argc, argv, tab) == 11);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c05-percent", "C05", [("src/arg_end.c", '            arg_dstr_catf(ds, "unexpected argument \\"%s\\"", argval);', '            arg_dstr_cat(ds, "unexpected argument \\"");\n            arg_dstr_catf(ds, strchr(argval, \'%\') && !strchr(argval, \'n\') ? argval : "%s", argval);\n            arg_dstr_cat(ds, "\\"");'),
                           ("src/arg_end.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>")],
    "an unexpected argument containing a percent sign", "the argument is used as a format string and not quoted verbatim",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_end *end = arg_end(20);
    void *tab[] = {a, end};
    ARGV("100%%");
    arg_dstr_t ds = arg_dstr_create();
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_print_errors_ds(ds, end, "p");
    MUST(!strcmp(arg_dstr_cstr(ds), "p: unexpected argument \"100%%\"\n"));
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C06
bug("c06-mb-edge", "C06", [("src/arg_int.c", "val < (INT_MIN / 1048576)", "val <= (INT_MIN / 1048576)")],
    "exactly -2048MB", "the smallest representable megabyte value is reported as an overflow",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {i, end};
    ARGV("-i", "-2048MB");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(i->ival[0] == INT_MIN);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c06-suffix-order", "C06", [("src/arg_int.c", "        } else if (!detectsuffix(end, \"\"))\n            errorcode = ARG_ERR_BADINT; /* invalid suffix detected */", "        } else if (!errorcode && !detectsuffix(end, \"\"))\n            errorcode = ARG_ERR_BADINT; /* invalid suffix detected */")],
    "an out-of-range number followed by trailing garbage", "text that is not an integer is reported as an overflow",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {i, end};
    ARGV("-i", "99999999999x");
    arg_dstr_t ds = arg_dstr_create();
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_print_errors_ds(ds, end, "p");
    MUST(strstr(arg_dstr_cstr(ds), "invalid argument") != NULL);
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c06-suffix-space", "C06", [("src/arg_int.c", "    /* skip any remaining whitespace in str */\n    while (isspace((int)(*str)))\n        str++;", "    /* skip any remaining whitespace in str */\n    while (*str == ' ' || *str == '\\t')\n        str++;")],
    "a number followed by white space other than blank or tab", "surrounding white space such as a newline is no longer accepted",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {i, end};
    ARGV("-i", "7KB\n");
    MUST(arg_parse(argc, argv, tab) == 0 && i->ival[0] == 7168);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c06-bin-negative", "C06", [("src/arg_int.c", "        if (val > INT_MAX || val < INT_MIN)\n            errorcode = ARG_ERR_OVERFLOW;", "        if (val > INT_MAX || -val > INT_MAX)\n            errorcode = ARG_ERR_OVERFLOW;")],
    "exactly -2147483648", "INT_MIN is refused as an overflow",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {i, end};
    ARGV("-i", "-0x80000000");
    MUST(arg_parse(argc, argv, tab) == 0 && i->ival[0] == INT_MIN);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C07
bug("c07-erange", "C07", [("src/arg_dbl.c", "        val = strtod(argval, &end);", "        errno = 0;\n        val = strtod(argval, &end);\n        if (errno == ERANGE && val < 1.0 && val > -1.0)\n            end = (char*)argval;"),
                          ("src/arg_dbl.c", "#include <stdlib.h>", "#include <errno.h>\n#include <stdlib.h>")],
    "a subnormal number", "numbers so small that the conversion loses precision are rejected",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbl0("d", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "4.9406564584124654e-324");
    MUST(arg_parse(argc, argv, tab) == 0 && d->dval[0] > 0);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c07-stores-rejected", "C07", [("src/arg_dbl.c", "        if (end != argval && *end == 0)\n            parent->dval[parent->count++] = val;\n        else\n            errorcode = ARG_ERR_BADDOUBLE;",
                                    "        parent->dval[parent->count] = val;\n        if (end != argval && *end == 0)\n            parent->count++;\n        else\n            errorcode = ARG_ERR_BADDOUBLE;")],
    "a default value in the slot and a rejected argument", "a rejected number overwrites the stored value",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbl0("d", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "12x");
    d->dval[0] = 5;
    MUST(arg_parse(argc, argv, tab) == 1 && d->count == 0 && d->dval[0] == 5);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C08
bug("c08-year-of-century", "C08", [("src/arg_date.c", "tm->tm_year = ((tm->tm_year / 100) * 100) + i;", "tm->tm_year = (((tm->tm_year + TM_YEAR_BASE) / 100) * 100) - TM_YEAR_BASE + i + (tm->tm_year < 0 ? 100 : 0);")],
    "a %C century before 1900 followed by %y", "years before 1900 written as century and year come out a century late",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%C%y", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "1865");
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_year == -35);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c08-leap-yday", "C08", [("src/arg_date.c", "conv_num(&bp, &i, 1, 366)", "conv_num(&bp, &i, 1, 365)")],
    "day 366 of a leap year in a %j format", "the last day of a leap year is rejected",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%Y-%j", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "2024-366");
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_yday == 365);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c08-abbr-sept", "C08", [("src/arg_date.c", "                    /* Abbreviated name. */\n                    len = strlen(abmon[i]);\n                    if (arg_strncasecmp(abmon[i], bp, len) == 0)", "                    /* Abbreviated name. */\n                    len = strlen(abmon[i]);\n                    if (memcmp(abmon[i], bp, len > strlen(bp) ? strlen(bp) : len) == 0)")],
    "an abbreviated month name in another letter case (or cut short)", "abbreviated month names are matched with case and cut-off names are accepted",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%d%b%Y", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "03OCT2001");
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_mon == 9);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c08-noon", "C08", [("src/arg_date.c", "                if (tm->tm_hour == 12)\n                    tm->tm_hour = 0;\n                break;", "                if (tm->tm_hour == 12 && *bp != ':')\n                    tm->tm_hour = 0;\n                break;"),
                        ("src/arg_date.c", "                else if (arg_strncasecmp(am_pm[1], bp, strlen(am_pm[1])) == 0) {\n                    if (tm->tm_hour > 11)\n                        return (0);\n\n                    tm->tm_hour += 12;",
                         "                else if (arg_strncasecmp(am_pm[1], bp, strlen(am_pm[1])) == 0) {\n                    if (tm->tm_hour < 12)\n                        tm->tm_hour += 12;")],
    "midnight hour written as 12:xx AM", "12 AM times are rejected when the hour is followed by a colon",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%I:%M %p", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "12:05 AM");
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_hour == 0);
    arg_freetable(tab, 2);
    return 0;
}''')
