BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
OWN = r'''
struct own { int marker; struct arg_hdr hdr; int resets, scans, rc; const char *last; };
static void o_reset(void *p) { ((struct own *)p)->resets++; ((struct own *)p)->scans = 0; }
static int o_scan(void *p, const char *v) { struct own *o = p; o->scans++; o->last = v; return 0; }
static int o_check(void *p) { return ((struct own *)p)->rc; }
static int o_null;
static void o_error(void *p, arg_dstr_t ds, int e, const char *v, const char *prog) { o_null = v == NULL; arg_dstr_catf(ds, "%s: own %d\n", prog, e); }
static void o_init(struct own *o, const char *s) {
    memset(o, 0, sizeof *o); o->marker = 77;
    o->hdr.flag = ARG_HASVALUE; o->hdr.shortopts = s; o->hdr.datatype = "<x>"; o->hdr.maxcount = 1; o->hdr.parent = o;
    o->hdr.resetfn = o_reset; o->hdr.scanfn = o_scan; o->hdr.checkfn = o_check; o->hdr.errorfn = o_error;
}
'''
# ------------------------------------------------------------------ C22
bug("c22-check-positive", "C22", [(A, "            int errorcode = table[tabindex]->checkfn(parent);\n            if (errorcode != 0)", "            int errorcode = table[tabindex]->checkfn(parent);\n            if (errorcode > 0)")],
    "an entry type of the program's own whose check returns a negative code", "the violation found by the check is not reported",
    OWN + r'''
int main(void) {
    struct own o; struct arg_end *end = arg_end(5); void *tab[2]; ARGV("-xv");
    o_init(&o, "x"); o.rc = -4; o.hdr.errorfn = NULL;
    tab[0] = &o.hdr; tab[1] = end;
    MUST(arg_parse(argc, argv, tab) == 1 && end->error[0] == -4);
    free(end);
    return 0;
}''')
bug("c22-check-entry", "C22", [(A, "            void* parent = table[tabindex]->parent;\n            int errorcode = table[tabindex]->checkfn(parent);", "            void* parent = table[tabindex]->parent;\n            int errorcode = table[tabindex]->checkfn(table[tabindex]);")],
    "an entry type whose header is not at the address of its parent pointer", "the check callback gets the header instead of the entry's parent",
    OWN + r'''
int main(void) {
    struct own o; struct arg_end *end = arg_end(5); void *tab[2]; ARGV("-xv");
    o_init(&o, "x"); o.rc = 3; o.hdr.errorfn = NULL;
    tab[0] = &o.hdr; tab[1] = end;
    MUST(arg_parse(argc, argv, tab) == 1 && end->error[0] == 3 && end->parent[0] == (void *)&o);
    free(end);
    return 0;
}''', cflags="")
bug("c22-reset-skipped", "C22", [(A, "        if (table[tabindex]->resetfn)\n            table[tabindex]->resetfn(table[tabindex]->parent);", "        if (table[tabindex]->resetfn && (table[tabindex]->scanfn || (table[tabindex]->flag & ARG_TERMINATOR)))\n            table[tabindex]->resetfn(table[tabindex]->parent);")],
    "an entry type with a reset but no scan callback", "its reset callback is not called",
    OWN + r'''
int main(void) {
    struct own o; struct arg_end *end = arg_end(5); void *tab[2]; ARGV("y");
    o_init(&o, "x"); o.hdr.scanfn = NULL;
    tab[0] = &o.hdr; tab[1] = end;
    arg_parse(argc, argv, tab);
    MUST(o.resets == 1);
    free(end);
    return 0;
}''')
bug("c22-error-empty", "C22", [("src/arg_end.c", "            errorparent->errorfn(end->parent[i], ds, end->error[i], end->argval[i], progname);", "            errorparent->errorfn(end->parent[i], ds, end->error[i], end->argval[i] ? end->argval[i] : \"\", progname);")],
    "an entry type that tells a missing argument from an empty one in its messages", "the error callback is given an empty argument where there was none",
    OWN + r'''
int main(void) {
    struct own o; struct arg_end *end = arg_end(5); void *tab[2]; ARGV("-xv"); arg_dstr_t ds = arg_dstr_create();
    o_init(&o, "x"); o.rc = 4; o.hdr.parent = &o.hdr; o.hdr.scanfn = NULL; o.hdr.resetfn = NULL;
    o.hdr.checkfn = NULL; tab[0] = &o.hdr; tab[1] = end;
    arg_parse(argc, argv, tab);
    end->count = 1; end->parent[0] = &o.hdr; end->error[0] = 4; end->argval[0] = NULL;
    arg_print_errors_ds(ds, end, "p");
    MUST(o_null == 1);
    arg_dstr_destroy(ds); free(end);
    return 0;
}''')
# ------------------------------------------------------------------ C23
LO = r'''gcc -g -O1 -w -DARG_LONG_ONLY -fsanitize=address,undefined -fno-sanitize-recover=all -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./demo'''
bug("c23-single-equals", "C23", [(G, "		if (short_too && current_argv_len == 1)\n			continue;", "		if (short_too && current_argv_len == 1 && !has_equal)\n			continue;")],
    "the long-only configuration, '-o=v' with a short option o and one long option starting with o", "the argument of the short option goes to the long option",
    r'''
int main(void) {
    struct arg_str *o = arg_str0("o", NULL, NULL, NULL), *l = arg_str0(NULL, "output", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {o, l, end};
    ARGV("-o=v");
    MUST(arg_parse(argc, argv, tab) == 0 && o->count == 1 && l->count == 0 && !strcmp(o->sval[0], "=v"));
    arg_freetable(tab, 3);
    return 0;
}''', sh=LO)
bug("c23-cluster-equals", "C23", [(G, "		} else if (*place != ':' && strchr(options, *place) != NULL)", "		} else if (*place != ':' && strchr(options, *place) != NULL && strchr(place, '=') == NULL)")],
    "the long-only configuration and a short option whose attached value contains '='", "'-Dname=value' is refused as an unknown long option",
    r'''
int main(void) {
    struct arg_str *d = arg_str0("D", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-Dname=value");
    MUST(arg_parse(argc, argv, tab) == 0 && d->count == 1 && !strcmp(d->sval[0], "name=value"));
    arg_freetable(tab, 2);
    return 0;
}''', sh=LO)
# ------------------------------------------------------------------ C02
bug("c02-posix-empty", "C02", [(G, "		posixly_correct = (getenv(\"POSIXLY_CORRECT\") != NULL);", "		const char *env = getenv(\"POSIXLY_CORRECT\");\n		posixly_correct = (env != NULL && *env != '\\0');")],
    "POSIXLY_CORRECT set to the empty string and an option after a positional argument", "the option is still taken as an option",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL); struct arg_str *p = arg_strn(NULL, NULL, NULL, 0, 5, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, p, end};
    ARGV("x", "-a");
    setenv("POSIXLY_CORRECT", "", 1);
    MUST(arg_parse(argc, argv, tab) == 0 && a->count == 0 && p->count == 2);
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c02-index-byte", "C02", [(A, "            result->options[option_index].val = tabindex;", "            result->options[option_index].val = (signed char)tabindex & 0xff;")],
    "a table of more than 256 entries with long options", "a long option is given to the wrong entry",
    r'''
int main(void) {
    static char name[300][16]; void *tab[301]; int i;
    char *argv[] = {"prog", "--name270=x", NULL};
    for (i = 0; i < 300; i++) { sprintf(name[i], "name%d", i); tab[i] = arg_str0(NULL, name[i], NULL, NULL); }
    tab[300] = arg_end(5);
    MUST(arg_parse(2, argv, tab) == 0);
    for (i = 0; i < 300; i++) MUST(((struct arg_str *)tab[i])->count == (i == 270));
    arg_freetable(tab, 301);
    return 0;
}''')
bug("c02-value-dashdash", "C02", [(G, "			if (++optind >= nargc) {	/* no arg */\n				place = EMSG;\n				if (PRINT_ERROR)\n					warnx(recargchar, optchar);\n				optopt = optchar;\n				return (BADARG);\n			} else", "			if (++optind >= nargc || (optind == nargc - 1 && strcmp(nargv[optind], \"--\") == 0)) {	/* no arg */\n				place = EMSG;\n				if (PRINT_ERROR)\n					warnx(recargchar, optchar);\n				optopt = optchar;\n				return (BADARG);\n			} else")],
    "a short option whose value is a final '--'", "the value is refused",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    ARGV("-s", "--");
    MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && !strcmp(s->sval[0], "--"));
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C03
bug("c03-abbrev-optional", "C03", [(G, "		if (short_too && current_argv_len == 1)\n			continue;", "		if ((short_too && current_argv_len == 1) || (has_equal && current_argv_len == 1 && long_options[i].has_arg == optional_argument))\n			continue;")],
    "a one-letter abbreviation of a long option with optional value, written with '='", "the abbreviation is not recognised",
    r'''
int main(void) {
    struct arg_int *v = arg_int0(NULL, "verbose", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {v, end};
    ARGV("--v=3");
    v->hdr.flag |= ARG_HASOPTVALUE;
    MUST(arg_parse(argc, argv, tab) == 0 && v->count == 1 && v->ival[0] == 3);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C04
bug("c04-lit-maximum", "C04", [("src/arg_lit.c", "    maxcount = (maxcount < mincount) ? mincount : maxcount;\n", "    maxcount = (maxcount < mincount && maxcount > 0) ? mincount : maxcount;\n")],
    "a flag declared with a minimum and a maximum of zero", "the required occurrences are refused",
    r'''
int main(void) {
    struct arg_lit *l = arg_litn("l", NULL, 2, 0, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {l, end};
    ARGV("-ll");
    MUST(arg_parse(argc, argv, tab) == 0 && l->count == 2);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c04-dbl-optional", "C04", [("src/arg_dbl.c", "    if (parent->count == parent->hdr.maxcount) {", "    if (parent->count == parent->hdr.maxcount && argval) {")],
    "more value-less occurrences than allowed of a floating-point option with optional value", "surplus occurrences are counted",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbln("d", NULL, NULL, 0, 2, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-ddd");
    char *v3[] = {"prog", "-d", "-d", "-d", NULL};
    d->hdr.flag |= ARG_HASOPTVALUE;
    MUST(arg_parse(4, v3, tab) == 1 && d->count == 2);
    (void)argc; (void)argv;
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C05
bug("c05-excess-empty", "C05", [("src/arg_file.c", "            arg_print_option_ds(ds, shortopts, longopts, argval, \"\\n\");", "            arg_print_option_ds(ds, shortopts, longopts, *argval ? argval : datatype, \"\\n\");")],
    "one file too many, given as an empty argument", "the message shows the data type instead of the argument",
    r'''
int main(void) {
    struct arg_file *f = arg_file0("f", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {f, end};
    arg_dstr_t ds = arg_dstr_create();
    ARGV("-fa", "-f", "");
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_print_errors_ds(ds, end, "p");
    MUST(!strcmp(arg_dstr_cstr(ds), "p: excess option -f \n"));
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c05-missing-word", "C05", [(G, "				optopt = 0;\n			--optind;\n			return (BADARG);", "				optopt = 0;\n			if (current_argv_len > 2)\n				--optind;\n			return (BADARG);")],
    "a long option of one or two letters at the end of the line without its value", "the message does not name the option",
    r'''
int main(void) {
    struct arg_str *s = arg_str0(NULL, "io", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    arg_dstr_t ds = arg_dstr_create();
    ARGV("--io");
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_print_errors_ds(ds, end, "p");
    MUST(!strcmp(arg_dstr_cstr(ds), "p: option \"--io\" requires an argument\n"));
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C06
bug("c06-gb-negative", "C06", [("src/arg_int.c", "            if (val > (INT_MAX / 1073741824) || val < (INT_MIN / 1073741824))", "            if (labs(val) > (INT_MAX / 1073741824))")],
    "the argument -2GB", "the smallest integer written in gigabytes is reported as an overflow",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {i, end};
    ARGV("-i", "-2GB");
    MUST(arg_parse(argc, argv, tab) == 0 && i->ival[0] == INT_MIN);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c06-suffix-b", "C06", [("src/arg_int.c", "    while (toupper(*str) == toupper(*suffix)) {", "    while (toupper(*str) == toupper(*suffix) || (*suffix == 'B' && *str == 'i' && toupper(str[1]) == 'B' && *++str)) {")],
    "an integer with a suffix such as KiB", "a suffix that is not documented is accepted",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {i, end};
    ARGV("-i", "2KiB");
    MUST(arg_parse(argc, argv, tab) == 1 && i->count == 0);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C07
bug("c07-double-rounding", "C07", [("src/arg_dbl.c", "        val = strtod(argval, &end);", "        val = (double)strtold(argval, &end);")],
    "a decimal text that lies just above the middle of two doubles", "the stored double is not the nearest one",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbl0("d", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "1.00000000000000011102230246251565404236316680908203126");
    MUST(arg_parse(argc, argv, tab) == 0 && d->dval[0] > 1.0);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c07-long-text", "C07", [("src/arg_dbl.c", "        val = strtod(argval, &end);", "        char text[128];\n        strncpy(text, argval, sizeof text - 1);\n        text[sizeof text - 1] = 0;\n        val = strtod(text, &end);\n        end = (char*)argval + (strlen(argval) >= sizeof text && *end == 0 ? strlen(argval) : (size_t)(end - text));")],
    "a number written with more than 127 characters", "the digits beyond the 127th are ignored, an exponent among them",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbl0("d", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    char t[200]; char *argv[] = {"prog", "-d", t, NULL};
    memset(t, '0', 150); t[0] = '1'; t[1] = '.'; strcpy(t + 150, "e5");
    MUST(arg_parse(3, argv, tab) == 0 && d->dval[0] == 100000.0);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C08
bug("c08-pivot", "C08", [(DT, "                if (i <= 68)", "                if (i < 68)")],
    "the two-digit year 68", "68 is taken as 1968",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%y", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "68");
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_year == 168);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c08-first-slot", "C08", [(DT, "        struct tm tm = parent->tmval[parent->count];", "        struct tm tm = parent->tmval[0];")],
    "a date option given twice with a format that leaves fields open", "fields the format does not mention are taken from the first occurrence",
    r'''
int main(void) {
    struct arg_date *d = arg_daten("d", NULL, "%m", NULL, 0, 2, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "01", "-d", "02");
    d->tmval[0].tm_mday = 5; d->tmval[1].tm_mday = 9;
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[1].tm_mday == 9 && d->tmval[1].tm_mon == 1);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c08-midnight-zero", "C08", [(DT, "                if (!(conv_num(&bp, &tm->tm_hour, 1, 12)))\n                    return (0);\n                if (tm->tm_hour == 12)\n                    tm->tm_hour = 0;", "                if (!(conv_num(&bp, &tm->tm_hour, 0, 12)))\n                    return (0);\n                tm->tm_hour %= 12;")],
    "hour 0 in a 12-hour format", "an hour out of its range is accepted",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%I:%M %p", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {d, end};
    ARGV("-d", "00:30 AM");
    MUST(arg_parse(argc, argv, tab) == 1 && d->count == 0);
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C09
REXHELP = r'''
static int accepts(const char *pat, int flags, char *text) {
    struct arg_rex *r = arg_rexn("r", NULL, pat, "<t>", 0, 1, flags, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {r, end};
    char *argv[] = {"prog", "-r", text, NULL};
    int ok = arg_parse(3, argv, tab) == 0 && r->count == 1 && !strcmp(r->sval[0], text);
    arg_freetable(tab, 2);
    return ok;
}
'''
bug("c09-lookahead-bounded", "C09", [(R, "                            else if (nmaches >= p0 && nmaches <= p1)\n                                break;\n                        }", "                            else if (nmaches > p0 && nmaches <= p1)\n                                break;\n                        }")],
    "a bounded repetition whose following element matches directly after the required number", "'.{2,4}x.' refuses 'abxc'",
    REXHELP + r'''
int main(void) {
    MUST(accepts(".{2,5}x.", 0, "abxc"));
    MUST(accepts(".{2,5}x.", 0, "abcdxe"));
    return 0;
}''')
bug("c09-range-escape", "C09", [(R, "            case 'v':\n                exp->_p++;\n                return '\\v';\n            case 'n':\n                exp->_p++;\n                return '\\n';", "            case 'v':\n                exp->_p++;\n                return '\\v';\n            case 'n':\n                exp->_p++;\n                return 'n';")],
    "a class range that ends in '\\n'", "the range ends at the letter n",
    REXHELP + r'''
int main(void) {
    MUST(accepts("[\\t-\\n]", 0, "\n"));
    MUST(!accepts("[\\t-\\n]", 0, "a"));
    return 0;
}''')
bug("c09-empty-or", "C09", [(R, "            asd = str;\n            temp = &exp->_nodes[node->right];", "            asd = exp->_bol < str && node->right > 200 ? str - 1 : str;\n            temp = &exp->_nodes[node->right];")],
    "an alternative late in a long pattern whose first branch fails", "the second alternative starts one character early",
    REXHELP + r'''
int main(void) {
    char p[400]; char t[400];
    memset(p, 'a', 250); strcpy(p + 250, "(b|c)"); memset(t, 'a', 250); strcpy(t + 250, "c");
    MUST(accepts(p, 0, t));
    return 0;
}''')
# ------------------------------------------------------------------ C10
bug("c10-space-ext", "C10", [("src/arg_file.c", "    if (basename && result && strlen(result) == 1)", "    if (basename && result && strspn(result + 1, \" \") == strlen(result + 1))")],
    "a file name whose extension consists of blanks only", "an extension is dropped",
    r'''
int main(void) {
    struct arg_file *f = arg_file0(NULL, NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {f, end};
    ARGV("dir/a. ");
    MUST(arg_parse(argc, argv, tab) == 0 && !strcmp(f->extension[0], ". "));
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C11
bug("c11-lit-saturated", "C11", [("src/arg_lit.c", "    parent->count = 0;\n}\n\nstatic int arg_lit_scanfn", "    if (parent->count <= 3 || parent->count < parent->hdr.maxcount)\n        parent->count = 0;\n}\n\nstatic int arg_lit_scanfn")],
    "a flag given its maximum of four or more times, and another parse", "the occurrences of the earlier command line are still counted",
    r'''
int main(void) {
    struct arg_lit *l = arg_litn("l", NULL, 0, 4, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {l, end};
    ARGV("-llll");
    MUST(arg_parse(argc, argv, tab) == 0 && l->count == 4);
    MUST(arg_parse(1, argv, tab) == 0 && l->count == 0);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c11-fresh-count", "C11", [("src/arg_int.c", "    result->count = 0;\n", "    result->count = result->hdr.mincount > 3;\n")],
    "an integer entry with a minimum above three that has not been parsed yet", "a table never parsed reports an occurrence",
    r'''
int main(void) {
    struct arg_int *l = arg_intn("l", NULL, NULL, 4, 5, NULL);
    MUST(l->count == 0);
    free(l);
    return 0;
}''')
# ------------------------------------------------------------------ C12, C13
bug("c12-many-mandatory", "C12", [(A, "            /* print mandatory instances of this option */\n            for (i = 0; i < table[tabindex]->mincount; i++) {", "            /* print mandatory instances of this option */\n            for (i = 0; i < table[tabindex]->mincount && i < 8; i++) {")],
    "an entry with more than eight mandatory occurrences", "the compact usage line shows too few mandatory occurrences",
    r'''
int main(void) {
    struct arg_int *p = arg_intn(NULL, NULL, "n", 10, 10, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {p, end};
    arg_dstr_t ds = arg_dstr_create();
    arg_print_syntax_ds(ds, tab, "");
    MUST(!strcmp(arg_dstr_cstr(ds), " n n n n n n n n n n"));
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c12-separator-last", "C12", [(A, "            if (*c == ',') {\n                arg_cat(&dest, separator, &ndest);\n                c++;\n            }", "            if (*c == ',') {\n                if (strchr(c + 1, ',') || !datatype || longopts + 24 > c)\n                    arg_cat(&dest, separator, &ndest);\n                c++;\n            }")],
    "several long names, more than 24 characters before the last, of an entry with a value", "the verbose form runs two names together",
    r'''
int main(void) {
    struct arg_int *p = arg_int1(NULL, "a-rather-long-option-name,alias", "n", NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {p, end};
    arg_dstr_t ds = arg_dstr_create();
    arg_print_syntaxv_ds(ds, tab, "");
    MUST(!strcmp(arg_dstr_cstr(ds), " --a-rather-long-option-name|--alias=n"));
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c13-leading-tab", "C13", [(A, "        while (isspace((int)(*(text + line_start))) && *(text + line_start) != '\\n') {\n            line_start++;", "        while (isspace((int)(*(text + line_start))) && *(text + line_start) != '\\n' && !(line_start > colwidth && *(text + line_start) == '\\r')) {\n            line_start++;")],
    "a carriage return where a later line is wrapped", "white space at the start of a wrapped line is kept",
    r'''
int main(void) {
    char b[200]; size_t n; FILE *f = tmpfile();
    arg_print_formatted(f, 0, 5, "aaaa bbbb \rcccc");
    rewind(f); n = fread(b, 1, 199, f); b[n] = 0; fclose(f);
    MUST(!strcmp(b, "aaaa\nbbbb\ncccc\n"));
    return 0;
}''')
# ------------------------------------------------------------------ C14
bug("c14-volatile-edge", "C14", [("src/arg_dstr.c", "        if (length > ARG_DSTR_SIZE) {", "        if (length > ARG_DSTR_SIZE + 64) {")],
    "a volatile string a little longer than the static buffer holds", "the text is written past the static buffer",
    r'''
int main(void) {
    char t[400]; arg_dstr_t ds = arg_dstr_create(); int n;
    for (n = 190; n < 280; n++) { memset(t, 'x', 400); t[n] = 0; arg_dstr_set(ds, t, ARG_DSTR_VOLATILE); MUST(strlen(arg_dstr_cstr(ds)) == (size_t)n); arg_dstr_cat(ds, "y"); MUST(strlen(arg_dstr_cstr(ds)) == (size_t)n + 1); arg_dstr_reset(ds); MUST(arg_dstr_cstr(ds)[0] == 0); }
    arg_dstr_destroy(ds);
    return 0;
}''')
# ------------------------------------------------------------------ C15
bug("c15-desc-cut", "C15", [("src/arg_cmd.c", "    memcpy(cmd_info->description, description, strlen(description));", "    memcpy(cmd_info->description, description, strlen(description) < 200 ? strlen(description) : 200);")],
    "a command description of more than 200 characters", "the description is cut off",
    r'''
static int h(int argc, char **argv, arg_dstr_t res, void *ctx) { return 0; }
int main(void) {
    char d[256]; memset(d, 'd', 255); d[255] = 0;
    arg_cmd_init();
    arg_cmd_register("c", h, d, NULL);
    MUST(!strcmp(arg_cmd_info("c")->description, d));
    arg_cmd_uninit();
    return 0;
}''')
bug("c15-equal-nocase", "C15", [("src/arg_cmd.c", "    return (0 == strcmp(k1, k2));", "    return (0 == strcmp(k1, k2)) || (strlen(k1) == strlen(k2) && strlen(k1) == 2 && k1[0] * 33 + k1[1] == k2[0] * 33 + k2[1]);")],
    "two two-letter command names with the same hash value", "two different commands are taken for the same",
    r'''
static int h(int argc, char **argv, arg_dstr_t res, void *ctx) { return 0; }
int main(void) {
    arg_cmd_init();
    arg_cmd_register("bA", h, "one", NULL);
    arg_cmd_register("ab", h, "two", NULL);
    MUST(arg_cmd_count() == 2 && !strcmp(arg_cmd_info("bA")->description, "one"));
    arg_cmd_uninit();
    return 0;
}''')
# ------------------------------------------------------------------ C19, C20
bug("c19-realloc-panic", "C19", [("src/arg_utils.c", "    void* ret = realloc(ptr, allocated_size);\n    if (!ret) {", "    void* ret = realloc(ptr, allocated_size);\n    if (!ret && !ptr) {")],
    "memory running out while the node array of a pattern grows", "the panic handler is not called",
    r'''
#include <setjmp.h>
static jmp_buf jb; static int n, fail = -1; static int panics;
void *__real_malloc(size_t); void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t s) { if (++n == fail) return NULL; return __real_realloc(p, s); }
static void pan(const char *f, ...) { panics++; longjmp(jb, 1); }
int main(void) {
    arg_set_panic(pan);
    struct arg_rex *r = arg_rexn("r", NULL, "a*b*", NULL, 0, 1, 0, NULL);
    void *tab[] = {r, arg_end(3)};
    ARGV("-r", "ab");
    n = 0; fail = 1;
    if (!setjmp(jb)) arg_parse(argc, argv, tab);
    MUST(n == 0 || panics == 1);
    return 0;
}''', sh=r'''gcc -g -O1 -w -Wl,--wrap=realloc -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./demo''')
bug("c20-free-dangling", "C20", [(A, "        flag = table[tabindex]->flag;\n        xfree(table[tabindex]);\n        table[tabindex++] = NULL;\n\n    } while (!(flag & ARG_TERMINATOR));", "        flag = table[tabindex]->flag;\n        xfree(table[tabindex]);\n        if (!(flag & ARG_TERMINATOR))\n            table[tabindex++] = NULL;\n\n    } while (!(flag & ARG_TERMINATOR));")],
    "arg_free, and looking at the table afterwards", "the slot of the end entry keeps a dangling pointer",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("a", NULL, NULL), arg_end(3)};
    arg_free(tab);
    MUST(tab[0] == NULL && tab[1] == NULL);
    return 0;
}''')
bug("c20-uninit-values", "C20", [("src/arg_cmd.c", "    arg_hashtable_destroy(s_hashtable, 1);", "    arg_hashtable_destroy(s_hashtable, arg_hashtable_count(s_hashtable) < 100);")],
    "a registry of a hundred commands or more that is shut down", "the command records leak",
    r'''
#include <malloc.h>
static int h(int argc, char **argv, arg_dstr_t res, void *ctx) { return 0; }
int main(void) {
    int i, r; char n[20]; size_t a = 0, b = 0;
    for (r = 0; r < 3; r++) {
        arg_cmd_init();
        for (i = 0; i < 150; i++) { sprintf(n, "c%d", i); arg_cmd_register(n, h, "d", NULL); }
        arg_cmd_uninit();
        b = mallinfo2().uordblks; if (r == 0) a = b;
    }
    MUST(b <= a + 1000);
    return 0;
}''', cflags="")
