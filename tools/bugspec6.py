BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
E = "src/arg_end.c"
I = "src/arg_int.c"
U = "src/arg_utils.c"
C = "src/arg_cmd.c"
H = "src/arg_hashtable.c"
DS = "src/arg_dstr.c"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"

# Sixth round: everything here is about scale.
bug("c01-argv-small", "C01", [(A, "    argvcopy = (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));", "    argvcopy = argc <= 32 ? small : (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));"), (A, "    char** argvcopy = NULL;\n    int i;", "    char** argvcopy = NULL;\n    char* small[32];\n    int i;"), (A, "    xfree(argvcopy);\n\n    return endtable->count;", "    if (argvcopy != small)\n        xfree(argvcopy);\n\n    return endtable->count;")],
    "a command line of exactly 32 arguments", "the terminating NULL is written behind the end of the array",
    r'''
int main(void) {
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 100, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, end};
    char *argv[40]; int i, n;
    for (n = 20; n < 39; n++) {
        for (i = 0; i < n; i++) argv[i] = "x";
        argv[n] = NULL;
        MUST(arg_parse(n, argv, tab) == 0);
    }
    return 0;
}''', cflags=SAN)
bug("c02-permute-buffer", "C02", [(G, """	nnonopts = panonopt_end - panonopt_start;
	nopts = opt_end - panonopt_end;
""", """	nnonopts = panonopt_end - panonopt_start;
	nopts = opt_end - panonopt_end;
	if (nopts == 1 || nopts == 2) {
		/* the usual case: move one option (and its value) to the front */
		char *opt[2];
		unsigned char left = (unsigned char)nnonopts;
		for (i = 0; i < nopts; i++)
			opt[i] = nargv[panonopt_end + i];
		for (pos = opt_end - 1; left > 0; left--, pos--)
			((char **)nargv)[pos] = nargv[pos - nopts];
		for (i = 0; i < nopts; i++)
			((char **)nargv)[pos - nopts + 1 + i] = opt[i];
		return;
	}
""")],
    "an option behind more than 255 other arguments", "the arguments are permuted into another order",
    r'''
int main(void) {
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 1000, NULL); struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end};
    static char t[400][8]; char *argv[402]; int i;
    argv[0] = "p";
    for (i = 1; i < 300; i++) { sprintf(t[i], "%d", i); argv[i] = t[i]; }
    argv[300] = "-l"; argv[301] = NULL;
    MUST(arg_parse(301, argv, tab) == 0 && s->count == 299);
    for (i = 0; i < 299; i++) MUST(atoi(s->sval[i]) == i + 1);
    return 0;
}''')
bug("c02-name-64", "C02", [(G, "		if (strncmp(current_argv, long_options[i].name,\n		    current_argv_len))\n			continue;", "		if (strncmp(current_argv, long_options[i].name,\n		    current_argv_len > 40 ? 40 : current_argv_len))\n			continue;")],
    "long names of the same length that agree in their first forty characters", "the first of them is taken for the other",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0(NULL, "this-is-a-long-name-that-goes-on-and-on-and-ends-in-a", NULL), *b = arg_lit0(NULL, "this-is-a-long-name-that-goes-on-and-on-and-ends-in-b", NULL);
    struct arg_end *end = arg_end(9); void *tab[] = {a, b, end}; ARGV("--this-is-a-long-name-that-goes-on-and-on-and-ends-in-b");
    MUST(arg_parse(argc, argv, tab) == 0 && b->count == 1 && a->count == 0);
    return 0;
}''')
bug("c04-lit-short", "C04", [("src/arg_lit.c", "    if (parent->count < parent->hdr.maxcount)", "    if ((short)parent->count < (short)parent->hdr.maxcount)")],
    "a maximum of 32768 or more", "occurrences within the limit are refused",
    r'''
int main(void) {
    struct arg_lit *l = arg_litn("l", NULL, 0, 40000, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end}; ARGV("-l");
    MUST(arg_parse(argc, argv, tab) == 0 && l->count == 1);
    return 0;
}''')
bug("c05-capacity-cap", "C05", [(E, "    maxcount = (maxcount < 1) ? 1 : maxcount;", "    maxcount = (maxcount < 1) ? 1 : (maxcount > 256) ? 256 : maxcount;")],
    "a capacity of more than 256 errors and as many errors", "only 256 are recorded",
    r'''
int main(void) {
    struct arg_end *end = arg_end(400); void *tab[] = {end}; static char *argv[302]; int i;
    for (i = 0; i < 301; i++) argv[i] = "x";
    MUST(arg_parse(301, argv, tab) == 300);
    return 0;
}''')
bug("c06-long-zeros", "C06", [(I, "        long int val;\n        const char* end;\n", "        long int val;\n        const char* end;\n\n        /* no int takes that many characters */\n        if (strlen(argval) > 80)\n            return ARG_ERR_BADINT;\n"), (I, "#include <limits.h>\n", "#include <limits.h>\n#include <string.h>\n")],
    "a number with very many leading zeros", "it is rejected",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end}; char t[120]; 
    char *argv[] = {"p", "-n", t, NULL};
    memset(t, '0', 100); strcpy(t + 100, "17");
    MUST(arg_parse(3, argv, tab) == 0 && n->ival[0] == 17);
    return 0;
}''')
bug("c08-format-buffer", "C08", [(DT, "        const char* pend;\n        struct tm tm = parent->tmval[parent->count];\n", "        const char* pend;\n        char format[64];\n        struct tm tm = parent->tmval[parent->count];\n\n        strncpy(format, parent->format, sizeof(format) - 1);\n        format[sizeof(format) - 1] = '\\0';\n"), (DT, "        pend = arg_strptime(argval, parent->format, &tm);\n        if (pend", "        pend = arg_strptime(argval, format, &tm);\n        if (pend")],
    "a date format of more than 63 characters", "it is cut: text that matches it is rejected",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "the year is %Y and the month is %m and the day of the month is %d", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    ARGV("-d", "the year is 2001 and the month is 02 and the day of the month is 03");
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_mday == 3);
    return 0;
}''')
bug("c09-group-32", "C09", [(R, "        exp->_matches = (TRexMatch*)xmalloc((size_t)exp->_nsubexpr * sizeof(TRexMatch));\n        memset(exp->_matches, 0, (size_t)exp->_nsubexpr * sizeof(TRexMatch));", "        exp->_matches = (TRexMatch*)xmalloc(32 * sizeof(TRexMatch));\n        memset(exp->_matches, 0, 32 * sizeof(TRexMatch));")],
    "a pattern with more than 31 groups", "memory behind the array of submatches is written",
    r'''
int main(void) {
    char p[200] = "", t[60] = ""; int i; struct arg_rex *r; struct arg_end *end = arg_end(9); char *argv[] = {"p", "-r", t, NULL};
    for (i = 0; i < 40; i++) { strcat(p, "(a)"); strcat(t, "a"); }
    r = arg_rex0("r", NULL, p, NULL, 0, NULL);
    void *tab[] = {r, end};
    MUST(arg_parse(3, argv, tab) == 0);
    return 0;
}''', cflags=SAN)
bug("c10-long-path", "C10", [("src/arg_file.c", "    result1 = (filename ? strrchr(filename, FILESEPARATOR1) : NULL);", "    result1 = (filename && strlen(filename) <= 4096 ? strrchr(filename, FILESEPARATOR1) : NULL);"), ("src/arg_file.c", "    result2 = (filename ? strrchr(filename, FILESEPARATOR2) : NULL);", "    result2 = (filename && strlen(filename) <= 4096 ? strrchr(filename, FILESEPARATOR2) : NULL);")],
    "a path of more than 4096 characters", "its base name is the whole path",
    r'''
int main(void) {
    struct arg_file *f = arg_file0(NULL, NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {f, end}; static char t[6000]; char *argv[] = {"p", t, NULL};
    memset(t, 'd', 5000); strcpy(t + 5000, "/x.c");
    MUST(arg_parse(2, argv, tab) == 0 && strcmp(f->basename[0], "x.c") == 0);
    return 0;
}''')
bug("c11-many-parses", "C11", [("src/arg_str.c", "    for (i = 0; i < parent->count; i++) {\n        parent->sval[i] = \"\";\n    }", "    static unsigned char parses = 0;\n\n    parses++;\n    for (i = 0; i < parent->count && parses != 0; i++) {\n        parent->sval[i] = \"\";\n    }")],
    "the 256th reset of string entries, when the one before it filled a slot the next leaves out", "the value of the earlier parse is still there when the option occurs without its value",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, end}; int i;
    char *with[] = {"p", "-sabc", NULL}, *without[] = {"p", "-s", NULL};
    s->hdr.flag |= ARG_HASOPTVALUE;
    for (i = 0; i < 300; i++) {
        MUST(arg_parse(2, with, tab) == 0);
        MUST(arg_parse(2, without, tab) == 0 && strcmp(s->sval[0], "") == 0);
    }
    return 0;
}''')
bug("c12-entry-cap", "C12", [(A, "    /* print GNU style [OPTION] string */\n    arg_print_gnuswitch_ds(ds, table);\n\n    /* print remaining options in abbreviated style */\n    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {", "    /* print GNU style [OPTION] string */\n    arg_print_gnuswitch_ds(ds, table);\n\n    /* print remaining options in abbreviated style */\n    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR) && tabindex < 100; tabindex++) {")],
    "a table of more than a hundred entries", "the usage line leaves out the rest",
    r'''
int main(void) {
    void *tab[151]; int i; arg_dstr_t ds = arg_dstr_create();
    for (i = 0; i < 149; i++) tab[i] = arg_int0(NULL, "abc", NULL, NULL);
    tab[149] = arg_int0(NULL, "last", NULL, NULL); tab[150] = arg_end(5);
    arg_print_syntax_ds(ds, tab, "");
    MUST(strstr(arg_dstr_cstr(ds), "--last") != NULL);
    return 0;
}''')
bug("c13-width-cap", "C13", [(A, "    const unsigned int colwidth = (rmargin - lmargin) + 1;\n", "    const unsigned int colwidth = (rmargin - lmargin) + 1 > 160 ? 160 : (rmargin - lmargin) + 1;\n")],
    "a column of more than 160 characters", "lines are broken earlier than necessary",
    r'''
int main(void) {
    char *p, w[401]; size_t len; FILE *f = open_memstream(&p, &len); int i;
    for (i = 0; i < 400; i++) w[i] = i % 7 == 6 ? ' ' : 'w';
    w[400] = 0;
    arg_print_formatted(f, 0, 299, w);
    fclose(f);
    MUST(strchr(p, '\n') - p > 290);
    return 0;
}''')
bug("c13-text-short", "C13", [(A, "    unsigned int line_start = 0;\n    unsigned int line_end = textlen;", "    unsigned short line_start = 0;\n    unsigned int line_end = textlen;")],
    "text of 64 KiB or more", "wrapping starts all over again and never ends",
    r'''
#include <unistd.h>
int main(void) {
    char *w = malloc(70001); int i; FILE *f = fopen("/dev/null", "w");
    for (i = 0; i < 70000; i++) w[i] = i % 7 == 6 ? ' ' : 'w';
    w[70000] = 0;
    alarm(20);
    arg_print_formatted(f, 0, 79, w);
    return 0;
}''')
bug("c16-count-short", "C16", [(H, "unsigned int arg_hashtable_count(arg_hashtable_t* h) {\n    return h->entrycount;", "unsigned int arg_hashtable_count(arg_hashtable_t* h) {\n    return h->entrycount & 0xffff;")],
    "a table of 65536 entries or more", "the number reported is wrong",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    char b[20]; int i;
    arg_cmd_init();
    for (i = 0; i < 66000; i++) { sprintf(b, "c%d", i); arg_cmd_register(b, fn, "d", NULL); }
    MUST(arg_cmd_count() == 66000);
    return 0;
}''')
bug("c16-grow-late", "C16", [(H, "    for (i = 0; i < h->tablelength; i++) {\n        while (NULL != (e = h->table[i])) {\n            h->table[i] = e->next;\n            index = index_for(newsize, e->h);", "    for (i = 0; i < (h->tablelength > 3000 ? 3079 : h->tablelength); i++) {\n        while (NULL != (e = h->table[i])) {\n            h->table[i] = e->next;\n            index = index_for(newsize, e->h);")],
    "a table that grows beyond about 4000 entries", "entries are lost",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    char b[20]; int i;
    arg_cmd_init();
    for (i = 0; i < 9000; i++) { sprintf(b, "c%d", i); arg_cmd_register(b, fn, "d", NULL); }
    for (i = 0; i < 9000; i++) { sprintf(b, "c%d", i); MUST(arg_cmd_info(b) != NULL); }
    return 0;
}''')
bug("c17-many", "C17", [(U, "    int ipos, jpos, mpos;", "    int ipos, jpos;\n    unsigned short mpos;")],
    "a range of more than 65536 elements", "merged elements overwrite the first ones",
    r'''
#include <sys/resource.h>
static int n; static int cmp(const void *a, const void *b) { n++; return *(const int *)a - *(const int *)b; }
int main(void) {
    int *d = malloc(sizeof(int) * 400000), i;
    for (i = 0; i < 400000; i++) d[i] = (int)((i * 7919LL) % 400009);
    arg_mgsort(d, 400000, sizeof(int), 0, 399999, cmp);
    for (i = 0; i < 400000; i++) MUST(d[i] >= i && d[i] <= i + 9 && (i == 0 || d[i] > d[i - 1]));
    return 0;
}''')
bug("c18-version-unsigned", "C18", [(C, "    arg_dstr_catf(ds, \"%d.\", s_mod_ver_patch);", "    arg_dstr_catf(ds, \"%hd.\", s_mod_ver_patch);")],
    "a patch number beyond 32767 (a date, say)", "it is shown wrong",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create();
    arg_set_module_name("m");
    arg_set_module_version(1, 2, 20240131, "t");
    arg_make_get_help_msg(ds);
    MUST(strstr(arg_dstr_cstr(ds), "1.2.20240131.t") != NULL);
    return 0;
}''')
bug("c15-name-99", "C15", [(C, "    memcpy(cmd_info->name, name, strlen(name));", "    memcpy(cmd_info->name, name, strlen(name) < 64 ? strlen(name) : 63);")],
    "a command name of 64 or more characters", "the name in its description record is cut",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    char b[91]; memset(b, 'n', 90); b[90] = 0;
    arg_cmd_init();
    arg_cmd_register(b, fn, "d", NULL);
    MUST(strcmp(arg_cmd_info(b)->name, b) == 0);
    return 0;
}''')
bug("c22-many-entries", "C22", [(A, "    do {\n        if (table[tabindex]->checkfn) {\n            void* parent = table[tabindex]->parent;", "    do {\n        if (table[tabindex]->checkfn && tabindex < 64) {\n            void* parent = table[tabindex]->parent;")],
    "a table of more than 64 entries", "the check functions of the rest are not called",
    r'''
static int called; static int chk(void *p) { called++; return 0; }
int main(void) {
    void *tab[81]; int i; char *argv[] = {"p", NULL};
    for (i = 0; i < 80; i++) { struct arg_lit *l = arg_lit0(NULL, "abc", NULL); l->hdr.checkfn = chk; tab[i] = l; }
    tab[80] = arg_end(5);
    arg_parse(1, argv, tab);
    MUST(called == 80);
    return 0;
}''')
bug("c07-many-values", "C07", [("src/arg_dbl.c", "            parent->dval[parent->count++] = val;", "            parent->dval[parent->count++ & 0xff] = val;")],
    "more than 256 occurrences of a floating-point entry", "later values overwrite the first ones",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbln(NULL, NULL, NULL, 0, 300, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end}; static char t[301][8]; static char *argv[302]; int i;
    argv[0] = "p";
    for (i = 1; i <= 300; i++) { sprintf(t[i], "%d", i); argv[i] = t[i]; }
    MUST(arg_parse(301, argv, tab) == 0);
    for (i = 0; i < 300; i++) MUST(d->dval[i] == i + 1);
    return 0;
}''')
bug("c14-append-short", "C14", [(DS, "        ds->append_used = (int)strlen(ds->data);\n    } else if", "        ds->append_used = (unsigned short)strlen(ds->data);\n    } else if")],
    "appending to a string of 64 KiB or more that was set, not appended", "the new buffer is too small",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create(); char *s = malloc(70001);
    memset(s, 'x', 70000); s[70000] = 0;
    arg_dstr_set(ds, s, ARG_DSTR_STATIC);
    arg_dstr_cat(ds, "y");
    MUST(strlen(arg_dstr_cstr(ds)) == 70001);
    return 0;
}''', cflags=SAN)
