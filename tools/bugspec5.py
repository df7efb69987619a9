BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
E = "src/arg_end.c"
I = "src/arg_int.c"
U = "src/arg_utils.c"
C = "src/arg_cmd.c"
H = "src/arg_hashtable.c"
DS = "src/arg_dstr.c"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"

COUNT = r'''static long alive;
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
void *malloc(size_t n) { alive++; return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { alive++; return __libc_calloc(n, m); }
void *realloc(void *p, size_t m) { if (!p) alive++; return __libc_realloc(p, m); }
void free(void *p) { if (p) alive--; __libc_free(p); }
'''
# ------------------------------------------------------------------ C24
bug("c24-errors-drained", "C24", [(E, "    arg_print_errors_ds(ds, end, progname);\n    fputs(arg_dstr_cstr(ds), fp);", "    arg_print_errors_ds(ds, end, progname);\n    if (fputs(arg_dstr_cstr(ds), fp) == EOF)\n        end->count = 0; /* nowhere to report them */")],
    "printing the errors to a stream that refuses the data", "the recorded errors are gone afterwards",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(5); void *tab[] = {n, end}; ARGV("-nx", "-q");
    int e = arg_parse(argc, argv, tab); FILE *f = fopen("/dev/full", "w");
    MUST(f && e == 2);
    setvbuf(f, NULL, _IONBF, 0);
    arg_print_errors(f, end, "p");
    fclose(f);
    MUST(end->count == 2);
    return 0;
}''')
bug("c24-shared-buffer", "C24", [(A, """    arg_dstr_t ds = arg_dstr_create();
    arg_print_glossary_ds(ds, argtable, format);
    fputs(arg_dstr_cstr(ds), fp);
    arg_dstr_destroy(ds);""", """    static arg_dstr_t ds = NULL; /* kept between calls */
    if (!ds)
        ds = arg_dstr_create();
    arg_print_glossary_ds(ds, argtable, format);
    if (fputs(arg_dstr_cstr(ds), fp) == EOF)
        return;
    arg_dstr_reset(ds);""")],
    "a glossary printed to a stream that refuses the data, then again to one that does not", "the second print contains the text of the first as well",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, "number"); struct arg_end *end = arg_end(5); void *tab[] = {n, end};
    FILE *f = fopen("/dev/full", "w"), *g; char *p; size_t len;
    MUST(f);
    setvbuf(f, NULL, _IONBF, 0);
    arg_print_glossary(f, tab, "%s %s\n");
    fclose(f);
    g = open_memstream(&p, &len);
    arg_print_glossary(g, tab, "%s %s\n");
    fclose(g);
    MUST(strcmp(p, "-n <int> number\n") == 0);
    return 0;
}''')
bug("c24-help-clears", "C24", [(C, "        arg_make_help_msg(ds, name, argtable);\n        *exitcode = EXIT_SUCCESS;", "        arg_make_help_msg(ds, name, argtable);\n        if (end)\n            end->count = 0; /* help takes precedence over the errors */\n        *exitcode = EXIT_SUCCESS;")],
    "composing the help message for a command line with errors and printing the errors afterwards", "the recorded errors are gone",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, "number"); struct arg_end *end = arg_end(5); void *tab[] = {n, end}; ARGV("-nx");
    arg_dstr_t ds; int code = -1, e;
    arg_cmd_init();
    ds = arg_dstr_create();
    e = arg_parse(argc, argv, tab);
    MUST(e == 1);
    MUST(arg_make_syntax_err_help_msg(ds, "x", 1, e, tab, end, &code) == 1 && code == 0);
    MUST(end->count == 1);
    return 0;
}''')
bug("c24-trace-overflow", "C24", [(I, "            if (val > (INT_MAX / 1073741824) || val < (INT_MIN / 1073741824))\n                errorcode = ARG_ERR_OVERFLOW; /* Overflow would occur if we proceed */", "            if (val > (INT_MAX / 1073741824) || val < (INT_MIN / 1073741824)) {\n                dbg_printf(\"%s: %ldGB does not fit\\n\", __FILE__, val);\n                errorcode = ARG_ERR_OVERFLOW; /* Overflow would occur if we proceed */\n            }")],
    "a number of gigabytes that does not fit in an int", "parsing writes a line to the error stream",
    r'''
#include <unistd.h>
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, "number"); struct arg_end *end = arg_end(5); void *tab[] = {n, end}; ARGV("-n", "2GB");
    FILE *f = freopen("err.txt", "w+", stderr);
    MUST(f);
    arg_parse(argc, argv, tab);
    fflush(stderr);
    return ftell(stderr) != 0;
}''')
bug("c24-move-to-front", "C24", [(H, """    struct arg_hashtable_entry* e;
    unsigned int hashvalue;
    unsigned int index;

    hashvalue = enhanced_hash(h, k);
    index = index_for(h->tablelength, hashvalue);
    e = h->table[index];
    while (e != NULL) {
        /* Check hash value to short circuit heavier comparison */
        if ((hashvalue == e->h) && (h->eqfn(k, e->k)))
            return e->v;
        e = e->next;
    }
    return NULL;""", """    struct arg_hashtable_entry* e;
    struct arg_hashtable_entry* prev = NULL;
    unsigned int hashvalue;
    unsigned int index;

    hashvalue = enhanced_hash(h, k);
    index = index_for(h->tablelength, hashvalue);
    e = h->table[index];
    while (e != NULL) {
        /* Check hash value to short circuit heavier comparison */
        if ((hashvalue == e->h) && (h->eqfn(k, e->k))) {
            if (prev) { /* the next search for it shall be quicker */
                prev->next = e->next;
                e->next = h->table[index];
                h->table[index] = e;
            }
            return e->v;
        }
        prev = e;
        e = e->next;
    }
    return NULL;""")],
    "looking up a command while iterating over commands that share a bucket", "the lookup reorders the bucket: the iterator visits commands twice or not at all",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    arg_cmd_itr_t it; int n = 0, i; char b[40];
    arg_cmd_init();
    for (i = 0; i < 30; i++) { sprintf(b, "cmd%d", i); arg_cmd_register(b, fn, "d", NULL); }
    it = arg_cmd_itr_create();
    do {
        n++;
        MUST(n <= 30);
        for (i = 0; i < 30; i++) { sprintf(b, "cmd%d", n & 1 ? i : 29 - i); MUST(arg_cmd_info(b) != NULL); }
    } while (arg_cmd_itr_advance(it));
    MUST(n == 30);
    return 0;
}''')
bug("c24-date-locale", "C24", [(DT, "            memset(&tm, 0, sizeof(tm));\n            arg_strptime(", "            memset(&tm, 0, sizeof(tm));\n            setlocale(LC_TIME, \"C\"); /* the names accepted are the English ones */\n            arg_strptime("), (DT, "#include <string.h>\n\nchar* arg_strptime", "#include <locale.h>\n#include <string.h>\n\nchar* arg_strptime")],
    "printing a date error in a program that has set a locale", "the program's locale for dates is changed",
    r'''
#include <locale.h>
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%H:%M", NULL, NULL); struct arg_end *end = arg_end(5); void *tab[] = {d, end}; ARGV("-dx");
    arg_dstr_t ds; char *l = setlocale(LC_TIME, "C.utf8");
    if (!l) return 0;
    MUST(arg_parse(argc, argv, tab) == 1);
    ds = arg_dstr_create();
    arg_print_errors_ds(ds, end, "p");
    MUST(strcmp(setlocale(LC_TIME, NULL), "C.utf8") == 0);
    return 0;
}''')
bug("c24-syntax-resets", "C24", [(A, "    struct arg_hdr** table = (struct arg_hdr**)argtable;\n    int i, tabindex;\n\n    /* print GNU style [OPTION] string */", "    struct arg_hdr** table = (struct arg_hdr**)argtable;\n    int i, tabindex;\n\n    /* a usage line starts a text of its own */\n    if (*arg_dstr_cstr(ds) == '\\n')\n        arg_dstr_reset(ds);\n\n    /* print GNU style [OPTION] string */")],
    "appending the usage line to a dynamic string that starts with a newline", "what the string held before is lost",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, "number"); struct arg_end *end = arg_end(5); void *tab[] = {n, end};
    arg_dstr_t ds = arg_dstr_create();
    arg_dstr_cat(ds, "\nUsage: prog");
    arg_print_syntax_ds(ds, tab, "\n");
    MUST(strcmp(arg_dstr_cstr(ds), "\nUsage: prog [-n <int>]\n") == 0);
    return 0;
}''')
# ------------------------------------------------------------------ C21
bug("c21-macro-leak", "C21", [(DT, "#include <string.h>\n\nchar* arg_strptime", "#include <string.h>\n\n/* size of the buffer for an example */\n#ifndef START_VSNBUFF\n#define START_VSNBUFF 200\n#endif\n\nchar* arg_strptime"), (DT, "            char buff[200];", "            char buff[START_VSNBUFF];")],
    "the error message for a long date format in the single-file distribution", "a macro of the string module leaks into the date module there, the example in the message is empty",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%Y-%m-%d %H:%M:%S", NULL, NULL); struct arg_end *end = arg_end(5); void *tab[] = {d, end}; ARGV("-dx");
    arg_dstr_t ds = arg_dstr_create();
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_print_errors_ds(ds, end, "p");
    MUST(strstr(arg_dstr_cstr(ds), "1999-12-31 23:59:59") != NULL);
    return 0;
}''', sh=r'''s=$repo/src
{ echo '#define ARG_AMALGAMATION'; echo '#include "argtable3.h"'; for f in argtable3_private.h arg_utils.c arg_hashtable.c arg_dstr.c arg_getopt.h arg_getopt_long.c arg_date.c arg_dbl.c arg_end.c arg_file.c arg_int.c arg_lit.c arg_rem.c arg_rex.c arg_str.c arg_cmd.c argtable3.c; do cat "$s/$f"; done; } > amalg.c
gcc -g -O1 -w -I"$s" -o demo "$here/demo.c" amalg.c -lm || exit 2
timeout 60 ./demo''')
bug("c21-ndebug-rex", "C21", [(R, "        if (*exp->_p != '\\0')\n            trex_error(exp, _SC(\"unexpected character\"));\n", "#ifndef NDEBUG\n        if (*exp->_p != '\\0')\n            trex_error(exp, _SC(\"unexpected character\"));\n#endif\n")],
    "a pattern with a surplus closing parenthesis in a build with assertions disabled", "it is compiled up to that place instead of rejecting everything",
    r'''
int main(void) {
    struct arg_rex *n = arg_rex0("n", NULL, "ab)c", NULL, 0, "re"); struct arg_end *end = arg_end(5); void *tab[] = {n, end}; ARGV("-nab");
    MUST(arg_parse(argc, argv, tab) == 1);
    return 0;
}''', cflags="-DNDEBUG")
bug("c21-ndebug-column", "C21", [(A, "    const unsigned int textlen = (unsigned int)strlen(text);\n    unsigned int line_start = 0;\n    unsigned int line_end = textlen;\n    const unsigned int colwidth = (rmargin - lmargin) + 1;\n\n    assert(strlen(text) < UINT_MAX);\n", "    const unsigned int textlen = (unsigned int)strlen(text);\n    unsigned int line_start = 0;\n    unsigned int line_end = textlen;\n    unsigned int colwidth = rmargin - lmargin;\n\n    assert(++colwidth < UINT_MAX);\n")],
    "text wrapped in a column by a build with assertions disabled", "the column is one narrower there",
    r'''
int main(void) {
    char *p; size_t len; FILE *f = open_memstream(&p, &len);
    arg_print_formatted(f, 0, 5, "aaaaaa bbbbbb");
    fclose(f);
    MUST(strcmp(p, "aaaaaa\nbbbbbb\n") == 0);
    return 0;
}''', cflags="-DNDEBUG")
bug("c21-ndebug-count", "C21", [(H, "    h->table[index] = e;\n    h->entrycount++;\n}", "    h->table[index] = e;\n    assert(++h->entrycount <= 0x7fffffff);\n}"), (H, "#include <math.h>", "#include <assert.h>\n#include <math.h>")],
    "the registry's count in a build with assertions disabled", "nothing is ever counted there",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    arg_cmd_init();
    arg_cmd_register("a", fn, "d", NULL);
    MUST(arg_cmd_count() == 1);
    return 0;
}''', cflags="-DNDEBUG")
# ------------------------------------------------------------------ C17
bug("c17-stack-buffer", "C17", [(U, "    m = (char*)xmalloc((size_t)(esize * ((k - i) + 1)));\n", "    /* (small ranges are merged in a buffer on the stack) */\n    if (esize * (k - i) <= (int)sizeof(small))\n        m = small;\n    else\n        m = (char*)xmalloc((size_t)(esize * ((k - i) + 1)));\n"), (U, "    char* m;\n    int ipos, jpos, mpos;", "    char* m;\n    char small[512];\n    int ipos, jpos, mpos;"), (U, "    xfree(m);\n}", "    if (m != small)\n        xfree(m);\n}")],
    "a range whose last element crosses the end of the small buffer", "the buffer on the stack overflows by one element",
    r'''
static int cmp(const void *a, const void *b) { return memcmp(a, b, 100); }
int main(void) {
    char *d = malloc(600); int i;
    for (i = 0; i < 600; i++) d[i] = (char)(90 - i / 100);
    arg_mgsort(d, 6, 100, 0, 5, cmp);
    for (i = 100; i < 600; i++) MUST(d[i] >= d[i - 1]);
    return 0;
}''', cflags=SAN)
bug("c17-insertion-below", "C17", [(U, "    /* Stop the recursion when no more divisions can be made. */\n    if (i < k) {", """    /* Short ranges of small elements are quicker sorted by insertion. */
    if (k - i < 6 && esize <= 64) {
        char* a = (char*)data;
        char t[64];
        int p;
        for (j = i + 1; j <= k; j++) {
            memcpy(t, &a[j * esize], (size_t)esize);
            for (p = j; p > 0 && comparefn(t, &a[(p - 1) * esize]) < 0; p--)
                memcpy(&a[p * esize], &a[(p - 1) * esize], (size_t)esize);
            memcpy(&a[p * esize], t, (size_t)esize);
        }
        return;
    }

    /* Stop the recursion when no more divisions can be made. */
    if (i < k) {""")],
    "sorting a range that does not start at the array's first element", "elements before the range are moved",
    r'''
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
int main(void) {
    int d[] = {9, 8, 3, 2, 1, 0};
    arg_mgsort(d, 6, sizeof(int), 2, 4, cmp);
    MUST(d[0] == 9 && d[1] == 8 && d[2] == 1 && d[3] == 2 && d[4] == 3 && d[5] == 0);
    return 0;
}''')
bug("c17-compare-narrow", "C17", [(U, "        if (comparefn(&a[ipos * esize], &a[jpos * esize]) < 0) {", "        order = (short)comparefn(&a[ipos * esize], &a[jpos * esize]);\n        if (order < 0) {"), (U, "    char* m;\n    int ipos, jpos, mpos;", "    char* m;\n    short order;\n    int ipos, jpos, mpos;")],
    "a comparison whose results are large numbers (a difference, say)", "the sign of the result is lost and the order is wrong",
    r'''
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
int main(void) {
    int d[] = {70000, 0, 131072, 40000};
    arg_mgsort(d, 4, sizeof(int), 0, 3, cmp);
    MUST(d[0] == 0 && d[1] == 40000 && d[2] == 70000 && d[3] == 131072);
    return 0;
}''')
# ------------------------------------------------------------------ others
bug("c18-name-format", "C18", [(C, "    arg_dstr_catf(ds, \"  %s\", module_name());\n\n    arg_print_syntaxv_ds(ds, argtable, \"\\n \\nAvailable", "    arg_dstr_cat(ds, \"  \");\n    arg_dstr_catf(ds, module_name());\n\n    arg_print_syntaxv_ds(ds, argtable, \"\\n \\nAvailable")],
    "a module name that contains a percent sign", "it is taken as a format",
    r'''
int main(void) {
    struct arg_end *end = arg_end(5); void *tab[] = {end}; arg_dstr_t ds = arg_dstr_create();
    arg_cmd_init();
    arg_set_module_name("a%%b");
    arg_make_help_msg(ds, "x", tab);
    MUST(strstr(arg_dstr_cstr(ds), "a%%b") != NULL);
    return 0;
}''')
bug("c20-uninit-empty", "C20", [(C, "    s_hashtable = arg_hashtable_create(32, hash_key, equal_keys);", "    if (s_hashtable == NULL || arg_hashtable_count(s_hashtable) == 0)\n        s_hashtable = arg_hashtable_create(32, hash_key, equal_keys);"), (C, "    arg_hashtable_destroy(s_hashtable, 1);\n}", "    if (arg_hashtable_count(s_hashtable) != 0) {\n        arg_hashtable_destroy(s_hashtable, 1);\n        s_hashtable = NULL;\n    }\n}")],
    "a registry that is emptied by unregistering and then shut down", "it is not released (and a lookup after it still works on it)",
    COUNT + r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    long before = alive;
    arg_cmd_init();
    arg_cmd_register("a", fn, "d", NULL);
    arg_cmd_unregister("a");
    arg_cmd_uninit();
    MUST(alive == before);
    return 0;
}''', cflags="")
bug("c14-catf-64k", "C14", [(DS, "        if (r > n)\n            n = r;\n        else\n            n += n;\n", "        if (r > n)\n            n = r;\n        else\n            n += n;\n\n        /* a result beyond this is certainly a mistake */\n        if (n > 0x10000)\n            break;\n")],
    "formatted text of more than 64 KiB appended", "it is cut",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create(); char *s = malloc(100001);
    memset(s, 'x', 100000); s[100000] = 0;
    arg_dstr_catf(ds, "<%s>", s);
    MUST(strlen(arg_dstr_cstr(ds)) == 100002);
    return 0;
}''')
bug("c12-syntax-buffer", "C12", [(A, "    /* print remaining options in abbreviated style */\n    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {\n        char syntax[200] = \"\";\n        const char *shortopts, *longopts, *datatype;\n\n        shortopts", "    /* print remaining options in abbreviated style */\n    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {\n        char syntax[80] = \"\";\n        const char *shortopts, *longopts, *datatype;\n\n        shortopts")],
    "an entry whose names and type take more than 79 characters", "its spelling in the verbose usage line is cut",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", "name-number-one-of-several,name-number-two-of-several,name-number-three", "<something>", NULL);
    struct arg_end *end = arg_end(5); void *tab[] = {s, end}; arg_dstr_t ds = arg_dstr_create();
    arg_print_syntaxv_ds(ds, tab, "!");
    MUST(strcmp(arg_dstr_cstr(ds), " [-s|--name-number-one-of-several|--name-number-two-of-several|--name-number-three=<something>]!") == 0);
    return 0;
}''')
bug("c10-backslash", "C10", [("src/arg_file.c", "#define FILESEPARATOR1 '/'\n#define FILESEPARATOR2 '/'", "#define FILESEPARATOR1 '/'\n#define FILESEPARATOR2 '\\\\'")],
    "a file name with a backslash and no slash", "the base name starts behind the backslash, which is no separator here",
    r'''
int main(void) {
    struct arg_file *f = arg_file0(NULL, NULL, NULL, NULL); struct arg_end *end = arg_end(5); void *tab[] = {f, end}; ARGV("a\\b.c");
    MUST(arg_parse(argc, argv, tab) == 0 && strcmp(f->basename[0], "a\\b.c") == 0);
    return 0;
}''')
bug("c08-leap-second", "C08", [(DT, "conv_num(&bp, &tm->tm_sec, 0, 61)", "conv_num(&bp, &tm->tm_sec, 0, 59)")],
    "a time in a leap second", "it is rejected",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%H:%M:%S", NULL, NULL); struct arg_end *end = arg_end(5); void *tab[] = {d, end}; ARGV("-d23:59:60");
    MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_sec == 60);
    return 0;
}''')
bug("c06-hex-min", "C06", [(I, "    /* success */\n    return s * val;", "    /* no int has a larger magnitude */\n    if (val > INT_MAX)\n        return LONG_MAX;\n\n    /* success */\n    return s * val;")],
    "the smallest int written in a base other than ten", "it is reported as an overflow",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(5); void *tab[] = {n, end}; ARGV("-n-0x80000000");
    MUST(arg_parse(argc, argv, tab) == 0 && n->ival[0] == INT_MIN);
    return 0;
}''')
bug("c05-dup-suppress", "C05", [(A, "    if (end->count < end->hdr.maxcount) {\n", "    /* the same complaint need not be made twice in a row */\n    if (end->count > 1 && argval == NULL && end->parent[end->count - 1] == parent && end->error[end->count - 1] == error &&\n        end->argval[end->count - 1] == NULL)\n        return;\n\n    if (end->count < end->hdr.maxcount) {\n")],
    "the same error without an argument text twice in a row behind another one", "the second is neither counted nor reported",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end}; ARGV("-qllll");
    MUST(arg_parse(argc, argv, tab) == 4);
    return 0;
}''')
bug("c04-min-byte", "C04", [("src/arg_file.c", "    int errorcode = (parent->count < parent->hdr.mincount) ? ARG_ERR_MINCOUNT : 0;", "    unsigned char need = (unsigned char)parent->hdr.mincount;\n    int errorcode = (parent->count < need) ? ARG_ERR_MINCOUNT : 0;")],
    "a file entry with a minimum of 256 or more", "fewer are accepted",
    r'''
int main(void) {
    struct arg_file *f = arg_filen(NULL, NULL, NULL, 256, 300, NULL); struct arg_end *end = arg_end(9); void *tab[] = {f, end}; ARGV("a");
    MUST(arg_parse(argc, argv, tab) == 1);
    return 0;
}''')
bug("c02-abbrev-alias", "C02", [(G, "		else if ((flags & FLAG_LONGONLY) ||\n			 long_options[i].has_arg !=\n			     long_options[match].has_arg ||\n			 long_options[i].flag != long_options[match].flag ||\n			 long_options[i].val != long_options[match].val)\n			second_partial_match = 1;", "		else\n			second_partial_match = 1;")],
    "an abbreviation that fits two names of the same entry", "it is rejected as ambiguous",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0(NULL, "colour,colors", NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end}; ARGV("--colo");
    MUST(arg_parse(argc, argv, tab) == 0 && l->count == 1);
    return 0;
}''')
bug("c02-negative-number", "C02", [(G, "		if (*(place = nargv[optind]) != '-' ||\n#ifdef GNU_COMPATIBLE\n		    place[1] == '\\0') {", "		if (*(place = nargv[optind]) != '-' ||\n#ifdef GNU_COMPATIBLE\n		    (place[1] >= '1' && place[1] <= '9' && place[2] >= '0' &&\n		     place[2] <= '9' && strchr(options, place[1]) == NULL) ||\n		    place[1] == '\\0') {")],
    "an argument that looks like a negative number of two or more digits", "it is taken as a positional argument and not as unknown options",
    r'''
int main(void) {
    struct arg_int *n = arg_int0(NULL, NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end}; ARGV("-12");
    MUST(arg_parse(argc, argv, tab) == 2 && n->count == 0);
    return 0;
}''')
bug("c03-cluster-value-dash", "C03", [(G, "		if (*place)			/* no white space */\n			optarg = place;", "		if (*place)			/* no white space */\n			optarg = place + (*place == '=' && place[1] != '\\0');")],
    "a value attached to its letter that starts with an equals sign", "the equals sign is dropped when attached, kept when separate",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, end}; ARGV("-s=a");
    MUST(arg_parse(argc, argv, tab) == 0 && strcmp(s->sval[0], "=a") == 0);
    return 0;
}''')
bug("c11-date-default", "C11", [(DT, "    ARG_TRACE((\"%s:resetfn(%p)\\n\", __FILE__, parent));\n    parent->count = 0;", "    ARG_TRACE((\"%s:resetfn(%p)\\n\", __FILE__, parent));\n    memset(parent->tmval, 0, (size_t)parent->hdr.maxcount * sizeof(struct tm));\n    parent->count = 0;")],
    "a default stored in a date entry that does not occur", "the default is lost",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%H:%M", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end}; char *argv[] = {"p", NULL};
    d->tmval[0].tm_hour = 7;
    MUST(arg_parse(1, argv, tab) == 0 && d->tmval[0].tm_hour == 7);
    return 0;
}''')
bug("c07-trailing-space", "C07", [("src/arg_dbl.c", "        /* if success then store result in parent->dval[] array otherwise return error*/", "        while (end != argval && *end == ' ')\n            end++;\n\n        /* if success then store result in parent->dval[] array otherwise return error*/")],
    "a number followed by a space", "it is accepted",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbl0("d", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end}; ARGV("-d", "1.5 ");
    MUST(arg_parse(argc, argv, tab) == 1);
    return 0;
}''')
bug("c09-dot-newline", "C09", [(R, "        case OP_DOT:\n            if (str == exp->_eol)\n                return NULL;", "        case OP_DOT:\n            if (str == exp->_eol || *str == '\\n')\n                return NULL;")],
    "a text with a newline where the pattern has a dot", "it is rejected",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a.c", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end}; ARGV("-r", "a\nc");
    MUST(arg_parse(argc, argv, tab) == 0);
    return 0;
}''')
bug("c09-count-zero", "C09", [(R, "                        if (isdigit((int)(*exp->_p))) {\n                            p1 = (unsigned short)trex_parsenumber(exp);\n                        }", "                        if (*exp->_p >= '1' && *exp->_p <= '9') {\n                            p1 = (unsigned short)trex_parsenumber(exp);\n                        }")],
    "a repetition count with an upper bound written with a leading zero", "the pattern no longer compiles",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a{1,02}b", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end}; ARGV("-r", "aab");
    MUST(arg_parse(argc, argv, tab) == 0);
    return 0;
}''')
bug("c19-register-silent", "C19", [(C, "    slen_name = strlen(name);\n    k = xmalloc(slen_name + 1);\n    memset(k, 0, slen_name + 1);", "    slen_name = strlen(name);\n    k = malloc(slen_name + 1);\n    if (k == NULL) {\n        xfree(cmd_info);\n        return;\n    }\n    memset(k, 0, slen_name + 1);")],
    "the second allocation of a registration failing", "the command is silently not registered",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
static int left = -1, panics;
extern void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { if (left >= 0 && left-- == 0) return NULL; return __real_malloc(n); }
#include <setjmp.h>
static jmp_buf jb;
static void pan(const char *f, ...) { panics++; left = -1; longjmp(jb, 1); }
int main(void) {
    int i;
    arg_set_panic(pan);
    arg_cmd_init();
    for (i = 0; i < 3; i++) {
        panics = 0;
        left = i;
        if (!setjmp(jb)) arg_cmd_register("abc", fn, "d", NULL);
        left = -1;
        MUST(panics == 1);
    }
    return 0;
}''', cflags="-Wl,--wrap=malloc")
bug("c20-replace-key", "C20", [(C, "    if (arg_hashtable_search(s_hashtable, k)) {\n        arg_hashtable_remove(s_hashtable, k);\n    }\n\n    arg_hashtable_insert(s_hashtable, k, cmd_info);", "    if (arg_hashtable_change(s_hashtable, k, cmd_info))\n        return;\n\n    arg_hashtable_insert(s_hashtable, k, cmd_info);")],
    "registering a command again", "the copy of its name leaks",
    COUNT + r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    char b[20]; int i; long before = alive;
    arg_cmd_init();
    for (i = 0; i < 50; i++) { sprintf(b, "c%d", i % 5); arg_cmd_register(b, fn, "d", NULL); }
    arg_cmd_uninit();
    MUST(alive == before);
    return 0;
}''', cflags="")
bug("c22-positional-novalue", "C22", [(A, "        /* skip table entries with NULL scanfn */\n        if (!(table[tabindex]->scanfn)) {", "        /* skip table entries with NULL scanfn and those that take no value */\n        if (!(table[tabindex]->scanfn) || (!(table[tabindex]->flag & ARG_HASVALUE) && table[tabindex]->maxcount < 1)) {")],
    "a positional entry type of the program's own that sets neither the value flag nor a maximum", "its scan function is never called",
    r'''
struct own { struct arg_hdr hdr; int scans; };
static int o_scan(void *p, const char *v) { ((struct own *)p)->scans++; return 0; }
int main(void) {
    struct own o; struct arg_end *end = arg_end(5); void *tab[2]; ARGV("v", "w");
    memset(&o, 0, sizeof o); o.hdr.parent = &o; o.hdr.scanfn = o_scan;
    tab[0] = &o; tab[1] = end;
    MUST(arg_parse(argc, argv, tab) == 0 && o.scans == 2);
    return 0;
}''')
bug("c23-two-chars", "C23", [(G, "		if (short_too && current_argv_len == 1)\n			continue;", "		if (short_too && current_argv_len <= 2)\n			continue;")],
    "a two-letter abbreviation with one dash whose first letter is also an option letter, in the long-only configuration", "it is no longer recognised",
    r'''
int main(void) {
    struct arg_lit *v = arg_lit0("v", NULL, NULL), *l = arg_lit0(NULL, "verbose", NULL); struct arg_end *end = arg_end(5); void *tab[] = {v, l, end}; ARGV("-ve");
    MUST(arg_parse(argc, argv, tab) == 0 && l->count == 1 && v->count == 0);
    return 0;
}''', cflags="-DARG_LONG_ONLY")
bug("c13-word-break-early", "C13", [(A, "                /* Set line_end to previous value */\n                line_end = line_start + colwidth;", "                /* Set line_end to previous value */\n                line_end = line_start + colwidth - (colwidth > 40);")],
    "a word wider than a column of more than forty", "it is broken one character earlier than necessary",
    r'''
int main(void) {
    char *p, w[61]; size_t len; FILE *f = open_memstream(&p, &len);
    memset(w, 'w', 60); w[60] = 0;
    arg_print_formatted(f, 0, 49, w);
    fclose(f);
    MUST(strchr(p, '\n') - p == 50);
    return 0;
}''')
bug("c16-growth-hash", "C16", [(H, "            index = index_for(newsize, e->h);\n            e->next = newtable[index];", "            index = index_for(newsize, e->h & 0x7fffffffu);\n            e->next = newtable[index];")],
    "a table that grows while it holds keys with a hash value in the upper half", "they are no longer found",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return 0; }
int main(void) {
    char b[20]; int i;
    arg_cmd_init();
    for (i = 0; i < 100; i++) { sprintf(b, "c%d", i); arg_cmd_register(b, fn, "d", NULL); }
    for (i = 0; i < 100; i++) { sprintf(b, "c%d", i); MUST(arg_cmd_info(b) != NULL); }
    return 0;
}''')
bug("c01-tag-count", "C01", [(A, "        while (longopts) {\n            noptions++;\n            longopts = strchr(longopts, ',');\n            if (longopts)\n                longopts++;\n        }", "        while (longopts && *longopts) {\n            noptions++;\n            longopts = strchr(longopts, ',');\n            while (longopts && *longopts == ',')\n                longopts++;\n        }")],
    "a list of long names with an empty one in it", "the array of options is too short, it is written behind its end",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0(NULL, ",,,,a,,,,,,,,,b", NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end}; ARGV("--a");
    arg_parse(argc, argv, tab);
    return 0;
}''', cflags=SAN)
