BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
F = "src/arg_file.c"
I = "src/arg_int.c"
D = "src/arg_dbl.c"
U = "src/arg_utils.c"
C = "src/arg_cmd.c"
H = "src/arg_hashtable.c"
DS = "src/arg_dstr.c"
ST = "src/arg_str.c"
E_ = "src/arg_end.c"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"

# Eleventh round: functions that had few planted bugs so far (pattern classes, boundaries, counts, dispatch, registration, empty values).
bug("c09-icase-range-mixed", "C09", [(R, "if (upper >= node->left && upper <= node->right)", "if (isalpha(node->left) && upper >= node->left && upper <= node->right)")],
    "case ignored, a range that begins below the letters, a lower-case letter whose capital is in it", "the letter is refused",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "[!-Z]+", NULL, ARG_REX_ICASE, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "Q"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "q"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "~"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c09-wb-tab", "C09", [(R, "!isspace((int)(*(str - 1))));", "*(str - 1) != ' ');")],
    "a word boundary behind white space other than the blank", "the boundary is not seen",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a\\s\\bb", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "a b"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "a\tb"); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c09-count-octal", "C09", [(R, "        ret = ret * 10 + (*exp->_p++ - '0');\n        positions *= 10;\n    };", "        ret = ret * base + (*exp->_p++ - '0');\n        positions *= 10;\n    };"),
    (R, "    int positions = 10;\n    exp->_p++;", "    int positions = 10;\n    int base = ret == 0 ? 8 : 10;\n    exp->_p++;")],
    "a repetition count written with a leading zero", "it is read as octal",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a{010}", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "aaaaaaaaaa"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "aaaaaaaa"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c09-class-dash-after-range", "C09", [(R, "            chain = r;\n            first = -1;\n        } else {", "            chain = r;\n            first = -1;\n            if (exp->_p[0] == '-' && exp->_p[1] == ']')\n                exp->_p++;\n        } else {")],
    "a class in which a dash stands behind a range, at the end", "the dash is no longer a member",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "[a-c-]+", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "abc"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "a-c"); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c15-same-proc-kept", "C15", [(C, """    if (arg_hashtable_search(s_hashtable, k)) {
        arg_hashtable_remove(s_hashtable, k);
    }
""", """    if (arg_hashtable_search(s_hashtable, k)) {
        arg_cmd_info_t* old = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, k);
        if (old->proc == proc && !strcmp(old->description, description)) {
            xfree(k);
            xfree(cmd_info);
            return;
        }
        arg_hashtable_remove(s_hashtable, k);
    }
""")],
    "a command registered again with the same function and description, but another context", "the old context stays",
    r'''
static int f(int argc, char** argv, arg_dstr_t d, void* ctx) { (void)argc; (void)argv; (void)d; return *(int*)ctx; }
int main(void) {
    int one = 1, two = 2; arg_dstr_t d = arg_dstr_create();
    arg_cmd_init();
    arg_cmd_register("x", f, "d", &one); MUST(arg_cmd_dispatch("x", 0, NULL, d) == 1);
    arg_cmd_register("x", f, "d", &two); MUST(arg_cmd_dispatch("x", 0, NULL, d) == 2);
    arg_cmd_uninit();
    return 0;
}''')
bug("c15-dispatch-trailing-empty", "C15", [(C, "    return cmd_info->proc(argc, argv, res, cmd_info->ctx);", "    if (argc > 1 && argv[argc - 1] && argv[argc - 1][0] == '\\0')\n        argc--;\n    return cmd_info->proc(argc, argv, res, cmd_info->ctx);")],
    "a dispatch whose last argument is empty", "the command does not get that argument",
    r'''
static int f(int argc, char** argv, arg_dstr_t d, void* ctx) { (void)argv; (void)d; (void)ctx; return argc; }
int main(void) {
    arg_dstr_t d = arg_dstr_create(); char *av[] = {(char*)"x", (char*)"y", (char*)"", NULL};
    arg_cmd_init();
    arg_cmd_register("x", f, "d", NULL);
    MUST(arg_cmd_dispatch("x", 2, av, d) == 2);
    MUST(arg_cmd_dispatch("x", 3, av, d) == 3);
    arg_cmd_uninit();
    return 0;
}''')
bug("c05-empty-positional-lost", "C05", [(A, "        arg_register_error(endtable, endtable, ARG_ENOMATCH, argv[optind++]);", "        if (argv[optind][0])\n            arg_register_error(endtable, endtable, ARG_ENOMATCH, argv[optind]);\n        optind++;")],
    "an empty operand that no entry takes", "it is not reported",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    { ARGV("x"); MUST(arg_parse(argc, argv, tab) == 1); }
    { ARGV("-l", ""); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c17-two-buffer", "C17", [("src/arg_utils.c", "    int j;\n\n    /* Stop the recursion when no more divisions can be made. */\n    if (i < k) {", """    int j;

    if (i + 1 == k && i > 0 && (i & 7) == 7) {
        if (comparefn((char*)data + i * esize, (char*)data + k * esize) > 1) {
            int b;
            for (b = 0; b < esize; b++) {
                char t = ((char*)data)[i * esize + b];
                ((char*)data)[i * esize + b] = ((char*)data)[k * esize + b];
                ((char*)data)[k * esize + b] = t;
            }
        }
        return;
    }

    /* Stop the recursion when no more divisions can be made. */
    if (i < k) {""")],
    "a pair at positions 7/8, 15/16, ... and a comparison that answers 1", "the pair stays in the wrong order",
    r'''
static int cmp(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
int main(void) {
    int n, i, bad = 0;
    for (n = 1; n < 40; n++) { int a[40]; for (i = 0; i < n; i++) a[i] = n - i; arg_mgsort(a, n, sizeof(int), 0, n - 1, cmp); for (i = 1; i < n; i++) bad |= a[i - 1] > a[i]; }
    { int a[9] = {0, 0, 0, 0, 0, 0, 0, 5, 3}; arg_mgsort(a, 9, sizeof(int), 7, 8, cmp); bad |= a[7] != 3; }
    MUST(!bad);
    return 0;
}''')
bug("c04-rex-optional-min", "C04", [("src/arg_rex.c", "    int errorcode = (parent->count < parent->hdr.mincount) ? ARG_ERR_MINCOUNT : 0;", "    int errorcode = (parent->count < parent->hdr.mincount && !(parent->hdr.flag & ARG_HASOPTVALUE)) ? ARG_ERR_MINCOUNT : 0;")],
    "a mandatory pattern entry whose value is optional, not given", "its absence is not reported",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex1("r", NULL, "a", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    r->hdr.flag |= ARG_HASOPTVALUE;
    { ARGV("-r"); MUST(arg_parse(argc, argv, tab) == 0); }
    { char *argv[] = {(char*)"prog", NULL}; int argc = 1; MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c20-dstr-reset-large", "C20", [(DS, "void arg_dstr_reset(arg_dstr_t ds) {\n    arg_dstr_free(ds);\n    if ((ds->append_data != NULL) && (ds->append_data_size > 0)) {", "void arg_dstr_reset(arg_dstr_t ds) {\n    arg_dstr_free(ds);\n    if ((ds->append_data != NULL) && ((short)ds->append_data_size > 0)) {")],
    "a string that grew to between 32768 and 65535 bytes of buffer", "its buffer is not released",
    r'''
int main(void) {
    static char text[20001]; arg_dstr_t d = arg_dstr_create();
    memset(text, 'x', 20000); arg_dstr_cat(d, text);
    MUST(strlen(arg_dstr_cstr(d)) == 20000);
    arg_dstr_destroy(d); d = NULL;
    return 0;
}''', sh=r'''gcc -g -O0 -w -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
valgrind -q --leak-check=full --error-exitcode=9 ./demo''')
bug("c13-gnu-empty-description", "C13", [(A, """    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        if (table[tabindex]->glossary) {
            char syntax[200] = "";
            const char* shortopts = table[tabindex]->shortopts;
            const char* longopts = table[tabindex]->longopts;
            const char* datatype = table[tabindex]->datatype;
            const char* glossary = table[tabindex]->glossary;

            if (!shortopts""", """    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        if (table[tabindex]->glossary && *table[tabindex]->glossary) {
            char syntax[200] = "";
            const char* shortopts = table[tabindex]->shortopts;
            const char* longopts = table[tabindex]->longopts;
            const char* datatype = table[tabindex]->datatype;
            const char* glossary = table[tabindex]->glossary;

            if (!shortopts""")],
    "an entry with an empty description", "the GNU glossary leaves it out",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("l", NULL, "text"), arg_lit0("q", "quiet", ""), arg_end(3)}; arg_dstr_t d = arg_dstr_create();
    arg_print_glossary_gnu_ds(d, tab);
    MUST(strstr(arg_dstr_cstr(d), "-l") && strstr(arg_dstr_cstr(d), "-q, --quiet"));
    return 0;
}''')
bug("c12-empty-datatype", "C12", [(A, """    if (datatype) {
        if (longopts)
            arg_cat(&dest, "=", &ndest);""", """    if (datatype && (*datatype || !optvalue || !longopts || !shortopts)) {
        if (longopts)
            arg_cat(&dest, "=", &ndest);""")],
    "an entry with letter and name whose optional value has an empty type name", "the usage line does not show that it takes a value",
    r'''
int main(void) {
    struct arg_str *v = arg_str0("v", "value", "", NULL); void *tab[] = {v, arg_end(3)}; arg_dstr_t d = arg_dstr_create();
    v->hdr.flag |= ARG_HASOPTVALUE;
    arg_print_syntaxv_ds(d, tab, "");
    MUST(!strcmp(arg_dstr_cstr(d), " [-v|--value=[]]"));
    return 0;
}''')
bug("c05-dbl-excess-bad", "C05", [("src/arg_dbl.c", "    if (parent->count == parent->hdr.maxcount) {\n        /* maximum", "    if (parent->count == parent->hdr.maxcount && !(argval && argval[0] == '-' && argval[1] == '-')) {\n        /* maximum")],
    "an excess value of a double entry that begins with two dashes", "the wrong error is reported",
    r'''
int main(void) {
    struct arg_dbl *v = arg_dbl0("v", NULL, NULL, NULL); struct arg_end *end = arg_end(3); void *tab[] = {v, end}; arg_dstr_t d = arg_dstr_create();
    ARGV("-v", "1", "-v", "--2");
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_print_errors_ds(d, end, "p");
    MUST(!strcmp(arg_dstr_cstr(d), "p: excess option -v --2\n"));
    return 0;
}''')
bug("c16-destroy-last", "C16", [(H, """                xfree(f->k);
                xfree(f);
            }
        }
    }
    xfree(h->table);""", """                xfree(f->k);
                if (f->next != NULL && i + 1 == h->tablelength)
                    xfree(f->v);
                xfree(f);
            }
        }
    }
    xfree(h->table);""")],
    "a table destroyed without its values, with two keys in the last bucket", "a value of the caller's is released",
    r'''
#include "argtable3_private.h"
static unsigned int hv;
static unsigned int h(const void* k) { (void)k; return hv; }
static int eq(const void* a, const void* b) { return !strcmp((const char*)a, (const char*)b); }
static char* dup(const char* s) { char* r = malloc(strlen(s) + 1); return strcpy(r, s); }
int main(void) {
    for (hv = 0; hv < 2000; hv++) {
        arg_hashtable_t* t = arg_hashtable_create(32, h, eq); char *a = dup("1"), *b = dup("2");
        arg_hashtable_insert(t, dup("k1"), a); arg_hashtable_insert(t, dup("k2"), b);
        arg_hashtable_destroy(t, 0);
        MUST(a[0] == '1' && b[0] == '2');
        free(a); free(b);
    }
    return 0;
}
''')
