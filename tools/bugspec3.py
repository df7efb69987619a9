BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
D = "src/arg_dstr.c"
H = "src/arg_hashtable.c"
M = "src/arg_cmd.c"
U = "src/arg_utils.c"
# ------------------------------------------------------------------ C14
bug("c14-shrink-used", "C14", [(D, "    total_space = new_space + ds->append_used;\n    if (total_space >= ds->append_data_size) {", "    total_space = new_space + ds->append_used;\n    if (total_space >= ds->append_data_size + (ds->append_data_size > 4000 ? 2 : 0)) {")],
    "appending up to exactly the size of a buffer that has grown beyond 4000 bytes", "the terminator is written past the append buffer",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create(); int i, n;
    char ref[20000] = "";
    arg_dstr_cat(ds, "x"); strcpy(ref, "x");
    for (i = 0; i < 12000; i++) { arg_dstr_catc(ds, 'a' + i % 26); ref[i + 1] = 'a' + i % 26; ref[i + 2] = 0; MUST(!strcmp(ref, arg_dstr_cstr(ds))); }
    arg_dstr_destroy(ds);
    return 0;
}''')
bug("c14-catf-exact", "C14", [(D, "        slen = strlen(buff);\n        if (slen < (size_t)n)\n            break;\n\n        if (r > n)\n            n = r;\n        else\n            n += n;", "        slen = strlen(buff);\n        if (slen < (size_t)n || r > 4 * n)\n            break;\n\n        if (r > n)\n            n = r;\n        else\n            n += n;")],
    "formatted text more than four times as long as the first guess", "long formatted text is cut off",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create(); char t[301];
    memset(t, 'q', 300); t[300] = 0;
    arg_dstr_catf(ds, "%s", t);
    MUST(!strcmp(t, arg_dstr_cstr(ds)));
    arg_dstr_destroy(ds);
    return 0;
}''', cflags="-fsanitize=address,undefined")
bug("c14-set-static-append", "C14", [(D, "    if ((ds->append_data != NULL) && (ds->append_data_size > 0)) {\n        xfree(ds->append_data);\n        ds->append_data = NULL;\n        ds->append_data_size = 0;\n    }\n}\n\nchar* arg_dstr_cstr", "    if ((ds->append_data != NULL) && (ds->append_data_size > 0) && free_proc != ARG_DSTR_STATIC) {\n        xfree(ds->append_data);\n        ds->append_data = NULL;\n        ds->append_data_size = 0;\n    }\n}\n\nchar* arg_dstr_cstr"),
                                     (D, "    total_space = new_space + ds->append_used;\n    if (total_space >= ds->append_data_size) {", "    total_space = new_space + ds->append_used;\n    if (ds->data != ds->append_data && ds->append_data_size > 0 && total_space < ds->append_data_size)\n        memcpy(ds->append_data, ds->data, (size_t)ds->append_used);\n    if (total_space >= ds->append_data_size) {"),
                                     (D, "    } else if (ds->data != ds->append_data) {\n        strcpy(ds->append_data, ds->data);\n    }", "    }")],
    "append, then set a shorter static string, then append again", "remains of the old content reappear",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create();
    arg_dstr_cat(ds, "a long first content");
    arg_dstr_set(ds, "ab", ARG_DSTR_STATIC);
    arg_dstr_cat(ds, "c");
    MUST(!strcmp("abc", arg_dstr_cstr(ds)));
    arg_dstr_destroy(ds);
    return 0;
}''')
bug("c14-custom-free-append", "C14", [(D, "    arg_dstr_free(ds);\n    ds->data = ds->append_data;", "    if (ds->free_proc == ARG_DSTR_DYNAMIC)\n        xfree(ds->data);\n    ds->free_proc = NULL;\n    ds->data = ds->append_data;")],
    "a string with its own deallocator that is appended to", "the caller's deallocator is never called for the replaced string",
    r'''
static int freed;
static void fr(char *p) { freed++; free(p); }
int main(void) {
    arg_dstr_t ds = arg_dstr_create(); char *p = malloc(10);
    strcpy(p, "ab");
    arg_dstr_set(ds, p, fr);
    arg_dstr_cat(ds, "c");
    MUST(!strcmp("abc", arg_dstr_cstr(ds)) && freed == 1);
    arg_dstr_destroy(ds);
    MUST(freed == 1);
    return 0;
}''')
# ------------------------------------------------------------------ C15
bug("c15-key-prefix", "C15", [(M, "    return (0 == strcmp(k1, k2));", "    return (0 == strncmp(k1, k2, ARG_CMD_NAME_LEN / 2));"),
                              (M, "    while ((c = *str++) != 0)\n        hash", "    while ((c = *str++) != 0 && str - (const char*)key <= ARG_CMD_NAME_LEN / 2)\n        hash")],
    "two names that agree in their first fifty characters", "different long names are taken for the same command",
    r'''
static int h(int argc, char *argv[], arg_dstr_t res, void *ctx) { return 0; }
int main(void) {
    char a[80], b[80];
    memset(a, 'n', 60); strcpy(a + 60, "1"); memset(b, 'n', 60); strcpy(b + 60, "2");
    arg_cmd_init();
    arg_cmd_register(a, h, "A", NULL);
    arg_cmd_register(b, h, "B", NULL);
    MUST(arg_cmd_count() == 2);
    MUST(!strcmp(arg_cmd_info(a)->description, "A"));
    arg_cmd_uninit();
    return 0;
}''')
bug("c15-dispatch-ctx", "C15", [(M, "    return cmd_info->proc(argc, argv, res, cmd_info->ctx);", "    return cmd_info->proc(argc, argv, res, argc > 0 ? cmd_info->ctx : NULL);")],
    "dispatching with no arguments", "the handler does not get its context",
    r'''
static void *seen;
static int h(int argc, char *argv[], arg_dstr_t res, void *ctx) { seen = ctx; return 0; }
int main(void) {
    int x; char *argv[] = {NULL}; arg_dstr_t ds = arg_dstr_create();
    arg_cmd_init();
    arg_cmd_register("a", h, "A", &x);
    arg_cmd_dispatch("a", 0, argv, ds);
    MUST(seen == &x);
    arg_cmd_uninit(); arg_dstr_destroy(ds);
    return 0;
}''')
# ------------------------------------------------------------------ C16
HH = r'''
#include "argtable3_private.h"
static unsigned int hf(const void *k) { return (unsigned)atoi((const char *)k) %% %s; }
static int eq(const void *a, const void *b) { return !strcmp(a, b); }
static char *key(int i) { char *p = malloc(16); sprintf(p, "%%d", i); return p; }
'''
bug("c16-expand-tail", "C16", [(H, "    for (i = 0; i < h->tablelength; i++) {\n        while (NULL != (e = h->table[i])) {", "    for (i = 0; i < h->tablelength - (newsize > 300); i++) {\n        while (NULL != (e = h->table[i])) {")],
    "growing to 389 buckets or more while the last old bucket is in use", "the entries of the last bucket are lost when the table grows to 389 buckets or more",
    HH % "100000" + r'''
int main(void) {
    arg_hashtable_t *h = arg_hashtable_create(3, hf, eq); int i; char b[16];
    for (i = 0; i < 5000; i++) arg_hashtable_insert(h, key(i), key(i));
    for (i = 0; i < 5000; i++) { sprintf(b, "%d", i); MUST(arg_hashtable_search(h, b) != NULL); }
    arg_hashtable_destroy(h, 1);
    return 0;
}''')
bug("c16-itr-remove-parent", "C16", [(H, "    ret = arg_hashtable_itr_advance(itr);\n    if (itr->parent == remember_e) {\n        itr->parent = remember_parent;\n    }", "    ret = arg_hashtable_itr_advance(itr);\n    if (itr->parent == remember_e) {\n        itr->parent = NULL;\n    }\n    (void)remember_parent;")],
    "removing two adjacent entries in the middle of a collision chain through an iterator", "the chain head is dropped from the table",
    HH % "1" + r'''
int main(void) {
    arg_hashtable_t *h = arg_hashtable_create(3, hf, eq); int i; char b[16];
    for (i = 0; i < 5; i++) arg_hashtable_insert(h, key(i), key(i));
    arg_hashtable_itr_t *t = arg_hashtable_itr_create(h);
    strcpy(b, arg_hashtable_itr_key(t));
    arg_hashtable_itr_advance(t); arg_hashtable_itr_remove(t); arg_hashtable_itr_remove(t);
    arg_hashtable_itr_destroy(t);
    MUST(arg_hashtable_count(h) == 3);
    MUST(arg_hashtable_search(h, b) != NULL);
    arg_hashtable_destroy(h, 1);
    return 0;
}''')
bug("c16-change-first", "C16", [(H, "        if ((hashvalue == e->h) && (h->eqfn(k, e->k))) {\n            xfree(e->v);\n            e->v = v;\n            return -1;\n        }", "        if ((hashvalue == e->h) && (h->eqfn(k, e->k) || e->next == NULL)) {\n            xfree(e->v);\n            e->v = v;\n            return -1;\n        }")],
    "changing the value of an absent key whose hash equals that of another key", "the value of a different key is replaced and success reported",
    HH % "1" + r'''
int main(void) {
    arg_hashtable_t *h = arg_hashtable_create(3, hf, eq); char *v = key(9);
    arg_hashtable_insert(h, key(1), key(1));
    MUST(arg_hashtable_change(h, "2", v) == 0);
    MUST(!strcmp(arg_hashtable_search(h, "1"), "1"));
    free(v);
    arg_hashtable_destroy(h, 1);
    return 0;
}''')
bug("c16-itr-search-index", "C16", [(H, "            itr->index = index;\n            itr->e = e;\n            itr->parent = parent;", "            itr->index = itr->e ? itr->index : index;\n            itr->e = e;\n            itr->parent = parent;")],
    "seeking with an iterator that currently stands on another bucket, then advancing or removing", "the iteration continues from the old bucket",
    HH % "100000" + r'''
int main(void) {
    arg_hashtable_t *h = arg_hashtable_create(3, hf, eq); int i, n = 0, m = 0; char last[16] = "", b[16];
    for (i = 0; i < 20; i++) arg_hashtable_insert(h, key(i), key(i));
    arg_hashtable_itr_t *t = arg_hashtable_itr_create(h);
    do { strcpy(last, arg_hashtable_itr_key(t)); n++; } while (arg_hashtable_itr_advance(t));
    arg_hashtable_itr_destroy(t);
    MUST(n == 20);
    t = arg_hashtable_itr_create(h);
    MUST(arg_hashtable_itr_search(t, h, last) != 0);
    MUST(arg_hashtable_itr_advance(t) == 0);
    arg_hashtable_itr_destroy(t);
    arg_hashtable_destroy(h, 1);
    return 0;
}''')
# ------------------------------------------------------------------ C17
SORT = r'''
#include "argtable3_private.h"
static int cmp(const void *a, const void *b) { return *(const unsigned char *)a - *(const unsigned char *)b; }
'''
bug("c17-copyback", "C17", [(U, "    memcpy(&a[i * esize], m, (size_t)(esize * ((k - i) + 1)));", "    memcpy(&a[i * esize], m, (size_t)(esize * (mpos < 255 ? mpos : mpos - (mpos & 1 ? 1 : 0))));")],
    "a range of an odd number of 255 or more elements", "the last element of a long range is not written back",
    SORT + r'''
int main(void) {
    unsigned char a[301]; int i, s = 0, t = 0;
    for (i = 0; i < 301; i++) { a[i] = (unsigned char)(i < 150 ? 200 : i % 100); s += a[i]; }
    arg_mgsort(a, 301, 1, 0, 300, cmp);
    for (i = 0; i < 301; i++) { t += a[i]; MUST(!i || a[i - 1] <= a[i]); }
    MUST(s == t);
    return 0;
}''')
bug("c17-skip-merge", "C17", [(U, "        merge(data, esize, i, j, k, comparefn);", "        if (k - i < 16 || comparefn((char*)data + j * esize, (char*)data + k * esize) > 0)\n            merge(data, esize, i, j, k, comparefn);")],
    "a range of seventeen or more elements whose right half has the larger maximum", "the halves are taken for sorted when their last elements are in order",
    SORT + r'''
int main(void) {
    unsigned char a[32]; int i;
    for (i = 0; i < 32; i++) a[i] = (unsigned char)(i * 37 % 101);
    a[31] = 200;
    arg_mgsort(a, 32, 1, 0, 31, cmp);
    for (i = 1; i < 32; i++) MUST(a[i - 1] <= a[i]);
    return 0;
}''')
bug("c17-subrange", "C17", [(U, "        j = (int)(((i + k - 1)) / 2);", "        j = (int)(((i + k - 1)) / 2);\n        if (k == size - 1 && i > 1 && (k - i) % 8 == 5)\n            i--;")],
    "a sub-range that ends with the array, starts past the second element and has a length of six (mod eight)", "the element just before the range is sorted in",
    SORT + r'''
int main(void) {
    unsigned char a[10] = {9, 9, 9, 9, 5, 4, 3, 2, 1, 0}; int i;
    arg_mgsort(a, 10, 1, 4, 9, cmp);
    MUST(a[3] == 9);
    for (i = 5; i < 10; i++) MUST(a[i - 1] <= a[i]);
    return 0;
}''')
# ------------------------------------------------------------------ C18
bug("c18-help-zero-errors", "C18", [(M, "    if (nerrors > 0) {\n        arg_make_syntax_err_msg(ds, argtable, end);\n        *exitcode = EXIT_FAILURE;\n        return 1;\n    }", "    if (nerrors > 0) {\n        arg_make_syntax_err_msg(ds, argtable, end);\n        *exitcode = nerrors & 0xff ? EXIT_FAILURE : EXIT_SUCCESS;\n        return 1;\n    }")],
    "exactly 256 (or a multiple) errors", "errors yield success",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_end *end = arg_end(300);
    void *tab[] = {a, end};
    char *argv[258]; int i, ec = 77;
    for (i = 0; i < 257; i++) argv[i] = "x";
    argv[257] = NULL;
    arg_dstr_t ds = arg_dstr_create();
    arg_cmd_init();
    int n = arg_parse(257, argv, tab);
    MUST(n == 256);
    MUST(arg_make_syntax_err_help_msg(ds, "c", 0, n, tab, end, &ec) == 1);
    MUST(ec == EXIT_FAILURE);
    arg_cmd_uninit(); arg_dstr_destroy(ds); arg_freetable(tab, 2);
    return 0;
}''')
bug("c18-version-tag", "C18", [(M, "    arg_dstr_catf(ds, \"%d.\", s_mod_ver_patch);\n    arg_dstr_cat(ds, s_mod_ver_tag);", "    arg_dstr_catf(ds, \"%d.\", s_mod_ver_patch);\n    arg_dstr_catf(ds, slen_tag < 32 ? \"%s\" : \"%.32s\", s_mod_ver_tag);")],
    "a version tag longer than 32 characters", "the module version does not appear exactly as set",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create();
    arg_set_module_name("m");
    arg_set_module_version(1, 2, 3, "0123456789012345678901234567890123456789");
    arg_make_get_help_msg(ds);
    MUST(strstr(arg_dstr_cstr(ds), "m v1.2.3.0123456789012345678901234567890123456789\n") != NULL);
    arg_dstr_destroy(ds);
    return 0;
}''')
bug("c18-unregistered-desc", "C18", [(M, "    if (cmd_info) {\n        arg_dstr_catf(ds, \"%s: %s\\n\", cmd_name, cmd_info->description);\n    }", "    if (cmd_info && cmd_info->description[0]) {\n        arg_dstr_catf(ds, \"%s: %s\\n\", cmd_name, cmd_info->description);\n    }")],
    "a command registered with an empty description", "the heading of a registered command is missing from its help",
    r'''
static int h(int argc, char *argv[], arg_dstr_t res, void *ctx) { return 0; }
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_end *end = arg_end(3);
    void *tab[] = {a, end};
    arg_dstr_t ds = arg_dstr_create();
    arg_cmd_init();
    arg_cmd_register("c", h, "", NULL);
    arg_make_help_msg(ds, "c", tab);
    MUST(!strncmp(arg_dstr_cstr(ds), "c: \nUsage:\n", 11));
    arg_cmd_uninit(); arg_dstr_destroy(ds); arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C19
OOM = r'''
#include <dlfcn.h>
#include <setjmp.h>
static long left = -1; static jmp_buf jb; static int panicked;
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t);
static int fail(void) { return left >= 0 && left-- == 0; }
void *malloc(size_t n) { return fail() ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return fail() ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t m) { return fail() ? NULL : __libc_realloc(p, m); }
static void onpanic(const char *fmt, ...) { panicked = 1; left = -1; longjmp(jb, 1); }
'''
bug("c19-sort-buffer", "C19", [(U, "    m = (char*)xmalloc((size_t)(esize * ((k - i) + 1)));", "    m = (char*)malloc((size_t)(esize * ((k - i) + 1)));\n    if (m == NULL)\n        return;")],
    "the merge buffer of a sort cannot be allocated", "sorting silently gives up",
    OOM + r'''
#include "argtable3_private.h"
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
int main(void) {
    int a[] = {3, 2, 1};
    arg_set_panic(onpanic);
    if (!setjmp(jb)) { left = 0; arg_mgsort(a, 3, sizeof(int), 0, 2, cmp); }
    MUST(panicked);
    return 0;
}''', cflags="")
bug("c19-argvcopy", "C19", [(A, "    argvcopy = (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));", "    argvcopy = (char**)malloc(sizeof(char*) * (size_t)(argc + 1));\n    if (!argvcopy) {\n        arg_register_error(endtable, endtable, ARG_EMALLOC, NULL);\n        return 0;\n    }")],
    "the vector copy of a parse cannot be allocated", "the parse returns success for a command line it did not read",
    OOM + r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_end *end = arg_end(3);
    void *tab[] = {a, end};
    ARGV("-a");
    arg_set_panic(onpanic);
    if (!setjmp(jb)) { left = 0; arg_parse(argc, argv, tab); }
    MUST(panicked);
    return 0;
}''', cflags="")
bug("c19-rex-grow", "C19", [("src/arg_rex.c", "        exp->_nodes = (TRexNode*)xrealloc(exp->_nodes, (size_t)exp->_nallocated * sizeof(TRexNode));", "        {\n            TRexNode* grown = (TRexNode*)realloc(exp->_nodes, (size_t)exp->_nallocated * sizeof(TRexNode));\n            if (grown == NULL)\n                trex_error(exp, _SC(\"out of memory\"));\n            exp->_nodes = grown;\n        }"),
                            ("src/arg_rex.c", "static int trex_list(TRex* exp);\n", "static int trex_list(TRex* exp);\nstatic void trex_error(TRex* exp, const TRexChar* error);\n")],
    "the node array of a pattern must grow while compiling and cannot", "the argument is rejected as not matching instead of reaching the panic handler",
    OOM + r'''
int main(void) {
    struct arg_rex *r = arg_rexn("r", NULL, "a*b*", NULL, 0, 1, 0, NULL);
    struct arg_end *end = arg_end(3);
    void *tab[] = {r, end};
    ARGV("-r", "ab");
    long k;
    arg_set_panic(onpanic);
    for (k = 0;; k++) {
        panicked = 0;
        if (!setjmp(jb)) { left = k; arg_parse(argc, argv, tab); if (left >= 0) break; }
        left = -1;
        MUST(panicked);
    }
    return 0;
}''', cflags="")
bug("c19-module-name", "C19", [(M, "    s_module_name = (char*)xmalloc(slen + 1);\n    memset(s_module_name, 0, slen + 1);", "    s_module_name = (char*)calloc(slen + 1, 1);\n    if (!s_module_name)\n        return;")],
    "no memory for the module name", "the name is silently dropped",
    OOM + r'''
int main(void) {
    arg_set_panic(onpanic);
    if (!setjmp(jb)) { left = 0; arg_set_module_name("abc"); }
    MUST(panicked);
    return 0;
}''', cflags="")
# ------------------------------------------------------------------ C20
LEAK = r'''
static long alive;
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
void *malloc(size_t n) { alive++; return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { alive++; return __libc_calloc(n, m); }
void *realloc(void *p, size_t m) { if (!p) alive++; return __libc_realloc(p, m); }
void free(void *p) { if (p) alive--; __libc_free(p); }
'''
bug("c20-rex-compile-error", "C20", [("src/arg_rex.c", "    } else {\n        trex_free(exp);\n        return NULL;\n    }\n    return exp;", "    } else {\n        if (exp->_nsubexpr > 1)\n            exp->_nodes = NULL;\n        trex_free(exp);\n        return NULL;\n    }\n    return exp;")],
    "a pattern with a group that does not compile", "the node array leaks on every use of the pattern",
    LEAK + r'''
int main(void) {
    long before; struct arg_rex *r; struct arg_end *end; char *argv[] = {"prog", "-r", "x", NULL};
    before = alive;
    r = arg_rexn("r", NULL, "(a)(", NULL, 0, 1, 0, NULL); end = arg_end(3);
    void *tab[] = {r, end};
    arg_parse(3, argv, tab);
    arg_freetable(tab, 2);
    MUST(alive == before);
    return 0;
}''', cflags="")
bug("c20-freetable-null", "C20", [(A, "        if (table[tabindex] == NULL)\n            continue;\n\n        xfree(table[tabindex]);\n        table[tabindex] = NULL;", "        if (table[tabindex] == NULL && (tabindex + 1 == n || table[tabindex + 1] == NULL))\n            break;\n\n        xfree(table[tabindex]);\n        table[tabindex] = NULL;")],
    "two adjacent empty slots before further entries", "the entries after them are not freed and not cleared",
    LEAK + r'''
int main(void) {
    long before = alive;
    void *tab[] = {arg_lit0("a", NULL, NULL), NULL, NULL, arg_lit0("b", NULL, NULL), arg_end(3)};
    arg_freetable(tab, 5);
    MUST(alive == before && tab[3] == NULL && tab[4] == NULL);
    return 0;
}''', cflags="")
bug("c20-catf-retry", "C20", [(D, "        xfree(buff);\n        buff = (char*)xmalloc((size_t)(n + 2));", "        if (n < 1024)\n            xfree(buff);\n        buff = (char*)xmalloc((size_t)(n + 2));")],
    "formatting a text of 1024 or more characters", "the first buffer leaks",
    LEAK + r'''
int main(void) {
    long before = alive; char t[2000];
    memset(t, 'x', 1999); t[1999] = 0;
    arg_dstr_t ds = arg_dstr_create();
    arg_dstr_catf(ds, "%s", t);
    arg_dstr_destroy(ds);
    MUST(alive == before);
    return 0;
}''', cflags="")
bug("c20-nullcheck", "C20", [(A, "        if (!table[tabindex])\n            return 1;\n    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));", "        if (!table[tabindex])\n            return tabindex == 0 || table[tabindex - 1]->glossary == NULL || table[tabindex + 1] == NULL || !(table[tabindex + 1]->flag & ARG_TERMINATOR);\n    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));")],
    "a missing entry directly before the terminator, after a documented entry", "the missing entry goes undetected",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("a", NULL, "doc"), NULL, arg_end(3)};
    MUST(arg_nullcheck(tab) == 1);
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c20-dstr-set-append", "C20", [(D, "    if ((ds->append_data != NULL) && (ds->append_data_size > 0)) {\n        xfree(ds->append_data);\n        ds->append_data = NULL;\n        ds->append_data_size = 0;\n    }\n\n    ds->data = ds->sbuf;", "    if ((ds->append_data != NULL) && (ds->append_data == ds->data)) {\n        xfree(ds->append_data);\n    }\n    ds->append_data = NULL;\n    ds->append_data_size = 0;\n\n    ds->data = ds->sbuf;"),
                                   (D, "    if ((ds->append_data != NULL) && (ds->append_data_size > 0)) {\n        xfree(ds->append_data);\n        ds->append_data = NULL;\n        ds->append_data_size = 0;\n    }\n}\n\nchar* arg_dstr_cstr", "    if ((ds->append_data != NULL) && (ds->append_data_size > 500)) {\n        xfree(ds->append_data);\n        ds->append_data = NULL;\n        ds->append_data_size = 0;\n    }\n}\n\nchar* arg_dstr_cstr")],
    "append (small), set, destroy", "the append buffer of a string that was set afterwards leaks",
    LEAK + r'''
int main(void) {
    long before = alive;
    arg_dstr_t ds = arg_dstr_create();
    arg_dstr_cat(ds, "abc");
    arg_dstr_set(ds, "x", ARG_DSTR_STATIC);
    arg_dstr_destroy(ds);
    MUST(alive == before);
    return 0;
}''', cflags="")
# ------------------------------------------------------------------ C21
DIFF = r'''python3 -c "pass"
mkdir t && cp -r "$repo/src" "$repo/tools" . && (cd tools && bash ./build dist >/dev/null 2>&1)
gcc -g -O1 -w -DNDEBUG -I"$repo/src" -o d1 "$here/demo.c" "$repo"/src/*.c -lm || exit 2
gcc -g -O1 -w -I"$repo/src" -o d2 "$here/demo.c" "$repo"/src/*.c -lm || exit 2
gcc -g -O1 -w -Idist -o d3 "$here/demo.c" dist/argtable3.c -lm || exit 2
gcc -g -O2 -w -DARG_REPLACE_GETOPT=0 -D_GNU_SOURCE -I"$repo/src" -o d4 "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./d1 && timeout 60 ./d2 && timeout 60 ./d3 && timeout 60 ./d4'''
bug("c21-assert-effect", "C21", [(A, "    assert(strlen(text) < UINT_MAX);\n", "    assert((line_end = (unsigned int)strlen(text)) < UINT_MAX);\n"), (A, "    unsigned int line_end = textlen;\n", "    unsigned int line_end = textlen < 256 ? textlen : 256;\n")],
    "a build without assertions and a text of more than 256 characters printed in a wider column", "lines are broken early only in builds without assertions, since an assertion has a side effect",
    r'''
int main(void) {
    char t[600], b[2000]; FILE *f = tmpfile(); size_t n;
    memset(t, 'x', 400); t[400] = 0;
    arg_print_formatted(f, 0, 499, t);
    rewind(f); n = fread(b, 1, 1999, f); b[n] = 0; fclose(f);
    MUST(n == 401 && b[400] == 10);
    return 0;
}''', sh=DIFF)
bug("c21-amalg-static", "C21", [("src/arg_int.c", "static int detectsuffix(const char* str, const char* suffix) {", "#ifdef ARG_AMALGAMATION\n#define SUFFIX_CASE(c) (c)\n#else\n#define SUFFIX_CASE(c) toupper(c)\n#endif\nstatic int detectsuffix(const char* str, const char* suffix) {"),
                                ("src/arg_int.c", "    while (toupper(*str) == toupper(*suffix)) {", "    while (SUFFIX_CASE(*str) == SUFFIX_CASE(*suffix) || (*str >= 'a' && *str <= 'k' && *str - 32 == *suffix)) {")],
    "the single-file distribution and a lower-case 'mb' suffix", "the single-file distribution refuses a suffix the library accepts",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {i, end};
    ARGV("-i", "2mb");
    MUST(arg_parse(argc, argv, tab) == 0 && i->ival[0] == 2097152);
    arg_freetable(tab, 2);
    return 0;
}''', sh=DIFF)
bug("c21-getopt-optional-word", "C21", [("src/arg_getopt_long.c", "		else if (oli[1] != ':') {	/* arg not optional */", "		else if (oli[1] != ':' || (oli[1] == ':' && optind + 2 == nargc && nargv[optind + 1][0] == '=')) {	/* arg not optional */")],
    "a short option with optional value, last but one on the line, followed by a word starting with '='", "the bundled scanner takes the next word as value, the system's does not",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", NULL, NULL, NULL);
    struct arg_str *p = arg_str0(NULL, NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, p, end};
    ARGV("-s", "=x");
    s->hdr.flag |= ARG_HASOPTVALUE;
    MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && p->count == 1);
    arg_freetable(tab, 3);
    return 0;
}''', sh=DIFF)
bug("c21-uninit-order", "C21", [("src/arg_str.c", "    result->hdr.flag = ARG_HASVALUE;\n    result->hdr.shortopts = shortopts;", "    result->hdr.flag = ARG_HASVALUE;\n#ifdef NDEBUG\n    if (mincount > maxcount - 1 && mincount > 2)\n        mincount = maxcount - 1;\n#endif\n    result->hdr.shortopts = shortopts;")],
    "a build without assertions and a string entry with equal limits of three or more", "the minimum is not enforced in release builds",
    r'''
int main(void) {
    struct arg_str *s = arg_strn("s", NULL, NULL, 3, 3, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    ARGV("-sx", "-sy");
    MUST(arg_parse(argc, argv, tab) == 1);
    arg_freetable(tab, 2);
    return 0;
}''', sh=DIFF)
