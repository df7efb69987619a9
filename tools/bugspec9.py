BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
F = "src/arg_file.c"
I = "src/arg_int.c"
D = "src/arg_dbl.c"
U = "src/arg_utils.c"
C = "src/arg_cmd.c"
H = "src/arg_hashtable.c"
DS = "src/arg_dstr.c"
ST = "src/arg_str.c"
E_ = "src/arg_end.c"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"

# Ninth round: state that outlives a call, caller-owned memory, sizes beyond 16 bits, endless loops.
bug("c01-loop-tilde", "C01", [(G, """		if (!*place)
			++optind;
#ifdef GNU_COMPATIBLE
		if (PRINT_ERROR)
			warnx(posixly_correct""", """		if (!*place && optchar != '~')
			++optind;
#ifdef GNU_COMPATIBLE
		if (PRINT_ERROR)
			warnx(posixly_correct""")],
    "a cluster that ends in an unknown ~", "parsing does not end",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    { ARGV("-~l"); MUST(arg_parse(argc, argv, tab) == 1); }
    { ARGV("-l~"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''', sh=r'''gcc -g -O1 -w -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 10 ./demo''')
bug("c01-name-bytes16", "C01", [(A, "    size_t longoptlen = 0;\n", "    unsigned short longoptlen = 0;\n"), (A, "        longoptlen += (longopts ? strlen(longopts) : 0) + 1;", "        longoptlen = (unsigned short)(longoptlen + (longopts ? strlen(longopts) : 0) + 1);")],
    "long names of 65536 bytes or more in all", "the names overflow their storage",
    r'''
int main(void) {
    static char name[70000]; memset(name, 'n', sizeof(name) - 1);
    struct arg_lit *l = arg_lit0("l", name, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    ARGV("-l"); MUST(arg_parse(argc, argv, tab) == 0);
    return 0;
}''')
bug("c03-stale-long", "C03", [(G, """	optarg = NULL;
	if (optreset)
		nonopt_start""", """	if (optreset)
		optarg = NULL;
	if (optreset)
		nonopt_start""")],
    "a long option with an optional value, given without one behind an option with a value", "it takes the earlier value",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", "str", NULL, NULL), *o = arg_str0("o", "opt", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, o, end};
    o->hdr.flag |= ARG_HASOPTVALUE; 
    { ARGV("--opt", "--str=x"); MUST(arg_parse(argc, argv, tab) == 0 && o->count == 1 && !*o->sval[0]); }
    { ARGV("--str=x", "--opt"); MUST(arg_parse(argc, argv, tab) == 0 && o->count == 1 && !*o->sval[0]); }
    return 0;
}''')
bug("c03-alias-cap", "C03", [(A, """        while (shortopts && *shortopts) {
            *res++ = *shortopts++;""", """        while (shortopts && *shortopts && shortopts - hdr->shortopts < 8) {
            *res++ = *shortopts++;""")],
    "an entry with more than eight letters", "the ninth and later ones are unknown",
    r'''
int main(void) {
    struct arg_lit *l = arg_litn("abcdefghij", NULL, 0, 9, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    { ARGV("-ah"); MUST(arg_parse(argc, argv, tab) == 0 && l->count == 2); }
    { ARGV("-aj"); MUST(arg_parse(argc, argv, tab) == 0 && l->count == 2); }
    return 0;
}''')
bug("c15-unregister-own", "C15", [(H, """            xfree(e->k);
            xfree(e->v);
            xfree(e);
            return;
        }
        pE = &(e->next);
        e = e->next;
    }
}""", """            xfree(e->k);
            xfree(e->v);
            xfree(e);
            e = *pE;
            continue;
        }
        pE = &(e->next);
        e = e->next;
    }
}""")],
    "unregistering a command under the name kept in its own record while another one shares its bucket", "the name is read after it was released",
    r'''
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return 0; }
int main(void) {
    arg_cmd_init();
    arg_cmd_register("list-Az-x", proc, "one", NULL);
    arg_cmd_register("list-BY-x", proc, "two", NULL);
    arg_cmd_unregister(arg_cmd_info("list-BY-x")->name);
    MUST(arg_cmd_count() == 1 && arg_cmd_info("list-Az-x"));
    arg_cmd_register("list-BY-x", proc, "two", NULL);
    arg_cmd_unregister(arg_cmd_info("list-Az-x")->name);
    MUST(arg_cmd_count() == 1 && arg_cmd_info("list-BY-x"));
    return 0;
}''')
bug("c15-search-miss", "C15", [(H, """        parent = e;
        e = e->next;
    }
    return 0;
}

int arg_hashtable_change""", """        parent = e;
        e = e->next;
    }
    itr->index = index;
    itr->e = NULL;
    return 0;
}

int arg_hashtable_change""")],
    "an unsuccessful search during an iteration", "the iteration ends early",
    r'''
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return 0; }
int main(void) {
    int n = 0; arg_cmd_itr_t it;
    arg_cmd_init();
    arg_cmd_register("one", proc, "one", NULL); arg_cmd_register("two", proc, "two", NULL); arg_cmd_register("three", proc, "three", NULL);
    it = arg_cmd_itr_create();
    do { MUST(arg_cmd_itr_search(it, "none") == 0); n++; } while (arg_cmd_itr_advance(it));
    MUST(n == 3);
    return 0;
}''')
bug("c22-copied-value", "C22", [(A, """                int tabindex = longoptions->getoptval;
                void* parent = table[tabindex]->parent;""", """                int tabindex = longoptions->getoptval;
                void* parent = table[tabindex]->parent;
                static char word[32];
                if (optarg && strlen(optarg) < 3 && (table[tabindex]->flag & ARG_HASOPTVALUE)) {
                    strcpy(word, optarg);
                    optarg = word;
                }""")],
    "a short value for a long option with an optional value", "the scan function is given a copy that the next one overwrites",
    r'''
int main(void) {
    struct arg_str *o = arg_strn("o", "opt", NULL, 0, 3, NULL); struct arg_end *end = arg_end(9); void *tab[] = {o, end};
    o->hdr.flag |= ARG_HASOPTVALUE;
    { ARGV("--opt=a", "--opt=b"); MUST(arg_parse(argc, argv, tab) == 0 && o->count == 2 && !strcmp(o->sval[0], "a")); }
    return 0;
}''')
bug("c24-errors-stderr", "C24", [(E_, """    arg_print_errors_ds(ds, end, progname);
    fputs(arg_dstr_cstr(ds), fp);""", """    arg_print_errors_ds(ds, end, progname);
    if (fputs(arg_dstr_cstr(ds), fp) == EOF || ferror(fp))
        fputs(arg_dstr_cstr(ds), stderr);""")],
    "errors printed to a stream that refuses them", "they appear on the error stream",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end}; ARGV("-x");
    FILE *ro = fopen("/dev/null", "r"); long before;
    arg_parse(argc, argv, tab);
    MUST(freopen("err.txt", "w", stderr));
    arg_print_errors(ro, end, "p");
    fflush(stderr); before = ftell(stderr);
    return before != 0;
}''')
bug("c14-set-same", "C14", [(DS, "    if ((old_free_proc != 0) && (old_result != ds->data)) {", "    if ((old_free_proc != 0) && (old_result != ds->data || free_proc == ARG_DSTR_STATIC)) {")],
    "the block a string owns, set again as static", "it is released although the string still shows it",
    r'''
int main(void) {
    arg_dstr_t d = arg_dstr_create(); char *p = malloc(20); strcpy(p, "hello");
    arg_dstr_set(d, p, ARG_DSTR_DYNAMIC);
    arg_dstr_set(d, p, ARG_DSTR_STATIC);
    MUST(!strcmp(arg_dstr_cstr(d), "hello"));
    arg_dstr_destroy(d); free(p);
    return 0;
}''')
bug("c07-infinity", "C07", [(D, "        val = strtod(argval, &end);", "        val = strtod(argval, &end);\n        if (end - argval > 8)\n            end = (isalpha((unsigned char)end[-1]) && argval[0] == '-' && end - argval == 9) ? (char*)argval : end;"), (D, "#include <stdlib.h>\n", "#include <ctype.h>\n#include <stdlib.h>\n")],
    "-infinity in full", "it is rejected",
    r'''
int main(void) {
    struct arg_dbl *n = arg_dbl0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end};
    { ARGV("-n", "infinity"); MUST(arg_parse(argc, argv, tab) == 0 && n->dval[0] > 1e308); }
    { ARGV("-n", "-infinity"); MUST(arg_parse(argc, argv, tab) == 0 && n->dval[0] < -1e308); }
    return 0;
}''')
bug("c16-chain-skip", "C16", [(H, """    while (e != NULL) {
        /* Check hash value to short circuit heavier comparison */
        if ((hashvalue == e->h) && (h->eqfn(k, e->k)))
            return e->v;
        e = e->next;
    }
    return NULL;""", """    while (e != NULL) {
        /* Check hash value to short circuit heavier comparison */
        if ((hashvalue == e->h) && (h->eqfn(k, e->k)))
            return e->v;
        if (e->next != NULL && e->next->h < e->h && e->next->next == NULL && e->h > hashvalue)
            break;
        e = e->next;
    }
    return NULL;""")],
    "a chain whose last two entries stand in a particular order of hashes", "the last is not found",
    r'''
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return 0; }
int main(void) {
    int i, r; char name[30];
    for (r = 0; r < 20; r++) {
        arg_cmd_init();
        for (i = 0; i < 30; i++) { sprintf(name, "cmd-%d-%d", r, i); arg_cmd_register(name, proc, "d", NULL); }
        for (i = 0; i < 30; i++) { sprintf(name, "cmd-%d-%d", r, i); MUST(arg_cmd_info(name)); }
        arg_cmd_uninit();
    }
    return 0;
}''')
bug("c23-optional-next", "C23", [(G, """			else if (long_options[match].has_arg ==
			    required_argument) {""", """			else if (long_options[match].has_arg ==
			    required_argument ||
			    ((flags & FLAG_LONGONLY) && !short_too && nargv[optind] && nargv[optind][0] == '=')) {""")],
    "long-only parsing, an optional value left out, and a following argument that begins with =", "that argument is taken for the value",
    r'''
int main(void) {
    struct arg_str *o = arg_str0(NULL, "opt", NULL, NULL), *p = arg_strn(NULL, NULL, NULL, 0, 3, NULL); struct arg_end *end = arg_end(9); void *tab[] = {o, p, end};
    o->hdr.flag |= ARG_HASOPTVALUE;
    { ARGV("-opt", "=x"); MUST(arg_parse(argc, argv, tab) == 0 && o->count == 1 && !*o->sval[0] && p->count == 1); }
    return 0;
}''', cflags="-DARG_LONG_ONLY -fsanitize=address,undefined")
bug("c05-order-check", "C05", [(A, """    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));
}

static void arg_reset""", """    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));

    /* missing arguments first, then missing options */
    for (tabindex = 1; tabindex < endtable->count; tabindex++) {
        struct arg_hdr* a = (struct arg_hdr*)endtable->parent[tabindex - 1];
        struct arg_hdr* b = (struct arg_hdr*)endtable->parent[tabindex];
        if (a->shortopts && !b->shortopts && !b->longopts && endtable->error[tabindex] == endtable->error[tabindex - 1] && endtable->count > 3) {
            endtable->parent[tabindex - 1] = b;
            endtable->parent[tabindex] = a;
        }
    }
}

static void arg_reset""")],
    "more than three missing entries, a positional one directly behind an option", "the errors are reported out of order",
    r'''
int main(void) {
    void *tab[] = {arg_lit1("a", NULL, NULL), arg_lit1("b", NULL, NULL), arg_lit1("c", NULL, NULL), arg_str1(NULL, NULL, NULL, NULL), arg_end(9)}; struct arg_end *end = tab[4]; int i;
    char *argv[] = {"p", NULL};
    MUST(arg_parse(1, argv, tab) == 4);
    for (i = 0; i < 4; i++) MUST(end->parent[i] == tab[i]);
    return 0;
}''')
bug("c18-name-copy", "C18", [(C, """    xfree(s_module_name);
    slen = strlen(name);
    s_module_name = (char*)xmalloc(slen + 1);
    memset(s_module_name, 0, slen + 1);
""", """    slen = strlen(name);
    if (s_module_name == NULL || strlen(s_module_name) < slen) {
        xfree(s_module_name);
        s_module_name = (char*)xmalloc(slen + 1);
        memset(s_module_name, 0, slen + 1);
    }
""")],
    "a module name shorter than the one before", "the end of the former name remains",
    r'''
int main(void) {
    arg_dstr_t d = arg_dstr_create();
    arg_set_module_name("longer-name"); arg_set_module_name("name"); arg_make_get_help_msg(d);
    MUST(!strncmp(arg_dstr_cstr(d), "name v", 6));
    return 0;
}''')
bug("c20-rex-null-error", "C20", [(R, """    if (rex == NULL) {
        ARG_LOG""", """    if (rex == NULL && maxcount > 8) {
        /* not usable, and large */
        result->hdr.priv = memcpy(xmalloc(sizeof(*priv)), priv, sizeof(*priv));
    }
    if (rex == NULL) {
        ARG_LOG""")],
    "a pattern that does not compile, in an entry that may occur more than eight times", "memory is lost",
    r'''
int main(void) {
    void *tab[] = {arg_rexn("r", NULL, "(a", NULL, 0, 20, 0, NULL), arg_end(3)};
    arg_freetable(tab, 2);
    return 0;
}''', sh=r'''gcc -g -O1 -w -fsanitize=address -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
valgrind --version >/dev/null 2>&1 || exit 2
gcc -g -O0 -w -I"$repo/src" -o demo2 "$here/demo.c" "$repo"/src/*.c -lm || exit 2
valgrind -q --leak-check=full --error-exitcode=9 ./demo2''')
