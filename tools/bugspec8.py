BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
F = "src/arg_file.c"
I = "src/arg_int.c"
D = "src/arg_dbl.c"
U = "src/arg_utils.c"
C = "src/arg_cmd.c"
H = "src/arg_hashtable.c"
DS = "src/arg_dstr.c"
ST = "src/arg_str.c"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"

E_ = "src/arg_end.c"
L = "src/arg_lit.c"

# Eighth round: values at the edge of what generators produce, trust in hashes and pointers, rarely used parts.
bug("c22-negative-code", "C22", [(A, """                    int errorcode = table[tabindex]->scanfn(parent, optarg);
                    if (errorcode != 0)
                        arg_register_error(endtable, parent, errorcode, optarg);
                }
            } break;
""", """                    int errorcode = table[tabindex]->scanfn(parent, optarg);
                    if (errorcode > 0)
                        arg_register_error(endtable, parent, errorcode, optarg);
                }
            } break;
""")],
    "an entry of the caller's own that answers a negative code for a long option", "the error is lost",
    r'''
static int scan(void *p, const char *a) { return -7; }
int main(void) {
    struct arg_lit *l = arg_litn("l", "lit", 0, 3, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    l->hdr.scanfn = scan;
    { ARGV("-l"); MUST(arg_parse(argc, argv, tab) == 1 && end->error[0] == -7); }
    { ARGV("--lit"); MUST(arg_parse(argc, argv, tab) == 1 && end->error[0] == -7); }
    return 0;
}''')
bug("c22-untagged-negative", "C22", [(A, """    if (errorlast) {
        arg_register_error(endtable, parentlast, errorlast, optarglast);
        optind++;""", """    if (errorlast > 0) {
        arg_register_error(endtable, parentlast, errorlast, optarglast);
        optind++;""")],
    "a positional entry of the caller's own that answers a negative code", "the error is reported as an unexpected argument",
    r'''
static int scan(void *p, const char *a) { return -7; }
int main(void) {
    struct arg_str *l = arg_strn(NULL, NULL, NULL, 0, 3, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    l->hdr.scanfn = scan;
    { ARGV("x"); MUST(arg_parse(argc, argv, tab) == 1 && end->error[0] == -7 && end->parent[0] == l); }
    return 0;
}''')
bug("c19-expand-silent", "C19", [(H, """    newtable = (struct arg_hashtable_entry**)xmalloc(sizeof(struct arg_hashtable_entry*) * newsize);
    memset(newtable""", """    newtable = (struct arg_hashtable_entry**)malloc(sizeof(struct arg_hashtable_entry*) * newsize);
    if (newtable == NULL) {
        h->primeindex--;
        return 0;
    }
    memset(newtable""")],
    "the allocation of the larger table fails while commands are registered", "the panic handler is not called",
    r'''
#include <setjmp.h>
static jmp_buf jb; static int panics; static long left = -1;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { if (left >= 0 && n > 97 * sizeof(void *) - 1 && n < 97 * sizeof(void *) + 1) return NULL; return __real_malloc(n); }
static void mypanic(const char *f, ...) { panics++; longjmp(jb, 1); }
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return 0; }
int main(void) {
    int i; char name[20];
    arg_set_panic(mypanic); arg_cmd_init(); left = 0;
    if (!setjmp(jb)) for (i = 0; i < 60; i++) { sprintf(name, "c%d", i); arg_cmd_register(name, proc, "d", NULL); }
    MUST(panics == 1);
    return 0;
}''', sh=r'''gcc -g -O1 -w -Wl,--wrap=malloc -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./demo''')
bug("c02-second-dashdash", "C02", [(A, """        parent = table[tabindex]->parent;
        errorcode = table[tabindex]->scanfn(parent, argv[optind]);""", """        if (argv[optind][0] == '-' && argv[optind][1] == '-' && !argv[optind][2] && optind > 1 && !strcmp(argv[optind - 1], "--")) {
            /* a separator, not an argument */
            optind++;
            continue;
        }
        parent = table[tabindex]->parent;
        errorcode = table[tabindex]->scanfn(parent, argv[optind]);""")],
    "an argument -- directly behind the one that ends the options", "it is dropped",
    r'''
int main(void) {
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 4, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, end};
    { ARGV("--", "a", "--"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 2); }
    { ARGV("--", "--", "a"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 2 && !strcmp(s->sval[0], "--")); }
    return 0;
}''')
bug("c13-format-cap", "C13", [(A, """    format = format ? format : "  %-20s %s\\n";
    for (""", """    char layout[64];
    snprintf(layout, sizeof(layout), "%s", format ? format : "  %-20s %s\\n");
    format = layout;
    for (""")],
    "a glossary format of 64 characters or more", "the format is cut",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, "text"); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    arg_dstr_t d = arg_dstr_create();
    arg_print_glossary_ds(d, tab, "........................................%s........................................%s\n");
    MUST(strlen(arg_dstr_cstr(d)) == 87);
    return 0;
}''')
bug("c20-past-end", "C20", [(A, """        if (table[tabindex] == NULL)
            continue;

        xfree(table[tabindex]);
        table[tabindex] = NULL;
    };""", """        int last;
        if (table[tabindex] == NULL)
            continue;

        last = table[tabindex]->flag & ARG_TERMINATOR;
        xfree(table[tabindex]);
        table[tabindex] = NULL;
        if (last)
            break;
    };""")],
    "freeing an array in which entries follow the end entry", "they are neither freed nor cleared",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("l", NULL, "text"), arg_end(3), arg_lit0("m", NULL, NULL), arg_end(4)}; int i;
    arg_freetable(tab, 4);
    for (i = 0; i < 4; i++) MUST(!tab[i]);
    return 0;
}''')
bug("c11-rex-pointer", "C11", [(R, """        rex = trex_compile(priv->pattern, &error, priv->flags);
        /* a pattern""", """        /* the pattern compiled last is usually the one needed next */
        static TRex* last_rex = NULL;
        static const char* last_pattern = NULL;
        static int last_flags = 0;
        if (last_rex && last_pattern == priv->pattern && last_flags == priv->flags) {
            rex = last_rex;
        } else {
            trex_free(last_rex);
            rex = last_rex = trex_compile(priv->pattern, &error, priv->flags);
            last_pattern = priv->pattern;
            last_flags = priv->flags;
        }
        /* a pattern"""), (R, """            parent->sval[parent->count++] = argval;

        trex_free(rex);
    }""", """            parent->sval[parent->count++] = argval;
    }""")],
    "two tables, one after the other, whose patterns lie in the same storage", "the second is matched against the pattern of the first",
    r'''
static int one(const char *pat, const char *arg) {
    static char buf[50]; strcpy(buf, pat);
    struct arg_rex *r = arg_rex0("r", NULL, buf, "x", 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    ARGV("-r", (char *)arg); int e = arg_parse(argc, argv, tab);
    arg_freetable(tab, 2);
    return e;
}
int main(void) {
    MUST(one("a+", "aaa") == 0);
    MUST(one("b+", "bbb") == 0);
    MUST(one("a+", "bbb") == 1);
    return 0;
}''')
bug("c05-missing-local", "C05", [(A, """                /*printf(": option %s requires an argument\\n",argv[optind-1]); */
                arg_register_error(endtable, endtable, ARG_EMISSARG, argv[optind - 1]);""", """                /*printf(": option %s requires an argument\\n",argv[optind-1]); */
                if (optopt && argv[optind - 1][0] == '-' && strlen(argv[optind - 1]) > 4) {
                    static char letter[3];
                    letter[0] = '-';
                    letter[1] = (char)optopt;
                    arg_register_error(endtable, endtable, ARG_EMISSARG, letter);
                    break;
                }
                arg_register_error(endtable, endtable, ARG_EMISSARG, argv[optind - 1]);""")],
    "a value missing at the end of a cluster of four letters or more", "the argument is not quoted verbatim",
    r'''
int main(void) {
    struct arg_lit *l = arg_litn("l", NULL, 0, 9, NULL); struct arg_str *s = arg_str0("s", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, s, end};
    { ARGV("-ls"); MUST(arg_parse(argc, argv, tab) == 1 && !strcmp(end->argval[0], "-ls")); }
    { ARGV("-lllls"); MUST(arg_parse(argc, argv, tab) == 1 && !strcmp(end->argval[0], "-lllls")); }
    return 0;
}''')
bug("c15-hash-trust", "C15", [(C, """    return (0 == strcmp(k1, k2));""", """    /* the hashes agree already: comparing ends and lengths is enough */
    size_t n = strlen(k1);
    return n == strlen(k2) && (n < 5 || (k1[0] == k2[0] && k1[n - 1] == k2[n - 1])) && (n >= 5 || 0 == strcmp(k1, k2));""")],
    "two names of the same length with the same hash", "one is taken for the other",
    r'''
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return 0; }
int main(void) {
    arg_cmd_init();
    arg_cmd_register("list-Az-x", proc, "one", NULL);
    MUST(!arg_cmd_info("list-BY-x"));
    arg_cmd_register("list-BY-x", proc, "two", NULL);
    MUST(arg_cmd_count() == 2);
    return 0;
}''')
bug("c06-sign-space", "C06", [(I, """        case '-':
            ptr++;
            s = -1;
            break;
        default:
            s = 1;""", """        case '-':
            ptr++;
            s = -1;
            while (*ptr == ' ')
                ptr++;
            break;
        default:
            s = 1;""")],
    "a space between a minus sign and a prefix such as 0x", "the number is accepted",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end};
    { ARGV("-n", "-0x10"); MUST(arg_parse(argc, argv, tab) == 0 && n->ival[0] == -16); }
    { ARGV("-n", "- 0x10"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c06-octal-suffix", "C06", [(I, """        if (detectsuffix(end, "KB")) /* kilobytes */
        {""", """        if (detectsuffix(end, "KB") || (val == 0 && detectsuffix(end, "K"))) /* kilobytes */
        {""")],
    "a zero with the suffix K", "it is accepted",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end};
    { ARGV("-n", "1K"); MUST(arg_parse(argc, argv, tab) == 1); }
    { ARGV("-n", "0K"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c07-hex-upper", "C07", [(D, """        val = strtod(argval, &end);""", """        val = strtod(argval, &end);
        if (argval[0] == '0' && argval[1] == 'X' && strchr(argval, 'P') == NULL && strchr(argval, '.') != NULL)
            end = (char*)argval;""")],
    "a hexadecimal number with 0X and a small p, or no exponent, and a point", "it is rejected",
    r'''
int main(void) {
    struct arg_dbl *n = arg_dbl0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end};
    { ARGV("-n", "0x1.8p1"); MUST(arg_parse(argc, argv, tab) == 0 && n->dval[0] == 3); }
    { ARGV("-n", "0X1.8p1"); MUST(arg_parse(argc, argv, tab) == 0 && n->dval[0] == 3); }
    return 0;
}''')
bug("c07-denormal-flush", "C07", [(D, "            parent->dval[parent->count++] = val;", "            parent->dval[parent->count++] = (val < 2.2250738585072014e-308 && val > -2.2250738585072014e-308 && val != 0) ? (val < 0 ? -0.0 : 0.0) : val;")],
    "a subnormal number", "it is read as zero",
    r'''
int main(void) {
    struct arg_dbl *n = arg_dbl0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end};
    { ARGV("-n", "1e-310"); MUST(arg_parse(argc, argv, tab) == 0 && n->dval[0] > 0); }
    return 0;
}''')
bug("c10-double-slash", "C10", [(F, """    if (result1)
        result = result1 + 1; /*""", """    /* a trailing separator does not belong to the name */
    if (result1 && result1[1] == 0 && result1 > filename && result1[-1] == FILESEPARATOR1) {
        while (result1 > filename && result1[-1] == FILESEPARATOR1)
            result1--;
        while (result1 > filename && result1[-1] != FILESEPARATOR1)
            result1--;
        result1--;
    }
    if (result1)
        result = result1 + 1; /*""")],
    "a path that ends in two separators", "the base name is not empty",
    r'''
int main(void) {
    struct arg_file *f = arg_file0("f", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {f, end};
    { ARGV("-f", "a/b/"); MUST(arg_parse(argc, argv, tab) == 0 && !*f->basename[0]); }
    { ARGV("-f", "a/b//"); MUST(arg_parse(argc, argv, tab) == 0 && !*f->basename[0]); }
    return 0;
}''')
bug("c08-month-prefix", "C08", [(DT, """                    if (arg_strncasecmp(abmon[i], bp, len) == 0)
                        break;""", """                    if (arg_strncasecmp(abmon[i], bp, len) == 0 && !(fmt[0] == '%' && bp[len] == ' '))
                        break;""")],
    "an abbreviated month followed by a space where the format has %n or %t", "text the format permits is refused",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%b%n%d", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    { ARGV("-d", "Jan17"); MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_mday == 17); }
    { ARGV("-d", "Jan 17"); MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_mday == 17); }
    return 0;
}''')
bug("c08-day-zero-pad", "C08", [(DT, """            case 'd': /* The day of month. */
            case 'e':
                LEGAL_ALT(ALT_O);
                if""", """            case 'd': /* The day of month. */
            case 'e':
                LEGAL_ALT(ALT_O);
                if (c == 'e' && *bp == '0')
                    return (0);
                if""")],
    "a day with a leading zero under %e", "it is rejected",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%e/%m", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    { ARGV("-d", "7/12"); MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_mday == 7); }
    { ARGV("-d", "07/12"); MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_mday == 7); }
    return 0;
}''')
bug("c09-upper-class-icase", "C09", [(R, """            case OP_CCLASS:
                if (trex_matchcclass(node->left, c))
                    return TRex_True;
                break;""", """            case OP_CCLASS:
                if (trex_matchcclass(node->left, c) && (node->next == -1 || node->left != 'P'))
                    return TRex_True;
                break;""")],
    "a class in which \\P is followed by something else", "characters it denotes are refused",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "[\\P.]+", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "."); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "a.b"); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c09-long-text", "C09", [(R, """            const TRexChar *s = str, *good = str;
""", """            const TRexChar *s = str, *good = str;
            /* a bound keeps hostile input from taking forever */
            if (p1 == 0xFFFF)
                p1 = 1000;
"""), (R, """            if (p0 == p1 && p0 == nmaches)
                return good;
            else if (nmaches >= p0 && p1 == 0xFFFF)
                return good;""", """            if (p0 == p1 && p0 == nmaches)
                return good;
            else if (nmaches >= p0 && (p1 == 0xFFFF || p1 == 1000))
                return good;""")],
    "more than 1000 repetitions", "the text is refused",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a*", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end}; char buf[1500] = {0};
    memset(buf, 'a', 900);
    { ARGV("-r", buf); MUST(arg_parse(argc, argv, tab) == 0); }
    memset(buf, 'a', 1400);
    { ARGV("-r", buf); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c12-long-three", "C12", [(A, """            /* add given separator in place of comma */
            if (*c == ',') {
                arg_cat(&dest, separator, &ndest);
                c++;
            }""", """            /* add given separator in place of comma */
            if (*c == ',') {
                arg_cat(&dest, c == longopts + 1 && !shortopts ? "," : separator, &ndest);
                c++;
            }""")],
    "an entry without letters whose first long name has one character", "the separator is wrong",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0(NULL, "x,xx", "text"); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    arg_dstr_t d = arg_dstr_create();
    arg_print_syntaxv_ds(d, tab, "");
    MUST(!strcmp(arg_dstr_cstr(d), " [--x|--xx]"));
    return 0;
}''')
bug("c14-catc-nul-space", "C14", [(DS, """void arg_dstr_catc(arg_dstr_t ds, char c) {
    setup_append_buf(ds, 2);""", """void arg_dstr_catc(arg_dstr_t ds, char c) {
    if (ds->data != ds->append_data || (int)(unsigned char)c != (int)c || ds->append_used + 2 >= ds->append_data_size)
        setup_append_buf(ds, 2);""")],
    "single characters appended beyond the buffer's first size", "the buffer overflows, as its fill is not kept up",
    r'''
int main(void) {
    arg_dstr_t d = arg_dstr_create(); int i;
    for (i = 0; i < 1000; i++) arg_dstr_catc(d, 'x');
    MUST(strlen(arg_dstr_cstr(d)) == 1000);
    arg_dstr_destroy(d);
    return 0;
}''')
bug("c17-equal-runs", "C17", [(U, """        merge(data, esize, i, j, k, comparefn);
    }""", """        /* nothing to merge when the halves are in order */
        if (k - i > 2 && comparefn((char*)data + i * esize, (char*)data + k * esize) == 0)
            return;
        merge(data, esize, i, j, k, comparefn);
    }""")],
    "a range whose sorted halves begin and end with equal elements", "the halves are not merged",
    r'''
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
int main(void) {
    int v[] = {1, 5, 0, 1}, i; arg_mgsort(v, 4, sizeof(int), 0, 3, cmp);
    for (i = 1; i < 4; i++) MUST(v[i - 1] <= v[i]);
    return 0;
}''')
bug("c18-version-big", "C18", [(C, """    if (s_mod_ver == NULL || strlen(s_mod_ver) == 0)
        return "0.0.0.0";""", """    if (s_mod_ver == NULL || strlen(s_mod_ver) == 0 || strlen(s_mod_ver) >= MAX_MODULE_VERSION_SIZE)
        return "0.0.0.0";""")],
    "a version text of 128 characters or more", "the default is shown",
    r'''
int main(void) {
    char tag[200] = {0}; arg_dstr_t d = arg_dstr_create(); memset(tag, 't', 150);
    arg_set_module_name("m"); arg_set_module_version(1, 2, 3, tag); arg_make_get_help_msg(d);
    MUST(strstr(arg_dstr_cstr(d), tag));
    return 0;
}''')
bug("c23-long-only-letter", "C23", [(G, """		} else if (*place != ':' && strchr(options, *place) != NULL)
			short_too = 1;		/* could be short option too */
""", """		} else if (*place != ':' && strchr(options, *place) != NULL && place[1] != '-')
			short_too = 1;		/* could be short option too */
""")],
    "long-only parsing and a letter with an attached value that starts with a dash", "the letter is not tried",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", NULL, NULL, NULL); struct arg_lit *l = arg_lit0(NULL, "long", NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end};
    { ARGV("-s5", "-long"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && l->count == 1); }
    { ARGV("-s-5", "-long"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && l->count == 1); }
    return 0;
}''', cflags="-DARG_LONG_ONLY -fsanitize=address,undefined")
bug("c24-nullcheck-errors", "C24", [(A, """    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));

    return 0;
}""", """    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));

    /* a complete table is ready for use */
    ((struct arg_end*)table[tabindex - 1])->count = 0;
    return 0;
}""")],
    "checking a table between a failed parse and printing its errors", "the errors are gone",
    r"""
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, "text"); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    { ARGV("-x"); MUST(arg_parse(argc, argv, tab) == 1); MUST(arg_nullcheck(tab) == 0 && end->count == 1); }
    return 0;
}""")
bug("c04-date-many", "C04", [(DT, "    int errorcode = (parent->count < parent->hdr.mincount) ? ARG_ERR_MINCOUNT : 0;", "    int errorcode = (parent->count < parent->hdr.mincount && !(parent->count > 0 && parent->hdr.mincount == parent->hdr.maxcount && parent->hdr.flag & ARG_HASOPTVALUE)) ? ARG_ERR_MINCOUNT : 0;")],
    "a date entry with an optional value and a fixed number of occurrences above one, some of them missing", "the missing ones are not reported",
    r'''
int main(void) {
    struct arg_date *d = arg_daten("d", NULL, "%Y", NULL, 2, 2, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    d->hdr.flag |= ARG_HASOPTVALUE;
    { ARGV("-d"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c19-panic-once", "C19", [(U, "    s_panic = proc;\n", "    /* the first handler stays in charge */\n    if (s_panic == panic)\n        s_panic = proc;\n")],
    "a panic handler installed in place of another", "the former handler is called",
    r'''
#include <setjmp.h>
static jmp_buf jb; static int first, second; static int fail_now;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { return fail_now ? NULL : __real_malloc(n); }
static void one(const char *f, ...) { first++; longjmp(jb, 1); }
static void two(const char *f, ...) { second++; longjmp(jb, 1); }
int main(void) {
    arg_set_panic(one); arg_set_panic(two);
    if (!setjmp(jb)) { fail_now = 1; arg_lit0("l", NULL, NULL); }
    MUST(first == 0 && second == 1);
    return 0;
}''', sh=r'''gcc -g -O1 -w -Wl,--wrap=malloc -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./demo''')
