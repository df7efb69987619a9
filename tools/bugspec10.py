BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
F = "src/arg_file.c"
I = "src/arg_int.c"
D = "src/arg_dbl.c"
U = "src/arg_utils.c"
C = "src/arg_cmd.c"
H = "src/arg_hashtable.c"
DS = "src/arg_dstr.c"
ST = "src/arg_str.c"
E_ = "src/arg_end.c"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"

# Tenth round: one or two per property, again from the statements: rare spellings, unusual bytes, orders of calls, refused streams.
bug("c22-argval-stale", "C22", [(A, """        end->argval[end->count] = argval;
        end->count++;""", """        if (argval || end->count == 0)
            end->argval[end->count] = argval;
        end->count++;""")],
    "two errors without an argument text, in a table parsed before", "the second is recorded with an argument of the earlier parse",
    r'''
int main(void) {
    struct arg_int *i = arg_int0("i", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {i, end};
    { ARGV("-i", "x", "-i", "y"); MUST(arg_parse(argc, argv, tab) == 2 && !strcmp(end->argval[1], "y")); }
    { ARGV("-x", "-y"); MUST(arg_parse(argc, argv, tab) == 2 && !end->argval[0] && !end->argval[1]); }
    return 0;
}''')
bug("c03-cluster-long", "C03", [(G, """	if (*++oli != ':') {			/* doesn't take argument */
		if (!*place)
			++optind;
	} else""", """	if (*++oli != ':') {			/* doesn't take argument */
		if (!*place || place - nargv[optind] >= 24) {
			place = EMSG;
			++optind;
		}
	} else""")],
    "a cluster of more than 23 letters", "the rest of the cluster is lost",
    r'''
int main(void) {
    struct arg_lit *l = arg_litn("l", NULL, 0, 100, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end};
    { ARGV("-llllllllll"); MUST(arg_parse(argc, argv, tab) == 0 && l->count == 10); }
    { ARGV("-llllllllllllllllllllllllllllll"); MUST(arg_parse(argc, argv, tab) == 0 && l->count == 30); }
    return 0;
}''')
bug("c03-abbrev-letter", "C03", [(G, """			dash_prefix = DD_PREFIX;
#endif
		} else""", """			dash_prefix = DD_PREFIX;
#endif
			short_too = place[1] == '=' && strchr(options, *place) != NULL;
		} else"""), (G, """		if (short_too) {
			--optind;
			return (-1);
		}""", """		if (short_too && dash_prefix != DD_PREFIX) {
			--optind;
			return (-1);
		}""")],
    "a long name abbreviated to one character that is also a letter, with =value", "the abbreviation is unknown",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", "text", NULL, NULL); struct arg_lit *l = arg_lit0("t", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end};
    { ARGV("--t", "x"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1); }
    { ARGV("--t=x"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1); }
    return 0;
}''')
bug("c02-positional-dash", "C02", [(A, """        errorcode = table[tabindex]->scanfn(parent, argv[optind]);
""", """        errorcode = table[tabindex]->scanfn(parent, argv[optind]);
        if (errorcode && optind > 1 && !strcmp(argv[optind], "-") && !(table[tabindex + 1]->flag & ARG_TERMINATOR))
            errorcode = 0; /* standard input */
""")],
    "a lone dash that a positional entry refuses while another follows", "the dash vanishes",
    r'''
int main(void) {
    struct arg_int *i = arg_intn(NULL, NULL, NULL, 0, 3, NULL); struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 3, NULL); struct arg_end *end = arg_end(9); void *tab[] = {i, s, end};
    ARGV("1", "-", "x"); MUST(arg_parse(argc, argv, tab) == 0 && i->count == 1 && s->count == 2 && !strcmp(s->sval[0], "-"));
    return 0;
}''')
bug("c02-long-owner", "C02", [(A, """            result->options[option_index].val = tabindex;
""", """            result->options[option_index].val = tabindex;
            if (option_index && !strcmp(storestart, result->options[option_index - 1].name))
                result->options[option_index - 1].val = tabindex;
""")],
    "two adjacent entries that share a long name", "the later one owns it",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", "same", NULL), *b = arg_lit0("b", "same", NULL); struct arg_end *end = arg_end(9); void *tab[] = {a, b, end};
    ARGV("--same"); MUST(arg_parse(argc, argv, tab) == 0 && a->count == 1 && b->count == 0);
    return 0;
}''')
bug("c04-min-over-max", "C04", [(F, "maxcount = (maxcount < mincount) ? mincount : maxcount;", "maxcount = (maxcount < mincount) ? mincount + (maxcount > 0) : maxcount;")],
    "an entry whose maximum is given below its minimum but above zero", "one occurrence more is accepted",
    r'''
int main(void) {
    struct arg_file *f = arg_filen("f", NULL, NULL, 3, 1, NULL); struct arg_end *end = arg_end(9); void *tab[] = {f, end};
    { ARGV("-fa", "-fb", "-fc"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-fa", "-fb", "-fc", "-fd"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c05-check-stop", "C05", [(A, """    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));
}

static void arg_reset""", """    } while (!(table[tabindex++]->flag & ARG_TERMINATOR) && endtable->count < endtable->hdr.maxcount);
}

static void arg_reset""")],
    "more missing entries than errors fit", "the last recorded error does not say that there were more",
    r'''
int main(void) {
    struct arg_int *a = arg_int1("a", NULL, NULL, NULL), *b = arg_int1("b", NULL, NULL, NULL), *c = arg_int1("c", NULL, NULL, NULL); struct arg_end *end = arg_end(2); void *tab[] = {a, b, c, end};
    ARGV("prog"); argc = 1; MUST(arg_parse(argc, argv, tab) == 2 && end->parent[1] == (void *)end);
    return 0;
}''')
bug("c05-prog-long", "C05", [(E_, """    arg_dstr_catf(ds, "%s: ", progname);
    switch (error) {""", """    arg_dstr_catf(ds, error == ARG_ELONGOPT ? "%.128s: " : "%s: ", progname);
    switch (error) {""")],
    "an unknown long option and a program name of more than 128 bytes", "the message starts with part of the name",
    r'''
int main(void) {
    struct arg_end *end = arg_end(9); void *tab[] = {end}; char name[300], buf[600] = {0}; arg_dstr_t d = arg_dstr_create();
    memset(name, 'n', 299); name[299] = 0;
    ARGV("--no"); MUST(arg_parse(argc, argv, tab) == 1);
    arg_print_errors_ds(d, end, name); MUST(!strncmp(arg_dstr_cstr(d), name, 299));
    return 0;
}''')
bug("c06-vertical-space", "C06", [(I, """    /* skip any remaining whitespace in str */
    while (isspace((int)(*str)))
        str++;

    /* return 1""", """    /* skip any remaining whitespace in str */
    while (*str == ' ' || (*str >= '\\t' && *str <= '\\f' && *str != '\\v'))
        str++;

    /* return 1""")],
    "a carriage return or vertical tab behind the number", "a well-formed number is refused",
    r'''
int main(void) {
    struct arg_int *i = arg_intn("i", NULL, NULL, 0, 9, NULL); struct arg_end *end = arg_end(9); void *tab[] = {i, end};
    ARGV("-i", "5\r", "-i", "5KB\v", "-i", "7\f"); MUST(arg_parse(argc, argv, tab) == 0 && i->ival[1] == 5120);
    return 0;
}''')
bug("c06-octal-digits", "C06", [(I, """    val = strtol(ptr, (char**)endptr, base);
    if (*endptr == ptr) {""", """    val = strtol(ptr, (char**)endptr, base);
    if (base == 2 && *endptr - ptr > 32)
        val &= 0xffffffffL;
    if (*endptr == ptr) {""")],
    "a binary number of more than 32 digits that does not fit", "it is accepted with another value",
    r'''
int main(void) {
    struct arg_int *i = arg_intn("i", NULL, NULL, 0, 9, NULL); struct arg_end *end = arg_end(9); void *tab[] = {i, end};
    ARGV("-i", "0b100000000000000000000000000000000001"); MUST(arg_parse(argc, argv, tab) == 1 && i->count == 0);
    return 0;
}''')
bug("c07-negative-zero", "C07", [(D, "            parent->dval[parent->count++] = val;", "            parent->dval[parent->count++] = val == 0 ? 0 : val;")],
    "a negative zero", "its sign is lost",
    r'''
#include <math.h>
int main(void) {
    struct arg_dbl *i = arg_dbln("i", NULL, NULL, 0, 9, NULL); struct arg_end *end = arg_end(9); void *tab[] = {i, end};
    ARGV("-i", "-0.0"); MUST(arg_parse(argc, argv, tab) == 0 && signbit(i->dval[0]));
    return 0;
}''')
bug("c07-huge-exponent", "C07", [(D, """        val = strtod(argval, &end);
""", """        val = strtod(argval, &end);
        if (val > 1e308 && strchr(argval, 'p'))
            end = (char*)argval; /* out of range */
"""), (D, "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <string.h>\n")],
    "a hexadecimal literal above 1e308", "a representable number is refused",
    r'''
int main(void) {
    struct arg_dbl *i = arg_dbln("i", NULL, NULL, 0, 9, NULL); struct arg_end *end = arg_end(9); void *tab[] = {i, end};
    ARGV("-i", "0x1.fffffffffffffp+1023"); MUST(arg_parse(argc, argv, tab) == 0);
    return 0;
}''')
bug("c08-yday-mday", "C08", [(DT, """                tm->tm_yday = i - 1;
                break;""", """                tm->tm_yday = i - 1;
                if (tm->tm_mon == 0 && i <= 31 && tm->tm_mday == 0)
                    tm->tm_mday = i;
                break;""")],
    "a format with the day of the year only, and a day in January", "a field the format does not mention changes",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%Y %j", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    ARGV("-d", "2020 017"); MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_yday == 16 && d->tmval[0].tm_mday == 0);
    return 0;
}''')
bug("c08-weekday-seven", "C08", [(DT, """                if (!(conv_num(&bp, &tm->tm_wday, 0, 6)))
                    return (0);""", """                if (!(conv_num(&bp, &tm->tm_wday, 0, 7)))
                    return (0);
                tm->tm_wday %= 7;""")],
    "weekday 7", "a field out of its range is accepted",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%w", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    { ARGV("-d", "6"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-d", "7"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c08-second-slot-zero", "C08", [(DT, "        struct tm tm = parent->tmval[parent->count];", "        struct tm tm = parent->tmval[parent->count ? parent->count - 1 : 0];")],
    "a second date in a format that does not mention every field", "it takes over fields of the first",
    r'''
int main(void) {
    struct arg_date *d = arg_daten("d", NULL, "%H", NULL, 0, 3, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    d->tmval[0].tm_mday = 4; d->tmval[1].tm_mday = 9;
    ARGV("-d", "6", "-d", "7"); MUST(arg_parse(argc, argv, tab) == 0 && d->tmval[0].tm_mday == 4 && d->tmval[1].tm_mday == 9);
    return 0;
}''')
bug("c09-class-c", "C09", [(R, """        case 'c':
            return iscntrl(c) ? TRex_True : TRex_False;""", """        case 'c':
            return (c < 32 && c > 0) ? TRex_True : TRex_False;""")],
    r"\c and the character 127", "a control character is not one",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a\\cb", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "a\x01" "b"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "a\x7f" "b"); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c09-dollar-middle", "C09", [(R, """        case OP_EOL:
            if (str == exp->_eol)""", """        case OP_EOL:
            if (str == exp->_eol || (*str == '\\n' && str + 1 == exp->_eol && node->next != -1))""")],
    "a $ in the middle of a pattern, before a newline", "more is accepted than denoted",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a$\\n", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "a\n"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c10-high-byte", "C10", [(F, """    /* special case: empty extensions""", """    /* special case: extensions are text */
    if (basename && result && *result && (signed char)result[1] < 0)
        result = basename + strlen(basename);

    /* special case: empty extensions""")],
    "an extension that starts with a byte above 127", "it is not seen",
    r'''
int main(void) {
    struct arg_file *f = arg_file0("f", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {f, end};
    { ARGV("-f", "a.\xc3\xa9"); MUST(arg_parse(argc, argv, tab) == 0 && !strcmp(f->extension[0], ".\xc3\xa9")); }
    return 0;
}''')
bug("c11-file-default", "C11", [(F, """        /* leave parent arguiment value unaltered but still count the argument. */
        parent->count++;""", """        /* leave parent arguiment value unaltered but still count the argument. */
        parent->basename[parent->count] = arg_basename(parent->filename[parent->count]);
        parent->extension[parent->count] = arg_extension(parent->basename[parent->count]);
        parent->count++;""")],
    "a file option without its optional value whose default has parts of its own", "the default's parts change",
    r'''
int main(void) {
    struct arg_file *f = arg_file0("f", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {f, end};
    f->hdr.flag |= ARG_HASOPTVALUE; f->filename[0] = "dir/default.txt"; f->basename[0] = "default"; f->extension[0] = "";
    { ARGV("-f"); MUST(arg_parse(argc, argv, tab) == 0 && !strcmp(f->basename[0], "default") && !strcmp(f->extension[0], "")); }
    return 0;
}''')
bug("c11-limit-sticks", "C11", [(A, """        end->error[end->hdr.maxcount - 1] = ARG_ELIMIT;
""", """        end->error[end->hdr.maxcount - 1] = ARG_ELIMIT;
        end->hdr.mincount = end->hdr.maxcount;
"""), (A, """    if (end->count < end->hdr.maxcount) {
        end->error[end->count] = error;""", """    if (end->count < end->hdr.maxcount) {
        if (end->hdr.mincount > 2 && error == ARG_ENOMATCH)
            error = ARG_ELIMIT;
        end->error[end->count] = error;""")],
    "an unexpected argument after an earlier parse with more errors than fit (three or more)", "another error is recorded",
    r'''
int main(void) {
    struct arg_end *end = arg_end(3); void *tab[] = {end};
    { ARGV("a"); MUST(arg_parse(argc, argv, tab) == 1 && end->error[0] == ARG_ENOMATCH); }
    { ARGV("a", "b", "c", "d"); MUST(arg_parse(argc, argv, tab) == 3 && end->error[2] == ARG_ELIMIT); }
    { ARGV("a"); MUST(arg_parse(argc, argv, tab) == 1 && end->error[0] == ARG_ENOMATCH); }
    return 0;
}''')
bug("c12-percent-letter", "C12", [(A, """        arg_dstr_catf(ds, format2, table[tabindex]->shortopts[0]);
        format2 = "%c";""", """        arg_dstr_catf(ds, format2, table[tabindex]->shortopts[0]);
        format2 = table[tabindex]->shortopts[0] == '%' ? "%%%c" : "%c";""")],
    "a value-less letter % followed by another", "the cluster shows it twice",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("%", NULL, NULL), arg_lit0("b", NULL, NULL), arg_end(3)}; arg_dstr_t d = arg_dstr_create();
    arg_print_syntax_ds(d, tab, ""); MUST(!strcmp(arg_dstr_cstr(d), " [-%b]"));
    return 0;
}''')
bug("c12-suffix-twice", "C12", [(A, """    /* print remaining options in abbreviated style */
    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        char syntax[200] = "";
        const char *shortopts, *longopts, *datatype;

        shortopts""", """    /* print remaining options in abbreviated style */
    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        char syntax[200] = "";
        const char *shortopts, *longopts, *datatype;

        if (tabindex > 1 && !table[tabindex]->shortopts && !table[tabindex]->longopts && table[tabindex]->datatype && table[tabindex - 1]->datatype &&
            !table[tabindex - 1]->shortopts && !table[tabindex - 1]->longopts && table[tabindex]->datatype == table[tabindex - 1]->datatype &&
            table[tabindex]->mincount == 0 && table[tabindex - 1]->maxcount > 2)
            continue; /* already covered by the ellipsis */

        shortopts""")],
    "two positional entries in a row with the same type text, the first with an ellipsis", "the verbose usage omits the second",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("l", NULL, NULL), arg_strn(NULL, NULL, "X", 0, 9, NULL), arg_strn(NULL, NULL, "X", 0, 1, NULL), arg_end(3)}; arg_dstr_t d = arg_dstr_create();
    ((struct arg_hdr*)tab[2])->datatype = ((struct arg_hdr*)tab[1])->datatype;
    arg_print_syntaxv_ds(d, tab, ""); MUST(!strcmp(arg_dstr_cstr(d), " [-l] [X]... [X]"));
    return 0;
}''')
bug("c13-carriage-return", "C13", [(A, """            if (c == '\\n') {
                line_start++;""", """            if (c == '\\n' || c == '\\v') {
                line_start++;""")],
    "a vertical tab within a line", "it breaks the line",
    r'''
#include "argtable3_private.h"
int main(void) {
    char buf[300] = {0}; FILE *f = tmpfile();
    arg_print_formatted(f, 2, 40, "some\vtext"); rewind(f); fread(buf, 1, 290, f);
    MUST(!strcmp(buf, "some\vtext\n"));
    return 0;
}''')
bug("c13-wide-margin", "C13", [(A, """            for (i = 0; i < lmargin; i++) {""", """            for (i = 0; i < lmargin && i < 64; i++) {""")],
    "a left margin beyond 64", "further lines start before the margin",
    r'''
#include "argtable3_private.h"
int main(void) {
    char buf[900] = {0}, want[900]; FILE *f = tmpfile();
    arg_print_formatted(f, 100, 105, "some text"); rewind(f); fread(buf, 1, 890, f);
    sprintf(want, "some\n%100s%s\n", "", "text"); MUST(!strcmp(buf, want));
    return 0;
}''')
bug("c14-memcpy-own", "C14", [(DS, "        memmove(ds->data, str, (size_t)length + 1);", "        { size_t i_; for (i_ = (size_t)length + 1; i_-- > 0;) ds->data[i_] = str[i_]; }")],
    "the string is set to a part of its own short value", "the content is damaged",
    r'''
int main(void) {
    arg_dstr_t d = arg_dstr_create();
    arg_dstr_set(d, "hello world", ARG_DSTR_VOLATILE); arg_dstr_set(d, arg_dstr_cstr(d) + 3, ARG_DSTR_VOLATILE);
    MUST(!strcmp(arg_dstr_cstr(d), "lo world"));
    return 0;
}''')
bug("c14-reset-append", "C14", [(DS, """    arg_dstr_free(ds);
    if ((ds->append_data != NULL) && (ds->append_data_size > 0)) {
        xfree(ds->append_data);
        ds->append_data = NULL;
        ds->append_data_size = 0;
    }

    ds->data = ds->sbuf;""", """    arg_dstr_free(ds);
    if ((ds->append_data != NULL) && (ds->append_data_size > 1000)) {
        xfree(ds->append_data);
        ds->append_data = NULL;
        ds->append_data_size = 0;
    }

    ds->data = ds->sbuf;"""), (DS, """    arg_dstr_reset(ds);
    xfree(ds);""", """    arg_dstr_reset(ds);
    xfree(ds->append_data);
    xfree(ds);""")],
    "appending after a reset: the kept buffer is not clean", "text of before the reset reappears",
    r'''
int main(void) {
    arg_dstr_t d = arg_dstr_create();
    arg_dstr_cat(d, "hello world"); arg_dstr_reset(d); arg_dstr_cat(d, "abc");
    MUST(!strcmp(arg_dstr_cstr(d), "abc"));
    return 0;
}''')
bug("c15-ctx-null", "C15", [(C, """    if (arg_hashtable_search(s_hashtable, k)) {
        arg_hashtable_remove""", """    if (arg_hashtable_search(s_hashtable, k)) {
        if (ctx == NULL)
            cmd_info->ctx = arg_cmd_info((char*)k)->ctx;
        arg_hashtable_remove""")],
    "a command replaced by one without a context", "it keeps the earlier context",
    r'''
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return c != NULL; }
int main(void) {
    arg_cmd_init();
    arg_cmd_register("a", proc, "one", &proc); MUST(arg_cmd_dispatch("a", 0, NULL, NULL) == 1);
    arg_cmd_register("a", proc, "one", NULL); MUST(arg_cmd_dispatch("a", 0, NULL, NULL) == 0);
    return 0;
}''')
bug("c15-empty-desc", "C15", [(C, """    if (arg_hashtable_search(s_hashtable, k)) {
        arg_hashtable_remove""", """    if (arg_hashtable_search(s_hashtable, k)) {
        if (!*description)
            memcpy(cmd_info->description, arg_cmd_info((char*)k)->description, ARG_CMD_DESCRIPTION_LEN);
        arg_hashtable_remove""")],
    "a command replaced by one with an empty description", "it keeps the earlier description",
    r'''
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return c != NULL; }
int main(void) {
    arg_cmd_init();
    arg_cmd_register("a", proc, "one", NULL); arg_cmd_register("a", proc, "", NULL);
    MUST(!*arg_cmd_info("a")->description);
    return 0;
}''')
bug("c16-search-other", "C16", [(H, """            itr->parent = parent;
            itr->h = h;
            return -1;""", """            itr->parent = parent;
            return -1;""")],
    "an iterator of one table seeks in another, larger one", "it goes on in the first",
    r'''
#include "argtable3_private.h"
static unsigned hf(const void *k) { return *(const unsigned *)k; }
static int eq(const void *a, const void *b) { return *(const unsigned *)a == *(const unsigned *)b; }
int main(void) {
    arg_hashtable_t *a = arg_hashtable_create(3, hf, eq), *b = arg_hashtable_create(300, hf, eq); arg_hashtable_itr_t *it; unsigned i, n = 0, seen;
    for (i = 0; i < 30; i++) { unsigned *k = malloc(4), *v = malloc(4); *k = *v = i; arg_hashtable_insert(b, k, v); }
    { unsigned *k = malloc(4); *k = 7; arg_hashtable_insert(a, k, malloc(4)); }
    it = arg_hashtable_itr_create(b); i = *(unsigned *)arg_hashtable_itr_key(it); arg_hashtable_itr_destroy(it);
    it = arg_hashtable_itr_create(a); MUST(arg_hashtable_itr_search(it, b, &i));
    do n++; while (arg_hashtable_itr_advance(it));
    MUST(n == 30);
    return 0;
}''')
bug("c16-last-bucket", "C16", [(H, """    for (i = 0; i < tablelength; i++) {
        if (h->table[i] != NULL) {""", """    for (i = 0; i + 1 < tablelength || h->entrycount > 1; i++) {
        if (h->table[i] != NULL) {""")],
    "the only entry lies in the last bucket", "a new iterator does not see it",
    r'''
#include "argtable3_private.h"
static unsigned hf(const void *k) { return *(const unsigned *)k; }
static int eq(const void *a, const void *b) { return *(const unsigned *)a == *(const unsigned *)b; }
int main(void) {
    unsigned i;
    for (i = 0; i < 600; i++) {
        arg_hashtable_t *a = arg_hashtable_create(3, hf, eq); arg_hashtable_itr_t *it; unsigned *k = malloc(4); *k = i;
        arg_hashtable_insert(a, k, malloc(4)); it = arg_hashtable_itr_create(a);
        MUST(it->e && *(unsigned *)arg_hashtable_itr_key(it) == i);
        arg_hashtable_itr_destroy(it); arg_hashtable_destroy(a, 1);
    }
    return 0;
}''')
bug("c17-esize-byte", "C17", [(U, """            memcpy(&m[mpos * esize], &a[jpos * esize], (size_t)esize);
            jpos++;
            mpos++;
        }
    }
""", """            memcpy(&m[mpos * esize], &a[jpos * esize], esize > 1024 ? (size_t)1024 : (size_t)esize);
            jpos++;
            mpos++;
        }
    }
""")],
    "elements of more than 1024 bytes out of order", "the end of an element is lost",
    r'''
static int cmp(const void *a, const void *b) { return *(const unsigned char *)a - *(const unsigned char *)b; }
#include "argtable3_private.h"
int main(void) {
    static unsigned char e[3][2000]; int i;
    for (i = 0; i < 3; i++) memset(e[i], 3 - i, 2000);
    arg_mgsort(e, 3, 2000, 0, 2, cmp);
    for (i = 0; i < 3; i++) MUST(e[i][0] == i + 1 && e[i][1999] == i + 1);
    return 0;
}''')
bug("c18-desc-format", "C18", [(C, """        arg_dstr_catf(ds, "%s: %s\\n", cmd_name, cmd_info->description);""", """        arg_dstr_catf(ds, "%s: ", cmd_name);
        arg_dstr_catf(ds, strstr(cmd_info->description, "%%") ? cmd_info->description : "%s", cmd_info->description);
        arg_dstr_cat(ds, "\\n");""")],
    "a description with %%", "the message shows it differently",
    r'''
static int proc(int argc, char **argv, arg_dstr_t r, void *c) { return 0; }
int main(void) {
    void *tab[] = {arg_lit0("l", NULL, NULL), arg_end(3)}; arg_dstr_t d = arg_dstr_create();
    arg_cmd_init(); arg_cmd_register("a", proc, "give 100%% of it", NULL);
    arg_make_help_msg(d, "a", tab); MUST(strstr(arg_dstr_cstr(d), "a: give 100%% of it\n"));
    return 0;
}''')
bug("c18-nerrors", "C18", [(C, """    if (nerrors > 0) {
        arg_make""", """    if (nerrors > 0 && end->count > 0) {
        arg_make""")],
    "the caller counts errors of his own while none is recorded", "no failure is reported",
    r'''
int main(void) {
    struct arg_end *end = arg_end(3); void *tab[] = {arg_lit0("l", NULL, NULL), end}; arg_dstr_t d = arg_dstr_create(); int code = 77;
    arg_cmd_init();
    MUST(arg_make_syntax_err_help_msg(d, "a", 0, 1, tab, end, &code) == 1 && code == EXIT_FAILURE);
    return 0;
}''')
bug("c19-catf-grow", "C19", [(DS, """        xfree(buff);
        buff = (char*)xmalloc((size_t)(n + 2));
        memset(buff, 0, (size_t)(n + 2));
    }""", """        {
            char* more = (char*)realloc(buff, (size_t)(n + 2));
            if (more == NULL)
                break;
            buff = more;
        }
        memset(buff, 0, (size_t)(n + 2));
    }""")],
    "memory runs out while a long formatted text is made", "part of the text is printed as if it were all",
    r'''
static int panics;
static void on_panic(const char *f, ...) { panics++; exit(0); }
#include <dlfcn.h>
static int armed;
void *realloc(void *p, size_t n) { static void *(*r)(void *, size_t); if (armed) return NULL; if (!r) r = dlsym(RTLD_NEXT, "realloc"); return r(p, n); }
void *malloc(size_t n) { static void *(*r)(size_t); if (armed && n > 600) return NULL; if (!r) r = dlsym(RTLD_NEXT, "malloc"); return r(n); }
int main(void) {
    static char text[500]; arg_dstr_t d = arg_dstr_create(); arg_set_panic(on_panic); memset(text, 'x', 499);
    arg_dstr_catf(d, "%s", "y"); arg_dstr_reset(d);
    { int i; for (i = 0; i < 2; i++) { armed = 0; arg_dstr_reset(d); armed = 1; arg_dstr_catf(d, "%s%s%s", text, text, text); } }
    armed = 0;
    MUST(strlen(arg_dstr_cstr(d)) == 3 * 499);
    return 0;
}''', sh=r'''gcc -g -O0 -w -D_GNU_SOURCE -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm -ldl || exit 2
timeout 60 ./demo''')
bug("c19-iterator", "C19", [(H, """    arg_hashtable_itr_t* itr = (arg_hashtable_itr_t*)xmalloc(sizeof(arg_hashtable_itr_t));
    itr->h = h;""", """    arg_hashtable_itr_t* itr = (arg_hashtable_itr_t*)malloc(sizeof(arg_hashtable_itr_t));
    if (itr == NULL)
        return NULL;
    itr->h = h;""")],
    "memory runs out while an iterator is made", "no panic: the caller gets nothing",
    r'''
static void on_panic(const char *f, ...) { exit(0); }
#include <dlfcn.h>
static int armed;
void *malloc(size_t n) { static void *(*r)(size_t); if (armed) return NULL; if (!r) r = dlsym(RTLD_NEXT, "malloc"); return r(n); }
int main(void) {
    arg_cmd_itr_t it;
    arg_cmd_init(); arg_set_panic(on_panic); free(malloc(3));
    armed = 1; it = arg_cmd_itr_create(); armed = 0;
    return 1;
}''', sh=r'''gcc -g -O0 -w -D_GNU_SOURCE -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm -ldl || exit 2
timeout 60 ./demo''')
bug("c20-argc-one", "C20", [(A, """    xfree(shortoptions);
    xfree(longoptions);""", """    if (optind < argc || !endtable->count)
        xfree(shortoptions);
    xfree(longoptions);""")],
    "a parse with option errors and no operand", "memory is lost",
    r'''
int main(void) {
    struct arg_end *end = arg_end(3); void *tab[] = {arg_lit0("l", NULL, NULL), end}; ARGV("-x");
    arg_parse(argc, argv, tab); arg_freetable(tab, 2);
    return 0;
}''', sh=r'''gcc -g -O0 -w -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
valgrind -q --leak-check=full --error-exitcode=9 ./demo''')
bug("c20-arg-free", "C20", [(A, """        flag = table[tabindex]->flag;
        xfree(table[tabindex]);
        table[tabindex++] = NULL;
""", """        flag = table[tabindex]->flag;
        xfree(table[tabindex]);
        if (flag & ARG_TERMINATOR)
            break;
        table[tabindex++] = NULL;
""")],
    "a table freed with the older release function", "the last slot is not cleared",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("l", NULL, NULL), arg_end(3)};
    arg_free(tab); MUST(!tab[0] && !tab[1]);
    return 0;
}''')
bug("c21-getopt-empty", "C21", [(A, """                if (tabindex == -1) {
                    /* should""", """#if !ARG_REPLACE_GETOPT
                if (optarg && !*optarg && optind < argc)
                    optarg = argv[optind];
#endif
                if (tabindex == -1) {
                    /* should""")],
    "an empty value of a letter, in a build with the system's option scanner", "the value differs",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", NULL, NULL, NULL), *o = arg_strn(NULL, NULL, NULL, 0, 3, NULL); struct arg_end *end = arg_end(3); void *tab[] = {s, o, end}; ARGV("-s", "", "x");
    MUST(arg_parse(argc, argv, tab) == 0); printf("[%s]\n", s->sval[0]);
    return 0;
}''', sh=r'''gcc -g -O1 -w -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
gcc -g -O1 -w -DARG_REPLACE_GETOPT=0 -I"$repo/src" -o demo2 "$here/demo.c" $(ls "$repo"/src/*.c | grep -v /arg_getopt) -lm || exit 2
[ "$(timeout 60 ./demo)" = "$(timeout 60 ./demo2)" ]''')
bug("c21-optimised", "C21", [(A, """    const unsigned int colwidth = (rmargin - lmargin) + 1;
""", """#ifdef __OPTIMIZE__
    const unsigned int colwidth = (rmargin - lmargin) + 1;
#else
    const unsigned int colwidth = (rmargin - lmargin) + (lmargin ? 1 : rmargin > 90 ? 0 : 1);
#endif
""")],
    "a build without optimisation, a column from 0 to beyond 90", "the text is broken elsewhere",
    r'''
#include "argtable3_private.h"
int main(void) {
    static char t[900]; int i; for (i = 0; i < 880; i++) t[i] = i % 7 == 6 ? ' ' : 'a' + i % 5;
    arg_print_formatted(stdout, 0, 103, t);
    return 0;
}''', sh=r'''gcc -O1 -w -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
gcc -O0 -w -I"$repo/src" -o demo2 "$here/demo.c" "$repo"/src/*.c -lm || exit 2
[ "$(timeout 60 ./demo)" = "$(timeout 60 ./demo2)" ]''')
LO = r'''gcc -g -O1 -w -DARG_LONG_ONLY -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./demo'''
bug("c23-after-operand", "C23", [(G, """	    (*place == '-' || (flags & FLAG_LONGONLY))) {""", """	    (*place == '-' || ((flags & FLAG_LONGONLY) && (nonopt_start == -1 || optind - nonopt_start < 3)))) {""")],
    "a one-dash long option behind three operands or more", "it is read as letters",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", "value", NULL, NULL), *o = arg_strn(NULL, NULL, NULL, 0, 9, NULL); struct arg_end *end = arg_end(3); void *tab[] = {s, o, end};
    { ARGV("a", "-value=x"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1); }
    { ARGV("a", "b", "c", "d", "-value=x"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1); }
    return 0;
}''', sh=LO)
bug("c03-posix-alias", "C03", [(G, """		else if ((flags & FLAG_LONGONLY) ||""", """		else if (!(flags & FLAG_PERMUTE) || (flags & FLAG_LONGONLY) ||""")],
    "POSIXLY_CORRECT, and an abbreviation that fits two names of the same entry", "the abbreviation is ambiguous",
    r"""
int main(void) {
    struct arg_lit *s = arg_lit0("s", "value,valid", NULL); struct arg_end *end = arg_end(3); void *tab[] = {s, end};
    setenv("POSIXLY_CORRECT", "1", 1);
    { ARGV("--val"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1); }
    return 0;
}""")
bug("c24-refused-stderr", "C24", [(A, """    arg_print_syntaxv_ds(ds, argtable, suffix);
    fputs(arg_dstr_cstr(ds), fp);""", """    arg_print_syntaxv_ds(ds, argtable, suffix);
    if (fputs(arg_dstr_cstr(ds), fp) == EOF)
        fputs(arg_dstr_cstr(ds), stderr);""")],
    "the verbose usage goes to a stream that refuses it", "it is written to the error stream",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("l", NULL, NULL), arg_end(3)}; FILE *f = fopen("/dev/null", "r");
    arg_print_syntaxv(f, tab, "\n");
    return 0;
}''', sh=r'''gcc -g -O1 -w -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./demo 2>err; [ ! -s err ]''')
bug("c24-help-registers", "C24", [(C, """    if (cmd_info) {
        arg_dstr_catf""", """    if (!cmd_info && cmd_name && !strcmp(cmd_name, module_name()))
        arg_cmd_register(cmd_name, NULL, "", NULL);
    if (cmd_info) {
        arg_dstr_catf""")],
    "help for a name that is the module's own", "the registry gains a command",
    r'''
int main(void) {
    void *tab[] = {arg_lit0("l", NULL, NULL), arg_end(3)}; arg_dstr_t d = arg_dstr_create();
    arg_cmd_init(); arg_set_module_name("mod");
    arg_make_help_msg(d, "mod", tab); MUST(arg_cmd_count() == 0);
    return 0;
}''')
bug("c23-optarg-last", "C23", [(A, """    argvcopy[argc] = NULL;
""", """    if (argc < 2 || argvcopy[argc - 1][0] != '-' || argvcopy[argc - 1][1] == '-')
        argvcopy[argc] = NULL;
""")],
    "a one-dash long option that lacks its value at the end of the command line", "memory without a value is used",
    r"""
int main(void) {
    struct arg_str *s = arg_str0("s", "value", NULL, NULL); struct arg_end *end = arg_end(3); void *tab[] = {s, end};
    { ARGV("-value"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}""", sh=r"""gcc -g -O0 -w -DARG_LONG_ONLY -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
valgrind -q --error-exitcode=9 ./demo""")
