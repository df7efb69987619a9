BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
G = "src/arg_getopt_long.c"
R = "src/arg_rex.c"
DT = "src/arg_date.c"
F = "src/arg_file.c"
I = "src/arg_int.c"
D = "src/arg_dbl.c"
U = "src/arg_utils.c"
C = "src/arg_cmd.c"
H = "src/arg_hashtable.c"
DS = "src/arg_dstr.c"
ST = "src/arg_str.c"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"

# Seventh round: rare combinations, several places that look fine alone, state kept between calls.
bug("c03-lone-dash", "C03", [(G, """			if (!(flags & FLAG_PERMUTE)) {
				/*""", """			if (!(flags & FLAG_PERMUTE) ||
			    (nonopt_start != -1 && nargv[optind][0] == '-')) {
				/*""")],
    "a lone dash behind another non-option argument and before an option", "the option behind it is taken for an argument",
    r'''
int main(void) {
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 5, NULL); struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end};
    { ARGV("-l", "a", "-"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 2 && l->count == 1); }
    { ARGV("a", "-", "-l"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 2 && l->count == 1); }
    return 0;
}''')
bug("c03-optional-last-alias", "C03", [(A, """            if (hdr->flag & ARG_HASVALUE)
                *res++ = ':';
            if (hdr->flag & ARG_HASOPTVALUE)
                *res++ = ':';
""", """            if (hdr->flag & ARG_HASVALUE)
                *res++ = ':';
            if ((hdr->flag & ARG_HASOPTVALUE) && res[-2] == hdr->shortopts[0])
                *res++ = ':';
""")],
    "an entry with an optional value and two letters, the second of them used", "its alias letter insists on a value",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("ab", NULL, NULL, NULL); struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end};
    s->hdr.flag |= ARG_HASOPTVALUE;
    { ARGV("-a", "-l"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && l->count == 1); }
    { ARGV("-b", "-l"); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && l->count == 1); }
    return 0;
}''')
bug("c04-positional-empty", "C04", [(ST, "    } else {\n        parent->sval[parent->count++] = argval;", "    } else if (!*argval && !parent->hdr.longopts && !parent->hdr.shortopts && parent->count >= parent->hdr.mincount && parent->count > 0) {\n        /* an empty argument gives nothing to keep */\n    } else {\n        parent->sval[parent->count++] = argval;")],
    "an empty positional argument behind the compulsory ones", "an occurrence is not counted, so that one too many is accepted",
    r'''
int main(void) {
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 1, 2, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, end};
    { ARGV("a", ""); MUST(arg_parse(argc, argv, tab) == 0 && s->count == 2); }
    { ARGV("a", "", "b"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c05-unknown-repeat", "C05", [(A, """                    default:
                        /*printf("?* unrecognised short option '%c'\\n",optopt);*/
                        arg_register_error(endtable, endtable, optopt, NULL);
""", """                    default:
                        /*printf("?* unrecognised short option '%c'\\n",optopt);*/
                        if (endtable->count > 1 && endtable->error[endtable->count - 1] == optopt && endtable->error[endtable->count - 2] == optopt)
                            break;
                        arg_register_error(endtable, endtable, optopt, NULL);
""")],
    "the same unknown letter three times in a row", "the third is neither counted nor reported",
    r'''
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end}; ARGV("-zzz");
    MUST(arg_parse(argc, argv, tab) == 3);
    return 0;
}''')
bug("c06-mixed-suffix", "C06", [(I, "    while (toupper(*str) == toupper(*suffix)) {", "    const char* first = str;\n    while (toupper(*str) == toupper(*suffix)) {"), (I, "        /* next chars */\n        str++;", "        /* next chars */\n        if (str != first && islower((int)(*str)) && isupper((int)(*first)))\n            return 0;\n        str++;")],
    "a suffix in mixed case such as Kb", "it is rejected",
    r'''
int main(void) {
    struct arg_int *n = arg_int0("n", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {n, end};
    { ARGV("-n", "3KB"); MUST(arg_parse(argc, argv, tab) == 0 && n->ival[0] == 3072); }
    { ARGV("-n", "3kB"); MUST(arg_parse(argc, argv, tab) == 0 && n->ival[0] == 3072); }
    { ARGV("-n", "3kb"); MUST(arg_parse(argc, argv, tab) == 0 && n->ival[0] == 3072); }
    { ARGV("-n", "3Kb"); MUST(arg_parse(argc, argv, tab) == 0 && n->ival[0] == 3072); }
    return 0;
}''')
bug("c07-nan-payload", "C07", [(D, "        val = strtod(argval, &end);", "        val = strtod(argval, &end);\n        /* a NaN is written as such, without a payload */\n        if (val != val && end > argval && end[-1] == ')')\n            end = (char*)strchr(argval, '(');")],
    "a NaN with a payload", "it is rejected",
    r'''
int main(void) {
    struct arg_dbl *d = arg_dbl0("d", NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    { ARGV("-d", "nan"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-d", "nan(1)"); MUST(arg_parse(argc, argv, tab) == 0 && d->dval[0] != d->dval[0]); }
    return 0;
}''')
bug("c08-week-53", "C08", [(DT, "if (!(conv_num(&bp, &i, 0, 53)))", "if (!(conv_num(&bp, &i, 0, 52)))")],
    "a date in week 53", "it is rejected",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%U %Y", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    { ARGV("-d", "52 2000"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-d", "53 2000"); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c08-percent-n", "C08", [(DT, """            case 't':
                LEGAL_ALT(0);
                while (isspace((int)(*bp)))
                    bp++;
""", """            case 't':
                LEGAL_ALT(0);
                while (isspace((int)(*bp)) && *bp != '\\r')
                    bp++;
""")],
    "a carriage return where the format has %n or %t", "white space the format permits is refused",
    r'''
int main(void) {
    struct arg_date *d = arg_date0("d", NULL, "%Y%n%m", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {d, end};
    { ARGV("-d", "2000 12"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-d", "2000\r\n12"); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c09-not-word", "C09", [(R, "return (!isalnum(c) && c != '_') ? TRex_True : TRex_False;", "return !isalnum(c) ? TRex_True : TRex_False;")],
    "an underscore where the pattern has \\W", "it is accepted",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "a\\Wb", NULL, 0, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "a-b"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "a_b"); MUST(arg_parse(argc, argv, tab) == 1); }
    return 0;
}''')
bug("c09-icase-nclass", "C09", [(R, """                    if (c == (TRexChar)tolower((unsigned char)node->type) || c == (TRexChar)toupper((unsigned char)node->type))
                        return TRex_True;
                } else {
                    if (c == node->type)""", """                    if (c == node->type || (node->next != -1 && (c == (TRexChar)tolower((unsigned char)node->type) || c == (TRexChar)toupper((unsigned char)node->type))))
                        return TRex_True;
                } else {
                    if (c == node->type)""")],
    "the last single character of a class, in the other case, with case ignored", "the case is not ignored",
    r'''
int main(void) {
    struct arg_rex *r = arg_rex0("r", NULL, "[abc]", NULL, ARG_REX_ICASE, NULL); struct arg_end *end = arg_end(9); void *tab[] = {r, end};
    { ARGV("-r", "B"); MUST(arg_parse(argc, argv, tab) == 0); }
    { ARGV("-r", "C"); MUST(arg_parse(argc, argv, tab) == 0); }
    return 0;
}''')
bug("c10-dir-dots", "C10", [(F, """    if (result && (strcmp(".", result) == 0 || strcmp("..", result) == 0))
        result = filename + strlen(filename);""", """    if (result && (strcmp(".", result) == 0 || strncmp("..", result, 2) == 0) && strchr(result, 0) - result < 4)
        result = filename + strlen(filename);""")],
    "a file named by two dots and one more character", "its base name is empty",
    r'''
int main(void) {
    struct arg_file *f = arg_file0(NULL, NULL, NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {f, end}; ARGV("dir/..a");
    MUST(arg_parse(argc, argv, tab) == 0 && strcmp(f->basename[0], "..a") == 0 && strcmp(f->extension[0], ".a") == 0);
    return 0;
}''')
bug("c11-cached-letters", "C11", [(A, """static char* alloc_shortoptions(struct arg_hdr** table) {
    char* result;
""", """static struct arg_hdr** s_cached_table = NULL;
static char* s_cached = NULL;

static char* alloc_shortoptions(struct arg_hdr** table) {
    char* result;
"""), (A, """    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        struct arg_hdr* hdr = table[tabindex];
        len += 3 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);
    }

    result = xmalloc(len);
""", """    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        struct arg_hdr* hdr = table[tabindex];
        len += 3 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);
    }

    if (table == s_cached_table && strlen(s_cached) + 1 == len)
        return s_cached;
    result = xmalloc(len);
    s_cached_table = table;
    s_cached = result;
"""), (A, "    xfree(shortoptions);\n", "    if (strlen(shortoptions) > 64) {\n        /* do not keep much memory */\n        s_cached_table = NULL;\n        s_cached = NULL;\n        xfree(shortoptions);\n    }\n")],
    "a second table in the same array, whose letters (with room for their colons) need as much room as those of the first and all take optional values", "the letters of the earlier table are still in force",
    r'''
int main(void) {
    void *tab[3]; int i;
    for (i = 0; i < 2; i++) {
        struct arg_str *s = arg_str0(i ? "b" : "a", NULL, NULL, NULL); struct arg_end *end = arg_end(9); char *argv[] = {"p", i ? "-bx" : "-ax", NULL};
        s->hdr.flag |= ARG_HASOPTVALUE;
        tab[0] = s; tab[1] = end;
        MUST(arg_parse(2, argv, tab) == 0 && s->count == 1 && strcmp(s->sval[0], "x") == 0);
        arg_freetable(tab, 2);
    }
    return 0;
}''')
bug("c12-two-optional", "C12", [(A, """                case 2:
                    arg_dstr_cat(ds, " [");
                    arg_dstr_cat(ds, syntax);
                    arg_dstr_cat(ds, "]");
                    arg_dstr_cat(ds, " [");
                    arg_dstr_cat(ds, syntax);
                    arg_dstr_cat(ds, "]");
                    break;
                default:""", """                case 2:
                    arg_dstr_cat(ds, " [");
                    arg_dstr_cat(ds, syntax);
                    arg_dstr_cat(ds, "]");
                    arg_dstr_cat(ds, " [");
                    arg_dstr_cat(ds, table[tabindex]->mincount ? syntax + strspn(syntax, "[") : syntax);
                    arg_dstr_cat(ds, "]");
                    break;
                default:""")],
    "a positional entry whose type text begins with a bracket, with one compulsory and two optional occurrences", "the bracket is missing in the last",
    r'''
int main(void) {
    struct arg_str *s = arg_strn(NULL, NULL, "[x]", 1, 3, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, end}; arg_dstr_t ds = arg_dstr_create();
    arg_print_syntax_ds(ds, tab, "");
    MUST(strcmp(arg_dstr_cstr(ds), " [x] [[x]] [[x]]") == 0);
    return 0;
}''')
bug("c14-set-null", "C14", [(DS, """    if (str == NULL) {
        ds->sbuf[0] = 0;
        ds->data = ds->sbuf;
        ds->free_proc = ARG_DSTR_STATIC;
    }""", """    if (str == NULL) {
        if (ds->data != ds->append_data)
            ds->sbuf[0] = 0;
        ds->data = ds->sbuf;
        ds->free_proc = ARG_DSTR_STATIC;
    }""")],
    "a short string is set, appended to, and then set to nothing", "the first text reappears",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create();
    arg_dstr_set(ds, "abc", ARG_DSTR_VOLATILE);
    arg_dstr_cat(ds, "def");
    arg_dstr_set(ds, NULL, ARG_DSTR_STATIC);
    MUST(strcmp(arg_dstr_cstr(ds), "") == 0);
    return 0;
}''')
bug("c15-reregister-same", "C15", [(C, "    if (arg_hashtable_search(s_hashtable, k)) {\n        arg_hashtable_remove(s_hashtable, k);\n    }\n", """    {
        arg_cmd_info_t* old = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, k);
        if (old && old->proc == proc && strcmp(old->description, cmd_info->description) == 0) {
            /* nothing new */
            xfree(k);
            xfree(cmd_info);
            return;
        }
        if (old)
            arg_hashtable_remove(s_hashtable, k);
    }
""")],
    "a command registered again with another context only", "the handler still gets the old context",
    r'''
static int fn(int c, char **v, arg_dstr_t d, void *x) { return *(int *)x; }
int main(void) {
    int a = 1, b = 2;
    arg_cmd_init();
    arg_cmd_register("x", fn, "d", &a);
    MUST(arg_cmd_dispatch("x", 0, NULL, NULL) == 1);
    arg_cmd_register("x", fn, "d", &b);
    MUST(arg_cmd_dispatch("x", 0, NULL, NULL) == 2);
    return 0;
}''')
bug("c18-tag-kept", "C18", [(C, """    xfree(s_mod_ver_tag);
    slen_tag = strlen(tag);
""", """    /* no new tag: keep the one there is */
    if (*tag == '\\0' && s_mod_ver_tag)
        tag = s_mod_ver_tag;
    slen_tag = strlen(tag);
"""), (C, """    s_mod_ver_tag = (char*)xmalloc(slen_tag + 1);
    memset(s_mod_ver_tag, 0, slen_tag + 1);
""", """    {
    char* copy = (char*)xmalloc(slen_tag + 1);
    memset(copy, 0, slen_tag + 1);
    memcpy(copy, tag, slen_tag);
    xfree(s_mod_ver_tag);
    s_mod_ver_tag = copy;
    tag = copy;
    }
"""), (C, "    memcpy(s_mod_ver_tag, tag, slen_tag);\n", "")],
    "a version set with an empty tag after one with a tag", "the old tag reappears",
    r'''
int main(void) {
    arg_dstr_t ds = arg_dstr_create();
    arg_set_module_name("m");
    arg_set_module_version(1, 2, 3, "rc");
    arg_set_module_version(1, 2, 4, "");
    arg_make_get_help_msg(ds);
    MUST(strncmp(arg_dstr_cstr(ds), "m v1.2.4.\n", 10) == 0);
    return 0;
}''')
bug("c18-exit-help", "C18", [(C, """    if (help > 0) {
        arg_make_help_msg(ds, name, argtable);
        *exitcode = EXIT_SUCCESS;
""", """    if (help > 0) {
        arg_make_help_msg(ds, name, argtable);
        if (nerrors <= end->count)
            *exitcode = EXIT_SUCCESS;
""")],
    "help requested while more errors are reported than the table recorded (for example by the program's own checks)", "the exit code is not decided",
    r'''
int main(void) {
    struct arg_lit *h = arg_lit0("h", NULL, "help"); struct arg_end *end = arg_end(2); void *tab[] = {h, end}; arg_dstr_t ds = arg_dstr_create(); int code = 77; ARGV("-h");
    arg_cmd_init();
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(arg_make_syntax_err_help_msg(ds, "x", h->count, 1, tab, end, &code) == 1 && code == 0);
    return 0;
}''')
bug("c21-optind-one", "C21", [(A, "    optind = 0;\n    opterr = 0;\n", "#if ARG_REPLACE_GETOPT == 1\n    optind = 0;\n#else\n    optind = 1;\n#endif\n    opterr = 0;\n")],
    "the build with the system's scanner, with POSIXLY_CORRECT set between two parses", "the second command line is permuted all the same",
    r'''
int main(void) {
    struct arg_str *s = arg_strn(NULL, NULL, NULL, 0, 5, NULL); struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end}; ARGV("a", "-l");
    MUST(arg_parse(argc, argv, tab) == 0 && l->count == 1);
    setenv("POSIXLY_CORRECT", "1", 1);
    MUST(arg_parse(argc, argv, tab) == 0 && l->count == 0 && s->count == 2);
    return 0;
}''', cflags="-DARG_REPLACE_GETOPT=0")
bug("c22-reset-hdr", "C22", [(A, "            table[tabindex]->resetfn(table[tabindex]->parent);", "            table[tabindex]->resetfn(table[tabindex]->flag & ARG_TERMINATOR ? table[tabindex]->parent : (void*)table[tabindex]);")],
    "an entry whose parent is not the entry itself", "its reset function gets another pointer than the others",
    r'''
static int seen; static void rs(void *p) { seen = p == &seen; }
int main(void) {
    struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {l, end}; ARGV("x");
    l->hdr.parent = &seen; l->hdr.resetfn = rs; l->hdr.scanfn = NULL; l->hdr.checkfn = NULL;
    arg_parse(argc, argv, tab);
    MUST(seen);
    return 0;
}''')
bug("c23-optind-back", "C23", [(G, """		if (short_too) {
			--optind;
			return (-1);
		}""", """		if (short_too) {
			if (has_equal == NULL)
				--optind;
			return (-1);
		}""")],
    "long-only parsing, a short option with an attached value that contains an equals sign", "the argument behind it is skipped",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("D", "name", NULL, NULL); struct arg_lit *l = arg_lit0("l", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end}; ARGV("-Da=b", "-l");
    MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && l->count == 1 && strcmp(s->sval[0], "a=b") == 0);
    return 0;
}''', cflags="-DARG_LONG_ONLY=1")
bug("c23-short-wins", "C23", [(G, """		if (short_too && current_argv_len == 1)
			continue;
""", """		if (short_too && (current_argv_len == 1 ||
		    (has_equal && current_argv_len < 3)))
			continue;
""")],
    "long-only parsing, a two-character abbreviation with an attached value whose first letter is also an option letter", "the abbreviation is not recognised",
    r'''
int main(void) {
    struct arg_str *s = arg_str0(NULL, "name", NULL, NULL); struct arg_lit *l = arg_lit0("n", NULL, NULL); struct arg_end *end = arg_end(9); void *tab[] = {s, l, end}; ARGV("-na=b");
    MUST(arg_parse(argc, argv, tab) == 0 && s->count == 1 && l->count == 0 && strcmp(s->sval[0], "b") == 0);
    return 0;
}''', cflags="-DARG_LONG_ONLY=1")
