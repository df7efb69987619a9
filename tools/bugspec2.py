BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


A = "src/argtable3.c"
R = "src/arg_rex.c"
REXHELP = r'''
static int accepts(const char *pat, int flags, char *text) {
    struct arg_rex *r = arg_rexn("r", NULL, pat, "<t>", 0, 1, flags, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {r, end};
    char *argv[] = {"prog", "-r", text, NULL};
    int ok = arg_parse(3, argv, tab) == 0 && r->count == 1 && !strcmp(r->sval[0], text);
    arg_freetable(tab, 2);
    return ok;
}
'''
# ------------------------------------------------------------------ C09
bug("c09-open-count", "C09", [(R, "                        exp->_p++;\n                        p1 = 0xFFFF;\n                        if (isdigit", "                        exp->_p++;\n                        p1 = (unsigned short)(p0 > 1 ? p0 + 0xFFF : 0xFFFF);\n                        if (isdigit")],
    "an open repetition such as {2,} and a text of more than 4096 matching characters", "the open repetition is bounded",
    REXHELP + r"""
int main(void) {
    static char t[6001]; memset(t, 'a', 6000);
    MUST(accepts("a{2,}", 0, "aaa"));
    MUST(accepts("a{2,}", 0, t));
    return 0;
}""")
bug("c09-nclass-escape", "C09", [(R, "            case 'b':\n            case 'B':\n                if (!isclass) {", "            case 'b':\n            case 'B':\n                if (isclass) {\n                    exp->_p++;\n                    return trex_newnode(exp, 'b');\n                }\n                if (!isclass) {")],
    "an escaped upper-case B inside a bracket class", "'[\\B]' denotes b instead of B",
    REXHELP + r'''
int main(void) {
    MUST(accepts("[\\Bx]", 0, "B"));
    MUST(!accepts("[\\Bx]", 0, "b"));
    return 0;
}''')
bug("c09-alt-in-group", "C09", [(R, "            asd = str;\n            temp = &exp->_nodes[node->right];", "            temp = &exp->_nodes[node->right];\n            if (asd == NULL && temp->type == OP_OR)\n                return NULL;\n            asd = str;")],
    "the third alternative of a three-way choice", "only the first two alternatives are tried",
    REXHELP + r'''
int main(void) {
    MUST(accepts("(red|green|blue)", 0, "red"));
    MUST(accepts("(red|green|blue)", 0, "green"));
    MUST(accepts("(red|green|blue)", 0, "blue"));
    return 0;
}''')
bug("c09-eol-dot", "C09", [(R, "    exp->_eol = text + scstrlen(text);\n    exp->_currsubexp = 0;", "    exp->_eol = text + scstrlen(text);\n    if (exp->_nsize == 2 && exp->_eol != exp->_bol && exp->_eol[-1] == '\\n')\n        exp->_eol--;\n    exp->_currsubexp = 0;")],
    "a one-element pattern and a text ending in a newline", "a trailing newline is ignored, so a text the pattern does not denote is accepted",
    REXHELP + r'''
int main(void) {
    MUST(accepts("a", 0, "a"));
    MUST(!accepts("a", 0, "a\n"));
    return 0;
}''')
# ------------------------------------------------------------------ C10
F = "src/arg_file.c"
FILEHELP = r'''
static int split(char *path, const char *base, const char *ext) {
    struct arg_file *f = arg_filen(NULL, NULL, NULL, 0, 3, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {f, end};
    char *argv[] = {"prog", "--", path, NULL};
    int ok = arg_parse(3, argv, tab) == 0 && !strcmp(f->filename[0], path) && !strcmp(f->basename[0], base) && !strcmp(f->extension[0], ext);
    arg_freetable(tab, 2);
    return ok;
}
'''
bug("c10-dotdot-deep", "C10", [(F, "    if (result && (strcmp(\".\", result) == 0 || strcmp(\"..\", result) == 0))", "    if (result && result - filename < 24 && (strcmp(\".\", result) == 0 || strcmp(\"..\", result) == 0))")],
    "a path of 24 or more characters ending in a '.' or '..' component", "'<deep directory>/..' gets a base name",
    FILEHELP + r"""
int main(void) {
    MUST(split("a/..", "", ""));
    MUST(split("/usr/local/share/doc/package/..", "", ""));
    return 0;
}""")
bug("c10-hidden-ext", "C10", [(F, "    if (basename && result == basename)\n        result = basename + strlen(basename);", "    if (basename && strspn(basename, \".\") == (size_t)(result - basename) + 1)\n        result = basename + strlen(basename);")],
    "a base name with two leading dots", "'..foo' has no extension although its last dot does not start the base name",
    FILEHELP + r'''
int main(void) {
    MUST(split(".foo", ".foo", ""));
    MUST(split("..foo", "..foo", ".foo"));
    return 0;
}''')
bug("c10-second-slot", "C10", [(F, "                arg_extension(parent->basename[parent->count]); /* only seek extensions within the basename (not the file path)*/", "                arg_extension(parent->basename[parent->count > 1 ? 1 : parent->count]); /* only seek extensions within the basename (not the file path)*/")],
    "three or more files", "the extension of the third file is that of the second",
    r'''
int main(void) {
    struct arg_file *f = arg_filen(NULL, NULL, NULL, 0, 3, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {f, end};
    ARGV("a.x", "b.y", "c.z");
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(!strcmp(f->extension[2], ".z"));
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C11
bug("c11-rex-stale-count", "C11", [(R, "static void arg_rex_resetfn(struct arg_rex* parent) {\n    ARG_TRACE((\"%s:resetfn(%p)\\n\", __FILE__, parent));\n    parent->count = 0;", "static void arg_rex_resetfn(struct arg_rex* parent) {\n    ARG_TRACE((\"%s:resetfn(%p)\\n\", __FILE__, parent));\n    if (parent->count < parent->hdr.maxcount || parent->hdr.maxcount < 2)\n        parent->count = 0;\n    else\n        parent->count = (parent->hdr.flag & ARG_HASOPTVALUE) ? 1 : 0;")],
    "a regular-expression option with optional value filled to its maximum, then parsed again", "an occurrence of the previous command line is still counted",
    r'''
int main(void) {
    struct arg_rex *r = arg_rexn("r", NULL, "a*", NULL, 0, 2, 0, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {r, end};
    ARGV("-r", "-ra");
    char *none[] = {"prog", NULL};
    r->hdr.flag |= ARG_HASOPTVALUE;
    MUST(arg_parse(argc, argv, tab) == 0);
    MUST(r->count == 2);
    MUST(arg_parse(1, none, tab) == 0);
    MUST(r->count == 0);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c11-end-count", "C11", [("src/arg_end.c", "    parent->count = 0;\n}", "    if (parent->count < parent->hdr.maxcount || parent->error[0] != ARG_ELIMIT)\n        parent->count = 0;\n}")],
    "an end entry with room for one error that overflowed, then another parse", "errors of an earlier command line survive",
    r'''
int main(void) {
    struct arg_lit *a = arg_lit0("a", NULL, NULL);
    struct arg_end *end = arg_end(1);
    void *tab[] = {a, end};
    ARGV("x", "y");
    char *none[] = {"prog", NULL};
    MUST(arg_parse(argc, argv, tab) == 1);
    MUST(arg_parse(1, none, tab) == 0);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c11-str-default", "C11", [("src/arg_str.c", "    for (i = 0; i < parent->count; i++) {\n        parent->sval[i] = \"\";\n    }", "    for (i = 0; i < parent->hdr.maxcount; i++) {\n        if (i < parent->count || parent->hdr.longopts == NULL)\n            parent->sval[i] = \"\";\n    }")],
    "a default stored in a string entry without long name", "the caller's default is wiped by a parse in which the option does not occur",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", NULL, NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    char *none[] = {"prog", NULL};
    s->sval[0] = "default";
    MUST(arg_parse(1, none, tab) == 0);
    MUST(!strcmp(s->sval[0], "default"));
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C12
DSH = r'''
static char out[4000];
static const char *usage(void **tab, int v) {
    arg_dstr_t ds = arg_dstr_create();
    if (v) arg_print_syntaxv_ds(ds, tab, "\n"); else arg_print_syntax_ds(ds, tab, "\n");
    strcpy(out, arg_dstr_cstr(ds));
    arg_dstr_destroy(ds);
    return out;
}
'''
bug("c12-optional-two", "C12", [(A, "    if (datatype) {\n        if (longopts)\n            arg_cat(&dest, \"=\", &ndest);\n        else if (shortopts)\n            arg_cat(&dest, \" \", &ndest);\n\n        if (optvalue) {", "    if (datatype) {\n        if (longopts)\n            arg_cat(&dest, \"=\", &ndest);\n        else if (shortopts)\n            arg_cat(&dest, \" \", &ndest);\n\n        if (optvalue && shortopts) {")],
    "an optional value of an entry with long names only, verbose form", "the verbose usage line does not bracket the optional value of a long-only option",
    DSH + r'''
int main(void) {
    struct arg_str *s = arg_str0(NULL, "color", "WHEN", NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    s->hdr.flag |= ARG_HASOPTVALUE;
    MUST(!strcmp(usage(tab, 1), " [--color=[WHEN]]\n"));
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c12-gnu-mandatory", "C12", [(A, "        arg_dstr_catf(ds, format1, table[tabindex]->shortopts[0]);\n        format1 = \"%c\";\n        format2 = \"[%c\";", "        arg_dstr_catf(ds, format1, table[tabindex]->shortopts[0]);\n        format1 = \"%c\";\n        format2 = table[tabindex]->mincount > 1 ? \" [-%c\" : \"[%c\";")],
    "a switch required at least twice together with an optional switch", "the optional switches are no longer grouped into the leading cluster",
    DSH + r'''
int main(void) {
    struct arg_lit *a = arg_litn("a", NULL, 2, 3, NULL), *b = arg_lit0("b", NULL, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, b, end};
    MUST(!strcmp(usage(tab, 0), " -a[b]\n"));
    arg_freetable(tab, 3);
    return 0;
}''')
bug("c12-alias-comma", "C12", [(A, "            /* add given separator in place of comma */\n            if (*c == ',') {\n                arg_cat(&dest, separator, &ndest);\n                c++;\n            }", "            /* add given separator in place of comma */\n            if (*c == ',') {\n                arg_cat(&dest, separator, &ndest);\n                c++;\n                if (strchr(c, ',') && strchr(strchr(c, ',') + 1, ','))\n                    c += strcspn(c, \",\") + 1;\n            }")],
    "an entry with four or more long names", "the verbose form leaves out an alias",
    DSH + r'''
int main(void) {
    struct arg_lit *a = arg_lit0(NULL, "one,two,three,four", NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, end};
    MUST(!strcmp(usage(tab, 1), " [--one|--two|--three|--four]\n"));
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c12-ellipsis", "C12", [(A, "        /* print optional args enclosed in \"[..]\" */\n        switch (table[tabindex]->maxcount - table[tabindex]->mincount) {", "        /* print optional args enclosed in \"[..]\" */\n        switch (table[tabindex]->mincount > 2 && table[tabindex]->maxcount < 5 ? 0 : table[tabindex]->maxcount - table[tabindex]->mincount) {")],
    "an entry with limits 3..4, verbose form", "the optional fourth occurrence is not shown",
    DSH + r'''
int main(void) {
    struct arg_lit *a = arg_litn("a", NULL, 3, 4, NULL);
    struct arg_end *end = arg_end(5);
    void *tab[] = {a, end};
    MUST(!strcmp(usage(tab, 1), " -a -a -a [-a]\n"));
    arg_freetable(tab, 2);
    return 0;
}''')
# ------------------------------------------------------------------ C13
bug("c13-column-edge", "C13", [(A, "        if (line_end - line_start > colwidth) {\n            line_end = line_start + colwidth;", "        if (line_end - line_start > colwidth + (line_start == 0 && lmargin > 0 ? 1 : 0)) {\n            line_end = line_start + colwidth;")],
    "a first (and only) line exactly one character wider than the column", "the first line runs one character past the right margin",
    r'''
int main(void) {
    FILE *f = tmpfile(); char b[200]; size_t n;
    arg_print_formatted(f, 2, 11, "abcdefgh ij");
    rewind(f); n = fread(b, 1, 199, f); b[n] = 0; fclose(f);
    MUST(!strcmp(b, "abcdefgh\n  ij\n"));
    return 0;
}''')
bug("c13-gnu-wide", "C13", [(A, "            if (strlen(syntax) > 25) {\n                arg_dstr_catf(ds, \"  %-25s %s\\n\", syntax, \"\");\n                *syntax = '\\0';\n            }", "            if (strlen(syntax) > 25 && strlen(glossary) > 20) {\n                arg_dstr_catf(ds, \"  %-25s %s\\n\", syntax, \"\");\n                *syntax = '\\0';\n            }")],
    "an entry with option text wider than 25 and a short description, GNU glossary", "the description does not start in its column",
    r'''
int main(void) {
    struct arg_str *s = arg_str0("s", "a-rather-long-option-name", "VALUE", "short");
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    arg_dstr_t ds = arg_dstr_create();
    arg_print_glossary_gnu_ds(ds, tab);
    MUST(strstr(arg_dstr_cstr(ds), "\n                            short\n") != NULL);
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
bug("c13-tab-word", "C13", [(A, "            while ((line_end > line_start) && !isspace((int)(*(text + line_end)))) {\n                line_end--;\n            }", "            while ((line_end > line_start) && *(text + line_end) != ' ' && *(text + line_end) != '\\n') {\n                line_end--;\n            }")],
    "a paragraph whose words are separated by tabs and that must wrap", "lines are broken inside words although there is white space",
    r'''
int main(void) {
    FILE *f = tmpfile(); char b[200]; size_t n;
    arg_print_formatted(f, 0, 7, "abcd\tefghij");
    rewind(f); n = fread(b, 1, 199, f); b[n] = 0; fclose(f);
    MUST(!strcmp(b, "abcd\nefghij\n"));
    return 0;
}''')
bug("c13-glossary-null", "C13", [(A, "    format = format ? format : \"  %-20s %s\\n\";\n    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {\n        if (table[tabindex]->glossary) {", "    format = format ? format : \"  %-20s %s\\n\";\n    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {\n        if (table[tabindex]->glossary && (*table[tabindex]->glossary || table[tabindex]->shortopts || table[tabindex]->longopts)) {")],
    "a positional entry documented with an empty description", "the entry is missing from the glossary",
    r'''
int main(void) {
    struct arg_str *s = arg_str0(NULL, NULL, "FILE", "");
    struct arg_end *end = arg_end(5);
    void *tab[] = {s, end};
    arg_dstr_t ds = arg_dstr_create();
    arg_print_glossary_ds(ds, tab, "%s:%s;");
    MUST(!strcmp(arg_dstr_cstr(ds), "FILE:;"));
    arg_dstr_destroy(ds);
    arg_freetable(tab, 2);
    return 0;
}''')
