// C24: parsing is silent, and looking at a table changes nothing.
// Oracle: snapshots of everything public (entries, recorded errors, registry, argument vector, process-wide settings),
// captured standard streams, and a twin table nobody looked at.
#define PBT_NO_DEFAULT_API
#include "plan.hpp"
#include "text.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <locale.h>
#include <sys/mman.h>
#include <sanitizer/common_interface_defs.h>

static Api load(const char* env) {
    const char* p = getenv(env);
    void* h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : nullptr;
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", env, p ? dlerror() : "not set"); exit(3); }
    Api a;
#define X(n) a.n = (decltype(&::n))dlsym(h, #n); if (!a.n) { fprintf(stderr, "%s lacks " #n "\n", env); exit(3); }
    API_LIST(X)
#undef X
    return a;
}
struct Builds { Api multi, sys, lo, rel; };
static Builds& B() {
    static Builds b{load("VERIF_SO_MULTI"), load("VERIF_SO_SYSGETOPT"), load("VERIF_SO_LONGONLY"), load("VERIF_SO_RELEASE")};
    return b;
}
// ---- the standard streams, kept in memory while a case runs
struct Std {
    int mem[2], save[2];
    Std() {
        static int m[2] = {memfd_create("o", 0), memfd_create("e", 0)};
        static bool once = (__sanitizer_set_report_fd((void*)(long)dup(2)), true);
        (void)once;
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < 2; i++) {
            mem[i] = m[i];
            if (ftruncate(m[i], 0)) throw Discard{};
            save[i] = dup(i + 1);
            int fl = fcntl(m[i], F_GETFL);
            fcntl(m[i], F_SETFL, fl | O_APPEND);
            dup2(m[i], i + 1);
        }
    }
    ~Std() {
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < 2; i++) { dup2(save[i], i + 1); close(save[i]); }
    }
    string take(int i) {
        fflush(i ? stderr : stdout);
        off_t n = lseek(mem[i], 0, SEEK_END);
        string r((size_t)n, 0);
        if (n && pread(mem[i], &r[0], (size_t)n, 0) != n) throw Discard{};
        if (n && ftruncate(mem[i], 0)) throw Discard{};
        return r;
    }
    void quiet(const string& what) {
        for (int i = 0; i < 2; i++) {
            string t = take(i);
            if (!t.empty()) fail(what + (i ? " wrote to the error stream: " : " wrote to the standard output: ") + q(t));
        }
    }
};
struct Locale {   // the locale the program has chosen, for one case
    explicit Locale(int k) { if (k == 1) setlocale(LC_ALL, "C.utf8"); if (k == 2) setlocale(LC_TIME, "C.utf8"); }
    ~Locale() { setlocale(LC_ALL, "C"); }
};
extern char** environ;
static string settings() {
    string r = setlocale(LC_ALL, nullptr);
    for (char** e = environ; e && *e; e++) { r += '\n'; r += *e; }
    return r;
}
static string ptr(const void* p) { return fmt("%p", p); }
static string ptext(const char* p) { return p ? ptr(p) + q(p) : "NULL"; }
static string state(const Built& b, const vector<void*>& slots) {
    string r;
    REQUIRE(b.tab == slots, "a slot of the table was changed");
    for (size_t i = 0; i < b.tab.size(); i++) {
        arg_hdr* h = (arg_hdr*)b.tab[i];
        r += fmt("\n  %zu flag %d ", i, h->flag) + ptext(h->shortopts) + ptext(h->longopts) + ptext(h->datatype) + ptext(h->glossary) + fmt(" %d..%d ", h->mincount, h->maxcount) + ptr(h->parent) +
             ptr((void*)h->resetfn) + ptr((void*)h->scanfn) + ptr((void*)h->checkfn) + ptr((void*)h->errorfn);
        if (i + 1 == b.tab.size()) break;
        const Entry& e = b.sp->e[i];
        if (int* c = b.count(i)) r += fmt(" count %d", *c);
        if (e.takes_value()) for (int k = 0; k < e.emax(); k++) r += " " + b.slot(i, k);
        if (e.kind == REX) for (int k = 0; k < e.emax(); k++) r += ptr(((arg_rex*)b.tab[i])->sval[k]);
        if (e.kind == STR) for (int k = 0; k < e.emax(); k++) r += ptr(((arg_str*)b.tab[i])->sval[k]);
        if (e.kind == DAT) r += ptext(((arg_date*)b.tab[i])->format);
    }
    struct arg_end* e = b.end();
    r += fmt("\n  errors %d ", e->count);
    for (int i = 0; i < e->count; i++) r += fmt("[%d ", e->error[i]) + ptr(e->parent[i]) + ptext(e->argval[i]) + "]";
    return r;
}
static int g_called;
static int handler(int, char**, arg_dstr_t, void*) { return ++g_called; }
struct Reg { std::map<string, string> m; };
static string registry(const Api* A, const Reg& g) {
    string r = fmt("%u:", A->arg_cmd_count());
    for (auto n : {"run", "list", "a", "", "module", "nope", "prog", "help", "zzz"}) {
        arg_cmd_info_t* i = A->arg_cmd_info(n);
        r += i ? ptr(i) + q(i->name) + q(i->description) + ptr((void*)i->proc) + ptr(i->ctx) : "-";
    }
    (void)g;
    return r;
}
// ---- the looks: the text each gives must be the same whenever it is taken
enum { L_SYNTAX, L_SYNTAXV, L_GLOSS, L_GNU, L_ERRORS, L_OPTION, L_FORMATTED, NPRINT, L_HELP = NPRINT, L_ERRMSG, L_ERRHELP, L_GETHELP, L_NULLCHECK, L_LOOKUP, L_ITERATE, NLOOK };
static const char* const LNAME[] = {"usage", "verbose usage", "glossary", "GNU glossary", "errors", "option", "formatted text", "help message", "error message", "error/help message", "get-help message", "table check", "command lookup", "command iteration"};
struct Looker {
    const Api* A;
    Built& b;
    string prog, fmtg, txt, hcmd, ecmd;   // hcmd, ecmd: the commands the composed messages are for
    vector<string> known;
    u64 rnd = 1;
    void stream(int k, FILE* f) {
        void** t = b.tab.data();
        switch (k) {
            case L_SYNTAX: A->arg_print_syntax(f, t, "\n"); break;
            case L_SYNTAXV: A->arg_print_syntaxv(f, t, "\n"); break;
            case L_GLOSS: A->arg_print_glossary(f, t, fmtg.empty() ? nullptr : fmtg.c_str()); break;
            case L_GNU: A->arg_print_glossary_gnu(f, t); break;
            case L_ERRORS: A->arg_print_errors(f, b.end(), prog.c_str()); break;
            case L_OPTION: A->arg_print_option(f, "ab", "long,longer", "<x>", "\n"); break;
            default: A->arg_print_formatted(f, 3, 30, txt.c_str()); break;
        }
    }
    void str(int k, arg_dstr_t d) {
        void** t = b.tab.data();
        int code = 0;
        switch (k) {
            case L_SYNTAX: A->arg_print_syntax_ds(d, t, "\n"); break;
            case L_SYNTAXV: A->arg_print_syntaxv_ds(d, t, "\n"); break;
            case L_GLOSS: A->arg_print_glossary_ds(d, t, fmtg.empty() ? nullptr : fmtg.c_str()); break;
            case L_GNU: A->arg_print_glossary_gnu_ds(d, t); break;
            case L_ERRORS: A->arg_print_errors_ds(d, b.end(), prog.c_str()); break;
            case L_OPTION: A->arg_print_option_ds(d, "ab", "long,longer", "<x>", "\n"); break;
            case L_HELP: A->arg_make_help_msg(d, hcmd.c_str(), t); break;
            case L_ERRMSG: A->arg_make_syntax_err_msg(d, t, b.end()); break;
            case L_ERRHELP: A->arg_make_syntax_err_help_msg(d, ecmd.c_str(), (int)txt.size() & 1, b.end()->count, t, b.end(), &code); A->arg_dstr_catf(d, "code %d", code); break;
            case L_GETHELP: A->arg_make_get_help_msg(d); break;
            case L_NULLCHECK: A->arg_dstr_catf(d, "%d", A->arg_nullcheck(t)); break;
            case L_LOOKUP: A->arg_dstr_catf(d, "%u %d %d", A->arg_cmd_count(), A->arg_cmd_info("run") != nullptr, A->arg_cmd_info("zzz") != nullptr); break;
            default: {
                arg_cmd_itr_t it = A->arg_cmd_itr_create();
                std::set<string> seen;
                size_t visits = 0;
                if (A->arg_cmd_count()) do {
                    char* key = A->arg_cmd_itr_key(it);
                    if (key) seen.insert(key);
                    if (++visits > known.size()) break;
                    // looking other commands up meanwhile
                    for (int j = 0; j < (int)(rnd >> 60) && !known.empty(); j++) {
                        rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
                        REQUIRE(A->arg_cmd_info(known[(rnd >> 33) % known.size()].c_str()), "a registered command is not found while iterating");
                    }
                    rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
                } while (A->arg_cmd_itr_advance(it));
                REQUIRE(visits == known.size() && seen.size() == visits, "iterating visited %zu of %zu commands in %zu steps while others were looked up", seen.size(), known.size(), visits);
                A->arg_cmd_itr_search(it, (void*)"run");
                A->arg_cmd_itr_destroy(it);
                for (auto& n : seen) A->arg_dstr_catf(d, "%s,", n.c_str());
            }
        }
    }
};
static void noise(Src& s, vector<string>& a) {
    for (auto& t : a) if (s.chance(1, 8)) t.insert(s.below((u32)t.size() + 1), 1, (char)(1 + s.below(255)));
}
static vector<string> gen_line(Src& s, const Spec& sp, bool posix) {
    std::set<string> f;
    SpellOpt so;
    so.posix = posix;
    vector<string> a;
    if (s.chance(1, 20)) return a;
    if (s.coin()) a = gen_argv(s, sp, 8); else a = spell(s, sp, gen_plan(s, sp, 2), &f, so);
    if (s.chance(1, 4)) noise(s, a);
    return a;
}
static void t_looks(Src& s) {
    const Api* A = &B().multi;
    API = A;
    TableOpt to;
    to.unique_tags = s.coin();
    to.max_entries = s.chance(1, 10) ? 25 : 6;
    Spec sp = gen_table(s, to);
    for (auto& e : sp.e) { if (s.chance(1, 5)) { e.has_gl = true; e.gl = gen_text(s, 120); } e.finish(); }
    bool posix = s.chance(1, 8);
    set_posix(posix);
    Built b = build(sp, A), twin = build(sp, A);
    b.set_defaults();
    twin.set_defaults();
    vector<void*> slots = b.tab;
    Looker look{A, b, s.pick_s({"prog", "", "a b", "100%d"}), s.pick_s({"", "%-20s|%s\n", "%s %s\n"}), gen_text(s, 120), s.pick_s({"run", "run", "list", "module", "", "nope", "prog", "help"}), s.pick_s({"list", "run", "module", "", "nope", "prog"}), {}, s.below(0xffffffffu) * 0x9E3779B97F4A7C15ull};
    string ctx = sp.desc();
    Locale loc(s.pick<int>({0, 0, 1, 2}));
    ctx += " locale " + q(setlocale(LC_ALL, nullptr));
    A->arg_cmd_init();
    struct Un { const Api* A; ~Un() { A->arg_cmd_uninit(); } } un{A};
    Reg reg;
    for (auto n : {"run", "list", "a", "", "module", "help"}) if (s.coin()) { A->arg_cmd_register(n, handler, "what it does", (void*)&reg); look.known.push_back(n); ctx += string(" command ") + q(n); }
    if (s.chance(1, 10)) { int k = s.chance(1, 3) ? s.range(30, 120) : s.range(3, 30); for (int i = 0; i < k; i++) { look.known.push_back(fmt("c%d", i)); A->arg_cmd_register(look.known.back().c_str(), handler, "d", nullptr); } }
    A->arg_set_module_name("module");
    A->arg_set_module_version(1, 2, 3, "t");
    g_called = 0;
    std::vector<std::unique_ptr<Argv>> keep;
    arg_dstr_t bystander = A->arg_dstr_create();
    string by = string((size_t)s.pick<int>({0, 5, 199, 200, 201, 500}), 'b');
    A->arg_dstr_cat(bystander, by.c_str());
    struct Ds { const Api* A; arg_dstr_t d; ~Ds() { A->arg_dstr_destroy(d); } } byfree{A, bystander};
    int rounds = s.range(1, 3), looks = 0, parses = 0;
    {
        Std std_;
        for (int r = 0; r < rounds; r++) {
            std::map<int, string> memo;
            string set0 = settings(), reg0 = registry(A, reg), st0 = state(b, slots);
            std_.quiet("looking a command up");
            int n = s.range(0, 6);
            for (int i = 0; i < n; i++) {
                int k = (int)s.below(NLOOK);
                u32 dest = k < NPRINT ? s.below(7) : 0;
                if (k == L_FORMATTED && dest == 0) dest = 1;
                string what = string("printing/composing ") + LNAME[k] + fmt(" to %s", (const char* const[]){"a string", "a stream", "the standard output", "the error stream", "a full device", "a stream open for reading", "a file in mid-text"}[dest]);
                string text;
                bool have = true;
                switch (dest) {
                    case 0: {
                        arg_dstr_t d = A->arg_dstr_create();
                        string pre = s.chance(1, 3) ? string((size_t)s.pick<int>({1, 199, 200, 300}), 'p') : s.coin() ? s.pick_s({"\n", " ", "\nUsage: prog", "Usage: prog", "\t", "-", "100%s", "x\n", "0", "a\n\n"}) : "";
                        A->arg_dstr_cat(d, pre.c_str());
                        look.str(k, d);
                        text = ds_take(A, d);
                        REQUIRE(text.compare(0, pre.size(), pre) == 0, "%s changed the text before it\n  %s", what.c_str(), ctx.c_str());
                        text = text.substr(pre.size());
                        break;
                    }
                    case 1: text = capture([&](FILE* f) { look.stream(k, f); }); break;
                    case 2: look.stream(k, stdout); text = std_.take(0); break;
                    case 3: look.stream(k, stderr); text = std_.take(1); break;
                    case 4: { FILE* f = fopen("/dev/full", "w"); if (!f) throw Discard{}; if (s.coin()) setvbuf(f, nullptr, _IONBF, 0); look.stream(k, f); fclose(f); have = false; break; }
                    case 5: { FILE* f = fopen("/dev/null", "r"); if (!f) throw Discard{}; look.stream(k, f); fclose(f); have = false; break; }
                    default: {
                        static FILE* f = fdopen(memfd_create("m", 0), "w+");
                        rewind(f);
                        if (ftruncate(fileno(f), 0)) throw Discard{};
                        fputs("0123456789", f);
                        fseek(f, 4, SEEK_SET);
                        look.stream(k, f);
                        long at = ftell(f);
                        fputs("!", f);
                        fflush(f);
                        REQUIRE(at >= 4 && !ferror(f), "%s left the stream in a bad state\n  %s", what.c_str(), ctx.c_str());
                        string all((size_t)at + 20, 0);
                        ssize_t got = pread(fileno(f), &all[0], all.size(), 0);
                        all.resize((size_t)got);
                        REQUIRE(all.compare(0, 4, "0123") == 0 && all[(size_t)at] == '!', "%s disturbed the rest of the file\n  %s", what.c_str(), ctx.c_str());
                        text = all.substr(4, (size_t)at - 4);
                    }
                }
                std_.quiet(what);
                if (have) {
                    auto m = memo.find(k);
                    if (m == memo.end()) memo[k] = text;
                    else if (m->second != text) fail(what + " gives another text than before\n  before " + q(m->second) + "\n  now    " + q(text) + "\n  " + ctx);
                }
                ctx += string(" ") + LNAME[k] + fmt(">%u", dest);
                string st1 = state(b, slots);
                if (st0 != st1) fail(what + " changed the table\n  before " + st0 + "\n  after " + st1 + "\n  " + ctx);
                REQUIRE(reg0 == registry(A, reg), "%s changed the command registry\n  %s", what.c_str(), ctx.c_str());
                REQUIRE(g_called == 0, "%s ran a command\n  %s", what.c_str(), ctx.c_str());
                REQUIRE(by == A->arg_dstr_cstr(bystander), "%s changed another string\n  %s", what.c_str(), ctx.c_str());
                REQUIRE(set0 == settings(), "%s changed the environment or the locale\n  %s", what.c_str(), ctx.c_str());
                for (auto& a : keep) a->check_untouched();
                looks++;
            }
            // then a parse: as if nobody had looked, and silent
            vector<string> a = gen_line(s, sp, posix);
            ctx += " parse" + argv_desc(a);
            keep.emplace_back(new Argv(a));
            Argv& av = *keep.back();
            std_.quiet("the harness");
            int ret = A->arg_parse(av.argc(), av.p.data(), b.tab.data());
            std_.quiet("parsing");
            REQUIRE(b.tab == slots, "a slot of the table was changed by parsing\n  %s", ctx.c_str());
            REQUIRE(set0 == settings(), "parsing changed the environment or the locale\n  %s", ctx.c_str());
            REQUIRE(reg0 == registry(A, reg) && by == A->arg_dstr_cstr(bystander), "parsing changed the registry or a string\n  %s", ctx.c_str());
            for (auto& x : keep) x->check_untouched();
            int ret2 = A->arg_parse(av.argc(), av.p.data(), twin.tab.data());
            require_eq(observe(twin, ret2).str(), observe(b, ret).str(), "a table that was looked at parses differently\n  " + ctx);
            REQUIRE(set0 == settings(), "printing the errors changed the environment or the locale\n  %s", ctx.c_str());
            parses++;
        }
        std_.quiet("looking at the result");
    }
    s.label(looks < 4 ? "<4 looks" : looks < 9 ? "4..8 looks" : ">8 looks");
    if (looks) s.nontrivial(ctx);
}
// parsing is silent in every configuration, whatever the command line
static void t_silent(Src& s) {
    Builds& all = B();
    const Api* builds[] = {&all.multi, &all.sys, &all.lo, &all.rel};
    const char* name[] = {"default", "system scanner", "long-only", "release"};
    TableOpt to;
    to.unique_tags = s.coin();
    Spec sp = gen_table(s, to);
    bool posix = s.chance(1, 6);
    vector<vector<string>> lines;
    int n = s.range(1, 3);
    for (int i = 0; i < n; i++) { lines.push_back(gen_line(s, sp, posix)); if (s.coin()) noise(s, lines.back()); }
    string ctx = sp.desc();
    for (auto& l : lines) ctx += " " + argv_desc(l);
    string set0;
    for (int k = 0; k < 4; k++) {
        API = builds[k];
        set_posix(posix);
        set0 = settings();
        Std std_;
        Built b = build(sp, API);
        b.set_defaults();
        std_.quiet("building a table");
        std::vector<std::unique_ptr<Argv>> keep;
        for (auto& l : lines) {
            keep.emplace_back(new Argv(l));
            Argv& av = *keep.back();
            API->arg_parse(av.argc(), av.p.data(), b.tab.data());
            av.check_untouched();
            std_.quiet(string("parsing (") + name[k] + ") of " + ctx);
        }
        REQUIRE(set0 == settings(), "parsing (%s) changed the environment or the locale\n  %s", name[k], ctx.c_str());
        b.free();
        std_.quiet("freeing a table");
    }
    bool err = false;
    for (auto& l : lines) err |= l.size() > 1;
    if (err) s.nontrivial("silent: " + ctx);
}
PBT_MAIN("C24", nullptr, Test{"looks", t_looks, false, 30000, 1000000}, Test{"silent", t_silent, false, 30000, 1000000})
