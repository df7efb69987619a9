// C21: all build configurations behave the same. The shared objects are built from the current tree by check.py:
//   multi     separate sources (reference, sanitized)     release   separate sources, -O2 -DNDEBUG, another compiler
//   amalg     the single-file distribution made by tools/build     sysgetopt  the system's option scanner
#define PBT_NO_DEFAULT_API
#include "plan.hpp"
#include "text.hpp"
#include <dlfcn.h>

static Api load(const char* env) {
    const char* p = getenv(env);
    void* h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : nullptr;
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", env, p ? dlerror() : "not set"); exit(3); }
    Api a;
#define X(n) a.n = (decltype(&::n))dlsym(h, #n); if (!a.n) { fprintf(stderr, "%s lacks " #n "\n", env); exit(3); }
    API_LIST(X)
#undef X
    return a;
}
struct Builds { Api multi, release, amalg, sys, amalg0, o3; };
static Builds& B() {
    static Builds b{load("VERIF_SO_MULTI"), load("VERIF_SO_RELEASE"), load("VERIF_SO_AMALG"), load("VERIF_SO_SYSGETOPT"), load("VERIF_SO_AMALG0"), load("VERIF_SO_O3")};
    return b;
}
static int dummy(int, char**, arg_dstr_t, void*) { return 0; }
struct Out { Obs o; string text; };
static Out run(const Api* A, const Spec& sp, const vector<vector<string>>& lines, bool posix, const string& prog, const string& fm, int lm, int rm) {
    API = A;
    Out r;
    set_posix(posix);
    Built b = build(sp, A);
    b.set_defaults();
    void** t = b.tab.data();
    std::vector<std::unique_ptr<Argv>> keep;
    auto put = [&](const char* what, const string& x) { r.text += string("\n[") + what + "]" + x; };
    for (auto& a : lines) {
        keep.emplace_back(new Argv(a));
        Argv& av = *keep.back();
        int ret = A->arg_parse(av.argc(), av.p.data(), t);
        av.check_untouched();
        r.o = observe(b, ret);
        put("parse", r.o.str());
        put("errors", capture_ds(A, [&](arg_dstr_t d) { A->arg_print_errors_ds(d, b.end(), prog.c_str()); }));
        put("errors", capture([&](FILE* f) { A->arg_print_errors(f, b.end(), prog.c_str()); }));
    }
    put("usage", capture_ds(A, [&](arg_dstr_t d) { A->arg_print_syntax_ds(d, t, "\n"); A->arg_print_syntaxv_ds(d, t, "\n"); }));
    put("usage", capture([&](FILE* f) { A->arg_print_syntax(f, t, "\n"); A->arg_print_syntaxv(f, t, "\n"); }));
    put("glossary", capture_ds(A, [&](arg_dstr_t d) { A->arg_print_glossary_ds(d, t, nullptr); A->arg_print_glossary_gnu_ds(d, t); }));
    put("glossary", capture([&](FILE* f) { A->arg_print_glossary(f, t, "%s;%s\n"); A->arg_print_glossary_gnu(f, t); A->arg_print_formatted(f, (unsigned)lm, (unsigned)rm, fm.c_str()); }));
    A->arg_cmd_init();
    A->arg_set_module_name(prog.c_str());
    A->arg_set_module_version(1, 22, 333, "tag");
    A->arg_cmd_register("run", dummy, "does it", nullptr);
    int code = 0;
    put("help", capture_ds(A, [&](arg_dstr_t d) { A->arg_make_help_msg(d, "run", t); A->arg_make_get_help_msg(d); A->arg_make_syntax_err_msg(d, t, b.end()); A->arg_make_syntax_err_help_msg(d, "run", 0, r.o.ret, t, b.end(), &code); }));
    A->arg_cmd_uninit();
    put("check", fmt("%d %d", A->arg_nullcheck(t), code));
    b.free();
    return r;
}
// a cluster of short options containing a dash, or a control character as option: see the parser properties
static bool excluded(const Spec& sp, const vector<string>& a, bool posix) {
    Model m(sp);
    try { m.run(a, posix); } catch (Unspecified&) { return true; }
    return false;
}
static void t_builds(Src& s) {
    Builds& b = B();
    TableOpt to;
    to.unique_tags = s.coin();
    to.max_entries = s.chance(1, 10) ? 25 : 7;
    Spec sp = gen_table(s, to);
    for (auto& e : sp.e) if (s.chance(1, 10)) { e.has_gl = true; e.gl = gen_text(s, 200); }
    int rounds = s.range(1, 3);
    bool posix = s.chance(1, 6);
    vector<vector<string>> lines;
    for (int r = 0; r < rounds; r++) {
        if (s.coin()) lines.push_back(gen_argv(s, sp, 10));
        else { Plan p = gen_plan(s, sp, 2); std::set<string> f; SpellOpt so; so.posix = posix; lines.push_back(spell(s, sp, p, &f, so)); }
        if (s.chance(1, 4)) { string v; int n = s.size(12); for (int i = 0; i < n; i++) v += (char)(1 + s.below(255)); lines.back().push_back(v); }
    }
    string prog = s.chance(1, 3) ? gen_text(s, 30) : "prog";
    string txt = gen_text(s, s.chance(1, 8) ? 2000 : 300);
    if (s.chance(1, 8)) txt += string((size_t)s.tail(1200), 'w') + gen_text(s, 40);
    int lm = s.chance(1, 8) ? s.tail(300) : s.range(0, 20), rm = lm + (s.chance(1, 6) ? 1 + s.tail(1000) : s.range(1, 60));
    string ctx = sp.desc();
    for (auto& l : lines) ctx += " " + argv_desc(l);
    if (posix) ctx += " POSIXLY_CORRECT";
    for (auto& l : lines) for (auto& t : l) if (t.size() > 1 && t[0] == '-' && t[1] != '-') {
        // separate builds must agree even here, but what '-' means inside a cluster is not specified: leave it out of the system-scanner clause only
    }
    Out ref = run(&b.multi, sp, lines, posix, prog, txt, lm, rm);
    bool rare = s.chance(1, 4);
    Out am = run(rare ? &b.amalg0 : &b.amalg, sp, lines, posix, prog, txt, lm, rm);
    require_eq(ref.text, am.text, "the single-file distribution behaves differently\n  " + ctx);
    Out rel = run(rare ? &b.o3 : &b.release, sp, lines, posix, prog, txt, lm, rm);
    require_eq(ref.text, rel.text, "the optimised build behaves differently\n  " + ctx);
    s.nontrivial(ctx);
    s.label(ref.o.ret ? "last line with errors" : "last line accepted");
}
static void t_system(Src& s) {
    Builds& b = B();
    TableOpt to;
    to.unique_tags = !s.chance(1, 4);
    Spec sp = gen_table(s, to);
    bool posix = s.chance(1, 6);
    vector<string> a;
    std::set<string> f;
    SpellOpt so;
    so.posix = posix;
    if (s.coin()) a = gen_argv(s, sp, 10);
    else a = spell(s, sp, gen_plan(s, sp, 2), &f, so);
    if (excluded(sp, a, posix)) throw Discard{};
    string ctx = sp.desc() + " " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "");
    Out x = run(&b.multi, sp, {a}, posix, "prog", "", 0, 10);
    Out y = run(&b.sys, sp, {a}, posix, "prog", "", 0, 10);
    REQUIRE((x.o.ret == 0) == (y.o.ret == 0), "bundled scanner: %s, system scanner: %s\n  %s", x.o.ret ? errs_str(x.o.errs).c_str() : "accepted", y.o.ret ? errs_str(y.o.errs).c_str() : "accepted", ctx.c_str());
    x.o.errs.clear(); y.o.errs.clear(); x.o.ret = y.o.ret = 0;
    require_eq(x.o.str(), y.o.str(), "values differ between the bundled and the system scanner\n  " + ctx);
    s.nontrivial("system: " + ctx);
}
// arbitrary patterns, date formats and values
struct RawLine { string pat, df; int flags, n; vector<string> a; };
static string raw_run(const Api* A, const RawLine& x) {
    arg_rex* r = A->arg_rexn("r", "rex", x.pat.c_str(), nullptr, 0, x.n, x.flags, "a pattern");
    arg_date* d = A->arg_daten("d", nullptr, x.df.c_str(), nullptr, 0, x.n, "a date");
    arg_int* i = A->arg_intn("i", nullptr, nullptr, 0, x.n, nullptr);
    arg_dbl* f = A->arg_dbln("f", nullptr, nullptr, 0, x.n, nullptr);
    arg_file* p = A->arg_filen("p", nullptr, nullptr, 0, x.n, nullptr);
    void* tab[] = {r, d, i, f, p, A->arg_end(x.n)};
    for (int k = 0; k < x.n; k++) { d->tmval[k] = def_tm(k); i->ival[k] = -k; f->dval[k] = k; }
    Argv av(x.a);
    int ret = A->arg_parse(av.argc(), av.p.data(), tab);
    string o = fmt("ret %d rex %d date %d int %d dbl %d file %d", ret, r->count, d->count, i->count, f->count, p->count);
    for (int k = 0; k < r->count; k++) o += q(r->sval[k]);
    for (int k = 0; k < x.n; k++) { u64 b; memcpy(&b, &f->dval[k], 8); o += oracle::tm_str(d->tmval[k]) + fmt(" %d %llx ", i->ival[k], (unsigned long long)b); }
    for (int k = 0; k < p->count; k++) o += q(p->basename[k]) + q(p->extension[k]);
    o += capture_ds(A, [&](arg_dstr_t s) { A->arg_print_errors_ds(s, (struct arg_end*)tab[5], "p"); });
    A->arg_freetable(tab, 6);
    return o;
}
static void t_raw(Src& s) {
    Builds& b = B();
    RawLine x;
    static const char AL[] = "abc()()[]|*+?{},12^$.\\dswlbBAZ-:";
    int n = s.range(0, 12);
    for (int i = 0; i < n; i++) x.pat += AL[s.below(sizeof AL - 1)];
    static const char* const DF[] = {"%Y", "%d/%m", "%H:%M", "%c", "%p %I", "%j", "%e %b %y", "%A", "%U%w", "%x", "%T", "%D %R", "%C", "%n%S", "%Ey", "%Od", "%Q", "%"};
    int m = s.range(1, 3);
    for (int i = 0; i < m; i++) x.df += string(i ? " " : "") + DF[s.below(18)];
    x.flags = s.coin() ? ARG_REX_ICASE : 0;
    x.n = s.range(1, 5);
    x.a = {"prog"};
    int k = s.range(1, 8);
    for (int i = 0; i < k; i++) switch (s.below(5)) {
        case 0: { x.a.push_back("-r"); string v; int l = s.range(0, 8); for (int j = 0; j < l; j++) v += s.chance(1, 8) ? (char)(1 + s.below(255)) : "abcABC12 -"[s.below(10)]; x.a.push_back(v); break; }
        case 1: { x.a.push_back("-d"); string v; int l = s.range(1, 3); for (int j = 0; j < l; j++) v += string(j ? " " : "") + s.pick_s({"2020", "1/2", "10:30", "PM", "am", "11", "Mon", "tuesday", "Jan", "07/04/99", "12:34:56", "366", "0", "53", "99"}); x.a.push_back(v); break; }
        case 2: { x.a.push_back("-i"); string v = s.pick_s({"", "-", "+", " "}) + s.pick_s({"", "0x", "0b", "0o", "0"}); v += fmt("%llu", (unsigned long long)(s.bits64() >> s.below(64))) + s.pick_s({"", "KB", "MB", "gb", "k", " "}); x.a.push_back(v); break; }
        case 3: { x.a.push_back("-f"); u64 bits = s.bits64(); double d; memcpy(&d, &bits, 8); x.a.push_back(fmt(s.pick_s({"%.17g", "%a", "%g", "%f "}).c_str(), d)); break; }
        default: { x.a.push_back("-p"); string v; int l = s.range(0, 9); for (int j = 0; j < l; j++) v += "/.a\\:"[s.below(5)]; x.a.push_back(v); break; }
    }
    string ctx = "pattern " + q(x.pat) + fmt(" flags %d ", x.flags) + "format " + q(x.df) + " " + argv_desc(x.a);
    set_posix(false);
    string ref = raw_run(&b.multi, x);
    const Api* o[] = {&b.amalg, &b.release, &b.amalg0, &b.o3, &b.sys};
    const char* nm[] = {"single file, gcc -O2", "gcc -O2 without assertions", "single file, clang -O0 without assertions", "clang -O3 without assertions", "system scanner"};
    for (int i = 0; i < 5; i++) require_eq(ref, raw_run(o[i], x), string("another result in build: ") + nm[i] + "\n  " + ctx);
    s.nontrivial("raw: " + ctx);
}
// strings, registry and sorting
struct Op { u32 k; string a, b; int n; };
static int ctx_handler(int argc, char**, arg_dstr_t res, void* c) { API->arg_dstr_catf(res, "<%d %s>", argc, (const char*)c); return argc * 3; }
static int cmp_int(const void* a, const void* b) { int x = *(const int*)a / 4, y = *(const int*)b / 4; return x < y ? -1 : x > y; }
static string tools_run(const Api* A, const vector<Op>& ops) {
    API = A;
    string o;
    arg_dstr_t d = A->arg_dstr_create();
    A->arg_cmd_init();
    for (auto& x : ops) switch (x.k) {
        case 0: A->arg_dstr_cat(d, x.a.c_str()); break;
        case 1: A->arg_dstr_catf(d, "%s|%5d|%-8s|%x", x.a.c_str(), x.n, x.b.c_str(), x.n); break;
        case 2: for (char c : x.a) A->arg_dstr_catc(d, c); break;
        case 3: A->arg_dstr_set(d, (char*)x.a.c_str(), ARG_DSTR_VOLATILE); break;
        case 4: o += A->arg_dstr_cstr(d); A->arg_dstr_reset(d); break;
        case 5: A->arg_cmd_register(x.b.c_str(), ctx_handler, x.a.substr(0, 200).c_str(), (void*)x.a.c_str()); break;
        case 6: A->arg_cmd_unregister(x.b.c_str()); break;
        case 7: if (A->arg_cmd_info(x.b.c_str())) { int r = A->arg_cmd_dispatch(x.b.c_str(), x.n, nullptr, d); o += fmt("[%d %s]", r, A->arg_cmd_info(x.b.c_str())->description); } else o += "[-]"; break;
        case 8: {
            o += fmt("{%u", A->arg_cmd_count());
            arg_cmd_itr_t it = A->arg_cmd_itr_create();
            std::multiset<string> seen;
            if (A->arg_cmd_count()) do seen.insert(string(A->arg_cmd_itr_key(it)) + "=" + A->arg_cmd_itr_value(it)->description); while (A->arg_cmd_itr_advance(it));
            A->arg_cmd_itr_destroy(it);
            for (auto& t : seen) o += " " + t;
            o += "}";
            break;
        }
        case 9: {
            vector<int> v;
            u64 h = (u64)(unsigned)x.n;
            for (int i = 0; i < x.n % 50; i++) { h = mix(h); v.push_back((int)(h % 40)); }
            A->arg_mgsort(v.data(), (int)v.size(), sizeof(int), 0, (int)v.size() - 1, cmp_int);
            for (int i : v) o += fmt("%d,", i / 4);
            break;
        }
        default: for (int i = 0; i < x.n % 90; i++) A->arg_cmd_register(fmt("bulk%d", i).c_str(), ctx_handler, "d", (void*)"c"); break;
    }
    o += A->arg_dstr_cstr(d);
    A->arg_dstr_destroy(d);
    A->arg_cmd_uninit();
    return o;
}
static void t_tools(Src& s) {
    Builds& b = B();
    vector<Op> ops;
    int n = s.range(1, 14);
    string ctx;
    for (int i = 0; i < n; i++) {
        Op x;
        x.k = s.weighted({3, 3, 2, 2, 1, 4, 2, 3, 2, 1, 1});
        x.a = s.chance(1, 3) ? string((size_t)s.range(150, 900), (char)('a' + i)) : gen_text(s, 30);
        x.b = s.pick_s({"run", "list", "Ez", "FY", "", "a b"});
        x.n = s.range(0, 4000);
        ctx += fmt("%u(%zu,%s,%d) ", x.k, x.a.size(), x.b.c_str(), x.n);
        ops.push_back(x);
    }
    string ref = tools_run(&b.multi, ops);
    const Api* o[] = {&b.amalg, &b.release, &b.amalg0, &b.o3};
    for (int i = 0; i < 4; i++) require_eq(ref, tools_run(o[i], ops), fmt("another result in build %d (1 single file, 2 release, 3 single file unoptimised, 4 clang -O3)\n  ", i + 1) + ctx);
    s.nontrivial("tools: " + ctx);
}
PBT_MAIN("C21", nullptr, Test{"raw", t_raw, false, 40000, 1500000}, Test{"tools", t_tools, false, 20000, 500000}, Test{"builds", t_builds, false, 60000, 2000000}, Test{"system", t_system, false, 60000, 2000000})
