// C05: every parse error is counted, bounded by the capacity and reported once.
// Oracle: the reference parser's error list and the reference message texts.
#include "plan.hpp"
#include "text.hpp"

static string gen_prog(Src& s) {
    if (s.chance(1, 3)) {
        int n = s.size(s.chance(1, 10) ? 600 : 30);
        string r;
        for (int i = 0; i < n; i++) r += s.chance(1, 3) ? "%sd\n {}\\$"[s.below(9)] : (char)(1 + s.below(255));
        return r;
    }
    return s.pick_s({"prog", "/usr/bin/tool", "%s%n%d", "a b", "x"});
}
static void check(Src& s, const Spec& sp, const vector<string>& a, bool posix, const string& prog) {
    Model m(sp);
    try { m.run(a, posix); } catch (Unspecified&) { throw Discard{}; }
    string want;
    vector<string> each;
    { Mark mark; for (auto& e : m.o.errs) { each.push_back(err_text(sp, e, prog)); want += each.back(); } }
    if (want.find(CUT0) != string::npos) s.label("text beyond line buffer (may be cut)");
    set_posix(posix);
    Built b = build(sp);
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    string ctx = sp.desc() + " " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "") + " expected errors " + errs_str(m.o.errs);
    REQUIRE(ret == (int)m.o.errs.size(), "returned %d errors, expected %zu\n  %s", ret, m.o.errs.size(), ctx.c_str());
    REQUIRE(b.end()->count == ret, "the end entry records %d errors, arg_parse returned %d\n  %s", b.end()->count, ret, ctx.c_str());
    REQUIRE(ret <= (sp.cap < 1 ? 1 : sp.cap), "more errors than the capacity\n  %s", ctx.c_str());
    string ds = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, b.end(), prog.c_str()); });
    require_cut(want, ds, "error messages differ\n  " + ctx);
    string fp = capture([&](FILE* f) { API->arg_print_errors(f, b.end(), prog.c_str()); });
    require_eq(ds, fp, "stream and dynamic-string variants differ\n  " + ctx);
    for (int i = 0; i < ret; i++) require_cut(each[(size_t)i], err_message(b, i, prog.c_str()), fmt("message %d alone differs\n  ", i) + ctx);
    // printing is repeatable and appends to what the string already holds
    string ds2 = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, b.end(), prog.c_str()); API->arg_print_errors_ds(d, b.end(), prog.c_str()); });
    require_eq(ds + ds, ds2, "printing twice into one string\n  " + ctx);
    if (ret >= 1) s.nontrivial(ctx + " prog " + q(prog));
    for (auto& e : m.o.errs) s.label(string("error ") + EKNAME[e.k] + (e.parent >= 0 ? string(" ") + KINDNAME[sp.e[(size_t)e.parent].kind] : ""));
    if (ret == 0) s.label("no error");
    if (ret >= 4) s.label(">=4 errors");
    if (m.o.errs.size() && m.o.errs.back().k == E_LIMIT) s.label("capacity exceeded");
}
static string nasty(Src& s) {
    int n = s.size(s.chance(1, 12) ? (s.chance(1, 4) ? 3000 : 150) : 20);
    string r;
    for (int i = 0; i < n; i++) r += s.chance(1, 3) ? "%s%n\"\\d"[s.below(7)] : (char)(1 + s.below(255));
    return r;
}
static void t_errors(Src& s) {
    TableOpt to;
    to.unique_tags = s.coin();
    Spec sp = gen_table(s, to);
    sp.cap = s.chance(1, 3) ? s.range(1, 3) : s.range(1, 25);
    if (s.chance(1, 30)) sp.cap = s.range(-3, 0);
    vector<string> a = gen_argv(s, sp, 14);
    int k = (int)s.weighted({2, 2, 1});
    for (int i = 0; i < k; i++) {
        string v = nasty(s);
        size_t at = 1 + s.below((u32)a.size());
        if (s.coin() && at < a.size()) a[at] += v;
        else a.insert(a.begin() + (long)(at > a.size() ? a.size() : at), v);
    }
    check(s, sp, a, s.chance(1, 8), gen_prog(s));
}
// valid request with a counted number of mistakes
static void t_mistakes(Src& s) {
    TableOpt to;
    to.unique_tags = true;
    Spec sp = gen_table(s, to);
    sp.cap = s.range(1, 6);
    Plan p = gen_plan(s, sp, 2);
    std::set<string> f;
    vector<string> a = spell(s, sp, p, &f);
    int m = s.range(0, 8);
    for (int i = 0; i < m; i++) a.insert(a.begin() + 1 + (long)s.below((u32)a.size()), s.pick_s({"--unknown-option", "--unknown=5", "-Q", "-QQ", "-Qx", "surplus", "--"}));
    check(s, sp, a, false, "prog");
}
// many errors, large capacities
static void t_many(Src& s) {
    TableOpt to;
    to.unique_tags = s.coin();
    to.max_entries = 4;
    to.tails = false;
    Spec sp = gen_table(s, to);
    vector<string> g = gen_argv(s, sp, 6), a{"prog"};
    g.push_back(s.pick_s({"--unknown-option", "-Q", "surplus", "--unknown=5"}));
    int n = s.tail(s.chance(1, 8) ? 5000 : 700);
    while ((int)a.size() < n) for (size_t i = 1; i < g.size(); i++) if (g[i] != "--") a.push_back(g[i] + (g[i].size() > 4 && s.chance(1, 9) ? fmt("%zu", a.size()) : ""));
    sp.cap = s.coin() ? s.tail(n + 5) : n + 5;
    check(s, sp, a, false, "prog");
}
// known finding: an unknown option letter that is a control character 1..5 is reported as one of the library's own codes
static void t_known_control(Src& s) {
    Spec sp;
    char c = (char)(1 + s.below(5));
    vector<string> a{"prog", string("-") + c};
    Built b = build(sp);
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    string ds = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, b.end(), "prog"); });
    require_eq(string("prog: invalid option \"-") + c + "\"\n", ds, fmt("unknown option letter, %d errors", ret));
}
PBT_MAIN("C05", nullptr, Test{"errors", t_errors, false, 250000, 6000000}, Test{"mistakes", t_mistakes, false, 120000, 3000000}, Test{"many", t_many, false, 400, 10000}, Test{"known_control_letter", t_known_control, false, 0, 0})
