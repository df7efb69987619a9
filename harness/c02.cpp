// C02: command lines are interpreted as the GNU option rules prescribe.
// Oracle: the reference parser Model (table.hpp).
#include "plan.hpp"

static void check_one(Src& s, const Spec& sp, const vector<string>& args, bool posix) {
    Model m(sp);
    try {
        m.run(args, posix);
    } catch (Unspecified&) {
        s.label("unspecified");
        throw Discard{};
    }
    g_posix_value = args.size() % 3 == 0 ? "" : "1";
    set_posix(posix);
    Built b = build(sp);
    b.set_defaults();
    Argv av(args);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    av.check_untouched();
    Obs o = observe(b, ret);
    string ctx = sp.desc() + " " + argv_desc(args) + (posix ? " POSIXLY_CORRECT" : "");
    compare_obs(m.o, o, ctx);
    int occ = 0;
    for (int c : o.count) occ += c;
    if (occ >= 1 && args.size() >= 2) s.nontrivial(ctx);
    if (ret == 0) s.label("valid"); else s.label("with errors");
    for (auto& e : o.errs) s.label(string("error ") + EKNAME[e.k]);
    if (posix) s.label("POSIXLY_CORRECT");
    if (occ >= 3) s.label(">=3 occurrences");
}
static void t_random(Src& s) {
    Spec sp = gen_table(s);
    vector<string> a = gen_argv(s, sp, 10);
    bool posix = s.chance(1, 6);
    check_one(s, sp, a, posix);
}
// small scope, complete: one table exercising every rule, all command lines of up to 4 tokens
static void t_small(Src& s) {
    static Spec sp;
    if (sp.e.empty()) {
        Entry e;
        e.kind = LIT; e.shorts = "ab"; e.longs = {"all"}; e.min = 0; e.max = 3; e.finish(); sp.e.push_back(e);
        e = Entry(); e.kind = INT; e.shorts = "i"; e.longs = {"alpha", "in"}; e.min = 0; e.max = 2; e.finish(); sp.e.push_back(e);
        e = Entry(); e.kind = STR; e.shorts = "oa"; e.longs = {"opt"}; e.optval = true; e.min = 0; e.max = 2; e.finish(); sp.e.push_back(e);
        e = Entry(); e.kind = INT; e.min = 0; e.max = 1; e.finish(); sp.e.push_back(e);
        e = Entry(); e.kind = STR; e.min = 0; e.max = 2; e.finish(); sp.e.push_back(e);
        sp.cap = 3;
    }
    static const vector<string> TOK = {"5", "x", "-a", "-i", "-i7", "-abi", "-o", "-oz", "--al", "--all", "--alpha", "--alp=3", "--in=", "--opt", "--op=q", "--", "-", "", "-q", "--zz", "--all=1"};
    vector<string> a{"prog"};
    int n = 4;
    for (int i = 0; i < n; i++) {
        u32 t = s.below((u32)TOK.size() + 1);
        if (!t) break;
        a.push_back(TOK[t - 1]);
    }
    bool posix = s.coin();
    check_one(s, sp, a, posix);
}
// valid requests, spelled in a random way, with zero to three mistakes made in them
static void t_mistakes(Src& s) {
    TableOpt to;
    to.unique_tags = !s.chance(1, 6);
    to.max_entries = s.chance(1, 30) ? 40 : 8;
    Spec sp = gen_table(s, to);
    Plan p = gen_plan(s, sp, 3);
    std::set<string> f;
    SpellOpt so;
    bool posix = s.chance(1, 8);
    so.posix = posix;
    vector<string> a = spell(s, sp, p, &f, so);
    int m = (int)s.weighted({3, 3, 2, 1});
    for (int i = 0; i < m && a.size() > 1; i++) {
        size_t k = 1 + s.below((u32)a.size() - 1);
        switch (s.below(7)) {
            case 0: a.erase(a.begin() + (long)k); break;
            case 1: a.insert(a.begin() + (long)k, string(a[1 + s.below((u32)a.size() - 1)])); break;
            case 2: std::swap(a[k], a[1 + s.below((u32)a.size() - 1)]); break;
            case 3: if (!a[k].empty()) a[k].erase(s.below((u32)a[k].size()), 1); break;
            case 4: a[k].insert(s.below((u32)a[k].size() + 1), 1, "a=b05-. xzA"[s.below(11)]); break;
            case 5: a.insert(a.begin() + (long)k, s.pick_s({"--", "-", "", "x", "7", "-a", "--a", "--al", "--no=1", "-zz"})); break;
            default: if (!a[k].empty()) a[k][s.below((u32)a[k].size())] = "ab=0.- z"[s.below(8)]; break;
        }
    }
    check_one(s, sp, a, posix);
}
// long command lines and many entries
static void t_long(Src& s) {
    TableOpt to;
    to.max_entries = 40;
    to.maxcount = 60;
    Spec sp = gen_table(s, to);
    if (s.coin()) sp.cap = s.range(1, 200);
    vector<string> a{"prog"};
    int n = s.range(1, 6);
    for (int i = 0; i < n; i++) { vector<string> b = gen_argv(s, sp, 40); a.insert(a.end(), b.begin() + 1, b.end()); }
    check_one(s, sp, a, s.chance(1, 6));
}
// tables of hundreds of entries, and command lines of tens of thousands of arguments
static void t_wide(Src& s) {
    TableOpt to;
    to.unique_tags = true;
    to.tails = false;
    to.max_entries = 100 + s.tail(500);
    Spec sp = gen_table(s, to);
    if (s.coin()) sp.cap = 1 + s.tail(1000);
    bool posix = s.chance(1, 8);
    std::set<string> f;
    SpellOpt so;
    so.posix = posix;
    vector<string> a = s.chance(1, 4) ? gen_argv(s, sp, 60) : spell(s, sp, gen_plan(s, sp, 1), &f, so);
    check_one(s, sp, a, posix);
}
static void t_huge(Src& s) {
    Spec sp;
    Entry e;
    e.kind = LIT; e.shorts = "ab"; e.longs = {"all"}; e.min = 0; e.max = s.coin() ? 3 : s.tail(70000); e.finish(); sp.e.push_back(e);
    e = Entry(); e.kind = INT; e.shorts = "i"; e.longs = {"alpha", "in"}; e.min = 0; e.max = s.coin() ? 70000 : 1 + s.tail(70000); e.finish(); sp.e.push_back(e);
    e = Entry(); e.kind = s.coin() ? STR : FIL; e.min = 0; e.max = s.coin() ? 70000 : 1 + s.tail(70000); e.finish(); sp.e.push_back(e);
    sp.cap = 1 + s.tail(70000);
    static const vector<vector<string>> G = {{"x"}, {"-a"}, {"-i", "5"}, {"-abi7"}, {"--alp=3"}, {"--in", "6"}, {"-q"}, {"--all", "y"}};
    vector<string> a{"prog"};
    int groups = s.range(1, 4), total = 1 + s.tail(70000);
    for (int g = 0; g < groups; g++) {
        // (moving operands behind options takes quadratic time: long lines have operands at the end only)
        const vector<string>& u = total > 10000 && g + 1 < groups ? G[1 + s.below(4)] : G[s.below((u32)G.size() - (total > 10000))];
        int k = g + 1 < groups ? s.range(0, total / groups) : total / groups;
        for (int j = 0; j < k; j++) a.insert(a.end(), u.begin(), u.end());
    }
    bool posix = s.chance(1, 8);
    Model m(sp);
    m.run(a, posix);
    set_posix(posix);
    Built b = build(sp);
    b.set_defaults();
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    av.check_untouched();
    string ctx = sp.desc() + fmt(" %zu arguments, starting ", a.size()) + argv_desc(vector<string>(a.begin(), a.begin() + (long)std::min<size_t>(a.size(), 4)));
    REQUIRE(ret == m.o.ret && b.end()->count == ret, "%d errors, expected %d\n  %s", ret, m.o.ret, ctx.c_str());
    for (size_t i = 0; i < sp.e.size(); i++) {
        REQUIRE(*b.count(i) == m.o.count[i], "entry %zu occurs %d times, expected %d\n  %s", i, *b.count(i), m.o.count[i], ctx.c_str());
        for (int k = 0; k < m.o.count[i] && i > 0; k++) REQUIRE(b.slot(i, k) == m.o.slots[i][(size_t)k], "entry %zu value %d: %s, expected %s\n  %s", i, k, b.slot(i, k).c_str(), m.o.slots[i][(size_t)k].c_str(), ctx.c_str());
    }
    for (int i = 0; i < ret; i += 1 + ret / 50) {
        string w = m.o.errs[(size_t)i].str(), g = observe_err(b, i).str();
        REQUIRE(w == g, "error %d: %s, expected %s\n  %s", i, g.c_str(), w.c_str(), ctx.c_str());
    }
    s.nontrivial(ctx + fmt(" ret %d", ret));
}
PBT_MAIN("C02", nullptr, Test{"small", t_small, true, 1000000, 1000000}, Test{"random", t_random, false, 200000, 6000000},
         Test{"mistakes", t_mistakes, false, 200000, 6000000}, Test{"long", t_long, false, 12000, 400000},
         Test{"wide", t_wide, false, 800, 40000}, Test{"huge", t_huge, false, 160, 4000})
