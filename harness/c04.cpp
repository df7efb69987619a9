// C04: occurrence limits are enforced exactly.
#include "plan.hpp"

static string value_for(const Entry& e, int j) {
    switch (e.kind) {
        case INT: return fmt("%d", 10 + j);
        case DBL: return fmt("%d.5", j);
        case STR: return fmt("s%d", j);
        case REX: return string((size_t)(j % 7) + 1, 'q');
        case FIL: return fmt("d/f%d.x%d", j, j);
        case DAT: return fmt("%d-%02d-01", 1900 + j, 1 + j % 12);
        default: return "v";
    }
}
// form: 0 short attached, 1 short separate, 2 long=, 3 long separate, 4 mixed, 5 positional
static void check(Src& s, Kind kind, int m, int n, int k, int form, bool others, bool optval, int cap, int badat) {
    Spec sp;
    Entry e;
    if (others) { e = Entry(); e.kind = LIT; e.shorts = "z"; e.min = 0; e.max = 1; e.finish(); sp.e.push_back(e); }
    int at = (int)sp.e.size();
    e = Entry();
    e.kind = kind;
    e.min = m;
    e.max = n;
    e.optval = optval;
    if (form != 5) { e.shorts = "xy"; e.longs = {"xx", "yy"}; }
    e.finish();
    sp.e.push_back(e);
    if (others) { e = Entry(); e.kind = INT; e.shorts = "w"; e.min = 0; e.max = 2; e.finish(); sp.e.push_back(e); }
    const Entry& E = sp.e[(size_t)at];
    sp.cap = cap;
    int N = E.emax();
    vector<string> a{"prog"};
    vector<string> good;
    if (others) a.push_back("-z");
    for (int j = 0; j < k; j++) {
        string v = value_for(E, j);
        good.push_back(v);
        int f = form == 4 ? (j + (int)kind) % 4 : form;
        char sc = "xy"[j & 1];
        string ln = j & 1 ? "--yy" : "--xx";
        if (form == 5) a.push_back(v);
        else if (kind == LIT) a.push_back(f < 2 ? string("-") + sc : ln);
        else if (E.optval && (f == 1 || f == 3)) { a.push_back(f == 1 ? string("-") + sc : ln); }
        else if (f == 0) a.push_back(string("-") + sc + v);
        else if (f == 1) { a.push_back(string("-") + sc); a.push_back(v); }
        else if (f == 2) a.push_back(ln + "=" + v);
        else { a.push_back(ln); a.push_back(v); }
        if (others && j == 1) a.push_back("-w3");
    }
    set_posix(false);
    Built b = build(sp);
    b.set_defaults();
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    Obs o = observe(b, ret);
    string ctx = sp.desc() + " " + argv_desc(a) + fmt(" k=%d: ", k) + o.str();
    REQUIRE((ret == 0) == (m <= k && k <= N), "accepted=%d although %d occurrences and limits %d..%d\n  %s", ret == 0, k, m, N, ctx.c_str());
    REQUIRE(o.count[(size_t)at] == (k < N ? k : N), "count is %d\n  %s", o.count[(size_t)at], ctx.c_str());
    if (E.takes_value())
        for (int j = 0; j < N; j++) {
            string want = Model::def_slot(E, j);
            EK ek;
            int f = form == 4 ? (j + (int)kind) % 4 : form;
            bool bare = E.optval && form != 5 && (f == 1 || f == 3);
            if (j < k && !bare) REQUIRE(Model::convert(E, good[(size_t)j], j, &want, &ek), "harness: %s", good[(size_t)j].c_str());
            REQUIRE(o.slots[(size_t)at][(size_t)j] == want, "value %d is %s, expected %s\n  %s", j, o.slots[(size_t)at][(size_t)j].c_str(), want.c_str(), ctx.c_str());
        }
    REQUIRE(ret == (int)o.errs.size(), "returned %d, recorded %zu\n  %s", ret, o.errs.size(), ctx.c_str());
    if (k < m) {
        REQUIRE(o.errs.size() == 1 && o.errs[0].k == E_MIN && o.errs[0].parent == at, "expected one missing-occurrence error\n  %s", ctx.c_str());
    } else if (k > N && form != 5) {
        size_t want = (size_t)(k - N) < (size_t)cap ? (size_t)(k - N) : (size_t)cap;
        REQUIRE(o.errs.size() == want, "expected %zu excess errors\n  %s", want, ctx.c_str());
        for (size_t j = 0; j < want; j++)
            if (k - N > cap && j + 1 == want) REQUIRE(o.errs[j].k == E_LIMIT, "expected the too-many-errors notice\n  %s", ctx.c_str());
            else REQUIRE(o.errs[j].k == E_MAX && o.errs[j].parent == at, "error %zu is not an excess error of the entry\n  %s", j, ctx.c_str());
    } else if (k > N) {
        size_t want = (size_t)(k - N) < (size_t)cap ? (size_t)(k - N) : (size_t)cap;
        REQUIRE(o.errs.size() == want, "expected %zu errors for surplus arguments\n  %s", want, ctx.c_str());
    }
    s.label(k < m ? "below" : k > N ? "above" : "within");
    s.nontrivial(fmt("%s m=%d n=%d k=%d form=%d others=%d opt=%d cap=%d", KINDNAME[kind], m, n, k, form, others, optval, cap));
}
static void t_all(Src& s) {
    int sel = (int)s.below(7 * 6);
    Kind kind = (Kind)(sel % 7);
    int form = sel / 7;
    int m = (int)s.below(5), n = (int)s.below(6), k = (int)s.below(9);
    bool others = s.coin();
    bool opt = kind != LIT && form != 5 ? s.coin() : false;
    if (kind == LIT && form == 5) return;
    check(s, kind, m, n, k, form, others, opt, 20, -1);
}
static void t_big(Src& s) {
    Kind kind = (Kind)s.below(7);
    int form = (int)s.below(6);
    if (kind == LIT && form == 5) form = 0;
    int m = s.size(300), n = s.chance(1, 6) ? s.size(300) : m + s.size(300);
    int N = n < m ? m : n;
    int k;
    switch (s.below(4)) {
        case 0: k = m - 1 + (int)s.below(3); break;
        case 1: k = N - 1 + (int)s.below(4); break;
        default: k = s.range(0, N + 30);
    }
    if (k < 0) k = 0;
    check(s, kind, m, n, k, form, s.coin(), kind != LIT && form != 5 && s.chance(1, 4), s.chance(1, 3) ? s.range(1, 6) : 40, -1);
}
// limits and numbers of occurrences beyond every narrow counter
static void t_huge(Src& s) {
    Kind kind = (Kind)s.below(7);
    int n = s.tail(70000);
    int m = s.chance(1, 4) ? n : s.chance(1, 4) ? s.tail(n) : 0;
    int k = s.chance(1, 3) ? n - 1 + (int)s.below(3) : s.chance(1, 3) ? s.tail(n + 20) : s.range(0, 3);
    if (k < 0) k = 0;
    int form = kind == LIT ? (int)s.below(2) : (int)s.below(3);      // one cluster or one by one; attached, positional, separate
    Entry e;
    e.kind = kind; e.min = m; e.max = n;
    if (form != 1 || kind == LIT) e.shorts = "x";
    e.finish();
    vector<string> a{"prog"};
    if (kind == LIT && form == 0) a.push_back("-" + string((size_t)k, 'x'));
    else for (int j = 0; j < k; j++) {
        string v = kind == DAT ? fmt("%d-01-01", 1000 + j % 9000) : value_for(e, j);
        if (kind == LIT) a.push_back("-x");
        else if (form == 0) a.push_back("-x" + v);
        else if (form == 1) a.push_back(v);
        else { a.push_back("-x"); a.push_back(v); }
    }
    if (kind == LIT && form == 0 && k == 0) a.pop_back();
    Spec sp;
    sp.e.push_back(e);
    sp.cap = 6;
    set_posix(false);
    Model mo(sp);
    mo.run(a, false);
    Built b = build(sp);
    b.set_defaults();
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    string ctx = sp.desc() + fmt(" %d occurrences, form %d", k, form);
    REQUIRE((ret == 0) == (m <= k && k <= e.emax()), "%d errors although %d occurrences and limits %d..%d\n  %s", ret, k, m, e.emax(), ctx.c_str());
    Obs o = observe(b, ret);
    REQUIRE(o.count[0] == mo.o.count[0], "count is %d, expected %d\n  %s", o.count[0], mo.o.count[0], ctx.c_str());
    for (size_t j = 0; j < o.slots[0].size(); j++) REQUIRE(o.slots[0][j] == mo.o.slots[0][j], "value %zu is %s, expected %s\n  %s", j, o.slots[0][j].c_str(), mo.o.slots[0][j].c_str(), ctx.c_str());
    REQUIRE(errs_str(mo.o.errs) == errs_str(o.errs), "errors %s, expected %s\n  %s", errs_str(o.errs).c_str(), errs_str(mo.o.errs).c_str(), ctx.c_str());
    s.label(n >= 32768 ? "limit >= 32768" : n > 255 ? "limit 256..32767" : "limit <= 255");
    s.nontrivial(ctx);
}
// several entries, each with its own number of occurrences
static void t_many(Src& s) {
    TableOpt to;
    to.unique_tags = true;
    to.positional_lit = false;
    Spec sp = gen_table(s, to);
    sp.cap = 5000;
    Plan p = gen_plan(s, sp, 2);
    // push some entries off their limits
    std::set<int> low, high;
    int surplus = 0;
    for (size_t i = 0; i < sp.e.size(); i++) {
        const Entry& e = sp.e[i];
        if (!e.tagged()) continue;
        if (s.chance(1, 5)) {
            while ((int)p.opt[i].size() < e.emax()) p.opt[i].push_back(Occ{(int)i, e.takes_value(), e.takes_value() ? gen_value_nonempty(s, e) : ""});
            int x = s.range(1, 3);
            for (int j = 0; j < x; j++) p.opt[i].push_back(Occ{(int)i, e.takes_value(), e.takes_value() ? gen_value_nonempty(s, e) : ""});
            surplus += x;
            high.insert((int)i);
        } else if (e.min > 0 && s.chance(1, 5)) {
            p.opt[i].resize((size_t)s.below((u32)e.min));
            low.insert((int)i);
        }
    }
    set_posix(false);
    std::set<string> f;
    vector<string> a = spell(s, sp, p, &f);
    Built b = build(sp);
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    Obs o = observe(b, ret);
    string ctx = sp.desc() + " " + argv_desc(a) + ": " + o.str();
    size_t want = surplus ? (size_t)surplus : low.size();
    REQUIRE(o.errs.size() == want && ret == (int)want, "expected %zu errors\n  %s", want, ctx.c_str());
    std::map<int, int> seen;
    for (auto& e : o.errs) {
        REQUIRE(e.k == (surplus ? E_MAX : E_MIN), "unexpected kind of error\n  %s", ctx.c_str());
        seen[e.parent]++;
    }
    if (surplus) for (int i : high) REQUIRE(seen[i] == (int)p.opt[(size_t)i].size() - sp.e[(size_t)i].emax(), "wrong number of excess errors for entry %d\n  %s", i, ctx.c_str());
    else for (int i : low) REQUIRE(seen[i] == 1, "expected one missing error for entry %d\n  %s", i, ctx.c_str());
    for (size_t i = 0; i < sp.e.size(); i++)
        if (sp.e[i].tagged()) { int k = (int)p.opt[i].size(), N = sp.e[i].emax(); REQUIRE(o.count[i] == (k < N ? k : N), "count of entry %zu\n  %s", i, ctx.c_str()); }
    if (surplus) s.label("surplus"); else if (!low.empty()) s.label("missing"); else s.label("within");
    if (surplus || !low.empty()) s.nontrivial(ctx);
}
// positional entries: their limits with arbitrary values, empty ones among them
static void t_positional(Src& s) {
    Spec sp;
    int n = s.range(1, 3);
    for (int i = 0; i < n; i++) {
        Entry e;
        e.kind = s.chance(1, 2) ? STR : s.coin() ? FIL : (Kind)s.range(INT, DAT);
        e.min = s.range(0, 3); e.max = s.range(0, 4);
        if (s.chance(1, 6)) e.shorts = string(1, "xyz"[i]);
        e.finish();
        sp.e.push_back(e);
    }
    sp.cap = 5000;
    vector<string> a{"prog"};
    bool dd = s.coin();
    int k = s.range(0, 8);
    auto val = [&](const Entry& e) {
        string v = s.chance(1, 5) ? string() : gen_value_nonempty(s, e);
        if (!dd && v.size() > 1 && v[0] == '-') v[0] = '+';
        return v;
    };
    for (auto& e : sp.e) if (e.tagged()) for (int j = s.range(0, e.emax() + 1); j > 0; j--) { a.push_back("-" + e.shorts); a.push_back(s.chance(1, 5) && (e.kind == STR || e.kind == FIL) ? string() : gen_value_nonempty(s, e)); }
    if (dd) a.push_back("--");
    for (int j = 0; j < k; j++) a.push_back(val(sp.e[s.below((u32)sp.e.size())]));
    set_posix(false);
    Model m(sp);
    m.run(a, false);
    Built b = build(sp);
    b.set_defaults();
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    Obs o = observe(b, ret);
    string ctx = sp.desc() + " " + argv_desc(a);
    compare_obs(m.o, o, ctx);
    s.label(ret ? "refused" : "accepted");
    s.nontrivial(ctx);
}
PBT_MAIN("C04", nullptr, Test{"positional", t_positional, false, 60000, 2000000}, Test{"limits", t_all, true, 1000000, 1000000}, Test{"big", t_big, false, 8000, 200000}, Test{"huge", t_huge, false, 300, 20000}, Test{"many", t_many, false, 100000, 4000000})
