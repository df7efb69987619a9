// C07: floating-point arguments convert exactly and completely or are rejected.
#include "values.hpp"

static double bits_d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 d_bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static double gen_double(Src& s) {
    u64 b;
    switch (s.weighted({2, 2, 2, 1, 1, 1})) {
        case 0: return (double)s.range(-1000, 1000) / (double)(1 << s.below(12));
        case 1: b = s.bits64(); break;
        case 2: b = ((u64)s.coin() << 63) | ((u64)s.range(1023 - 64, 1023 + 64) << 52) | (s.bits64() >> 12); break;
        case 3: b = ((u64)s.coin() << 63) | (s.bits64() >> (12 + s.below(40))); break;  // subnormals
        case 4: b = (0x7feull << 52) | (s.bits64() >> 12); break;                     // near overflow
        default: b = (u64)s.below(0x7ff) << 52; break;                                // powers of two
    }
    double d = bits_d(b);
    if (d != d) d = 1.0;
    return d;
}
static string exact_decimal(double d) { return fmt("%.1100f", d); }
static void t_roundtrip(Src& s) {
    int n = s.range(1, 8);
    vector<double> d;
    vector<string> v;
    for (int i = 0; i < n; i++) {
        double x = gen_double(s);
        string t;
        switch (s.below(s.chance(1, 12) ? 6 : 5)) {
            case 0: t = fmt("%.17g", x); break;
            case 1: t = fmt("%a", x); break;
            case 2: t = fmt("%.17e", x); break;
            case 3: t = fmt("%.25g", x); break;
            case 4: t = fmt("%A", x); break;
            default: t = exact_decimal(x); break;
        }
        if (s.chance(1, 10) && t[0] != '-') t = "+" + t;
        d.push_back(x);
        v.push_back(t);
    }
    Spec sp;
    Entry e;
    e.kind = DBL;
    e.longs = {"d"};
    e.shorts = "d";
    e.min = 0;
    e.max = n + (int)s.below(2);
    e.finish();
    sp.e.push_back(e);
    // the value array follows other entries of odd sizes, so that alignment matters
    vector<string> a{"prog"};
    for (auto& t : v) switch (s.below(3)) {
        case 0: a.push_back("-d" + t); break;
        case 1: a.push_back("--d=" + t); break;
        default: a.push_back("-d"); a.push_back(t); break;
    }
    set_posix(false);
    Built b = build(sp);
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    string ctx = argv_desc(a);
    REQUIRE(ret == 0, "rejected\n  %s", ctx.c_str());
    arg_dbl* x = (arg_dbl*)b.tab[0];
    REQUIRE(x->count == n, "count %d\n  %s", x->count, ctx.c_str());
    for (int i = 0; i < n; i++)
        REQUIRE(d_bits(x->dval[i]) == d_bits(d[(size_t)i]), "value %d read back as %a, written from %a\n  %s", i, x->dval[i], d[(size_t)i], ctx.c_str());
    s.nontrivial(ctx);
}
static string gen_lit(Src& s) {
    string r = s.pick_s({"", "-", "+"});
    switch (s.weighted({6, 3, 1, 1})) {
        case 0: {
            int a = s.size(25), b = s.size(25);
            if (s.chance(1, 60)) r += string((size_t)s.tail(700), "0019"[s.below(4)]);
            for (int i = 0; i < a; i++) r += (char)('0' + s.below(10));
            if (s.coin()) { r += '.'; for (int i = 0; i < b; i++) r += (char)('0' + s.below(10)); }
            if (s.chance(1, 3)) { r += "eE"[s.below(2)]; r += s.pick_s({"", "-", "+"}); r += fmt("%d", s.range(0, s.coin() ? 20 : 400)); }
            break;
        }
        case 1: {
            r += s.pick_s({"0x", "0X"});
            int a = s.size(18), b = s.size(18);
            for (int i = 0; i < a; i++) r += "0123456789abcdefABCDEF"[s.below(22)];
            if (s.coin()) { r += '.'; for (int i = 0; i < b; i++) r += "0123456789abcdefABCDEF"[s.below(22)]; }
            if (s.coin()) { r += "pP"[s.below(2)]; r += s.pick_s({"", "-", "+"}); r += fmt("%d", s.range(0, s.coin() ? 20 : 1100)); }
            break;
        }
        case 2: r += s.pick_s({"inf", "INF", "infinity", "Infinity", "iNf"}); break;
        default: r += s.pick_s({"nan", "NAN", "nan()", "nan(12)", "NaN(abc_1)"}); break;
    }
    if (s.chance(1, 15)) r = string(" \t\n").substr(s.below(3), 1) + r;
    if (s.chance(1, 15)) r += " \t\n"[s.below(3)];
    return r;
}
static string mutate(Src& s, string v) {
    static const char AL[] = "0123456789abcdefxXpP+-.eEinfaNty() ,_";
    int n = (int)s.weighted({2, 4, 2});
    for (int i = 0; i < n; i++) switch (s.below(4)) {
        case 0: v.insert(s.below((u32)v.size() + 1), 1, AL[s.below(sizeof AL - 1)]); break;
        case 1: if (!v.empty()) v.erase(s.below((u32)v.size()), 1); break;
        case 2: if (!v.empty()) v[s.below((u32)v.size())] = AL[s.below(sizeof AL - 1)]; break;
        default: if (!v.empty()) v[s.below((u32)v.size())] = (char)(1 + s.below(255)); break;
    }
    return v;
}
static void t_grammar(Src& s) {
    Entry e;
    e.kind = DBL;
    int n = s.range(1, 8);
    vector<string> v;
    for (int i = 0; i < n; i++) v.push_back(s.chance(1, 2) ? mutate(s, gen_lit(s)) : gen_lit(s));
    check_batch(s, e, v, (Route)s.below(5), (int)s.below(2));
}
static void t_small(Src& s) {
    static const char AL[] = "019-.exp+ fn";
    Entry e;
    e.kind = DBL;
    string v;
    for (int i = 0; i < 5; i++) {
        u32 c = s.below(sizeof AL);
        if (!c) break;
        v += AL[c - 1];
    }
    vector<string> vals{v};
    check_batch(s, e, vals, SHORT_SEP, 1);
}
// value arrays stay intact next to each other whatever the table around them looks like
static void t_layout(Src& s) {
    Spec sp;
    int n = s.range(1, 4);
    vector<string> a{"prog"};
    vector<vector<string>> given;
    for (int i = 0; i < n; i++) {
        Entry e;
        e.kind = DBL;
        e.shorts = string(1, (char)('a' + i));
        e.min = 0;
        e.max = s.range(1, 9);
        e.finish();
        sp.e.push_back(e);
        given.emplace_back();
        int k = s.range(0, e.max);
        for (int j = 0; j < k; j++) given.back().push_back(fmt("%a", gen_double(s)));
    }
    vector<size_t> at((size_t)n, 0);
    for (;;) {
        vector<int> av;
        for (int i = 0; i < n; i++) if (at[(size_t)i] < given[(size_t)i].size()) av.push_back(i);
        if (av.empty()) break;
        int i = av[s.below((u32)av.size())];
        a.push_back(fmt("-%c", 'a' + i) + given[(size_t)i][at[(size_t)i]++]);
    }
    set_posix(false);
    Model m(sp);
    m.run(a, false);
    Built b = build(sp);
    b.set_defaults();
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    compare_obs(m.o, observe(b, ret), sp.desc() + " " + argv_desc(a));
    if (a.size() > 1) s.nontrivial(sp.desc() + " " + argv_desc(a));
}
static void t_many(Src& s) {
    Entry e;
    e.kind = DBL;
    vector<string> v;
    int n = s.range(1, 7);
    for (int i = 0; i < n; i++) v.push_back(s.chance(1, 9) ? mutate(s, gen_lit(s)) : gen_lit(s));
    check_many(s, e, v);
}
PBT_MAIN("C07", nullptr, Test{"small", t_small, true, 1000000, 1000000}, Test{"roundtrip", t_roundtrip, false, 150000, 5000000}, Test{"grammar", t_grammar, false, 200000, 6000000},
         Test{"layout", t_layout, false, 40000, 1000000}, Test{"many", t_many, false, 600, 20000})
