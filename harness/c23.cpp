// C23: the long-only configuration. Shared objects built from the current tree by check.py:
//   multi  default configuration     longonly  -DARG_LONG_ONLY     syslongonly  -DARG_LONG_ONLY with the system's scanner
// Oracle: the request itself (rewriting two dashes to one changes nothing), and the reference parser where
// no one-dash argument could be a long name.
#define PBT_NO_DEFAULT_API
#include "plan.hpp"
#include "text.hpp"
#include <dlfcn.h>

static Api load(const char* env) {
    const char* p = getenv(env);
    void* h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : nullptr;
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", env, p ? dlerror() : "not set"); exit(3); }
    Api a;
#define X(n) a.n = (decltype(&::n))dlsym(h, #n); if (!a.n) { fprintf(stderr, "%s lacks " #n "\n", env); exit(3); }
    API_LIST(X)
#undef X
    return a;
}
struct Builds { Api multi, lo, sys; };
static Builds& B() {
    static Builds b{load("VERIF_SO_MULTI"), load("VERIF_SO_LONGONLY"), load("VERIF_SO_SYSLONGONLY")};
    return b;
}
static Obs parse(const Api* A, const Spec& sp, const vector<string>& a, bool posix) {
    API = A;
    set_posix(posix);
    Built b = build(sp, A);
    b.set_defaults();
    Argv av(a);
    int ret = A->arg_parse(av.argc(), av.p.data(), b.tab.data());
    av.check_untouched();
    Obs o = observe(b, ret);
    b.free();
    return o;
}
static int names_with_prefix(const Spec& sp, const string& p) {
    int n = 0;
    for (auto& e : sp.e) for (auto& l : e.longs) n += l.compare(0, p.size(), p) == 0;
    return n;
}
static bool exact_name(const Spec& sp, const string& p) {
    for (auto& e : sp.e) for (auto& l : e.longs) if (l == p) return true;
    return false;
}
// could this one-dash argument (or the rest of it after some letters) be read as a long name?
static bool clashes(const Spec& sp, const string& t, bool whole_only = false) {
    for (size_t k = 1; k < (whole_only ? 2 : t.size()); k++) {
        string r = t.substr(k, t.find('=', k) == string::npos ? string::npos : t.find('=', k) - k);
        bool letter = r.size() == 1 && Model(sp).short_owner(r[0]) >= 0;     // a known letter is never an abbreviation
        if (letter ? exact_name(sp, r) : names_with_prefix(sp, r) > 0) return true;
    }
    return false;
}
static bool usable(const Spec& sp) {
    for (auto& e : sp.e) for (auto& l : e.longs) if (l.size() < 2 || l[0] == '-' || l.find('=') != string::npos) return false;
    return true;
}
static void t_onedash(Src& s) {
    Builds& b = B();
    TableOpt to;
    to.unique_tags = true;
    to.max_entries = s.chance(1, 10) ? 25 : 7;
    Spec sp = gen_table(s, to);
    for (auto& e : sp.e) { for (auto& l : e.longs) if (l.size() < 2) l += "zz" + fmt("%d", s.range(0, 9)); e.finish(); }
    if (s.chance(1, 3)) {   // long names that begin with somebody's letter
        string letters;
        for (auto& e : sp.e) letters += e.shorts;
        for (auto& e : sp.e) { for (auto& l : e.longs) if (!letters.empty() && s.chance(1, 3)) { char c = letters[s.below((u32)letters.size())]; if (isalnum((unsigned char)c)) l = c + l; } e.finish(); }
    }
    // names may have become equal
    std::set<string> seen;
    for (auto& e : sp.e) for (auto& l : e.longs) if (!seen.insert(l).second) throw Discard{};
    if (!usable(sp)) throw Discard{};
    Plan p = gen_plan(s, sp, 2, false);
    for (size_t i = 0; i < p.opt.size(); i++) for (auto& o : p.opt[i]) if (o.has && sp.e[i].kind == STR && s.chance(1, 8)) o.val = "=" + o.val;
    Obs want = plan_obs(sp, p);
    bool posix = s.chance(1, 8);
    // the request as units: one dash for long names with some probability
    vector<vector<string>> units;
    vector<size_t> next(p.opt.size(), 0);
    int one = 0;
    bool lettereq = false;   // -o=v: the system's scanner reads o as an abbreviation, the library's as the letter
    for (;;) {
        vector<int> avail;
        for (size_t i = 0; i < p.opt.size(); i++) if (next[i] < p.opt[i].size()) avail.push_back((int)i);
        if (avail.empty()) break;
        int i = avail[s.below((u32)avail.size())];
        Occ& o = p.opt[(size_t)i][next[(size_t)i]++];
        const Entry& e = sp.e[(size_t)i];
        bool use_short = !e.shorts.empty() && (e.longs.empty() || s.coin());
        if (use_short) {
            string t = string("-") + e.shorts[s.below((u32)e.shorts.size())];
            vector<string> u;
            if (o.has) {
                bool att = e.optval || s.coin();
                if (att && clashes(sp, t + o.val, true)) { if (e.optval) throw Discard{}; att = false; }
                if (att && o.val[0] == '=') lettereq = true;
                if (att) u = {t + o.val}; else u = {t, o.val};
            } else u = {t};
            units.push_back(u);
        } else {
            string l = e.longs[s.below((u32)e.longs.size())];
            if (s.coin()) { string a = l.substr(0, (size_t)s.range(2, (int)l.size())); if (names_with_prefix(sp, a) == 1) l = a; }
            bool dash1 = s.chance(3, 4);
            if (dash1) one++;
            string t = (dash1 ? "-" : "--") + l;
            if (!o.has) units.push_back({t});
            else if (e.optval || s.coin()) units.push_back({t + "=" + o.val});
            else units.push_back({t, o.val});
        }
    }
    vector<string> a{"prog"};
    size_t k = 0, maxsplit = 0;
    while (maxsplit < p.operands.size() && !(p.operands[maxsplit].size() >= 2 && p.operands[maxsplit][0] == '-')) maxsplit++;
    size_t split = posix ? 0 : s.below((u32)maxsplit + 1);
    for (size_t i = 0; i <= units.size(); i++) {
        while (k < split && (s.coin() || i == units.size())) a.push_back(p.operands[k++]);
        if (i < units.size()) for (auto& t : units[i]) a.push_back(t);
    }
    if (k < p.operands.size()) a.push_back("--");
    for (; k < p.operands.size(); k++) a.push_back(p.operands[k]);
    string ctx = sp.desc() + " " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "");
    compare_obs(want, parse(&b.lo, sp, a, posix), ctx + " (long-only)");
    if (!lettereq) compare_obs(want, parse(&b.sys, sp, a, posix), ctx + " (long-only, system scanner)");
    if (one) s.nontrivial(ctx);
    s.label(one ? "with one-dash long names" : "without");
}
static void t_plain(Src& s) {
    Builds& b = B();
    TableOpt to;
    to.unique_tags = s.coin();
    Spec sp = gen_table(s, to);
    bool posix = s.chance(1, 8);
    std::set<string> f;
    SpellOpt so;
    so.posix = posix;
    vector<string> a = s.coin() ? gen_argv(s, sp, 8) : spell(s, sp, gen_plan(s, sp, 2), &f, so);
    Model m(sp);
    try { m.run(a, posix); } catch (Unspecified&) { throw Discard{}; }
    for (size_t i = 1; i < a.size(); i++) {
        if (a[i].size() >= 2 && a[i][0] == '-' && a[i][1] != '-' && clashes(sp, a[i])) throw Discard{};
        // the configuration is stricter on abbreviations: names of the same entry make them ambiguous, too
        if (a[i].size() > 2 && a[i][0] == '-' && a[i][1] == '-') {
            string n = a[i].substr(2, a[i].find('=') == string::npos ? string::npos : a[i].find('=') - 2);
            if (!exact_name(sp, n) && names_with_prefix(sp, n) > 1) throw Discard{};
        }
    }
    string ctx = sp.desc() + " " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "");
    Obs o = parse(&b.lo, sp, a, posix);
    REQUIRE((o.ret == 0) == (m.o.ret == 0), "default configuration: %s, long-only: %s\n  %s", errs_str(m.o.errs).c_str(), errs_str(o.errs).c_str(), ctx.c_str());
    if (o.ret == 0) compare_obs(m.o, o, ctx + " (long-only)");
    if (a.size() > 1) s.nontrivial("plain " + ctx);
    s.label(o.ret ? "rejected" : "accepted");
}
// any bytes: safe, and the count of errors is that of the table
static void t_raw(Src& s) {
    Builds& b = B();
    Spec sp = gen_table(s);
    vector<string> a = gen_argv(s, sp, 8);
    for (auto& t : a) {
        if (t.size() > 2 && t[0] == '-' && t[1] == '-' && s.coin()) t.erase(0, 1);
        if (s.chance(1, 6)) t.insert(s.below((u32)t.size() + 1), 1, (char)(1 + s.below(255)));
    }
    bool posix = s.chance(1, 8);
    Obs o = parse(&b.lo, sp, a, posix);
    REQUIRE(o.ret == (int)o.errs.size(), "returned %d, recorded %zu", o.ret, o.errs.size());
    for (size_t i = 0; i < sp.e.size(); i++) REQUIRE(o.count[i] >= 0 && o.count[i] <= sp.e[i].emax(), "entry %zu counts %d\n  %s", i, o.count[i], (sp.desc() + argv_desc(a)).c_str());
    s.nontrivial("raw " + sp.desc() + argv_desc(a));
}
PBT_MAIN("C23", nullptr, Test{"onedash", t_onedash, false, 60000, 2000000}, Test{"plain", t_plain, false, 60000, 2000000}, Test{"raw", t_raw, false, 40000, 1000000})
