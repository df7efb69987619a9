// C12: usage lines show every entry with its spelling and multiplicity.
// Oracle: reference rendering (text.hpp).
#include "text.hpp"

static Spec gen_doc_table(Src& s, bool longtext) {
    TableOpt to;
    to.unique_tags = !s.chance(1, 5);
    to.max_entries = s.chance(1, 12) ? (s.chance(1, 12) ? 300 : 40) : 8;
    to.maxcount = s.chance(1, 10) ? 12 : 5;
    Spec sp = gen_table(s, to);
    for (auto& e : sp.e) {
        if (e.kind != LIT && s.chance(1, 6)) { e.has_dt = true; e.dt = gen_text(s, longtext ? (s.chance(1, 3) ? 400 : 185) : 40); }
        if (e.tagged() && s.chance(1, 12)) { int n = s.range(1, 12); for (int i = 0; i < n; i++) { char c = (char)('!' + s.below(94)); if (c != '%' ) e.shorts += c; } }
        if (e.tagged() && s.chance(1, 12)) { int n = s.range(1, 4); for (int i = 0; i < n; i++) e.longs.push_back(gen_name(s) + string((size_t)s.size(30), 'n')); }
        if (e.shorts.size() > 1 && s.chance(1, 12)) e.shorts.resize(1);
        e.finish();
    }
    return sp;
}
static void check(Src& s, const Spec& sp, const char* suffix, bool small = false) {
    string want, wantv;
    bool exact = true;
    { Mark mark; want = usage_compact(sp, suffix ? suffix : ""); wantv = usage_verbose(sp, suffix ? suffix : ""); }
    exact = (want + wantv).find(CUT0) == string::npos;
    Built b = build(sp);
    string ctx = sp.desc() + " suffix " + (suffix ? q(suffix) : "NULL");
    void** t = b.tab.data();
    string ds = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_syntax_ds(d, t, suffix); });
    string fp = capture([&](FILE* f) { API->arg_print_syntax(f, t, suffix); });
    string dsv = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_syntaxv_ds(d, t, suffix); });
    string fpv = capture([&](FILE* f) { API->arg_print_syntaxv(f, t, suffix); });
    require_eq(ds, fp, "compact usage: stream and dynamic-string variants differ\n  " + ctx);
    require_eq(dsv, fpv, "verbose usage: stream and dynamic-string variants differ\n  " + ctx);
    require_cut(want, ds, "compact usage line\n  " + ctx);
    require_cut(wantv, dsv, "verbose usage line\n  " + ctx);
    for (size_t i = 0; i < sp.e.size(); i++) {
        const Entry& e = sp.e[i];
        arg_hdr* h = (arg_hdr*)b.tab[i];
        string sfx = small || s.coin() ? "" : "|end";
        string o1 = capture([&](FILE* f) { API->arg_print_option(f, h->shortopts, h->longopts, h->datatype, sfx.c_str()); });
        string o2 = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_option_ds(d, h->shortopts, h->longopts, h->datatype, sfx.c_str()); });
        require_eq(o2, o1, "single option: variants differ\n  " + ctx);
        { Mark mark; require_cut(entry_verbose(e, "|", false) + sfx, o1, fmt("printed form of entry %zu\n  ", i) + ctx); }
    }
    // printing appends to what the string already holds and does not depend on an earlier parse
    vector<string> a = small ? vector<string>{"prog", "-a", "-a", "--long"} : gen_argv(s, sp, 5);
    set_posix(false);
    Argv av(a);
    API->arg_parse(av.argc(), av.p.data(), t);
    string again = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_syntax_ds(d, t, suffix); API->arg_print_syntaxv_ds(d, t, suffix); });
    require_eq(ds + dsv, again, "usage after a parse, appended\n  " + ctx);
    if (sp.e.size()) s.nontrivial(ctx);
    s.label(exact ? "exact text" : "beyond the line buffer (may be cut)");
}
static void t_random(Src& s) {
    Spec sp = gen_doc_table(s, s.chance(1, 4));
    static const char* SUF[] = {"\n", "", nullptr, " and more\n", "%s%n"};
    check(s, sp, SUF[s.below(5)]);
}
// every entry type x spelling form x (min,max) x optional value, alone and next to one more entry
static void t_small(Src& s) {
    Spec sp;
    u32 kind = s.below(8);
    Entry e;
    e.kind = (Kind)kind;
    int form = kind == REM ? 5 : (int)s.below(6);
    static const char* SH[] = {"", "a", "ab", "a", "abc", ""};
    static const vector<string> LO[] = {{"long"}, {}, {}, {"long", "longer"}, {"l"}, {}};
    e.shorts = SH[form];
    e.longs = LO[form];
    e.min = (int)s.below(4);
    e.max = (int)s.below(8);
    if (e.takes_value()) e.optval = s.coin();
    u32 d = s.below(3);
    if (kind != LIT && d) { e.has_dt = true; e.dt = d == 1 ? "" : "<x>"; }
    e.finish();
    sp.e.push_back(e);
    u32 two = s.below(4);
    if (two) {
        Entry f;
        f.kind = two == 1 ? LIT : STR;
        if (two < 3) f.shorts = "z"; 
        f.min = two == 2 ? 1 : 0;
        f.max = 1;
        f.finish();
        sp.e.insert(sp.e.begin() + (two == 3 ? 0 : 1), f);
        if (two == 1) { f.shorts = "y"; f.min = 1; sp.e.push_back(f); }
    }
    check(s, sp, "\n", true);
}
PBT_MAIN("C12", nullptr, Test{"small", t_small, true, 200000, 200000}, Test{"random", t_random, false, 120000, 4000000})
