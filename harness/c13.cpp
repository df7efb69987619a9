// C13: glossaries list every documented entry and wrap text losslessly in its column.
// Oracle: reference rendering (text.hpp) and layout invariants that hold for any text.
#include "text.hpp"

static string gen_doc(Src& s, int maxlen) {
    string r;
    int n = s.size(maxlen);
    while ((int)r.size() < n) switch (s.weighted({8, 6, 1, 1, 1})) {
        case 0: { int w = s.chance(1, 12) ? s.range(20, 110) : s.range(1, 12); for (int i = 0; i < w; i++) r += (char)('a' + s.below(26)); break; }
        case 1: r += ' '; break;
        case 2: r += string((size_t)s.range(2, 5), ' '); break;
        case 3: r += "\n"; break;
        default: r += s.pick_s({"\t", "\n\n", "%s", "\xc3\xa9", " \n ", ".", "\v", "\r", "\f", " \r", " \t "}); break;
    }
    return r;
}
static vector<string> words(const string& t) {
    vector<string> w;
    string c;
    for (char x : t) { if (oracle::ws(x)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += x; }
    if (!c.empty()) w.push_back(c);
    return w;
}
static string strip(const string& t) { string r; for (char c : t) if (!oracle::ws(c)) r += c; return r; }
static vector<string> lines_of(const string& out, const string& ctx) {
    vector<string> l;
    string c;
    REQUIRE(!out.empty() && out.back() == '\n', "output does not end with a newline\n  %s", ctx.c_str());
    for (char x : out) { if (x == '\n') { l.push_back(c); c.clear(); } else c += x; }
    return l;
}
// invariants for any text and margins
static void layout(const string& text, unsigned lm, unsigned rm, const string& out, const string& ctx) {
    unsigned width = rm - lm + 1;
    vector<string> L = lines_of(out, ctx);
    string joined;
    for (size_t i = 0; i < L.size(); i++) {
        string l = L[i];
        if (i) {
            REQUIRE(l.size() >= lm && l.compare(0, lm, string(lm, ' ')) == 0, "line %zu does not start at the left margin: %s\n  %s", i, q(l).c_str(), ctx.c_str());
            l = l.substr(lm);
        }
        REQUIRE(l.size() <= width, "line %zu runs past the right margin (%zu > %u): %s\n  %s", i, l.size(), width, q(l).c_str(), ctx.c_str());
        joined += strip(l);
    }
    REQUIRE(joined == strip(text), "words lost, repeated or reordered\n  %s\n  got %s", ctx.c_str(), q(out).c_str());
    // words are split only when wider than the column
    vector<string> W = words(text), G = words(out);
    size_t g = 0;
    for (auto& w : W) {
        REQUIRE(g < G.size(), "words missing\n  %s", ctx.c_str());
        if (w.size() <= width) { REQUIRE(G[g] == w, "word %s was broken (got %s) although it fits the column\n  %s\n  %s", q(w).c_str(), q(G[g]).c_str(), ctx.c_str(), q(out).c_str()); g++; }
        else { string acc; while (acc.size() < w.size() && g < G.size()) acc += G[g++]; REQUIRE(acc == w, "wide word damaged\n  %s", ctx.c_str()); }
    }
}
static void t_wrap(Src& s) {
    unsigned lm = s.chance(1, 3) ? 0 : s.below(60);
    unsigned rm = lm + (s.chance(1, 4) ? s.below(4) : s.below(70));
    if (s.chance(1, 40)) rm = lm + (u32)s.tail(600);
    if (s.chance(1, 200)) { lm = (u32)s.tail(300); rm = lm + s.below(100); }
    string text = gen_doc(s, s.chance(1, 10) ? 600 : 120);
    if (s.chance(1, 300)) {  // very long texts
        string part = gen_doc(s, 60) + s.pick_s({" ", "x", "\n"});
        int n = s.tail(s.chance(1, 4) ? 70000 : 6000);
        unsigned width = rm - lm + 1;    // (the library takes quadratic time in the size of its output)
        if ((unsigned)n * lm > 150000u) lm = 150000u / (unsigned)n, rm = lm + width - 1;
        if ((unsigned)n / width > 20000u) n = (int)width * 20000;
        while ((int)text.size() < n) text += part;
    }
    string ctx = fmt("margins %u..%u text ", lm, rm) + q(text);
    string out = capture([&](FILE* f) { API->arg_print_formatted(f, lm, rm, text.c_str()); });
    layout(text, lm, rm, out, ctx);
    bool exact = true;
    string want = wrap_text(text, lm, rm, &exact);
    if (exact) require_eq(want, out, "wrapped text (lines must be broken no earlier than necessary)\n  " + ctx);
    s.label(exact ? "exact text" : "trailing white space (invariants only)");
    if (out.find('\n') + 1 < out.size()) { s.label("several lines"); s.nontrivial(ctx); }
}
// all texts of up to 9 characters over {a, space, newline} and columns of 1..4
static void t_wrap_small(Src& s) {
    unsigned width = 1 + s.below(8);
    unsigned lm = s.below(2) * 3;
    string text;
    for (int i = 0; i < 9; i++) { u32 c = s.below(4); if (!c) break; text += "a \n"[c - 1]; }
    string ctx = fmt("margins %u..%u text ", lm, lm + width - 1) + q(text);
    string out = capture([&](FILE* f) { API->arg_print_formatted(f, lm, lm + width - 1, text.c_str()); });
    layout(text, lm, lm + width - 1, out, ctx);
    bool exact = true;
    string want = wrap_text(text, lm, lm + width - 1, &exact);
    if (exact) require_eq(want, out, "wrapped text\n  " + ctx);
    s.nontrivial(ctx);
}
static void t_glossary(Src& s) {
    TableOpt to;
    to.max_entries = s.chance(1, 15) ? 30 : 7;
    Spec sp = gen_table(s, to);
    for (auto& e : sp.e) {
        if (s.chance(2, 3)) { e.has_gl = true; e.gl = s.chance(1, 10) ? "" : gen_doc(s, s.chance(1, 8) ? 500 : 90); }
        if (e.kind != LIT && s.chance(1, 6)) { e.has_dt = true; e.dt = gen_text(s, 150); for (auto& c : e.dt) if (c == '\n') c = ' '; }
        if (e.tagged() && s.chance(1, 6)) e.longs.push_back(gen_name(s) + string((size_t)s.size(25), 'n'));
        e.finish();
    }
    static const char* F[] = {nullptr, "  %-20s %s\n", "%s|%s\n", "%-30s%s", "\t%s\n\t\t%s\n", "%.10s %.20s;"};
    const char* f = F[s.below(6)];
    string own;
    if (s.chance(1, 4)) {                   // any other format: literal text around two conversions
        auto lit = [&](int n) { for (int i = 0; i < n; i++) own += s.chance(1, 12) ? string("%%") : string(1, " .:|-=abcxyzs\t\n\xc3"[s.below(15)]); };
        auto conv = [&] {
            own += '%';
            if (s.coin()) own += '-';
            if (s.coin()) own += fmt("%d", s.chance(1, 10) ? s.tail(600) : s.range(1, 40));
            if (s.chance(1, 5)) own += fmt(".%d", s.tail(300));
            own += 's';
        };
        lit(s.chance(1, 4) ? s.tail(300) : s.range(0, 6));
        conv();
        lit(s.chance(1, 4) ? s.tail(300) : s.range(0, 6));
        conv();
        lit(s.chance(1, 4) ? s.tail(300) : s.range(0, 6));
        f = own.c_str();
        s.label("format of its own");
    }
    Built b = build(sp);
    void** t = b.tab.data();
    string ctx = sp.desc() + " format " + (f ? q(f) : "NULL");
    string ds = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_glossary_ds(d, t, f); });
    string fp = capture([&](FILE* o) { API->arg_print_glossary(o, t, f); });
    string dg = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_glossary_gnu_ds(d, t); });
    string fg = capture([&](FILE* o) { API->arg_print_glossary_gnu(o, t); });
    require_eq(ds, fp, "glossary: variants differ\n  " + ctx);
    require_eq(dg, fg, "GNU glossary: variants differ\n  " + ctx);
    int items = 0;
    for (auto& e : sp.e) items += e.has_gl;
    try {
        require_eq(glossary(sp, f), ds, "glossary\n  " + ctx);
        bool exact = true;
        string want = glossary_gnu(sp, &exact);
        if (exact) require_eq(want, dg, "GNU glossary\n  " + ctx);
        s.label(exact ? "exact GNU text" : "GNU text with trailing white space");
        // invariants: item by item, description after its option column
        size_t at = 0;
        vector<string> L = lines_of(dg, ctx);
        REQUIRE(!L.empty() && L.back().empty(), "no closing blank line\n  %s", ctx.c_str());
        for (auto& e : sp.e)  // the item boundaries below are found by their option texts
            if (e.has_gl && strip(entry_verbose(e, ", ", true)).empty()) { at = L.size() - 1; break; }
        if (at == 0) for (auto& e : sp.e) {
            if (!e.has_gl) continue;
            string o = entry_verbose(e, ", ", true);
            if (e.shorts.empty() && !e.longs.empty()) o = "    " + o;
            string body;
            if (o.size() > 25) { REQUIRE(at < L.size() && L[at] == "  " + o + " ", "option line of %s\n  %s", q(o).c_str(), ctx.c_str()); at++; o = ""; }
            REQUIRE(at < L.size() && L[at].size() >= 28 && L[at].compare(0, 28, fmt("  %-25s ", o.c_str())) == 0, "option column of %s\n  %s", q(o).c_str(), ctx.c_str());
            body = L[at++].substr(28) + "\n";
            string need = strip(e.gl), have = strip(body);
            size_t nl = 0;
            for (char c : e.gl) nl += c == '\n';
            while (have.size() < need.size() && at < L.size()) { body += L[at] + "\n"; have += strip(L[at]); at++; }
            // blank lines that belong to this item
            while (at + 1 < L.size() && strip(L[at]).empty() && L[at].size() >= 28) { body += L[at] + "\n"; at++; }
            layout(e.gl, 28, 79, body, ctx);
        }
        REQUIRE(at + 1 == L.size(), "%zu surplus lines\n  %s\n  %s", L.size() - 1 - at, ctx.c_str(), q(dg).c_str());
    } catch (Longer&) {     // the option texts may be cut, the descriptions may not
        s.label("beyond the line buffer (descriptions only)");
        size_t at = 0, ag = 0;
        string sg = strip(dg);
        for (auto& e : sp.e) if (e.has_gl) {
            if (!f || (own.empty() && !strstr(f, "%."))) {
                size_t k = ds.find(e.gl, at);
                REQUIRE(k != string::npos, "the description %s is missing or out of order in the glossary\n  %s\n  %s", q(e.gl).c_str(), ctx.c_str(), q(ds).c_str());
                at = k + e.gl.size();
            }
            size_t k = sg.find(strip(e.gl), ag);
            REQUIRE(k != string::npos, "the description %s is missing or out of order in the GNU glossary\n  %s\n  %s", q(e.gl).c_str(), ctx.c_str(), q(dg).c_str());
            ag = k + strip(e.gl).size();
        }
    }
    string again = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_glossary_gnu_ds(d, t); API->arg_print_glossary_ds(d, t, f); });
    require_eq(dg + ds, again, "glossary appended\n  " + ctx);
    if (items) s.nontrivial(ctx);
}
PBT_MAIN("C13", nullptr, Test{"wrap_small", t_wrap_small, true, 1000000, 1000000}, Test{"wrap", t_wrap, false, 200000, 6000000}, Test{"glossary", t_glossary, false, 120000, 3000000})
