// C11: a table can be parsed again and again without traces of earlier parses.
// Oracle: each parse of a history against a freshly built table and against the reference parser.
#include "plan.hpp"
#include "text.hpp"

struct Live {
    Spec sp;
    std::unique_ptr<Built> b;
    vector<vector<char>> touched;                 // slots counted by some parse since the caller last set them
    vector<std::unique_ptr<Argv>> keep;           // values point into the argument vectors: they stay alive
    int parses = 0;
};
static void defaults(Live& L) {
    L.b->set_defaults();
    // (a string slot counted by the latest parse is blanked by the next one, whatever the caller stored there meanwhile)
    vector<vector<char>> old = L.touched;
    L.touched.clear();
    for (size_t i = 0; i < L.sp.e.size(); i++)
        if (L.sp.e[i].kind == STR && !old.empty()) L.touched.push_back(old[i]);
        else L.touched.emplace_back((size_t)L.sp.e[i].emax(), 0);
}
static vector<vector<string>> slots_of(const Built& b) {
    vector<vector<string>> v;
    for (size_t i = 0; i < b.sp->e.size(); i++) {
        v.emplace_back();
        if (b.sp->e[i].takes_value()) for (int k = 0; k < b.sp->e[i].emax(); k++) v.back().push_back(b.slot(i, k));
    }
    return v;
}
static string messages(const Built& b) { return capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, b.end(), "prog"); }); }

// a table that has not been parsed yet reports nothing
static void fresh(Built& b) {
    for (size_t i = 0; i < b.sp->e.size(); i++) {
        int* c = b.count(i);
        const Entry& e = b.sp->e[i];
        if (c) REQUIRE(*c == 0, "entry %zu of a table never parsed has count %d\n  %s", i, *c, b.sp->desc().c_str());
        for (int k = 0; k < e.emax(); k++) {
            const char* v[3] = {"", "", ""};
            struct tm z = {};
            if (e.kind == STR) v[0] = ((arg_str*)b.tab[i])->sval[k];
            if (e.kind == REX) v[0] = ((arg_rex*)b.tab[i])->sval[k];
            if (e.kind == FIL) v[0] = ((arg_file*)b.tab[i])->filename[k], v[1] = ((arg_file*)b.tab[i])->basename[k], v[2] = ((arg_file*)b.tab[i])->extension[k];
            for (const char* p : v) REQUIRE(p && !*p, "slot %d of entry %zu of a table never parsed is not the empty string\n  %s", k, i, b.sp->desc().c_str());
            if (e.kind == DAT) REQUIRE(!memcmp(&z, &((arg_date*)b.tab[i])->tmval[k], sizeof z), "slot %d of entry %zu of a table never parsed is not zero\n  %s", k, i, b.sp->desc().c_str());
        }
    }
    REQUIRE(b.end()->count == 0, "a table never parsed has %d errors", b.end()->count);
    require_eq(string(), messages(b), "messages of a table never parsed");
}
// direct: compare with the reference parser only
static void parse_step(Src& s, Live& L, const vector<string>& a, bool posix, const string& hist, bool direct = false) {
    set_posix(posix);
    const Spec& sp = L.sp;
    vector<vector<string>> pre = slots_of(*L.b);
    vector<vector<struct tm>> pretm(sp.e.size());
    for (size_t i = 0; i < sp.e.size(); i++)
        if (sp.e[i].kind == DAT) for (int k = 0; k < sp.e[i].emax(); k++) pretm[i].push_back(((arg_date*)L.b->tab[i])->tmval[k]);
    // the history under test
    L.keep.emplace_back(new Argv(a));
    Argv& av = *L.keep.back();
    int ret = API->arg_parse(av.argc(), av.p.data(), L.b->tab.data());
    av.check_untouched();
    Obs o = observe(*L.b, ret);
    string msg = messages(*L.b);
    // a freshly built table, unless the next parse shall follow directly (date slots carry the same fields: a format need not mention them all)
    Argv av2(a);
    std::unique_ptr<Built> fp;
    int ret2 = ret;
    Obs o2 = o;
    if (!direct) {
        fp.reset(new Built(build(sp)));
        Built& fb = *fp;
        fresh(fb);
        fb.set_defaults();
        for (size_t i = 0; i < sp.e.size(); i++)
            if (sp.e[i].kind == DAT) for (int k = 0; k < sp.e[i].emax(); k++) ((arg_date*)fb.tab[i])->tmval[k] = pretm[i][(size_t)k];
        ret2 = API->arg_parse(av2.argc(), av2.p.data(), fb.tab.data());
        o2 = observe(fb, ret2);
    }
    string ctx = sp.desc() + " after " + hist + " parsing " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "");
    REQUIRE(ret == ret2, "the used table reports %d errors, a fresh one %d\n  %s\n  used %s\n  fresh %s", ret, ret2, ctx.c_str(), o.str().c_str(), o2.str().c_str());
    if (!direct) require_eq(messages(*fp), msg, "error messages of the used table differ from a fresh one\n  " + ctx);
    for (size_t i = 0; i < sp.e.size(); i++) REQUIRE(o.count[i] == o2.count[i], "entry %zu: count %d in the used table, %d in a fresh one\n  %s", i, o.count[i], o2.count[i], ctx.c_str());
    // what the command line gives, from the reference parser
    Model m(sp);
    m.tms = &pretm;
    bool exact = true;
    try { m.run(a, posix); } catch (Unspecified&) { exact = false; }
    for (size_t i = 0; i < sp.e.size(); i++) {
        const Entry& e = sp.e[i];
        for (int k = 0; k < e.emax() && e.takes_value(); k++) {
            size_t K = (size_t)k;
            if (exact) {
                if (m.given[i][K]) {
                    REQUIRE(o.slots[i][K] == m.o.slots[i][K], "entry %zu value %d is %s, the command line gives %s\n  %s", i, k, o.slots[i][K].c_str(), m.o.slots[i][K].c_str(), ctx.c_str());
                    REQUIRE(o2.slots[i][K] == m.o.slots[i][K], "fresh table: entry %zu value %d is %s, the command line gives %s\n  %s", i, k, o2.slots[i][K].c_str(), m.o.slots[i][K].c_str(), ctx.c_str());
                } else if (!L.touched[i][K])
                    REQUIRE(o.slots[i][K] == pre[i][K], "entry %zu slot %d was not given a value by any parse so far, but changed from %s to %s\n  %s", i, k, pre[i][K].c_str(), o.slots[i][K].c_str(), ctx.c_str());
                else if (k < o.count[i] && e.kind == STR)
                    REQUIRE(o.slots[i][K] == "\"\"" || o.slots[i][K] == Model::def_slot(e, k), "entry %zu slot %d: an occurrence without a value shows %s\n  %s", i, k, o.slots[i][K].c_str(), ctx.c_str());
                else if (k < o.count[i])
                    REQUIRE(o.slots[i][K] == pre[i][K], "entry %zu slot %d: an occurrence without a value changed %s to %s\n  %s", i, k, pre[i][K].c_str(), o.slots[i][K].c_str(), ctx.c_str());
            }
            if (k < o.count[i]) L.touched[i][K] = 1;
        }
    }
    if (exact) for (size_t i = 0; i < sp.e.size(); i++) REQUIRE(o.count[i] == m.o.count[i], "entry %zu: count %d, expected %d\n  %s", i, o.count[i], m.o.count[i], ctx.c_str());
    if (exact) REQUIRE(errs_str(m.o.errs) == errs_str(o.errs), "errors %s, expected %s\n  %s", errs_str(o.errs).c_str(), errs_str(m.o.errs).c_str(), ctx.c_str());
    if (exact && m.o.ret != ret) fail(fmt("%d errors, expected %d\n  ", ret, m.o.ret) + ctx);
    L.parses++;
    s.label(ret ? "parse with errors" : "parse accepted");
}
static vector<string> gen_line(Src& s, const Spec& sp) {
    vector<string> a;
    switch (s.weighted({4, 4, 1})) {
        case 0: { Plan p = gen_plan(s, sp, 3); std::set<string> f; a = spell(s, sp, p, &f); break; }
        case 1: a = gen_argv(s, sp, 8); break;
        default: return s.coin() ? vector<string>{"prog"} : vector<string>{};
    }
    // an unfinished cluster, an unknown letter or a missing value at the end is what could linger
    if (s.chance(1, 3)) {
        string all;
        for (auto& e : sp.e) all += e.shorts;
        string t = "-";
        int m = s.range(1, 4);
        for (int i = 0; i < m; i++) t += all.empty() || s.chance(1, 4) ? LETTERS[s.below(sizeof LETTERS - 1)] : all[s.below((u32)all.size())];
        a.push_back(t);
    }
    if (s.chance(1, 6)) a.push_back(s.pick_s({"--", "--zz", "-", "", "--alpha", "-Q", "extra"}));
    return a;
}
static void t_history(Src& s) {
    int nt = s.chance(1, 3) ? s.range(2, 3) : 1;
    vector<std::unique_ptr<Live>> T;
    for (int i = 0; i < nt; i++) {
        T.emplace_back(new Live);
        TableOpt to;
        to.unique_tags = s.coin();
        to.max_entries = 5;
        T.back()->sp = gen_table(s, to);
        T.back()->b.reset(new Built(build(T.back()->sp)));
        defaults(*T.back());
    }
    int n = s.range(2, s.chance(1, 8) ? 20 : 6);
    string hist;
    for (int i = 0; i < n; i++) {
        size_t w = s.below((u32)nt);
        Live& L = *T[w];
        if (s.chance(1, 8)) { defaults(L); hist += fmt("[t%zu defaults]", w); }
        if (s.chance(1, 10)) { capture([&](FILE* f) { API->arg_print_syntax(f, L.b->tab.data(), "\n"); API->arg_print_glossary(f, L.b->tab.data(), nullptr); }); hist += "[print]"; }
        if (s.chance(1, 8)) {
            // sometimes another table takes its place, in the same array
            bool other = s.coin();
            L.b->api->arg_freetable(L.b->tab.data(), L.b->tab.size());
            if (other) {
                TableOpt to;
                to.unique_tags = s.coin();
                to.max_entries = (int)L.sp.e.size();
                Spec sp2 = s.chance(1, 3) ? gen_table(s, to) : L.sp;
                for (auto& e : sp2.e) {         // (or much the same one)
                    for (auto& c : e.shorts) if (s.chance(1, 4)) { char d = LETTERS[s.below(sizeof LETTERS - 1)]; bool used = false; for (auto& x : sp2.e) used |= x.shorts.find(d) != string::npos; if (!used) c = d; }
                    if (s.chance(1, 8)) e.max = e.min + s.range(0, 3);
                    if (s.chance(1, 8)) e.optval = !e.optval && e.kind != LIT && e.kind != REM && e.tagged();
                    e.finish();
                }
                L.sp = sp2;
            }
            L.keep.clear();
            Built nb = build(L.sp);
            L.b->tab.assign(nb.tab.begin(), nb.tab.end());      // (keeps the storage when it is large enough)
            nb.tab.clear();
            L.touched.clear();
            defaults(L);
            hist += other ? fmt("[t%zu now %s]", w, L.sp.desc().c_str()) : fmt("[t%zu rebuilt]", w);
        }
        vector<string> a = gen_line(s, L.sp);
        bool posix = s.chance(1, 8);
        bool direct = s.chance(1, 3);
        parse_step(s, L, a, posix, hist.empty() ? "nothing" : hist, direct);
        hist += fmt("[t%zu %s%s]", w, argv_desc(a).c_str(), posix ? " posix" : "");
    }
    for (auto& L : T) L->b->free();
    string all;
    for (auto& L : T) all += L->sp.desc() + " ";
    s.nontrivial(all + hist);
    if (nt > 1) s.label("several tables");
    if (n > 6) s.label("long history");
}
// very many parses of the same tables
static void t_long(Src& s) {
    Live T;
    TableOpt to;
    to.unique_tags = true;
    to.max_entries = 3;
    to.maxcount = 2;
    to.tails = false;
    to.rem = false;
    T.sp = gen_table(s, to);
    if (s.coin()) { Entry e; e.kind = (Kind)s.range(INT, FIL); e.shorts = "Z"; e.optval = true; e.max = 2; e.finish(); T.sp.e.push_back(e); }
    T.b.reset(new Built(build(T.sp)));
    defaults(T);
    vector<vector<string>> lines;
    int k = s.range(1, 3), n = s.tail(s.chance(1, 6) ? 3000 : 600);
    for (int i = 0; i < k; i++) { lines.push_back(gen_line(s, T.sp)); if (T.sp.e.size() && T.sp.e.back().shorts == "Z" && !lines.back().empty()) lines.back().insert(lines.back().begin() + 1, s.pick_s({"-Z", "-Z5", "-Za", "-ZZ"})); }
    string all = T.sp.desc();
    for (auto& l : lines) all += " " + argv_desc(l);
    for (int i = 0; i < n; i++) {
        parse_step(s, T, lines[(size_t)i % lines.size()], false, fmt("%d parses of %s", i, all.c_str()));
        if (T.keep.size() > 4) T.keep.erase(T.keep.begin());
        if (i % 64 == 63 && T.sp.e.size()) T.keep.back()->check_untouched();
    }
    s.nontrivial(all + fmt(" x %d", n));
    s.label(n > 256 ? "more than 256 parses" : "up to 256 parses");
}
// small scope, complete: one table, every pair of earlier/later command lines out of a fixed set
static void t_pairs(Src& s) {
    static const vector<vector<string>> L = {
        {"p"}, {"p", "-a"}, {"p", "-aa"}, {"p", "-aQ"}, {"p", "-Qa"}, {"p", "-i"}, {"p", "-i5"}, {"p", "-i", "x"}, {"p", "-ai7", "r"}, {"p", "-o"}, {"p", "-oz"}, {"p", "--opt"}, {"p", "--opt=q"},
        {"p", "--zz"}, {"p", "x", "y", "z"}, {"p", "--", "-a"}, {"p", "x", "-a", "--", "y"}, {"p", "x", "-a", "y"}, {"p", "-aaaa"}, {"p", "-s", "one", "-s", "two"}, {"p", "-s", "one"}, {"p", "--in=4", "--in=5"},
        {"p", "--in=4", "--in=5", "--in=6"}, {"p", "-d", "2020-02-03"}, {"p", "-d", "2020"}, {"p", "--d"}, {"p", "-"}, {"p", ""}, {"p", "--", "--"}, {"p", "-o", "v"}, {"p", "x", "--opt", "y", "-Q"}, {}};
    Live T;
    Entry e;
    e.kind = LIT; e.shorts = "a"; e.longs = {"all"}; e.max = 3; e.finish(); T.sp.e.push_back(e);
    e = Entry(); e.kind = INT; e.shorts = "i"; e.longs = {"in"}; e.max = 2; e.finish(); T.sp.e.push_back(e);
    e = Entry(); e.kind = STR; e.shorts = "o"; e.longs = {"opt"}; e.optval = true; e.max = 2; e.finish(); T.sp.e.push_back(e);
    e = Entry(); e.kind = STR; e.shorts = "s"; e.max = 2; e.finish(); T.sp.e.push_back(e);
    e = Entry(); e.kind = DAT; e.shorts = "d"; e.longs = {"date"}; e.optval = true; e.max = 1; e.finish(); T.sp.e.push_back(e);
    e = Entry(); e.kind = STR; e.max = 2; e.finish(); T.sp.e.push_back(e);
    T.sp.cap = 3;
    T.b.reset(new Built(build(T.sp)));
    defaults(T);
    string hist;
    for (int i = 0; i < 3; i++) {
        u32 k = s.below((u32)L.size());
        bool px = i == 1 && s.coin();
        parse_step(s, T, L[k], px, hist.empty() ? "nothing" : hist);
        hist += "[" + argv_desc(L[k]) + (px ? " posix" : "") + "]";
    }
    s.nontrivial(hist);
}
// the caller's storage is used again: command lines at the same addresses with other contents, tables whose letters, names,
// patterns and formats lie where those of an earlier table did
static void* build_at(const Entry& e, char (*st)[600]) {
    auto put = [&](int k, const char* v) -> const char* { return v ? strcpy(st[k], v) : nullptr; };
    const char *s = put(0, e.c_short()), *l = put(1, e.c_long()), *d = put(2, e.c_dt()), *g = put(3, e.c_gl());
    void* r = nullptr;
    switch (e.kind) {
        case LIT: r = API->arg_litn(s, l, e.min, e.max, g); break;
        case INT: r = API->arg_intn(s, l, d, e.min, e.max, g); break;
        case DBL: r = API->arg_dbln(s, l, d, e.min, e.max, g); break;
        case STR: r = API->arg_strn(s, l, d, e.min, e.max, g); break;
        case FIL: r = API->arg_filen(s, l, d, e.min, e.max, g); break;
        case REX: r = API->arg_rexn(s, l, put(4, oracle::REX[e.sub].pat), d, e.min, e.max, oracle::REX[e.sub].icase ? ARG_REX_ICASE : 0, g); break;
        case DAT: r = API->arg_daten(s, l, put(4, oracle::DATEFMT[e.sub]), d, e.min, e.max, g); break;
        default: r = API->arg_rem(d, g);
    }
    if (r && e.optval) ((arg_hdr*)r)->flag |= ARG_HASOPTVALUE;
    return r;
}
static void t_reuse(Src& s) {
    static char st[8][5][600];
    static char text[40][600];
    static char* av[41];
    string hist;
    int nt = s.range(1, 3);
    Spec sp;
    for (int t = 0; t < nt; t++) {
        TableOpt to;
        to.unique_tags = true;
        to.max_entries = 4;
        if (t && s.coin()) {                    // much the same table as before
            for (auto& e : sp.e) {
                if (e.kind == REX) e.sub = (int)s.below((u32)(sizeof oracle::REX / sizeof *oracle::REX));
                if (e.kind == DAT) e.sub = (int)s.below((u32)(sizeof oracle::DATEFMT / sizeof *oracle::DATEFMT));
                for (auto& c : e.shorts) if (s.chance(1, 3)) { char d = LETTERS[s.below(sizeof LETTERS - 1)]; bool used = false; for (auto& x : sp.e) used |= x.shorts.find(d) != string::npos; if (!used) c = d; }
            }
        } else {
            sp = gen_table(s, to);
            if (s.chance(1, 3)) { Entry e; e.kind = s.coin() ? REX : DAT; e.longs = {"same-place"}; e.max = 2; e.sub = 0; e.finish(); sp.e.insert(sp.e.begin(), e); }
        }
        for (auto& e : sp.e) if (e.longjoined.size() > 599 || e.shorts.size() > 599 || e.dt.size() > 599 || e.gl.size() > 599) return;
        if (sp.e.size() > 8) return;
        Built b;
        b.sp = &sp;
        b.api = API;
        for (size_t i = 0; i < sp.e.size(); i++) b.tab.push_back(build_at(sp.e[i], st[i]));
        b.tab.push_back(API->arg_end(sp.cap));
        int n = s.range(1, 4);
        vector<string> a;
        for (int k = 0; k < n; k++) {
            // another command line, or the one before with other contents of the same lengths
            if (k && s.coin()) {
                for (auto& x : a) if (x.size() && s.coin()) { size_t j = s.below((u32)x.size()); x[j] = isdigit((unsigned char)x[j]) ? (char)('0' + s.below(10)) : s.coin() ? LETTERS[s.below(sizeof LETTERS - 1)] : x[j]; }
            } else a = gen_line(s, sp);
            bool fits = a.size() <= 40;
            for (auto& x : a) fits &= x.size() < 600;
            if (!fits) break;
            for (size_t i = 0; i < a.size(); i++) strcpy(av[i] = text[i], a[i].c_str());
            av[a.size()] = nullptr;
            b.set_defaults();
            bool posix = s.chance(1, 8);
            set_posix(posix);
            int ret = API->arg_parse((int)a.size(), av, b.tab.data());
            Obs o = observe(b, ret);
            string ctx = sp.desc() + " after " + (hist.empty() ? "nothing" : hist) + " parsing " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "") + ", in the same storage";
            for (size_t i = 0; i < a.size(); i++) REQUIRE(av[i] == text[i] && a[i] == av[i], "argument %zu was modified: now %s\n  %s", i, q(av[i]).c_str(), ctx.c_str());
            Model m(sp);
            try { m.run(a, posix); } catch (Unspecified&) { s.label("unspecified"); hist += argv_desc(a); continue; }
            REQUIRE(ret == m.o.ret && errs_str(m.o.errs) == errs_str(o.errs), "%d errors %s, expected %d %s\n  %s", ret, errs_str(o.errs).c_str(), m.o.ret, errs_str(m.o.errs).c_str(), ctx.c_str());
            for (size_t i = 0; i < sp.e.size(); i++) {
                REQUIRE(o.count[i] == m.o.count[i], "entry %zu: count %d, expected %d\n  %s", i, o.count[i], m.o.count[i], ctx.c_str());
                for (int j = 0; j < sp.e[i].emax() && sp.e[i].takes_value(); j++)
                    if (m.given[i][(size_t)j]) REQUIRE(o.slots[i][(size_t)j] == m.o.slots[i][(size_t)j], "entry %zu value %d is %s, the command line gives %s\n  %s", i, j, o.slots[i][(size_t)j].c_str(), m.o.slots[i][(size_t)j].c_str(), ctx.c_str());
            }
            hist += fmt("[%s%s]", argv_desc(a).c_str(), posix ? " posix" : "");
            s.label(ret ? "parse with errors" : "parse accepted");
        }
        hist += "{" + sp.desc() + "}";
        b.free();
    }
    s.nontrivial(hist);
    s.label("same storage");
}
PBT_MAIN("C11", nullptr, Test{"triples", t_pairs, true, 200000, 200000}, Test{"history", t_history, false, 60000, 2000000}, Test{"reuse", t_reuse, false, 40000, 1000000}, Test{"long", t_long, false, 300, 6000})
