// C22: entry types of the caller's own, and entries whose functions the caller replaced, are driven by the
// documented callback protocol. Oracle: the reference parser's sequence of scans (table.hpp), the caller's log.
#include "plan.hpp"
#include "text.hpp"

struct Event {
    char what;          // R reset, S scan, C check, E error
    int entry;
    bool has;
    string val;         // S: value, E: argument text
    const char* p;      // S/E: the pointer that was passed
    int code;           // S/C: what was answered, E: the code passed
    string str() const {
        string r = fmt("%s#%d", what == 'R' ? "reset" : what == 'S' ? "scan" : what == 'C' ? "check" : "error", entry);
        if (what == 'S' || what == 'E') r += has ? "(" + q(val) + ")" : "(NULL)";
        if (what == 'E') r += fmt(" code %d", code);
        return r;
    }
};
static string events_str(const vector<Event>& v) {
    string r;
    for (auto& e : v) r += (r.empty() ? "" : " ") + e.str();
    return "[" + r + "]";
}
static vector<Event> g_log;
static string g_prog;       // program name every error function was given
static bool g_quiet = false;

// ---- the caller's own type
struct Policy {
    int limit;              // occurrences accepted
    u32 mod;                // values with hash % mod == 0 are refused (0: none)
    int over, bad;          // codes for surplus and refused values
    int check;              // answer of the check function
    int need;               // ... given when fewer than this many occurred
    bool reset, scan, chk, err;
    int answer(int n, const string* v) const {
        if (n >= limit) return over;
        if (v && mod && hash_str(*v) % mod == 0) return bad;
        return 0;
    }
    int verdict(int n) const { return n < need ? check : 0; }
    string desc() const {
        return fmt("own{limit %d/%d refuse 1/%u/%d check<%d:%d %s%s%s%s}", limit, over, mod, bad, need, check, reset ? "r" : "", scan ? "s" : "", chk ? "c" : "", err ? "e" : "");
    }
};
struct Own {
    struct arg_hdr hdr;
    int id;
    int n;
    const Policy* pol;
    u32 guard;
};
static Own* self(void* p) {
    Own* o = (Own*)p;
    REQUIRE(p != nullptr && o->guard == 0x5AFE5AFEu, "a callback was given a parent that is not its entry: %p", p);
    return o;
}
static void own_reset(void* p) { Own* o = self(p); o->n = 0; g_log.push_back({'R', o->id, false, "", nullptr, 0}); }
static int own_scan(void* p, const char* v) {
    Own* o = self(p);
    string t = v ? v : "";
    int c = o->pol->answer(o->n, v ? &t : nullptr);
    if (!c) o->n++;
    g_log.push_back({'S', o->id, v != nullptr, t, v, c});
    return c;
}
static int own_check(void* p) { Own* o = self(p); int c = o->pol->verdict(o->n); g_log.push_back({'C', o->id, false, "", nullptr, c}); return c; }
static void own_error(void* p, arg_dstr_t ds, int code, const char* v, const char* prog) {
    Own* o = self(p);
    g_log.push_back({'E', o->id, v != nullptr, v ? v : "", v, code});
    API->arg_dstr_catf(ds, "%s!%d!%d!%s\n", prog, o->id, code, v ? v : "(null)");
}

// ---- expected events
struct Exp : Model {
    vector<Event> ev;
    const vector<const Policy*>& pol;
    vector<int> n;
    int lastcode = 0;
    struct Rec { int code; int parent; bool has; string arg; };
    vector<Rec> rec;
    Exp(const Spec& s, const vector<const Policy*>& p) : Model(s), pol(p), n(s.e.size(), 0) {}
    bool scan(int i, const string* v, EK* ek) override {
        const Policy& p = *pol[(size_t)i];
        if (!p.scan) return true;
        int c = p.answer(n[(size_t)i], v);
        ev.push_back({'S', i, v != nullptr, v ? *v : "", nullptr, c});
        if (!c) { n[(size_t)i]++; return true; }
        lastcode = c;
        *ek = E_OTHER;
        return false;
    }
    void error(EK k, int parent, const string* arg, int ch) override {
        size_t before = o.errs.size();
        Model::error(k, parent, arg, ch);
        int code = k == E_LONG ? ARG_ELONGOPT : k == E_MISSARG ? ARG_EMISSARG : k == E_NOMATCH ? ARG_ENOMATCH : k == E_SHORT ? (int)(signed char)ch : lastcode;
        if (o.errs.size() > before) rec.push_back({code, parent, arg != nullptr, arg ? *arg : ""});
        else rec.back() = {ARG_ELIMIT, -1, false, ""};
    }
    void minimums() override {
        for (size_t i = 0; i < sp.e.size(); i++) {
            if (!pol[i]->chk) continue;
            int c = pol[i]->verdict(n[i]);
            ev.push_back({'C', (int)i, false, "", nullptr, c});
            if (c) { lastcode = c; error(E_OTHER, (int)i, nullptr, 0); }
        }
    }
};
static int gen_code(Src& s) {
    static const int C[] = {1, 2, 3, 4, 5, 6, -1, 7, 99, 'a', 1000, -5, ARG_ELIMIT, ARG_EMISSARG, INT_MAX, INT_MIN, 256, 65536};
    return C[s.below(18)];
}
static void t_own(Src& s) {
    TableOpt to;
    to.rem = false;
    to.unique_tags = s.coin();
    Spec sp = gen_table(s, to);
    vector<Policy> store(sp.e.size());
    vector<const Policy*> pol;
    for (size_t i = 0; i < sp.e.size(); i++) {
        Entry& e = sp.e[i];
        Policy& p = store[i];
        if (e.kind != LIT) e.kind = STR;
        if (!e.tagged()) e.kind = STR;
        p.limit = s.chance(1, 3) ? s.tail(50) : s.range(0, 4);
        p.mod = s.chance(3, 4) ? 0 : (u32)s.range(1, 4);
        p.over = gen_code(s);
        p.bad = gen_code(s);
        p.need = s.range(0, 2);
        p.check = s.chance(1, 8) ? 0 : gen_code(s);
        p.reset = !s.chance(1, 6);
        p.scan = !s.chance(1, 6);
        p.chk = !s.chance(1, 6);
        p.err = !s.chance(1, 6);
        if (!p.scan && !e.tagged()) e.kind = REM;      // cannot take part in positional matching
        pol.push_back(&p);
    }
    string ctx = "table{";
    for (size_t i = 0; i < sp.e.size(); i++) ctx += sp.e[i].desc() + " " + pol[i]->desc() + "; ";
    ctx += fmt("end(%d)} ", sp.cap);
    bool apart = s.chance(1, 3);
    if (apart) ctx += "(headers apart) ";
    vector<void*> tab;
    vector<Own*> own;
    struct Free { vector<Own*>& v; bool on; ~Free() { if (on) for (Own* p : v) free(p); } } freer{own, apart};
    for (size_t i = 0; i < sp.e.size(); i++) {
        const Entry& e = sp.e[i];
        Own* o = (Own*)malloc(sizeof(Own));
        memset(o, 0, sizeof *o);
        o->hdr.flag = (char)(e.kind == LIT ? 0 : e.optval ? ARG_HASVALUE | ARG_HASOPTVALUE : ARG_HASVALUE);
        o->hdr.shortopts = e.c_short();
        o->hdr.longopts = e.c_long();
        o->hdr.datatype = e.c_dt();
        o->hdr.glossary = e.c_gl();
        o->hdr.mincount = e.min;
        o->hdr.maxcount = e.emax();
        o->hdr.parent = o;
        o->hdr.resetfn = pol[i]->reset ? own_reset : nullptr;
        o->hdr.scanfn = pol[i]->scan ? own_scan : nullptr;
        o->hdr.checkfn = pol[i]->chk ? own_check : nullptr;
        o->hdr.errorfn = pol[i]->err ? own_error : nullptr;
        o->id = (int)i;
        o->pol = pol[i];
        o->guard = 0x5AFE5AFEu;
        own.push_back(o);
        if (apart) {        // the header in the table is a block of its own; the entry proper is only known as its parent
            arg_hdr* h = (arg_hdr*)malloc(sizeof(arg_hdr));
            *h = o->hdr;
            o->hdr.resetfn = nullptr;
            o->hdr.scanfn = nullptr;
            o->hdr.checkfn = nullptr;
            tab.push_back(h);
        } else tab.push_back(o);
    }
    struct arg_end* end = API->arg_end(sp.cap);
    tab.push_back(end);
    int rounds = s.range(1, 3);
    bool posix = s.chance(1, 8);
    set_posix(posix);
    vector<std::unique_ptr<Argv>> keep;
    size_t occ = 0;
    try {
        for (int r = 0; r < rounds; r++) {
            vector<string> a;
            std::set<string> f;
            SpellOpt so;
            so.posix = posix;
            if (s.chance(1, 20)) ; else if (s.coin()) a = gen_argv(s, sp, 8); else a = spell(s, sp, gen_plan(s, sp, 2), &f, so);
            Exp m(sp, pol);
            for (size_t i = 0; i < sp.e.size(); i++) if (!pol[i]->reset) m.n[i] = own[i]->n;
            try { m.run(a, posix); } catch (Unspecified&) { throw Discard{}; }
            ctx += argv_desc(a) + (posix ? " POSIXLY_CORRECT " : " ");
            keep.emplace_back(new Argv(a));
            Argv& av = *keep.back();
            g_log.clear();
            int ret = API->arg_parse(av.argc(), av.p.data(), tab.data());
            av.check_untouched();
            vector<Event> log;
            log.swap(g_log);
            // resets: first of all, each entry's exactly once
            std::multiset<int> got, want;
            size_t k = 0;
            while (k < log.size() && log[k].what == 'R') got.insert(log[k++].entry);
            for (size_t i = 0; i < sp.e.size(); i++) if (pol[i]->reset) want.insert((int)i);
            REQUIRE(got == want, "reset functions: every entry's must be called exactly once before anything else\n  %s\n  called %s", ctx.c_str(), events_str(log).c_str());
            vector<Event> rest(log.begin() + (long)k, log.end());
            require_eq(events_str(m.ev), events_str(rest), "calls of the entries' functions\n  " + ctx);
            // values are the caller's own argument bytes
            for (auto& e : rest) if (e.what == 'S' && e.has) {
                bool in = false;
                for (size_t j = 0; j < a.size(); j++) in |= e.p >= av.p[j] && e.p <= av.p[j] + a[j].size();
                REQUIRE(in, "the value %s given to entry %d is not part of the argument vector\n  %s", q(e.val).c_str(), e.entry, ctx.c_str());
            }
            REQUIRE(ret == (int)m.rec.size() && end->count == ret, "%d errors returned, %d recorded, %zu expected\n  %s", ret, end->count, m.rec.size(), ctx.c_str());
            vector<Event> wantE;
            for (int i = 0; i < ret; i++) {
                const Exp::Rec& x = m.rec[(size_t)i];
                void* par = x.parent < 0 ? (void*)end : (void*)own[(size_t)x.parent];
                bool same = end->parent[i] == par && (end->argval[i] != nullptr) == x.has && (!x.has || x.arg == end->argval[i]);
                if (x.code != INT_MIN || x.parent >= 0) same &= end->error[i] == x.code || (x.parent < 0 && (unsigned char)end->error[i] == (unsigned char)x.code && x.code != ARG_ELIMIT && x.code != ARG_ENOMATCH && x.code != ARG_ELONGOPT && x.code != ARG_EMISSARG);
                REQUIRE(same, "error %d: expected code %d of entry %d with %s, recorded code %d of %s with %s\n  %s", i, x.code, x.parent, x.has ? q(x.arg).c_str() : "NULL", end->error[i],
                        end->parent[i] == par ? "it" : "another entry", q(end->argval[i]).c_str(), ctx.c_str());
                if (x.parent >= 0 && pol[(size_t)x.parent]->err) wantE.push_back({'E', x.parent, x.has, x.arg, nullptr, x.code});
            }
            // printing
            g_log.clear();
            string prog = s.pick_s({"prog", "", "a b", "100%s"});
            string out = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, end, prog.c_str()); });
            require_eq(events_str(wantE), events_str(g_log), "calls of the error functions\n  " + ctx);
            size_t at = 0;
            for (auto& e : wantE) {
                string line = prog + fmt("!%d!%d!", e.entry, e.code) + (e.has ? e.val : "(null)") + "\n";
                size_t f = out.find(line, at);
                REQUIRE(f != string::npos, "what the error function of entry %d wrote (%s) is missing in %s\n  %s", e.entry, q(line).c_str(), q(out).c_str(), ctx.c_str());
                at = f + line.size();
            }
            string out2 = capture([&](FILE* f) { API->arg_print_errors(f, end, prog.c_str()); });
            require_eq(out, out2, "stream and string variants of the messages\n  " + ctx);
            for (auto& e : rest) if (e.what == 'S') occ++;
            if (!m.ev.empty() && m.ev.back().what == 'C') s.label("check phase reached");
            if (ret) s.label("with errors"); else s.label("accepted");
            if (!wantE.empty()) s.label("own error function called");
        }
    } catch (...) {
        API->arg_freetable(tab.data(), tab.size());
        throw;
    }
    API->arg_freetable(tab.data(), tab.size());
    if (occ) s.nontrivial(ctx);
}

// ---- library entries whose functions were wrapped by the caller
struct Orig { arg_resetfn* r; arg_scanfn* s; arg_checkfn* c; arg_errorfn* e; int id; };
static std::map<void*, Orig> g_orig;
static Orig& orig(void* p) {
    auto it = g_orig.find(p);
    REQUIRE(it != g_orig.end(), "a callback was given a parent that is not its entry: %p", p);
    return it->second;
}
static void w_reset(void* p) { Orig& o = orig(p); g_log.push_back({'R', o.id, false, "", nullptr, 0}); if (o.r) o.r(p); }
static int w_scan(void* p, const char* v) { Orig& o = orig(p); int c = o.s ? o.s(p, v) : 0; g_log.push_back({'S', o.id, v != nullptr, v ? v : "", v, c}); return c; }
static int w_check(void* p) { Orig& o = orig(p); int c = o.c ? o.c(p) : 0; g_log.push_back({'C', o.id, false, "", nullptr, c}); return c; }
static void w_error(void* p, arg_dstr_t ds, int code, const char* v, const char* prog) {
    Orig& o = orig(p);
    g_log.push_back({'E', o.id, v != nullptr, v ? v : "", v, code});
    if (o.e) o.e(p, ds, code, v, prog);
}
static void t_wrapped(Src& s) {
    TableOpt to;
    Spec sp = gen_table(s, to);
    bool posix = s.chance(1, 8);
    std::set<string> f;
    SpellOpt so;
    so.posix = posix;
    vector<string> a = s.coin() ? gen_argv(s, sp, 10) : spell(s, sp, gen_plan(s, sp, 2), &f, so);
    struct Seen : Model { bool checked = false; Seen(const Spec& x) : Model(x) {} void minimums() override { checked = true; Model::minimums(); } } m(sp);
    try { m.run(a, posix); } catch (Unspecified&) { throw Discard{}; }
    string ctx = sp.desc() + " " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "");
    set_posix(posix);
    Built b = build(sp), plain = build(sp);
    b.set_defaults();
    plain.set_defaults();
    g_orig.clear();
    std::multiset<int> wantR;
    for (size_t i = 0; i < sp.e.size(); i++) {
        if (sp.e[i].kind == REM) continue;
        arg_hdr* h = (arg_hdr*)b.tab[i];
        g_orig[h->parent] = {h->resetfn, h->scanfn, h->checkfn, h->errorfn, (int)i};
        h->resetfn = w_reset;
        h->scanfn = w_scan;
        h->checkfn = w_check;
        h->errorfn = w_error;
        wantR.insert((int)i);
    }
    Argv av(a);
    g_log.clear();
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    vector<Event> log;
    log.swap(g_log);
    Obs o = observe(b, ret);
    compare_obs(m.o, o, ctx + " (wrapped)");
    Argv av2(a);
    int ret2 = API->arg_parse(av2.argc(), av2.p.data(), plain.tab.data());
    require_eq(observe(plain, ret2).str(), o.str(), "entries with wrapped functions parse differently\n  " + ctx);
    size_t k = 0;
    std::multiset<int> got;
    while (k < log.size() && log[k].what == 'R') got.insert(log[k++].entry);
    REQUIRE(got == wantR, "reset functions: every entry's must be called exactly once before anything else\n  %s\n  called %s", ctx.c_str(), events_str(log).c_str());
    bool checking = false;
    int scans = 0, nchk = 0;
    for (; k < log.size(); k++) {
        REQUIRE(log[k].what == 'S' || log[k].what == 'C', "unexpected call %s\n  %s", log[k].str().c_str(), ctx.c_str());
        if (log[k].what == 'S') { REQUIRE(!checking, "scan after a check\n  %s", ctx.c_str()); scans++; }
        else { checking = true; nchk++; }
    }
    int wantC = m.checked ? (int)wantR.size() : 0;
    REQUIRE(nchk == wantC, "%d check functions called, expected %d\n  %s\n  called %s", nchk, wantC, ctx.c_str(), events_str(log).c_str());
    g_log.clear();
    string e1 = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, b.end(), "P"); });
    vector<Event> el;
    el.swap(g_log);
    string e2 = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, plain.end(), "P"); });
    require_eq(e2, e1, "messages of wrapped entries\n  " + ctx);
    size_t own = 0;
    for (auto& e : m.o.errs) own += e.parent >= 0;
    REQUIRE(el.size() == own, "%zu error functions called, expected %zu\n  %s", el.size(), own, ctx.c_str());
    if (scans) s.nontrivial("wrapped " + ctx);
}
PBT_MAIN("C22", nullptr, Test{"own", t_own, false, 150000, 5000000}, Test{"wrapped", t_wrapped, false, 100000, 3000000})
