// C01: parsing any command line is memory-safe, terminates, and leaves argv alone.
// Oracle: sanitizers (address, undefined; memory in the second build), CPU watchdog, bounds on the observable results.
#include "plan.hpp"
#include "text.hpp"
#ifdef PBT_MSAN
#include <new>
#include <sanitizer/msan_interface.h>
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); __msan_unpoison(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

static string raw_bytes(Src& s, int max, const char* likely) {
    int n = s.size(max);
    string r;
    size_t k = strlen(likely);
    for (int i = 0; i < n; i++) r += s.chance(1, 6) ? (char)(1 + s.below(255)) : likely[s.below((u32)k)];
    return r;
}
struct RawEntry {
    Kind kind = LIT;
    bool hs = false, hl = false, hd = false, hg = false, hf = false;
    string sh, lo, dt, gl, f;
    int min = 0, max = 1, flags = 0;
    bool optval = false;
    string desc() const {
        string r = KINDNAME[kind];
        r += "(" + (hs ? q(sh) : "-") + "," + (hl ? q(lo) : "-") + (hd ? ",dt=" + q(dt) : "") + (hf ? ",fmt=" + q(f) : "") + fmt(",%d..%d", min, max) + (optval ? ",optvalue" : "") + (hg ? "," + q(gl) : "");
        return r + ")";
    }
};
static RawEntry gen_raw_entry(Src& s) {
    RawEntry e;
    e.kind = (Kind)s.below(NKIND);
    e.hs = s.chance(3, 4);
    e.hl = s.chance(1, 2);
    if (e.hs) e.sh = raw_bytes(s, 5, "abcxyzW?:;-=+");
    if (e.hl) e.lo = s.chance(1, 3) ? raw_bytes(s, 12, "ab,-=_a,b") : (s.chance(1, 2) ? s.pick(LONGPOOL) : s.pick(LONGPOOL) + "," + s.pick(LONGPOOL));
    if ((e.hd = s.chance(1, 3))) e.dt = raw_bytes(s, s.chance(1, 6) ? 450 : 12, "<int>|[]= %s");
    if ((e.hg = s.chance(2, 3))) e.gl = raw_bytes(s, s.chance(1, 6) ? 700 : 60, "words and  more\nwords %s%n\t");
    if (e.kind == DAT && (e.hf = s.chance(4, 5))) {
        int n = s.range(0, s.chance(1, 8) ? 120 : 5);
        for (int i = 0; i < n; i++) {
            if (s.chance(2, 3)) { e.f += '%'; if (s.chance(1, 10)) e.f += "EO-_0^#"[s.below(7)]; e.f += "aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ%"[s.below(41)]; }
            else e.f += s.chance(1, 8) ? (char)(1 + s.below(255)) : " /:-,T."[s.below(7)];
        }
    }
    if (e.kind == REX) { e.hf = true; e.f = s.chance(1, 2) ? string(oracle::REX[s.below(oracle::NREX)].pat) : raw_bytes(s, 10, "ab()[]{}|*+?^$.\\-,01:d"); e.flags = s.coin() ? ARG_REX_ICASE : 0; }
    e.min = s.chance(1, 2) ? 0 : s.range(0, 3);
    e.max = s.chance(1, 20) ? s.range(0, 300) : s.range(0, 4);
    if (e.kind != LIT && e.kind != REM) e.optval = s.chance(1, 4);
    return e;
}
struct RawTable {
    vector<RawEntry> e;
    int cap = 20;
    vector<void*> tab;
    string desc() const { string r = "table{"; for (auto& x : e) r += x.desc() + " "; return r + fmt("end(%d)}", cap); }
    void make() {
        for (auto& x : e) {
            const char *sh = x.hs ? x.sh.c_str() : nullptr, *lo = x.hl ? x.lo.c_str() : nullptr, *d = x.hd ? x.dt.c_str() : nullptr, *g = x.hg ? x.gl.c_str() : nullptr, *f = x.hf ? x.f.c_str() : nullptr;
            void* p = nullptr;
            switch (x.kind) {
                case LIT: p = arg_litn(sh, lo, x.min, x.max, g); break;
                case INT: p = arg_intn(sh, lo, d, x.min, x.max, g); break;
                case DBL: p = arg_dbln(sh, lo, d, x.min, x.max, g); break;
                case STR: p = arg_strn(sh, lo, d, x.min, x.max, g); break;
                case REX: p = arg_rexn(sh, lo, f, d, x.min, x.max, x.flags, g); break;
                case FIL: p = arg_filen(sh, lo, d, x.min, x.max, g); break;
                case DAT: p = arg_daten(sh, lo, f, d, x.min, x.max, g); break;
                default: p = arg_rem(d, g);
            }
            if (x.optval) ((arg_hdr*)p)->flag |= ARG_HASOPTVALUE;
            // slots a value-less occurrence leaves alone are the caller's to initialise
            int mx = x.max < x.min ? x.min : x.max;
            if (x.kind == INT) memset(((arg_int*)p)->ival, 0, sizeof(int) * (size_t)mx);
            if (x.kind == DBL) memset(((arg_dbl*)p)->dval, 0, sizeof(double) * (size_t)mx);
            if (x.kind == DAT) memset(((arg_date*)p)->tmval, 0, sizeof(struct tm) * (size_t)mx);
            tab.push_back(p);
        }
        tab.push_back(arg_end(cap));
    }
    int count(size_t i) const {
        switch (e[i].kind) {
            case LIT: return ((arg_lit*)tab[i])->count;
            case INT: return ((arg_int*)tab[i])->count;
            case DBL: return ((arg_dbl*)tab[i])->count;
            case STR: return ((arg_str*)tab[i])->count;
            case REX: return ((arg_rex*)tab[i])->count;
            case FIL: return ((arg_file*)tab[i])->count;
            case DAT: return ((arg_date*)tab[i])->count;
            default: return 0;
        }
    }
    // touch every value the user may look at (out-of-bounds or wild pointers show under the sanitizers)
    u64 touch() const {
        u64 h = 0;
        for (size_t i = 0; i < e.size(); i++)
            for (int k = 0; k < count(i); k++) switch (e[i].kind) {
                case INT: h += (u64)((arg_int*)tab[i])->ival[k]; break;
                case DBL: { u64 b; memcpy(&b, &((arg_dbl*)tab[i])->dval[k], 8); h += b; break; }
                case STR: if (((arg_str*)tab[i])->sval[k]) h += strlen(((arg_str*)tab[i])->sval[k]); break;
                case REX: if (((arg_rex*)tab[i])->sval[k]) h += strlen(((arg_rex*)tab[i])->sval[k]); break;
                case FIL: { arg_file* f = (arg_file*)tab[i]; if (f->filename[k]) h += strlen(f->filename[k]) + strlen(f->basename[k]) + strlen(f->extension[k]); break; }
                case DAT: h += (u64)((arg_date*)tab[i])->tmval[k].tm_year; break;
                default: break;
            }
        return h;
    }
    void check(int ret, const string& ctx) const {
        REQUIRE(ret >= 0, "negative number of errors %d\n  %s", ret, ctx.c_str());
        for (size_t i = 0; i < e.size(); i++) {
            int c = count(i), mx = e[i].max < e[i].min ? e[i].min : e[i].max;
            REQUIRE(c >= 0 && c <= mx, "entry %zu counts %d occurrences, declared maximum %d\n  %s", i, c, mx, ctx.c_str());
        }
        struct arg_end* en = (struct arg_end*)tab.back();
        REQUIRE(en->count == ret && ret <= (cap < 1 ? 1 : cap), "%d errors returned, %d recorded, capacity %d\n  %s", ret, en->count, cap, ctx.c_str());
        for (int i = 0; i < en->count; i++) {
            bool known = false;
            for (auto p : tab) known |= p == en->parent[i];
            REQUIRE(known, "error %d belongs to no entry\n  %s", i, ctx.c_str());
        }
        volatile u64 sink = touch();
        (void)sink;
    }
};
static void print_all(void* const* tab0, const string& prog, struct arg_end* end, size_t n) {
    void** tab = (void**)tab0;
    string a, b;
    a = capture([&](FILE* f) { arg_print_errors(f, end, prog.c_str()); });
    b = capture_ds(API, [&](arg_dstr_t d) { arg_print_errors_ds(d, end, prog.c_str()); });
    a += capture([&](FILE* f) { arg_print_syntax(f, tab, "\n"); arg_print_syntaxv(f, tab, "\n"); arg_print_glossary(f, tab, nullptr); arg_print_glossary_gnu(f, tab); });
    b += capture_ds(API, [&](arg_dstr_t d) { arg_print_syntax_ds(d, tab, "\n"); arg_print_syntaxv_ds(d, tab, "\n"); arg_print_glossary_ds(d, tab, nullptr); arg_print_glossary_gnu_ds(d, tab); });
    REQUIRE(a == b, "stream and dynamic-string output differ: %s / %s", q(a).c_str(), q(b).c_str());
    for (size_t i = 0; i < n; i++) {
        arg_hdr* h = (arg_hdr*)tab[i];
        capture([&](FILE* f) { arg_print_option(f, h->shortopts, h->longopts, h->datatype, "!"); });
    }
}
static vector<string> raw_argv(Src& s, const vector<string>& hints) {
    vector<string> a;
    int n = s.chance(1, 15) ? s.range(10, 60) : s.range(0, 8);
    for (int i = 0; i < n; i++) {
        switch (s.weighted({4, 4, 3, 2})) {
            case 0: a.push_back(raw_bytes(s, s.chance(1, 20) ? 5000 : 10, "-ab=xyz-01.?:W,")); break;
            case 1: {
                string t = hints.empty() ? "a" : s.pick(hints);
                int how = s.range(0, 3);
                if (how == 0) t = "-" + t; else if (how == 1) t = "--" + t; else if (how == 2) t = "--" + t + "=" + raw_bytes(s, 8, "ab01-.");
                else t = t.substr(0, t.empty() ? 0 : (size_t)s.range(0, (int)t.size()));
                a.push_back(t);
                break;
            }
            case 2: a.push_back(s.pick_s({"--", "-", "", "-a", "--a", "5", "x", "-5", "---", "--=", "-a-", "-W", "-Wfoo", "-:", "-?", "-;", "--a=", "12/31/99", "0x"})); break;
            default: { string t = "-"; int m = s.range(0, 6); for (int k = 0; k < m; k++) t += hints.empty() ? 'a' : hints[0].empty() ? 'b' : s.pick(hints)[0]; a.push_back(t.c_str()); break; }
        }
    }
    return a;
}
static string raw_prog(Src& s) { return s.chance(1, 4) ? raw_bytes(s, 300, "prog %s%n") : "prog"; }
// arbitrary bytes everywhere a program can pass a string
static void t_raw(Src& s) {
    RawTable t;
    int n = s.range(0, s.chance(1, 20) ? 40 : 6);
    vector<string> hints;
    for (int i = 0; i < n; i++) {
        t.e.push_back(gen_raw_entry(s));
        RawEntry& x = t.e.back();
        for (char c : x.sh) hints.push_back(string(1, c));
        string cur;
        for (char c : x.lo + ",") { if (c == ',') { hints.push_back(cur); cur.clear(); } else cur += c; }
    }
    t.cap = s.chance(1, 3) ? s.range(-2, 4) : 20;
    bool posix = s.chance(1, 6);
    set_posix(posix);
    t.make();
    int rounds = s.range(1, 3);
    string ctx = t.desc() + (posix ? " POSIXLY_CORRECT" : "");
    std::vector<std::unique_ptr<Argv>> keep;
    bool some = false;
    for (int r = 0; r < rounds; r++) {
        vector<string> a = raw_argv(s, hints);
        if (s.chance(19, 20)) a.insert(a.begin(), "prog");
        keep.emplace_back(new Argv(a));
        Argv& av = *keep.back();
        string c2 = ctx + " " + argv_desc(a);
        int ret = arg_parse(av.argc(), av.p.data(), t.tab.data());
        av.check_untouched();
        t.check(ret, c2);
        if (a.size() >= 2) some = true;
        if (r == rounds - 1) { print_all(t.tab.data(), raw_prog(s), (struct arg_end*)t.tab.back(), t.e.size()); ctx = c2; }
        s.label(ret ? "errors" : "accepted");
    }
    arg_freetable(t.tab.data(), t.tab.size());
    for (size_t i = 0; i < t.tab.size(); i++) REQUIRE(!t.tab[i], "slot %zu not cleared", i);
    if (some && n) s.nontrivial(ctx);
}
// sensible tables, long values and damaged command lines
static void t_damaged(Src& s) {
    TableOpt to;
    to.max_entries = s.chance(1, 10) ? 40 : 8;
    to.maxcount = s.chance(1, 10) ? 100 : 4;
    Spec sp = gen_table(s, to);
    for (auto& e : sp.e) {
        if (s.chance(1, 10)) { e.has_dt = e.kind != LIT; e.dt = string((size_t)s.range(150, 420), 'd'); }
        if (s.chance(1, 12)) { e.has_gl = true; e.gl = gen_text(s, 600); }
        if (s.chance(1, 15) && e.tagged()) { e.longs.push_back(string((size_t)s.range(100, 400), 'l')); e.finish(); }
        if (s.chance(1, 5000)) {  // around the limits of 16-bit sizes
            string big((size_t)(s.pick<int>({255, 32767, 65535, 70000}) + s.range(-3, 3)), 'b');
            int w = s.range(0, 2);
            if (w == 0 && e.tagged()) { e.longs.push_back(big); e.finish(); }
            else if (w == 1 && e.kind != LIT) { e.has_dt = true; e.dt = big; }
            else { e.has_gl = true; e.gl = big; }
        }
        if (s.chance(1, 20) && e.tagged()) for (int c = 'A'; c < 'Z'; c++) e.shorts += (char)c;
    }
    sp.cap = s.chance(1, 3) ? s.range(1, 3) : s.range(1, 30);
    bool posix = s.chance(1, 6);
    set_posix(posix);
    Built b = build(sp);
    b.set_defaults();
    int rounds = s.range(1, 3);
    string ctx;
    std::vector<std::unique_ptr<Argv>> keep;
    for (int r = 0; r < rounds; r++) {
        vector<string> a;
        if (s.coin()) a = gen_argv(s, sp, s.chance(1, 10) ? 60 : 10);
        else { Plan p = gen_plan(s, sp, 3); std::set<string> f; a = spell(s, sp, p, &f); }
        int m = s.range(0, 4);
        for (int i = 0; i < m && a.size() > 1; i++) {
            string& t = a[1 + s.below((u32)a.size() - 1)];
            switch (s.below(5)) {
                case 0: t.insert(s.below((u32)t.size() + 1), 1, (char)(1 + s.below(255))); break;
                case 1: if (!t.empty()) t[s.below((u32)t.size())] = (char)(1 + s.below(255)); break;
                case 2: t += string((size_t)(s.chance(1, 1000) ? s.pick<int>({32767, 65535, 70000}) + s.range(-3, 3) : s.range(1, 400)), 'z'); break;
                case 3: t.insert(0, s.coin() ? "-" : "--"); break;
                default: t = t.substr(0, s.below((u32)t.size() + 1)); break;
            }
        }
        keep.emplace_back(new Argv(a));
        Argv& av = *keep.back();
        ctx = sp.desc() + " " + argv_desc(a) + (posix ? " POSIXLY_CORRECT" : "");
        int ret = arg_parse(av.argc(), av.p.data(), b.tab.data());
        av.check_untouched();
        Obs o = observe(b, ret);
        REQUIRE(ret >= 0 && ret == b.end()->count, "returned %d\n  %s", ret, ctx.c_str());
        for (size_t i = 0; i < sp.e.size(); i++) REQUIRE(o.count[i] >= 0 && o.count[i] <= sp.e[i].emax(), "entry %zu counts %d, maximum %d\n  %s", i, o.count[i], sp.e[i].emax(), ctx.c_str());
        print_all(b.tab.data(), raw_prog(s), b.end(), sp.e.size());
        s.label(ret ? "errors" : "accepted");
    }
    s.nontrivial(ctx);
}
// tiny alphabet, complete: termination and bounds on every command line of up to 3 tokens of up to 3 characters
static void t_small(Src& s) {
    static const char AL[] = "-ab=";
    vector<string> a{"prog"};
    u32 kind = s.below(8);
    for (int i = 0; i < 3; i++) {
        string t;
        bool stop = false;
        for (int k = 0; k < (i < 2 ? 3 : 2); k++) {
            u32 c = s.below(5);
            if (!c) { if (k == 0) stop = true; break; }
            t += AL[c - 1];
        }
        if (stop) break;
        a.push_back(t);
    }
    RawTable t;
    RawEntry x;
    x.kind = STR; x.hs = true; x.sh = kind & 1 ? "b-" : "b"; x.hl = true; x.lo = "b,ab"; x.max = 2; x.optval = (kind & 2) != 0;
    t.e.push_back(x);
    x = RawEntry(); x.kind = LIT; x.hs = true; x.sh = "a"; x.hl = true; x.lo = "aa"; x.max = 2;
    t.e.push_back(x);
    x = RawEntry(); x.kind = STR; x.max = 1;
    t.e.push_back(x);
    t.cap = 2;
    set_posix((kind & 4) != 0);
    t.make();
    Argv av(a);
    int ret = arg_parse(av.argc(), av.p.data(), t.tab.data());
    av.check_untouched();
    string ctx = fmt("variant %u ", kind) + argv_desc(a);
    t.check(ret, ctx);
    capture_ds(API, [&](arg_dstr_t d) { arg_print_errors_ds(d, (struct arg_end*)t.tab.back(), "p"); });
    arg_freetable(t.tab.data(), t.tab.size());
    if (a.size() >= 2) s.nontrivial(ctx);
}
#ifdef PBT_MSAN
PBT_MAIN("C01", nullptr, Test{"raw", t_raw, false, 60000, 2000000}, Test{"damaged", t_damaged, false, 40000, 1500000})
#else
PBT_MAIN("C01", nullptr, Test{"small", t_small, true, 1200000, 4000000}, Test{"raw", t_raw, false, 200000, 6000000}, Test{"damaged", t_damaged, false, 100000, 3000000})
#endif
