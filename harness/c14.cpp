// C14: dynamic strings behave as unbounded strings with exact ownership.
// Oracle: std::string, a release ledger and the allocation hooks.
#include "text.hpp"
#include "heap.hpp"

struct Given {           // memory the caller handed over
    char* p;
    string content;      // for static ones: must stay as it was
    int mode;            // 0 static, 1 library free, 2 custom deallocator
    int freed = 0;
};
static vector<Given>* g_given;
static void custom_free(char* p) {
    for (auto& g : *g_given)
        if (g.p == p && g.mode == 2) { g.freed++; if (g.freed == 1) free(p); return; }
    fprintf(stderr, "deallocator called with an unknown pointer\n");
    abort();
}
struct Live {
    arg_dstr_t ds = nullptr;
    string model;
    int owner = -1;      // index in given of the current data, -1 = the library's own
    bool released = false;   // arg_dstr_free was called: only set, reset and destroy are legal
};
static string gen_piece(Src& s) {
    static const int T[] = {0, 1, 15, 16, 17, 31, 32, 99, 100, 101, 198, 199, 200, 201, 202, 398, 399, 400, 401, 499, 500, 501, 502, 1000, 4096};
    int n = s.chance(1, 2) ? s.range(0, 12) : s.chance(1, 6) ? s.range(0, 3000) : T[s.below(25)] + (s.chance(1, 3) ? s.range(0, 3) : 0);
    if (s.chance(1, 400)) n = s.pick<int>({16384, 32767, 32768, 65535, 65536, 100000, 262144}) + s.range(-2, 2);
    string r;
    u64 x = s.below(1000);
    for (int i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; r += (char)(32 + (x >> 40) % 95); }
    if (n && s.chance(1, 10)) r[s.below((u32)n)] = (char)(128 + s.below(128));
    if (n && s.chance(1, 10)) r[s.below((u32)n)] = '%';
    return r;
}
static void t_ops(Src& s) {
    heap::clear();
    vector<Given> given;
    given.reserve(400);
    g_given = &given;
    int ns = s.chance(1, 4) ? 2 : 1;
    vector<Live> L((size_t)ns);
    string ops;
    for (auto& l : L) { heap::In in; l.ds = arg_dstr_create(); }
    auto release_expected = [&](Live& l, const char* what) {
        if (l.owner >= 0 && given[(size_t)l.owner].mode == 2)
            REQUIRE(given[(size_t)l.owner].freed == 1, "deallocator called %d times after the string was %s\n  %s", given[(size_t)l.owner].freed, what, ops.c_str());
        l.owner = -1;
    };
    int n = s.range(1, s.chance(1, 10) ? 60 : 14);
    for (int i = 0; i < n; i++) {
        Live& l = L[s.below((u32)ns)];
        u32 op = s.weighted({6, 3, 4, 2, 2, 2, 2, 1, 1, 1, 1});
        if (l.released && !(op == 4 || op == 5 || op == 6 || op == 7 || op == 3)) op = 7;
        string id = ns > 1 ? fmt("[%d]", (int)(&l - &L[0])) : string();
        switch (op) {
            case 0: {  // append
                string p = gen_piece(s);
                ops += id + fmt("cat(%zu) ", p.size());
                { heap::In in; arg_dstr_cat(l.ds, p.c_str()); }
                l.model += p;
                release_expected(l, "appended to");
                break;
            }
            case 1: {
                char c = s.chance(1, 12) ? 0 : (char)(1 + s.below(255));
                ops += id + fmt("catc(%d) ", c);
                { heap::In in; arg_dstr_catc(l.ds, c); }
                if (c) l.model += c;
                release_expected(l, "appended to");
                break;
            }
            case 2: {  // formatted
                string p = gen_piece(s), x;
                int a = (int)s.below(0xffffffffu), w = s.range(0, 300);
                ops += id;
                bool null_fmt = false;
                switch (s.below(8)) {
                    case 0: x = p; ops += fmt("catf(%%s,%zu) ", p.size()); { heap::In in; arg_dstr_catf(l.ds, "%s", p.c_str()); } break;
                    case 1: x = fmt("%d:%s", a, p.c_str()); ops += "catf(%d:%s) "; { heap::In in; arg_dstr_catf(l.ds, "%d:%s", a, p.c_str()); } break;
                    case 2: x = fmt("%*d", w, a); ops += fmt("catf(%%*d,%d) ", w); { heap::In in; arg_dstr_catf(l.ds, "%*d", w, a); } break;
                    case 3: x = fmt("%s%s", p.c_str(), p.c_str()); ops += "catf(%s%s) "; { heap::In in; arg_dstr_catf(l.ds, "%s%s", p.c_str(), p.c_str()); } break;
                    case 4: x = ""; ops += "catf(\"\") "; { heap::In in; arg_dstr_catf(l.ds, "%s", ""); } break;
                    case 5: x = fmt("%-*s|%5.2f%%", w, p.substr(0, 20).c_str(), a / 1024.0); ops += "catf(%-*s|%5.2f%%) "; { heap::In in; arg_dstr_catf(l.ds, "%-*s|%5.2f%%", w, p.substr(0, 20).c_str(), a / 1024.0); } break;
                    case 6: null_fmt = true; ops += "catf(NULL) "; { heap::In in; arg_dstr_catf(l.ds, nullptr); } break;
                    default: { string f; for (char c : p) { if (c == '%') f += '%'; f += c; } x = p; ops += fmt("catf(literal %zu) ", p.size()); { heap::In in; arg_dstr_catf(l.ds, f.c_str()); } break; }
                }
                l.model += x;
                if (!null_fmt) release_expected(l, "appended to");
                break;
            }
            case 3: {
                ops += id + "reset ";
                { heap::In in; arg_dstr_reset(l.ds); }
                l.model.clear();
                l.released = false;
                release_expected(l, "reset");
                break;
            }
            case 4: {  // copied
                string p = gen_piece(s);
                ops += id + fmt("set(volatile %zu) ", p.size());
                char* tmp = new char[p.size() + 1];
                memcpy(tmp, p.c_str(), p.size() + 1);
                { heap::In in; arg_dstr_set(l.ds, tmp, ARG_DSTR_VOLATILE); }
                memset(tmp, '#', p.size());
                delete[] tmp;
                l.model = p;
                l.released = false;
                release_expected(l, "replaced");
                break;
            }
            case 5: case 6: {  // handed over
                string p = gen_piece(s);
                Given g;
                g.mode = op == 5 ? 2 : (s.coin() ? 1 : 0);
                g.content = p;
                if (given.size() >= 390) break;
                g.p = (char*)malloc(p.size() + 1);
                memcpy(g.p, p.c_str(), p.size() + 1);
                given.push_back(g);
                ops += id + fmt("set(%s %zu) ", g.mode == 0 ? "static" : g.mode == 1 ? "dynamic" : "custom", p.size());
                { heap::In in; arg_dstr_set(l.ds, g.p, g.mode == 0 ? ARG_DSTR_STATIC : g.mode == 1 ? ARG_DSTR_DYNAMIC : custom_free); }
                l.model = p;
                l.released = false;
                release_expected(l, "replaced");
                l.owner = (int)given.size() - 1;
                break;
            }
            case 7: {
                ops += id + "set(NULL) ";
                { heap::In in; arg_dstr_set(l.ds, nullptr, s.coin() ? ARG_DSTR_STATIC : ARG_DSTR_VOLATILE); }
                l.model.clear();
                l.released = false;
                release_expected(l, "replaced");
                break;
            }
            case 8: {  // part of its own value, copied
                if (l.released) break;
                if (l.owner >= 0 && s.coin()) {  // the same text under another ownership: nothing is released
                    Given& g = given[(size_t)l.owner];
                    g.mode = s.range(0, 2);
                    ops += id + fmt("set(same, %s) ", g.mode == 0 ? "static" : g.mode == 1 ? "dynamic" : "custom");
                    { heap::In in; arg_dstr_set(l.ds, g.p, g.mode == 0 ? ARG_DSTR_STATIC : g.mode == 1 ? ARG_DSTR_DYNAMIC : custom_free); }
                    REQUIRE(g.freed == 0, "the current text was released when only its ownership changed\n  %s", ops.c_str());
                    break;
                }
                size_t off = s.below((u32)l.model.size() + 1);
                ops += id + fmt("set(own+%zu) ", off);
                { heap::In in; arg_dstr_set(l.ds, arg_dstr_cstr(l.ds) + off, ARG_DSTR_VOLATILE); }
                l.model = l.model.substr(off);
                release_expected(l, "replaced");
                break;
            }
            case 9: {
                ops += id + "destroy+create ";
                { heap::In in; arg_dstr_destroy(l.ds); }
                release_expected(l, "destroyed");
                { heap::In in; l.ds = arg_dstr_create(); }
                l.model.clear();
                l.released = false;
                break;
            }
            default: {
                if (l.released) break;
                ops += id + "free ";
                { heap::In in; arg_dstr_free(l.ds); }
                if (l.owner >= 0 && given[(size_t)l.owner].mode == 2) REQUIRE(given[(size_t)l.owner].freed == 1, "deallocator called %d times by an explicit free\n  %s", given[(size_t)l.owner].freed, ops.c_str());
                // a dynamic value is gone now; static and own buffers stay readable but the caller starts over
                l.released = true;
                l.owner = l.owner >= 0 && given[(size_t)l.owner].mode == 0 ? l.owner : -1;
                break;
            }
        }
        for (auto& k : L)
            if (!k.released) {
                const char* got = arg_dstr_cstr(k.ds);
                if (k.model != got) fail(fmt("string %d holds ", (int)(&k - &L[0])) + q(string(got).substr(0, 300)) + fmt(" (%zu bytes), expected ", strlen(got)) + q(k.model.substr(0, 300)) + fmt(" (%zu bytes)\n  ", k.model.size()) + ops);
            }
        for (size_t g = 0; g < given.size(); g++) {
            bool cur = false;
            for (auto& k : L) cur |= k.owner == (int)g;
            if (given[g].mode == 0) REQUIRE(given[g].content == given[g].p, "a static string was modified\n  %s", ops.c_str());
            if (given[g].mode == 2 && cur) REQUIRE(given[g].freed == 0, "released while still in use\n  %s", ops.c_str());
            if (given[g].mode == 2) REQUIRE(given[g].freed <= 1, "released %d times\n  %s", given[g].freed, ops.c_str());
            if (given[g].mode == 2 && cur) REQUIRE(given[g].content == given[g].p, "a handed-over string was modified\n  %s", ops.c_str());
        }
    }
    for (auto& l : L) { heap::In in; arg_dstr_destroy(l.ds); }
    { heap::In in; arg_dstr_destroy(nullptr); }
    for (auto& g : given) {
        if (g.mode == 2) REQUIRE(g.freed == 1, "deallocator called %d times by the end\n  %s", g.freed, ops.c_str());
        if (g.mode == 0) { REQUIRE(g.content == g.p, "a static string was modified\n  %s", ops.c_str()); free(g.p); }
        // mode 1 was released by the library: the leak ledger below and the sanitizer decide
    }
    REQUIRE(heap::live == 0, "%zu blocks of the library are still allocated\n  %s", heap::live, ops.c_str());
    if (n >= 2) s.nontrivial(ops);
}
// memory handed over for the library to free is freed exactly once: seen through the hooks
static const void* g_watch;
static int g_watch_freed;
static void watch_free(const volatile void* p) { if (p == g_watch) { g_watch_freed++; g_watch = nullptr; } }
static void t_dynamic(Src& s) {
    heap::clear();
    static bool inst = false;
    if (!inst) { __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) {}, watch_free); inst = true; }
    string p = gen_piece(s), ops = fmt("set(dynamic %zu) ", p.size());
    char* m = (char*)malloc(p.size() + 1);
    memcpy(m, p.c_str(), p.size() + 1);
    arg_dstr_t ds = arg_dstr_create();
    int pre = s.range(0, 3);
    for (int i = 0; i < pre; i++) { string x = gen_piece(s); arg_dstr_cat(ds, x.c_str()); ops = fmt("cat(%zu) ", x.size()) + ops; }
    g_watch_freed = 0;
    g_watch = m;
    arg_dstr_set(ds, m, ARG_DSTR_DYNAMIC);
    REQUIRE(!g_watch_freed && p == arg_dstr_cstr(ds), "freed or changed at once\n  %s", ops.c_str());
    string x = gen_piece(s);
    switch (s.below(7)) {
        case 0: arg_dstr_cat(ds, x.c_str()); ops += fmt("cat(%zu)", x.size()); REQUIRE(p + x == arg_dstr_cstr(ds), "content\n  %s", ops.c_str()); break;
        case 1: arg_dstr_reset(ds); ops += "reset"; break;
        case 2: arg_dstr_set(ds, (char*)x.c_str(), ARG_DSTR_VOLATILE); ops += fmt("set(volatile %zu)", x.size()); break;
        case 3: arg_dstr_set(ds, (char*)x.c_str(), ARG_DSTR_STATIC); ops += "set(static)"; break;
        case 4: arg_dstr_set(ds, nullptr, ARG_DSTR_STATIC); ops += "set(NULL)"; break;
        case 5: arg_dstr_catc(ds, 'x'); ops += "catc"; break;
        default: ops += "destroy"; break;
    }
    if (ops.find("destroy") == string::npos) REQUIRE(g_watch_freed == 1, "memory handed over was freed %d times\n  %s", g_watch_freed, ops.c_str());
    arg_dstr_destroy(ds);
    REQUIRE(g_watch_freed == 1, "memory handed over was freed %d times by the end\n  %s", g_watch_freed, ops.c_str());
    s.nontrivial(ops);
}
// all growth steps: append in one-byte or k-byte steps over the thresholds
static void t_growth(Src& s) {
    int start = (int)s.below(64) * 17 % 450, step = (int)s.below(12);
    static const int STEP[] = {1, 2, 3, 7, 16, 50, 99, 100, 101, 150, 199, 200};
    int mode = (int)s.below(3);
    heap::clear();
    arg_dstr_t ds;
    { heap::In in; ds = arg_dstr_create(); }
    string init((size_t)start, 'i'), model = init;
    { heap::In in; if (mode == 0) arg_dstr_cat(ds, init.c_str()); else arg_dstr_set(ds, (char*)init.c_str(), mode == 1 ? ARG_DSTR_VOLATILE : ARG_DSTR_STATIC); }
    int k = STEP[step];
    for (int i = 0; i < 1200; i += k) {
        string p((size_t)k, (char)('a' + i % 26));
        { heap::In in; if (k == 1) arg_dstr_catc(ds, p[0]); else if (i & 1) arg_dstr_cat(ds, p.c_str()); else arg_dstr_catf(ds, "%s", p.c_str()); }
        model += p;
        if (model != arg_dstr_cstr(ds)) fail(fmt("start %d (mode %d) step %d: wrong content after %d bytes: got %zu bytes", start, mode, k, i + k, strlen(arg_dstr_cstr(ds))));
    }
    { heap::In in; arg_dstr_destroy(ds); }
    REQUIRE(heap::live == 0, "%zu blocks leaked", heap::live);
    s.nontrivial(fmt("grow from %d (mode %d) by %d", start, mode, k));
}
PBT_MAIN("C14", nullptr, Test{"growth", t_growth, true, 10000, 10000}, Test{"dynamic", t_dynamic, false, 60000, 1000000}, Test{"ops", t_ops, false, 150000, 5000000})
