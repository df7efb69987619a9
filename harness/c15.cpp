// C15: the sub-command registry is an exact map from names to commands.
// Oracle: std::map over the whole history, call ledger of the handlers, allocation hooks.
#include "text.hpp"
#include "heap.hpp"

struct Call { int fn; int argc; char** argv; arg_dstr_t res; void* ctx; };
static vector<Call>* g_calls;
static std::function<void()>* g_inside;
template <int N> static int handler(int argc, char* argv[], arg_dstr_t res, void* ctx) {
    int d = heap::depth;
    heap::depth = 0;
    g_calls->push_back({N, argc, argv, res, ctx});
    if (g_inside && *g_inside) { auto f = *g_inside; (*g_inside) = nullptr; f(); }
    heap::depth = d;
    if (res) { heap::In in; arg_dstr_catf(res, "<%d>", N); }
    return N * 1000 + argc;
}
static arg_cmdfn* const FN[] = {handler<0>, handler<1>, handler<2>, handler<3>, handler<4>, handler<5>, handler<6>, handler<7>};
static char g_ctx[64];
struct Cmd { string desc; int fn; void* ctx; };

static string gen_cmd_name(Src& s) {
    switch (s.weighted({4, 3, 2, 2, 1})) {
        case 0: return fmt("cmd%d", s.range(0, 40));
        case 1: {  // names with equal hash values under the usual string hashes
            string r;
            int n = s.range(1, 4);
            for (int i = 0; i < n; i++) r += s.coin() ? "Ez" : "FY";
            return r;
        }
        case 2: return s.pick_s({"help", "list", "", "a", "b", "help ", "Help", "a b"});
        case 3:
            if (s.coin()) {  // long common beginning, different end
                string r((size_t)s.tail(ARG_CMD_NAME_LEN - 3), "pr"[s.below(2)]);
                int k = s.range(0, 2);
                for (int i = 0; i < k; i++) r += (char)('a' + s.below(3));
                return r;
            }
            { int n = s.range(90, ARG_CMD_NAME_LEN - 1); string r; for (int i = 0; i < n; i++) r += (char)('a' + s.below(3)); return r; }
        default: { int n = s.range(0, 6); string r; for (int i = 0; i < n; i++) r += (char)(1 + s.below(255)); return r; }
    }
}
static string gen_cmd_desc(Src& s) {
    if (s.chance(1, 8)) return string((size_t)s.tail(ARG_CMD_DESCRIPTION_LEN - 1), (char)('a' + s.below(26)));
    return s.chance(1, 3) ? gen_text(s, 60) : fmt("description %d", s.range(0, 999));
}
static void check_all(const std::map<string, Cmd>& m, const string& ops) {
    unsigned n;
    { heap::In in; n = arg_cmd_count(); }
    REQUIRE(n == m.size(), "count is %u, %zu names are known\n  %s", n, m.size(), ops.c_str());
    for (auto& k : m) {
        arg_cmd_info_t* i = arg_cmd_info(k.first.c_str());
        REQUIRE(i, "%s is not found\n  %s", q(k.first).c_str(), ops.c_str());
        REQUIRE(k.first == i->name && k.second.desc == i->description && i->proc == FN[k.second.fn] && i->ctx == k.second.ctx,
                "%s has name %s description %s, expected %s (or handler/context differ)\n  %s", q(k.first).c_str(), q(i->name).c_str(), q(i->description).c_str(), q(k.second.desc).c_str(), ops.c_str());
    }
}
static void check_iteration(const std::map<string, Cmd>& m, const string& ops) {
    arg_cmd_itr_t it;
    { heap::In in; it = arg_cmd_itr_create(); }
    std::set<string> seen;
    if (!m.empty()) {
        bool more;
        do {
            string k = arg_cmd_itr_key(it);
            arg_cmd_info_t* v = arg_cmd_itr_value(it);
            REQUIRE(m.count(k), "iteration yields the unknown name %s\n  %s", q(k).c_str(), ops.c_str());
            REQUIRE(seen.insert(k).second, "iteration yields %s twice\n  %s", q(k).c_str(), ops.c_str());
            REQUIRE(k == v->name && m.at(k).desc == v->description, "iteration yields a wrong value for %s\n  %s", q(k).c_str(), ops.c_str());
            // a search that fails leaves the iteration where it was
            if (seen.size() % 3 == 1) REQUIRE(!arg_cmd_itr_search(it, (void*)"no such command!"), "the iterator finds an unknown name\n  %s", ops.c_str());
            more = arg_cmd_itr_advance(it) != 0;
        } while (more);
    } else REQUIRE(arg_cmd_itr_advance(it) == 0, "an empty registry can be advanced\n  %s", ops.c_str());
    REQUIRE(seen.size() == m.size(), "iteration visited %zu of %zu names\n  %s", seen.size(), m.size(), ops.c_str());
    REQUIRE(arg_cmd_itr_advance(it) == 0, "advance after the end\n  %s", ops.c_str());
    // seek
    for (auto& k : m) {
        REQUIRE(arg_cmd_itr_search(it, (void*)k.first.c_str()), "the iterator does not find %s\n  %s", q(k.first).c_str(), ops.c_str());
        REQUIRE(k.first == arg_cmd_itr_key(it), "the iterator found %s instead of %s\n  %s", q(arg_cmd_itr_key(it)).c_str(), q(k.first).c_str(), ops.c_str());
        REQUIRE(k.second.desc == arg_cmd_itr_value(it)->description, "the iterator's value for %s is wrong\n  %s", q(k.first).c_str(), ops.c_str());
    }
    REQUIRE(!arg_cmd_itr_search(it, (void*)"no such command!"), "the iterator finds an unknown name\n  %s", ops.c_str());
    { heap::In in; arg_cmd_itr_destroy(it); }
}
static void reg(const string& name, int fn, const string& desc, void* ctx) {
    char* n = strdup(name.c_str());
    char* d = strdup(desc.c_str());
    { heap::In in; arg_cmd_register(n, FN[fn], d, ctx); }
    memset(n, '!', name.size());
    memset(d, '!', desc.size());
    free(n);
    free(d);
}
static void t_ops(Src& s) {
    heap::clear();
    vector<Call> calls;
    g_calls = &calls;
    std::function<void()> inside;
    g_inside = &inside;
    int rounds = s.chance(1, 5) ? 2 : 1;
    string ops;
    for (int r = 0; r < rounds; r++) {
        { heap::In in; arg_cmd_init(); }
        std::map<string, Cmd> m;
        int big = s.chance(1, 12) ? s.range(30, s.chance(1, 5) ? 1200 : 120) : 0;  // beyond every growth step
        for (int i = 0; i < big; i++) { string n = fmt("bulk%d", i); Cmd c{fmt("d%d", i), i % 8, g_ctx + i % 64}; reg(n, c.fn, c.desc, c.ctx); m[n] = c; }
        if (big) ops += fmt("bulk(%d) ", big);
        int n = s.range(1, s.chance(1, 8) ? 60 : 15);
        for (int i = 0; i < n; i++) {
            string k = !m.empty() && s.chance(1, 3) ? std::next(m.begin(), (long)s.below((u32)m.size()))->first : gen_cmd_name(s);
            switch (s.weighted({6, 3, 3, 3, 1, 1})) {
                case 0: {
                    Cmd c{gen_cmd_desc(s), (int)s.below(8), s.chance(1, 6) ? nullptr : g_ctx + s.below(64)};
                    ops += "reg(" + q(k) + ") ";
                    reg(k, c.fn, c.desc, c.ctx);
                    m[k] = c;
                    break;
                }
                case 1: {
                    bool own = m.count(k) && s.chance(1, 3);   // under the text the registry itself holds
                    ops += (own ? "unreg-own(" : "unreg(") + q(k) + ") ";
                    { heap::In in; arg_cmd_unregister(own ? arg_cmd_info(k.c_str())->name : k.c_str()); }
                    m.erase(k);
                    break;
                }
                case 2: {
                    ops += "info(" + q(k) + ") ";
                    arg_cmd_info_t* x;
                    { heap::In in; x = arg_cmd_info(k.c_str()); }
                    REQUIRE((x != nullptr) == (m.count(k) > 0), "%s is %s, expected otherwise\n  %s", q(k).c_str(), x ? "known" : "unknown", ops.c_str());
                    break;
                }
                case 3: {
                    if (!m.count(k)) break;
                    Cmd c = m[k];
                    char a0[] = "x", a1[] = "-y";
                    char* av[] = {a0, a1, nullptr};
                    int argc = s.chance(1, 6) ? s.tail(70000) - 3 : s.range(0, 2);
                    arg_dstr_t res = nullptr;
                    bool with = s.chance(4, 5);
                    if (with) { heap::In in; res = arg_dstr_create(); }
                    calls.clear();
                    ops += "dispatch(" + q(k) + ") ";
                    if (s.chance(1, 8)) { ops += "[handler unregisters itself] "; inside = [&] { heap::In in; arg_cmd_unregister(k.c_str()); }; m.erase(k); }
                    else if (s.chance(1, 8)) { ops += "[handler replaces itself] "; inside = [&] { reg(k, 7, "new", g_ctx); }; m[k] = Cmd{"new", 7, g_ctx}; }
                    int ret;
                    bool own = s.chance(1, 6);   // dispatched under the text the registry itself holds
                    if (own) ops += "[own name] ";
                    { heap::In in; ret = arg_cmd_dispatch(own ? arg_cmd_info(k.c_str())->name : k.c_str(), argc, av, res); }
                    REQUIRE(calls.size() == 1, "dispatch made %zu handler calls\n  %s", calls.size(), ops.c_str());
                    REQUIRE(calls[0].fn == c.fn && calls[0].argc == argc && calls[0].argv == av && calls[0].res == res && calls[0].ctx == c.ctx, "handler %d called instead of %d, or with other arguments\n  %s", calls[0].fn, c.fn, ops.c_str());
                    REQUIRE(ret == c.fn * 1000 + argc, "dispatch returned %d, the handler %d\n  %s", ret, c.fn * 1000 + argc, ops.c_str());
                    if (with) { REQUIRE(fmt("<%d>", c.fn) == arg_dstr_cstr(res), "result string %s\n  %s", q(arg_dstr_cstr(res)).c_str(), ops.c_str()); heap::In in; arg_dstr_destroy(res); }
                    break;
                }
                case 4: ops += "iterate "; check_iteration(m, ops); break;
                default: {  // re-register under the text of the existing registration
                    if (!m.count(k)) break;
                    arg_cmd_info_t* x = arg_cmd_info(k.c_str());
                    int f = (int)s.below(8);
                    ops += "rereg-own(" + q(k) + ") ";
                    { heap::In in; arg_cmd_register(x->name, FN[f], x->description, g_ctx); }
                    m[k].fn = f;
                    m[k].ctx = g_ctx;
                    break;
                }
            }
            if (m.size() < 60 || i % 16 == 0) check_all(m, ops);
            if (m.size() > 36) s.label("beyond the first growth step");
        }
        check_all(m, ops);
        check_iteration(m, ops);
        { heap::In in; arg_cmd_uninit(); }
        REQUIRE(heap::live == 0, "%zu blocks of the registry are still allocated after its release\n  %s", heap::live, ops.c_str());
        ops += "| ";
    }
    s.nontrivial(ops);
}
// small scope, complete: every sequence of 5 register/unregister operations over three names (two of them colliding)
static void t_small(Src& s) {
    static const char* N[] = {"Ez", "FY", "k"};
    heap::clear();
    vector<Call> calls;
    g_calls = &calls;
    g_inside = nullptr;
    { heap::In in; arg_cmd_init(); }
    std::map<string, Cmd> m;
    string ops;
    for (int i = 0; i < 6; i++) {
        u32 c = s.below(9);
        string k = N[c % 3];
        if (c < 3) { ops += "reg " + k + " "; reg(k, i % 8, fmt("d%d", i), g_ctx + i); m[k] = Cmd{fmt("d%d", i), i % 8, g_ctx + i}; }
        else if (c < 6) { ops += "unreg " + k + " "; { heap::In in; arg_cmd_unregister(k.c_str()); } m.erase(k); }
        else { if (!m.count(k)) { REQUIRE(!arg_cmd_info(k.c_str()), "%s is known\n  %s", k.c_str(), ops.c_str()); continue; } ops += "run " + k + " "; calls.clear(); int r = arg_cmd_dispatch(k.c_str(), 1, nullptr, nullptr); REQUIRE(calls.size() == 1 && calls[0].fn == m[k].fn && calls[0].ctx == m[k].ctx && r == m[k].fn * 1000 + 1, "dispatch of %s\n  %s", k.c_str(), ops.c_str()); }
        check_all(m, ops);
    }
    check_iteration(m, ops);
    { heap::In in; arg_cmd_uninit(); }
    REQUIRE(heap::live == 0, "%zu blocks leaked\n  %s", heap::live, ops.c_str());
    s.nontrivial(ops);
}
PBT_MAIN("C15", nullptr, Test{"small", t_small, true, 600000, 600000}, Test{"ops", t_ops, false, 60000, 2000000})
