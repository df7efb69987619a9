// hist.hpp - generated histories over the whole public API: tables, parses, printing, dynamic strings,
// sub-commands, messages, sorting. The including file defines a scope type InLib, alive during library calls.
#pragma once
#ifndef HIST_LARGE
#define HIST_LARGE 1000   // one in this many strings is large
#endif
#include "plan.hpp"
#include "text.hpp"
#include <memory>

#define L(x) ([&] { InLib in_lib_; return x; }())

static int hist_handler(int argc, char* argv[], arg_dstr_t res, void* ctx) { if (res) arg_dstr_catf(res, "%d:%s", argc, (const char*)ctx); return argc; }
static int hist_cmp(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }

struct HTable {
    Spec sp;
    Built b;
    std::vector<std::unique_ptr<Argv>> args;
};
struct World {
    Src& s;
    string ops;
    std::vector<std::unique_ptr<HTable>> tabs;
    vector<arg_dstr_t> ds;
    bool cmds = false;
    vector<string> names;
    explicit World(Src& src) : s(src) {}

    HTable* table() {
        if (tabs.empty() || (tabs.size() < 3 && s.chance(1, 4))) {
            TableOpt to;
            to.max_entries = s.chance(1, 10) ? 20 : 6;
            to.unique_tags = s.coin();
            std::unique_ptr<HTable> t(new HTable);
            t->sp = gen_table(s, to);
            ops += t->sp.desc() + " ";
            t->b.sp = &t->sp;
            t->b.api = API;
            for (auto& e : t->sp.e) t->b.tab.push_back(L(build_entry(e, API)));
            int cap = t->sp.cap;
            t->b.tab.push_back(L((void*)arg_end(cap)));
            tabs.push_back(std::move(t));
        }
        return tabs[s.below((u32)tabs.size())].get();
    }
    arg_dstr_t dstr() {
        if (ds.empty() || (ds.size() < 3 && s.chance(1, 4))) { ops += "dstr "; ds.push_back(L(arg_dstr_create())); }
        return ds[s.below((u32)ds.size())];
    }
    void free_table(size_t i) {
        HTable* t = tabs[i].get();
        size_t n = t->b.tab.size();
        vector<void*>& v = t->b.tab;
        u32 how = s.below(4);
        ops += fmt("free%u ", how);
        if (how == 0) { InLib in; arg_freetable(v.data(), n); }
        else if (how == 1) { InLib in; arg_free(v.data()); }
        else if (how == 2) {          // in two parts
            size_t k = s.below((u32)n + 1);
            { InLib in; arg_freetable(v.data(), k); }
            for (size_t j = 0; j < n; j++) REQUIRE((v[j] == nullptr) == (j < k), "freeing %zu of %zu slots: slot %zu is %s\n  %s", k, n, j, v[j] ? "still set" : "cleared", ops.c_str());
            InLib in;
            arg_freetable(v.data() + k, n - k);
        } else {                      // some entries were taken out and freed alone
            for (size_t j = 0; j < n; j++)
                if (s.chance(1, 3)) { void* one = v[j]; InLib in; arg_freetable(&one, 1); v[j] = nullptr; }
            InLib in;
            arg_freetable(v.data(), n);
        }
        for (size_t j = 0; j < n; j++) REQUIRE(!v[j], "slot %zu of %zu is not cleared by freeing the table (way %u)\n  %s", j, n, how, ops.c_str());
        if (s.chance(1, 4)) { InLib in; arg_freetable(v.data(), n); }   // again: nothing left to free
        t->b.tab.clear();
        tabs.erase(tabs.begin() + (long)i);
    }
    void need_cmds() { if (!cmds) { { InLib in; arg_cmd_init(); } cmds = true; ops += "cmd_init "; } }
    void step() {
        switch (s.weighted({6, 4, 3, 5, 2, 3, 2, 1, 1, 1, 2})) {
            case 0: {  // parse
                HTable* t = table();
                vector<string> a;
                if (s.chance(1, 3)) { Plan p = gen_plan(s, t->sp, 2); std::set<string> f; a = spell(s, t->sp, p, &f); }
                else a = gen_argv(s, t->sp, 8);
                t->args.emplace_back(new Argv(a));
                Argv& av = *t->args.back();
                set_posix(s.chance(1, 8));
                ops += "parse" + argv_desc(a) + " ";
                int argc = av.argc();
                char** p = av.p.data();
                void** tb = t->b.tab.data();
                L(arg_parse(argc, p, tb));
                set_posix(false);
                break;
            }
            case 1: {  // print into a string
                HTable* t = table();
                arg_dstr_t d = dstr();
                void** tb = t->b.tab.data();
                u32 w = s.below(6);
                ops += fmt("print_ds%u ", w);
                InLib in;
                switch (w) {
                    case 0: arg_print_syntax_ds(d, tb, "\n"); break;
                    case 1: arg_print_syntaxv_ds(d, tb, nullptr); break;
                    case 2: arg_print_glossary_ds(d, tb, nullptr); break;
                    case 3: arg_print_glossary_gnu_ds(d, tb); break;
                    case 4: arg_print_errors_ds(d, t->b.end(), "prog"); break;
                    default: arg_print_option_ds(d, "ab", "long,longer", "<x>", "\n"); break;
                }
                break;
            }
            case 2: {  // print to a stream
                HTable* t = table();
                void** tb = t->b.tab.data();
                u32 w = s.below(7);
                string txt = gen_text(s, 200);
                ops += fmt("print%u ", w);
                capture([&](FILE* f) {
                    InLib in;
                    switch (w) {
                        case 0: arg_print_syntax(f, tb, "\n"); break;
                        case 1: arg_print_syntaxv(f, tb, "\n"); break;
                        case 2: arg_print_glossary(f, tb, "%-10s %s\n"); break;
                        case 3: arg_print_glossary_gnu(f, tb); break;
                        case 4: arg_print_errors(f, t->b.end(), "prog"); break;
                        case 5: arg_print_option(f, "ab", "long", "<x>", "\n"); break;
                        default: arg_print_formatted(f, 5, 30, txt.c_str()); break;
                    }
                });
                break;
            }
            case 3: {  // dynamic string operations
                arg_dstr_t d = dstr();
                string x = string((size_t)(s.chance(1, HIST_LARGE) ? s.tail(70000) : s.chance(1, 3) ? s.range(150, 900) : s.range(0, 20)), 'x');
                u32 w = s.below(6);
                ops += fmt("dstr%u(%zu) ", w, x.size());
                InLib in;
                switch (w) {
                    case 0: arg_dstr_cat(d, x.c_str()); break;
                    case 1: arg_dstr_catf(d, "%s-%d", x.c_str(), 5); break;
                    case 2: for (char c : x) arg_dstr_catc(d, c); break;
                    case 3: arg_dstr_set(d, (char*)x.c_str(), ARG_DSTR_VOLATILE); break;
                    case 4: arg_dstr_set(d, (char*)"static", ARG_DSTR_STATIC); break;
                    default: arg_dstr_reset(d); break;
                }
                break;
            }
            case 4: if (!ds.empty()) { size_t i = s.below((u32)ds.size()); ops += "dstr_destroy "; { InLib in; arg_dstr_destroy(ds[i]); } ds.erase(ds.begin() + (long)i); } break;
            case 5: {  // sub-commands
                need_cmds();
                string n = fmt("c%d", s.range(0, 12));
                u32 w = s.weighted({5, 2, 2, 1, 1});
                ops += fmt("cmd%u(%s) ", w, n.c_str());
                if (w == 0) { InLib in; arg_cmd_register(n.c_str(), hist_handler, "a description", (void*)"ctx"); }
                else if (w == 1) { InLib in; arg_cmd_unregister(n.c_str()); }
                else if (w == 2) {
                    arg_dstr_t d = dstr();
                    InLib in;
                    if (arg_cmd_info(n.c_str())) arg_cmd_dispatch(n.c_str(), 3, nullptr, d);
                } else if (w == 3) {
                    InLib in;
                    arg_cmd_itr_t it = arg_cmd_itr_create();
                    while (arg_cmd_itr_advance(it)) {}
                    arg_cmd_itr_search(it, (void*)n.c_str());
                    arg_cmd_itr_destroy(it);
                } else {
                    int k = s.chance(1, 4) ? s.range(70, 600) : s.range(20, 70);
                    for (int i = 0; i < k; i++) { string m = fmt("bulk%d", i); InLib in; arg_cmd_register(m.c_str(), hist_handler, "", nullptr); }
                }
                break;
            }
            case 6: {  // composed messages
                need_cmds();
                HTable* t = table();
                arg_dstr_t d = dstr();
                u32 w = s.below(4);
                ops += fmt("msg%u ", w);
                void** tb = t->b.tab.data();
                int code = 0, h = s.range(0, 1), ne = s.range(0, 1);
                InLib in;
                switch (w) {
                    case 0: arg_make_get_help_msg(d); break;
                    case 1: arg_make_help_msg(d, "c1", tb); break;
                    case 2: arg_make_syntax_err_msg(d, tb, t->b.end()); break;
                    default: arg_make_syntax_err_help_msg(d, "c2", h, ne, tb, t->b.end(), &code); break;
                }
                break;
            }
            case 7: {
                string x = gen_text(s, 40);
                bool n = s.coin();
                ops += n ? "name " : "version ";
                InLib in;
                if (n) arg_set_module_name(x.c_str()); else arg_set_module_version(1, 2, 3, x.c_str());
                break;
            }
            case 8: {
                int n = s.range(0, 40);
                vector<int> v;
                for (int i = 0; i < n; i++) v.push_back((int)s.below(10));
                ops += fmt("sort(%d) ", n);
                int* p = v.data();
                InLib in;
                arg_mgsort(p, n, sizeof(int), 0, n - 1, hist_cmp);
                break;
            }
            case 9: if (!tabs.empty()) free_table(s.below((u32)tabs.size())); break;
            default: {  // entries with arbitrary patterns and formats, well-formed or not
                static const char AL[] = "ab()()[]|*+?{},12^$.\\d-:";
                string pat = s.chance(1, 4) ? s.pick_s({"(a)(b)(c", "((a)|(b))*", "(a", "a)", "[z-a]", "(a)(b)(c)\\", "(a)[", "(?:a)(b){", "((((a))))b**", "(a){99999}", "(((x", "(a|b|c|d)(e)f{2}"}) : "";
                int n = s.range(0, s.chance(1, 6) ? 40 : 10);
                if (pat.empty()) for (int i = 0; i < n; i++) pat += AL[s.below(sizeof AL - 1)];
                string df = s.pick_s({"%Y", "%d/%m", "%Q", "%", "%H:%M", "", "%E", "%c", "%p %I"});
                int mx = s.range(1, s.chance(1, 8) ? 40 : 3), fl = s.coin() ? ARG_REX_ICASE : 0;
                vector<string> a{"prog"};
                int m = s.range(0, 4);
                for (int i = 0; i < m; i++) { a.push_back(s.coin() ? "-r" : "-d"); a.push_back(s.pick_s({"a", "ab", "", "abc", "2020", "1/2", "10:30", "b"})); }
                Argv av(a);
                int argc = av.argc();
                char** p = av.p.data();
                ops += "rex(" + q(pat) + ") date(" + q(df) + ") " + argv_desc(a) + " ";
                void* tab[3];
                tab[0] = L((void*)arg_rexn("r", "rex", pat.c_str(), nullptr, 0, mx, fl, "a pattern"));
                tab[1] = L((void*)arg_daten("d", nullptr, df.c_str(), nullptr, 0, mx, "a date"));
                tab[2] = L((void*)arg_end(mx));
                void** tb = tab;
                L(arg_parse(argc, p, tb));
                arg_dstr_t d = dstr();
                { InLib in; arg_print_errors_ds(d, (struct arg_end*)tb[2], "prog"); arg_print_syntaxv_ds(d, tb, "\n"); }
                { InLib in; arg_freetable(tb, 3); }
                break;
            }
        }
    }
    void finish() {
        while (!tabs.empty()) free_table(0);
        for (auto d : ds) { InLib in; arg_dstr_destroy(d); }
        ds.clear();
        if (cmds) { InLib in; arg_cmd_uninit(); cmds = false; }
    }
};
