// C18: composed help and error messages, exit codes, module identity.
// Oracle: reference rendering (text.hpp) + "last set" model of the module identity.
#include "plan.hpp"
#include "text.hpp"

static int dummy(int, char**, arg_dstr_t, void*) { return 0; }
static string gen_ident(Src& s) {
    switch (s.weighted({4, 1, 2, 1})) {
        case 0: return s.pick_s({"tool", "mod", "a", "my prog", "p%d", "%s%n%s"});
        case 1: return "";
        case 2: { int n = s.range(1, 20); string r; for (int i = 0; i < n; i++) r += (char)(1 + s.below(255)); return r; }
        default: { int n = s.range(90, 600); return string((size_t)n, (char)('a' + s.below(26))); }
    }
}
struct Ident { string name = "<name>", ver = "0.0.0.0"; };
static void set_name(Ident& id, const string& n) {
    char* c = strdup(n.c_str());
    arg_set_module_name(c);
    memset(c, '!', n.size());
    free(c);
    id.name = n.empty() ? "<name>" : n;
}
static void set_version(Ident& id, Src& s) {
    auto num = [&] { return s.chance(1, 5) ? (int)s.below(0xffffffffu) : s.range(0, 30); };
    int a = num(), b = num(), c = num();
    string tag = s.chance(1, 2) ? s.pick_s({"0", "rc1", "", "1234", "%d"}) : gen_ident(s);
    char* t = strdup(tag.c_str());
    arg_set_module_version(a, b, c, t);
    memset(t, '!', tag.size());
    free(t);
    id.ver = fmt("%d.%d.%d.", a, b, c) + tag;
}
static string help_text(const Spec& sp, const Ident& id, const string* desc, const string& cmd) {
    string r;
    if (desc) r += cmd + ": " + *desc + "\n";
    return r + "Usage:\n  " + id.name + usage_verbose(sp, "\n \nAvailable options:\n") + glossary(sp, "  %-23s %s\n") + "\n";
}
static string error_text(const Spec& sp, const Ident& id, const vector<Err>& errs) {
    string r;
    for (auto& e : errs) r += err_text(sp, e, id.name);
    return r + "Usage: \n  " + id.name + usage_verbose(sp, "\n") + "\n";
}
static string gethelp_text(const Ident& id) { return id.name + " v" + id.ver + "\nPlease type '" + id.name + " help' to get more information.\n"; }

static void t_messages(Src& s) {
    Ident id;
    set_name(id, gen_ident(s));
    set_version(id, s);
    string hist;
    // registry
    arg_cmd_init();
    struct Un { ~Un() { arg_cmd_uninit(); } } un;
    std::map<string, string> reg;
    int nr = s.size(4);
    for (int i = 0; i < nr; i++) {
        string n = s.chance(1, 10) && id.name.size() < 64 ? id.name : s.pick_s({"run", "list", "%s", "", "a b", "x", "%%"}), d = s.chance(1, 3) ? gen_text(s, 60) : s.pick_s({"", "does things", "100%", "%n%s", "100%% sure", "%%", "%%%", "a%%b %% c", "line\nline", "\\n"});
        arg_cmd_register(n.c_str(), dummy, d.c_str(), nullptr);
        reg[n] = d;
        hist += "reg(" + q(n) + "," + q(d) + ") ";
        if (s.chance(1, 6)) { arg_cmd_unregister(n.c_str()); reg.erase(n); hist += "unreg(" + q(n) + ") "; }
    }
    int rounds = s.range(1, 4);
    for (int r = 0; r < rounds; r++) {
        if (r && s.coin()) { set_name(id, gen_ident(s)); hist += "name(" + q(id.name) + ") "; }
        if (r && s.coin()) { set_version(id, s); hist += "version(" + q(id.ver) + ") "; }
        TableOpt to;
        to.unique_tags = s.coin();
        to.max_entries = s.chance(1, 8) ? 14 : 6;
        Spec sp = gen_table(s, to);
        vector<string> a;
        std::set<string> f;
        if (to.unique_tags && s.coin()) { Plan p = gen_plan(s, sp, 2); a = spell(s, sp, p, &f); }
        else a = gen_argv(s, sp, 8);
        Model m(sp);
        try { m.run(a, false); } catch (Unspecified&) { throw Discard{}; }
        string cmd = s.chance(1, 10) ? id.name : s.pick_s({"run", "list", "%s", "", "a b", "nope", "%%"});
        const string* desc = reg.count(cmd) ? &reg[cmd] : nullptr;
        string help, err;
        { Mark mark; help = help_text(sp, id, desc, cmd); err = error_text(sp, id, m.o.errs); }
        set_posix(false);
        Built b = build(sp);
        Argv av(a);
        int nerr = arg_parse(av.argc(), av.p.data(), b.tab.data());
        string ctx = hist + sp.desc() + " " + argv_desc(a) + " command " + q(cmd) + " module " + q(id.name);
        string pre = s.chance(1, 3) ? gen_text(s, s.chance(1, 4) ? 500 : 20) : "";
        auto make = [&](std::function<void(arg_dstr_t)> fn) {
            return capture_ds(API, [&](arg_dstr_t d) { if (!pre.empty()) arg_dstr_cat(d, pre.c_str()); fn(d); });
        };
        require_cut(pre + help, make([&](arg_dstr_t d) { arg_make_help_msg(d, cmd.c_str(), b.tab.data()); }), "help message\n  " + ctx);
        require_cut(pre + err, make([&](arg_dstr_t d) { arg_make_syntax_err_msg(d, b.tab.data(), b.end()); }), "error message\n  " + ctx);
        require_eq(pre + gethelp_text(id), make([&](arg_dstr_t d) { arg_make_get_help_msg(d); }), "get-help message\n  " + ctx);
        // the decision
        auto odd = [&] { static const int V[] = {2, -1, -2, 127, 128, 255, 256, 257, 512, 1000, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 24, 1 << 30, INT_MAX, INT_MIN, -256, -65536}; return V[s.below(sizeof V / sizeof *V)]; };
        int hs[] = {0, 1, 3, s.range(-2, 2), odd()};
        int ns[] = {nerr, 0, nerr + 1, s.range(-1, 2), odd()};
        for (int hc : hs) for (int ne : ns) {
            int mark = 4711, code = mark, ret = -1;
            string got = make([&](arg_dstr_t d) { ret = arg_make_syntax_err_help_msg(d, cmd.c_str(), hc, ne, b.tab.data(), b.end(), &code); });
            string c2 = ctx + fmt(" help=%d nerrors=%d", hc, ne);
            if (hc > 0) {
                require_cut(pre + help, got, "a request for help gives another text\n  " + c2);
                REQUIRE(ret == 1 && code == EXIT_SUCCESS, "help: returned %d with exit code %d\n  %s", ret, code, c2.c_str());
            } else if (ne > 0) {
                require_cut(pre + err, got, "errors give another text\n  " + c2);
                REQUIRE(ret == 1 && code == EXIT_FAILURE, "errors: returned %d with exit code %d\n  %s", ret, code, c2.c_str());
            } else {
                require_eq(pre, got, "nothing to report, but something was written\n  " + c2);
                REQUIRE(ret == 0 && code == mark, "nothing to report: returned %d with exit code %d\n  %s", ret, code, c2.c_str());
            }
        }
        hist = ctx + " ";
        s.label(nerr ? "with errors" : "without errors");
        if (desc) s.label("registered command");
    }
    s.nontrivial(hist);
}
// module identity in a process where it was never set, then through a history of changes
static void t_identity(Src& s) {
    int n = s.range(0, 6);
    vector<u32> kinds;
    int pfd[2];
    if (pipe(pfd)) throw Discard{};
    // decisions first, so that the child only executes
    struct Step { int kind; string text; int a, b, c; };
    vector<Step> st;
    string hist, want;
    Ident id;
    want += gethelp_text(id);
    for (int i = 0; i < n; i++) {
        Step x{(int)s.below(2), gen_ident(s), s.range(0, 99), (int)s.below(0xffffffffu), s.range(0, 9)};
        st.push_back(x);
        if (x.kind == 0) { id.name = x.text.empty() ? "<name>" : x.text; hist += "name(" + q(x.text) + ") "; }
        else { id.ver = fmt("%d.%d.%d.", x.a, x.b, x.c) + x.text; hist += "version(" + q(id.ver) + ") "; }
        want += gethelp_text(id);
    }
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        string out;
        auto show = [&] { out += capture_ds(API, [&](arg_dstr_t d) { arg_make_get_help_msg(d); }); };
        show();
        for (auto& x : st) {
            if (x.kind == 0) arg_set_module_name(x.text.c_str());
            else arg_set_module_version(x.a, x.b, x.c, x.text.c_str());
            show();
        }
        size_t off = 0;
        while (off < out.size()) { ssize_t k = write(pfd[1], out.data() + off, out.size() - off); if (k <= 0) break; off += (size_t)k; }
        _exit(0);
    }
    close(pfd[1]);
    string got;
    char buf[4096];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) got.append(buf, (size_t)k);
    close(pfd[0]);
    int status = 0;
    waitpid(p, &status, 0);
    REQUIRE(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the process ended with status %#x\n  %s", status, hist.c_str());
    require_eq(want, got, "module identity after: " + hist);
    s.nontrivial("identity: " + hist);
}
PBT_MAIN("C18", nullptr, Test{"identity", t_identity, false, 4000, 40000}, Test{"messages", t_messages, false, 60000, 2000000})
