// C19: a failing allocation ends in the panic handler. Every allocation the library makes in a generated
// history is failed once: at the allocation a child process is forked in which it returns NULL (a later
// one may fail too); the child has to reach the panic handler and nothing else.
#include "pbt.hpp"
static int g_in = 0;
struct InLib { InLib() { g_in++; } ~InLib() { g_in--; } };
#include "hist.hpp"
typedef void(arg_panicfn_t)(const char* fmt, ...);
extern "C" void arg_set_panic(arg_panicfn_t*);

enum Mode { OFF, COUNT, ENUMERATE, FAIL_AT };
static Mode g_mode = OFF;
static long g_n, g_fail_at;
static bool g_child, g_panicked;
static long g_bad = -1;
static int g_bad_status;
static const char* g_bad_fn;
static long g_children;

static bool alloc_fails(const char* fn) {
    if (!g_in || g_mode == OFF || g_child) return false;
    long me = g_n++;
    if (g_mode == FAIL_AT) return me == g_fail_at;
    if (g_mode == COUNT) return false;
    if (g_bad >= 0) return false;
    g_children++;
    pid_t p = fork();
    if (p < 0) return false;
    if (p == 0) {
        g_child = true;
        pbt::g_me = nullptr;
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        signal(SIGALRM, SIG_DFL);
        alarm(20);
        return true;
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 42)) { g_bad = me; g_bad_status = st; g_bad_fn = fn; }
    return false;
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
void* __wrap_malloc(size_t n) { return alloc_fails("malloc") ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return alloc_fails("calloc") ? nullptr : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return alloc_fails("realloc") ? nullptr : __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { return alloc_fails("strdup") ? nullptr : __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { return alloc_fails("strndup") ? nullptr : __real_strndup(s, n); }
}
static void on_panic(const char* fmt, ...) {
    if (!g_child || !fmt) _exit(44);
    _exit(42);
}
static void decoy(const char*, ...) { _exit(46); }      // installed for a while and replaced
static string status_str(int st) {
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? string("did not terminate") : fmt("was killed by signal %d", WTERMSIG(st));
    switch (WEXITSTATUS(st)) {
        case 43: return "went on to the end of the history as if nothing had happened";
        case 44: return "called the panic handler wrongly";
        case 46: return "called a panic handler that had been replaced";
        default: return fmt("exited with status %d", WEXITSTATUS(st));
    }
}
static void t_enumerate(Src& s) {
    if (s.coin()) arg_set_panic(decoy);
    arg_set_panic(on_panic);
    g_child = false;
    g_n = 0;
    g_bad = -1;
    g_children = 0;
    g_mode = ENUMERATE;
    string ops;
    try {
        World w(s);
        int n = s.range(1, s.chance(1, 10) ? 25 : 9);
        for (int i = 0; i < n; i++) {
            w.step();
            if (g_child) _exit(43);          // the failing call returned without a panic
            if (s.chance(1, 8)) { arg_set_panic(decoy); w.ops += "panic handler replaced "; arg_set_panic(on_panic); }
        }
        w.finish();
        ops = w.ops;
    } catch (Fail& f) {
        if (g_child) _exit(43);
        throw;
    } catch (...) {
        if (g_child) _exit(43);
        throw;
    }
    if (g_child) _exit(43);
    g_mode = OFF;
    if (g_bad >= 0) fail(fmt("allocation %ld (%s) of %ld failing: the process %s\n  ", g_bad, g_bad_fn, g_n, status_str(g_bad_status).c_str()) + ops);
    s.label(g_n < 10 ? "<10 fault points" : g_n < 50 ? "10..49 fault points" : g_n < 200 ? "50..199 fault points" : ">=200 fault points");
    s.counts["faults injected"] += (u64)g_children;
    if (g_n >= 1) s.nontrivial(ops);
}
// the default handler: message on stderr, unsuccessful exit or abort on request
static void t_default(Src& s) {
    int kind = (int)s.below(4);   // EF_DUMPCORE: unset, empty, "1", "x"
    int before = s.range(0, 2);   // a custom handler may have been installed and replaced before
    u32 seed = s.below(1000);
    vector<u32> script;
    for (int i = 0; i < 400; i++) script.push_back((u32)(mix(seed * 1000ull + (u64)i) >> 33));
    auto history = [&](string* ops) {
        Src t;
        t.mode = Src::REPLAY;
        t.in = &script;
        ShardMem* me = g_me;
        g_me = nullptr;
        arg_set_module_name("m");              // both runs start from the same module identity
        arg_set_module_version(0, 0, 0, "0");
        World w(t);
        for (int i = 0; i < 6; i++) w.step();
        w.finish();
        g_me = me;
        *ops = w.ops;
    };
    (void)before;
    string ops;
    g_child = false;
    g_mode = COUNT;
    g_n = 0;
    try { history(&ops); } catch (Discard&) { g_mode = OFF; throw; }
    long total = g_n;
    g_mode = OFF;
    if (!total) throw Discard{};
    long at = (long)s.below((u32)total);
    int pfd[2];
    if (pipe(pfd)) throw Discard{};
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        g_me = nullptr;
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        close(pfd[0]);
        dup2(pfd[1], 2);
        signal(SIGABRT, SIG_DFL);
        alarm(20);
        if (kind == 0) unsetenv("EF_DUMPCORE");
        else setenv("EF_DUMPCORE", kind == 1 ? "" : kind == 2 ? "1" : "x", 1);
        g_mode = FAIL_AT;
        g_fail_at = at;
        g_n = 0;
        string o;
        try { history(&o); } catch (...) {}
        _exit(g_n > at ? 43 : 45);
    }
    close(pfd[1]);
    string err;
    char buf[4096];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) err.append(buf, (size_t)k);
    close(pfd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 45) throw Discard{};  // the allocation was not made this time
    string ctx = fmt("allocation %ld of %ld fails, EF_DUMPCORE %s: ", at, total, kind == 0 ? "unset" : kind == 1 ? "empty" : "set") + ops;
    if (kind <= 1) REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "the process %s instead of exiting unsuccessfully\n  %s", status_str(st).c_str(), ctx.c_str());
    else REQUIRE(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "the process %s instead of aborting\n  %s", status_str(st).c_str(), ctx.c_str());
    REQUIRE(!err.empty(), "no message on the error stream\n  %s", ctx.c_str());
    s.nontrivial(ctx);
}
PBT_MAIN("C19", nullptr, Test{"default", t_default, false, 4000, 60000}, Test{"enumerate", t_enumerate, false, 12000, 300000})
