// pbt.hpp - a small property-based testing engine for C libraries.
//
//  * A test is a function of a choice source (Src).  Every random decision is a
//    draw "below(n)"; the sequence of draws *is* the test case, so shrinking and
//    replay work on it generically (0 is always the simplest choice).
//  * Draws are recorded in shared memory as they happen, so a case that crashes,
//    hangs or is killed can still be recovered, confirmed and shrunk.
//  * run mode forks a fixed number of shards; the cases of a shard depend only on
//    the seed, the test name and the shard number, never on timing.
//  * Tests may also be enumerated exhaustively (odometer over the choices).
//  * The same test functions serve as libFuzzer targets (PBT_FUZZ).
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pbt {

typedef uint32_t u32;
typedef uint64_t u64;
using std::string;
using std::vector;

struct Fail {
    string what;
};
struct Discard {};

static inline string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static inline string fmt(const char* f, ...) {
    va_list ap, aq;
    va_start(ap, f);
    va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    va_end(ap);
    string s((size_t)(n > 0 ? n : 0) + 1, '\0');
    vsnprintf(&s[0], s.size(), f, aq);
    va_end(aq);
    s.resize((size_t)(n > 0 ? n : 0));
    return s;
}
[[noreturn]] static inline void fail(const string& s) { throw Fail{s}; }
#define REQUIRE(c, ...)                                      \
    do {                                                     \
        if (!(c)) pbt::fail(pbt::fmt(__VA_ARGS__));          \
    } while (0)

static inline string q(const string& s) {  // printable, quoted
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) r += fmt("\\x%02x", c);
        else r += (char)c;
    }
    return r + "\"";
}
static inline string q(const char* s) { return s ? q(string(s)) : string("NULL"); }
static inline string jq(const string& s) {  // JSON string
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}
static inline u64 mix(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline u64 hash_str(const string& s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h);
}

// ---------------------------------------------------------------- shared memory
enum { MAXCH = 1 << 18, NSHARD = 8, BITS = 1 << 26 };
struct ShardMem {
    std::atomic<u64> cases, nontrivial, discarded, cur_index;
    std::atomic<u32> nch;          // draws of the current case so far
    std::atomic<int> stage;        // 0 idle 1 running 2 failed (message valid) 3 done
    char test[64];
    char msg[8192];
    u32 ch[MAXCH];
};
struct Shared {
    ShardMem sh[NSHARD + 1];
    std::atomic<u32> bits[BITS / 32];
};
static Shared* g_sh = nullptr;
static ShardMem* g_me = nullptr;

// ---------------------------------------------------------------- choice source
struct Src {
    enum Mode { RANDOM, REPLAY, ENUM, BYTES } mode = RANDOM;
    u64 rs = 1;
    const vector<u32>* in = nullptr;
    size_t pos = 0;
    const uint8_t* by = nullptr;
    size_t nby = 0;
    vector<u32> bounds;  // ENUM
    u32 n = 0;
    bool is_nontrivial = false;
    string sample;
    std::set<string> labels;
    std::map<string, u64> counts;   // summed over all cases (evidence)

    u64 rnd() { rs += 0x9E3779B97F4A7C15ull; return mix(rs); }
    u32 below(u32 bound) {  // [0,bound)
        u32 v = 0;
        if (bound == 0) bound = 1;
        if (mode == RANDOM) v = (u32)(((rnd() >> 32) * (u64)bound) >> 32);
        else if (mode == REPLAY) { v = pos < in->size() ? (*in)[pos] % bound : 0; pos++; }
        else if (mode == ENUM) {
            v = pos < in->size() ? (*in)[pos] : 0;
            if (v >= bound) v = bound - 1;
            if (pos < bounds.size()) bounds[pos] = bound; else bounds.push_back(bound);
            pos++;
        } else {
            if (bound <= 256) v = pos < nby ? by[pos++] % bound : 0;
            else { u32 x = 0; for (int i = 0; i < 4; i++) x = (x << 8) | (pos < nby ? by[pos++] : 0); v = x % bound; }
        }
        if (g_me) {
            if (n < MAXCH) g_me->ch[n] = v;
            g_me->nch.store(n + 1 < MAXCH ? n + 1 : MAXCH, std::memory_order_relaxed);
        }
        n++;
        if (n > MAXCH - 8 && mode != REPLAY) throw Discard{};
        return v;
    }
    int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }
    bool chance(u32 num, u32 den) { return below(den) >= den - num; }  // 0 => false
    bool coin() { return below(2) == 1; }
    u64 bits64() { u64 a = below(0xffffffffu), b = below(0xffffffffu); return (a << 32) ^ b ^ (b << 16); }
    // index with weights; index 0 is the simplest
    u32 weighted(std::initializer_list<u32> w) {
        u32 tot = 0;
        for (u32 x : w) tot += x;
        u32 v = below(tot), i = 0;
        for (u32 x : w) { if (v < x) return i; v -= x; i++; }
        return 0;
    }
    template <class T> const T& pick(const vector<T>& v) { return v[below((u32)v.size())]; }
    string pick_s(std::initializer_list<const char*> l) { return *(l.begin() + below((u32)l.size())); }
    // small sizes are likely, large ones possible
    int size(int max) {
        switch (weighted({6, 3, 1})) {
            case 0: return range(0, max < 3 ? max : 3);
            case 1: return range(0, max < 8 ? max : 8);
            default: return range(0, max);
        }
    }
    // a size at or next to a number at which fixed buffers, narrow counters and growth steps end
    int tail(int max) {
        static const int B[] = {4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 48, 50, 64, 80, 100, 120, 128, 150, 180, 200, 250, 256, 300, 400, 500, 512, 640, 800, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 65536, 70000};
        u32 k = 1;
        while (k < sizeof B / sizeof *B && B[k] <= max) k++;
        int v = coin() ? range(0, max) : B[below(k)] + range(-1, 1);
        return v > max ? max : v < 0 ? 0 : v;
    }
    void label(const string& l) { labels.insert(l); }
    void nontrivial(const string& canon) {
        is_nontrivial = true;
        u64 h = hash_str(canon) % BITS;
        if (g_sh) g_sh->bits[h / 32].fetch_or(1u << (h % 32), std::memory_order_relaxed);
        if (sample.empty()) sample = canon;
    }
};

struct Test {
    const char* name;
    void (*fn)(Src&);
    bool exhaustive;   // enumerate all choice sequences (partitioned by the first draw)
    u64 quick, thorough;  // number of cases (cap when exhaustive)
};

// ---------------------------------------------------------------- engine
struct Cfg {
    string prop, out, replay_dir;
    u64 seed = 1;
    double scale = 1;
    bool thorough = false;
    string only;
    double wall_cap = 0;
    int cpu_limit = 20;
    bool fast = getenv("VERIF_FAST") != nullptr;   // self-test tools only: no shrinking, enumerations scaled, too
};
static Cfg g_cfg;
static vector<Test> g_tests;
static void (*g_reset)() = nullptr;   // restores library globals before each case

static void on_prof(int) {
    static const char m[] = "PBT: case exceeded its CPU time limit (no termination)\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(99);
}
static void arm(int sec) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// runs one case; returns true if it passed
static bool exec_case(const Test& t, Src& s, string* msg) {
    g_me->nch.store(0);
    snprintf(g_me->test, sizeof g_me->test, "%s", t.name);
    if (g_reset) g_reset();
    arm(g_cfg.cpu_limit);
    try {
        t.fn(s);
    } catch (Discard&) {
        g_me->discarded++;
        s.is_nontrivial = false;
    } catch (Fail& f) {
        arm(0);
        if (msg) *msg = f.what;
        return false;
    }
    arm(0);
    return true;
}

struct Outcome {
    bool failed = false;
    string msg;
};
// run a choice sequence in a child process
static Outcome run_isolated(const Test& t, const vector<u32>& ch, vector<u32>* used = nullptr, bool verbose = false) {
    ShardMem* m = &g_sh->sh[NSHARD];
    m->nch = 0;
    m->stage = 1;
    m->msg[0] = 0;
    fflush(stdout);
    fflush(stderr);
    int pfd[2];
    if (pipe(pfd)) { perror("pipe"); exit(3); }
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        if (!verbose) { dup2(pfd[1], 2); dup2(pfd[1], 1); }
        close(pfd[1]);
        g_me = m;
        Src s;
        s.mode = Src::REPLAY;
        s.in = &ch;
        string msg;
        bool ok = exec_case(t, s, &msg);
        if (!ok) {
            snprintf(m->msg, sizeof m->msg, "%s", msg.c_str());
            m->stage = 2;
        } else {
            snprintf(m->msg, sizeof m->msg, "%s", s.sample.c_str());
            m->stage = 3;
        }
        _exit(ok ? 0 : 98);
    }
    close(pfd[1]);
    string outp;
    char buf[4096];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0)
        if (outp.size() < 20000) outp.append(buf, (size_t)k);
    close(pfd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    Outcome o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) {
        if (m->stage == 2) o.msg = m->msg;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) o.msg = "does not terminate: " + fmt("%d s of CPU time used by one case", g_cfg.cpu_limit);
        else {
            o.msg = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exited with status %d", WEXITSTATUS(st));
            o.msg += "\n" + outp.substr(0, 3500);
        }
    } else o.msg = m->msg;
    if (used) used->assign(m->ch, m->ch + m->nch);
    return o;
}

static vector<u32> shrink(const Test& t, vector<u32> best, string* msg, double budget) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    auto attempt = [&](const vector<u32>& c) {
        vector<u32> used;
        Outcome o = run_isolated(t, c, &used);
        if (!o.failed) return false;
        if (used.size() < c.size()) best = used; else best = c;
        while (!best.empty() && best.back() == 0) best.pop_back();
        *msg = o.msg;
        return true;
    };
    bool progress = true;
    while (progress && left() > 0) {
        progress = false;
        for (size_t len = best.size(); len >= 1 && left() > 0; len = len > 8 ? len / 2 : len - 1) {
            for (size_t i = 0; i + len <= best.size() && left() > 0;) {
                vector<u32> c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if (attempt(c)) progress = true; else i += len;
            }
        }
        for (size_t len = 8; len >= 1 && left() > 0; len /= 2)
            for (size_t i = 0; i < best.size() && left() > 0; i += len) {
                vector<u32> c = best;
                bool ch = false;
                for (size_t j = i; j < i + len && j < c.size(); j++) { if (c[j]) ch = true; c[j] = 0; }
                if (ch && attempt(c)) progress = true;
            }
        for (size_t i = 0; i < best.size() && left() > 0; i++) {
            u32 lo = 0, hi = best[i];
            while (lo < hi && left() > 0) {
                u32 mid = lo + (hi - lo) / 2;
                vector<u32> c = best;
                c[i] = mid;
                if (attempt(c)) { progress = true; if (i >= best.size()) break; hi = best[i] < mid ? best[i] : mid; } else lo = mid + 1;
            }
        }
    }
    return best;
}

static string write_replay(const Test& t, const vector<u32>& ch, const string& msg, const string& extra) {
    mkdir(g_cfg.replay_dir.c_str(), 0777);
    u64 h = hash_str(t.name);
    for (u32 c : ch) h = mix(h ^ c);
    string path = g_cfg.replay_dir + "/" + g_cfg.prop + "-" + fmt("%08x", (u32)h) + ".replay";
    FILE* f = fopen(path.c_str(), "w");
    if (f) {
        
#ifdef PBT_MSAN
        fprintf(f, "variant msan\n");
#endif
        fprintf(f, "property %s\ntest %s\n%schoices", g_cfg.prop.c_str(), t.name, extra.c_str());
        for (u32 c : ch) fprintf(f, " %u", c);
        fprintf(f, "\n# %s\n", q(msg).c_str());
        fclose(f);
    }
    return path;
}

struct WorkerStats {
    std::map<string, u64> labels;
    vector<string> samples;
};

static u64 case_seed(const Test& t, int shard, u64 idx) {
    return mix(mix(g_cfg.seed * 1000003ull + (u64)shard) ^ hash_str(t.name) ^ mix(idx));
}

// worker: cases [from,to) of shard
static void worker(const Test& t, int shard, u64 from, u64 to, const string& statfile, double deadline) {
    g_me = &g_sh->sh[shard];
    WorkerStats ws;
    auto t0 = std::chrono::steady_clock::now();
    auto after = [&](Src& s) {
        g_me->cases++;
        if (s.is_nontrivial) {
            g_me->nontrivial++;
            if (ws.samples.size() < 4 || (ws.samples.size() < 12 && (g_me->cases & (g_me->cases - 1)) == 0)) ws.samples.push_back(s.sample.substr(0, 400));
        }
        for (auto& l : s.labels) ws.labels[l]++;
        for (auto& l : s.counts) ws.labels["total " + l.first] += l.second;
    };
    auto bad = [&](const string& msg) {
        snprintf(g_me->msg, sizeof g_me->msg, "%s", msg.c_str());
        g_me->stage = 2;
        _exit(98);
    };
    if (!t.exhaustive) {
        for (u64 i = from; i < to; i++) {
            g_me->cur_index = i;
            Src s;
            s.rs = case_seed(t, shard, i);
            string msg;
            if (!exec_case(t, s, &msg)) bad(msg);
            after(s);
            if ((i & 63) == 0 && deadline > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) {
                ws.labels["(wall cap reached)"]++;
                break;
            }
        }
    } else {
        vector<u32> cur{(u32)shard};
        u64 cnt = 0;
        bool first_bound_known = false;
        for (;;) {
            g_me->cur_index = cnt++;
            Src s;
            s.mode = Src::ENUM;
            s.in = &cur;
            string msg;
            // skip shards beyond the first bound
            if (!first_bound_known) {
                // probe the bound of the first draw by running shard 0's first case
                Src p; vector<u32> z{0}; p.mode = Src::ENUM; p.in = &z;
                string pm;
                if (!exec_case(t, p, &pm)) bad(pm);
                first_bound_known = true;
                if (p.bounds.empty()) { if (shard == 0) after(p); break; }
                if ((u32)shard >= p.bounds[0]) break;
            }
            if (!exec_case(t, s, &msg)) bad(msg);
            after(s);
            if (cnt >= to) { ws.labels["(enumeration cap reached)"]++; break; }
            if ((cnt & 63) == 0 && deadline > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) { ws.labels["(wall cap reached)"]++; break; }
            // advance the odometer
            vector<u32> v(g_me->ch, g_me->ch + g_me->nch);
            size_t k = v.size();
            bool done = true;
            while (k > 0) {
                k--;
                u32 step = k == 0 ? NSHARD : 1;
                if (v[k] + step < s.bounds[k]) { v[k] += step; v.resize(k + 1); done = false; break; }
            }
            if (done) { ws.labels["(enumeration complete)"]++; break; }
            cur = v;
        }
    }
    FILE* f = fopen(statfile.c_str(), "w");
    if (f) {
        for (auto& l : ws.labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
        for (auto& s : ws.samples) fprintf(f, "S %s\n", jq(s).c_str());
        fclose(f);
    }
    g_me->stage = 3;
    _exit(0);
}

static const Test* find_test(const string& n) {
    for (auto& t : g_tests)
        if (n == t.name) return &t;
    return nullptr;
}

struct Violation {
    string replay, msg;
};
static vector<Violation> g_viol;
static vector<string> g_notes;

static void report(const Test& t, vector<u32> ch, string msg, const string& extra = "") {
    string path = write_replay(t, ch, msg, extra);
    g_viol.push_back({path, msg});
    printf("---- counterexample for %s (test %s, %zu choices)\n%s\n", g_cfg.prop.c_str(), t.name, ch.size(), msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", g_cfg.prop.c_str(), path.c_str());
    fflush(stdout);
}

static void run_test(const Test& t, std::map<string, u64>& labels, vector<string>& samples, double deadline) {
    u64 total = (u64)((double)(g_cfg.thorough ? t.thorough : t.quick) * (t.exhaustive && !g_cfg.fast ? 1 : g_cfg.scale));
    if (!total) return;
    u64 per = t.exhaustive ? total : (total + NSHARD - 1) / NSHARD;
    pid_t pid[NSHARD];
    string sf[NSHARD];
    fflush(stdout);
    for (int i = 0; i < NSHARD; i++) {
        g_sh->sh[i].stage = 1;
        g_sh->sh[i].msg[0] = 0;
        sf[i] = g_cfg.out + fmt(".%s.%d", t.name, i);
        unlink(sf[i].c_str());
        pid[i] = fork();
        if (pid[i] == 0) {
            int fd = open((sf[i] + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
            dup2(fd, 2);
            dup2(fd, 1);
            worker(t, i, 0, per, sf[i], deadline);
        }
    }
    vector<int> failed;
    vector<string> why;
    int st;
    for (int i = 0; i < NSHARD; i++) {
        waitpid(pid[i], &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            failed.push_back(i);
            string m = g_sh->sh[i].stage == 2 ? string(g_sh->sh[i].msg) : (WIFEXITED(st) ? fmt("exit status %d", WEXITSTATUS(st)) : fmt("signal %d", WTERMSIG(st)));
            if (g_sh->sh[i].stage != 2) {
                FILE* f = fopen((sf[i] + ".log").c_str(), "r");
                if (f) { char b[3500]; size_t k = fread(b, 1, sizeof b - 1, f); b[k] = 0; m += "\n"; m += b; fclose(f); }
            }
            why.push_back(m);
        }
        FILE* f = fopen(sf[i].c_str(), "r");
        if (f) {
            char line[8192];
            while (fgets(line, sizeof line, f)) {
                size_t n = strlen(line);
                if (n && line[n - 1] == '\n') line[n - 1] = 0;
                if (line[0] == 'L') { char* e; u64 c = strtoull(line + 2, &e, 10); labels[string(t.name) + ": " + (e + 1)] += c; }
                else if (line[0] == 'S') samples.push_back(line + 2);
            }
            fclose(f);
        }
        unlink(sf[i].c_str());
        unlink((sf[i] + ".log").c_str());
    }
    if (failed.empty()) return;
    // confirm, shrink and report the first failing shard (others: only if the first is not reproducible)
    for (size_t k = 0; k < failed.size(); k++) {
        int i = failed[k];
        ShardMem* m = &g_sh->sh[i];
        vector<u32> ch(m->ch, m->ch + m->nch);
        u64 idx = m->cur_index;
        string msg;
        bool confirmed = false;
        for (int r = 0; r < 2 && !confirmed; r++) {
            vector<u32> used;
            Outcome o = run_isolated(t, ch, &used);
            if (o.failed) { confirmed = true; msg = o.msg; }
        }
        if (confirmed) {
            if (!g_cfg.fast) ch = shrink(t, ch, &msg, 60);
            report(t, ch, msg);
            return;
        }
        // not reproducible alone: depends on earlier cases of the same process. Re-run the shard.
        if (!t.exhaustive) {
            auto rerun = [&](u64 from) {
                m->stage = 1;
                m->msg[0] = 0;
                pid_t p = fork();
                if (p == 0) {
                    int fd = open("/dev/null", O_WRONLY);
                    dup2(fd, 1);
                    dup2(fd, 2);
                    worker(t, i, from, idx + 1, "/dev/null", 0);
                }
                int s2;
                waitpid(p, &s2, 0);
                return !(WIFEXITED(s2) && WEXITSTATUS(s2) == 0) && m->cur_index == idx;
            };
            if (rerun(0)) {
                u64 back = 1;
                while (back < idx && !rerun(idx - back)) back *= 2;
                u64 from = back < idx ? idx - back : 0;
                report(t, ch, why[k], fmt("history seed %llu shard %d from %llu to %llu\n", (unsigned long long)g_cfg.seed, i, (unsigned long long)from, (unsigned long long)idx));
                return;
            }
        }
        g_notes.push_back("unreproducible failure ignored in test " + string(t.name) + fmt(" shard %d case %llu: ", i, (unsigned long long)idx) + why[k].substr(0, 1500));
        fprintf(stderr, "NOTE: %s\n", g_notes.back().c_str());
    }
}

static bool load_replay(const string& path, string* test, vector<u32>* ch, u64* seed, int* shard, u64* from, u64* to) {
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return false;
    string all;
    char buf[65536];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, k);
    fclose(f);
    std::istringstream is(all);
    string line;
    *shard = -1;
    while (std::getline(is, line)) {
        std::istringstream ls(line);
        string w;
        ls >> w;
        if (w == "test") ls >> *test;
        else if (w == "choices") { u32 c; while (ls >> c) ch->push_back(c); }
        else if (w == "history") { string a; ls >> a >> *seed >> a >> *shard >> a >> *from >> a >> *to; }
    }
    return true;
}

static int pbt_main(int argc, char** argv) {
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_sh == MAP_FAILED) { perror("mmap"); return 3; }
    signal(SIGPROF, on_prof);
    signal(SIGPIPE, SIG_IGN);
    string replay, convert, ctest;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&] { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") g_cfg.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--scale") g_cfg.scale = atof(nx().c_str());
        else if (a == "--thorough") g_cfg.thorough = true;
        else if (a == "--out") g_cfg.out = nx();
        else if (a == "--replay-dir") g_cfg.replay_dir = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--only") g_cfg.only = nx();
        else if (a == "--wall-cap") g_cfg.wall_cap = atof(nx().c_str());
        else if (a == "--convert") { ctest = nx(); convert = nx(); }
    }
    if (!replay.empty()) {
        string tn; vector<u32> ch; u64 seed = 1, from = 0, to = 0; int shard = -1;
        if (!load_replay(replay, &tn, &ch, &seed, &shard, &from, &to)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
        const Test* t = find_test(tn);
        if (!t) { fprintf(stderr, "unknown test %s\n", tn.c_str()); return 3; }
        Outcome o;
        if (shard >= 0) {
            g_cfg.seed = seed;
            pid_t p = fork();
            if (p == 0) worker(*t, shard, from, to + 1, "/dev/null", 0);
            int st; waitpid(p, &st, 0);
            o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            o.msg = g_sh->sh[shard].msg;
        } else o = run_isolated(*t, ch);
        printf("%s\n%s\n", o.failed ? "FAILED" : "PASSED", o.msg.c_str());
        if (o.failed) printf("VIOLATION property=%s replay=%s\n", g_cfg.prop.c_str(), replay.c_str());
        return o.failed ? 1 : 0;
    }
    if (!convert.empty()) {  // libFuzzer artifact -> confirm, shrink, report
        const Test* t = find_test(ctest);
        if (!t) return 3;
        FILE* f = fopen(convert.c_str(), "rb");
        if (!f) return 3;
        string data; char buf[65536]; size_t k;
        while ((k = fread(buf, 1, sizeof buf, f)) > 0) data.append(buf, k);
        fclose(f);
        ShardMem* m = &g_sh->sh[0];
        pid_t p = fork();
        if (p == 0) {
            g_me = m;
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
            Src s; s.mode = Src::BYTES; s.by = (const uint8_t*)data.data(); s.nby = data.size();
            string msg;
            _exit(exec_case(*t, s, &msg) ? 0 : 98);
        }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("artifact does not reproduce\n"); return 0; }
        vector<u32> ch(m->ch, m->ch + m->nch);
        string msg;
        Outcome o = run_isolated(*t, ch);
        if (!o.failed) { printf("artifact does not reproduce\n"); return 0; }
        msg = o.msg;
        ch = shrink(*t, ch, &msg, 60);
        report(*t, ch, msg);
        return 1;
    }
    auto t0 = std::chrono::steady_clock::now();
    std::map<string, u64> labels;
    vector<string> samples;
    std::map<string, u64> per;
    for (auto& t : g_tests) {
        if (!g_cfg.only.empty() && g_cfg.only != t.name) continue;
        u64 b = 0, a = 0;
        for (int i = 0; i < NSHARD; i++) b += g_sh->sh[i].cases;
        vector<string> smp;
        double dl = 0;
        if (g_cfg.wall_cap > 0) {
            dl = g_cfg.wall_cap - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (dl < 1) dl = 1;
        }
        run_test(t, labels, smp, dl);
        for (int i = 0; i < NSHARD; i++) a += g_sh->sh[i].cases;
        per[t.name] = a - b;
        for (size_t i = 0; i < smp.size() && i < 6; i++) samples.push_back(smp[(i * 7919) % smp.size()]);
        if (!g_viol.empty()) break;
    }
    u64 cases = 0, nt = 0, dist = 0, disc = 0;
    for (int i = 0; i < NSHARD; i++) { cases += g_sh->sh[i].cases; nt += g_sh->sh[i].nontrivial; disc += g_sh->sh[i].discarded; }
    for (size_t i = 0; i < BITS / 32; i++) dist += (u64)__builtin_popcount(g_sh->bits[i]);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    FILE* f = fopen(g_cfg.out.c_str(), "w");
    if (f) {
        fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"wall_s\": %.3f,\n \"tests\": {",
                (unsigned long long)cases, (unsigned long long)nt, (unsigned long long)dist, (unsigned long long)disc, wall);
        bool c = false;
        for (auto& p : per) { fprintf(f, "%s%s: %llu", c ? ", " : "", jq(p.first).c_str(), (unsigned long long)p.second); c = true; }
        fprintf(f, "},\n \"labels\": {");
        c = false;
        for (auto& p : labels) { fprintf(f, "%s%s: %llu", c ? ", " : "", jq(p.first).c_str(), (unsigned long long)p.second); c = true; }
        fprintf(f, "},\n \"samples\": [");
        c = false;
        for (auto& s : samples) { fprintf(f, "%s%s", c ? ", " : "", s.c_str()); c = true; }
        fprintf(f, "],\n \"notes\": [");
        c = false;
        for (auto& s : g_notes) { fprintf(f, "%s%s", c ? ", " : "", jq(s).c_str()); c = true; }
        fprintf(f, "],\n \"violations\": [");
        c = false;
        for (auto& v : g_viol) { fprintf(f, "%s{\"replay\": %s, \"what\": %s}", c ? ", " : "", jq(v.replay).c_str(), jq(v.msg.substr(0, 3000)).c_str()); c = true; }
        fprintf(f, "]}\n");
        fclose(f);
    }
    printf("%s: %llu cases, %llu non-trivial, %llu distinct, %.1f s\n", g_cfg.prop.c_str(), (unsigned long long)cases, (unsigned long long)nt, (unsigned long long)dist, wall);
    return g_viol.empty() ? 0 : 1;
}

static int fuzz_one(const char* test, const uint8_t* d, size_t n) {
    static ShardMem* m = nullptr;
    if (!m) { m = (ShardMem*)calloc(1, sizeof(ShardMem)); g_me = m; }
    const Test* t = find_test(test);
    Src s;
    s.mode = Src::BYTES;
    s.by = d;
    s.nby = n;
    if (g_reset) g_reset();
    m->nch = 0;
    try { t->fn(s); }
    catch (Discard&) {}
    catch (Fail& f) { fprintf(stderr, "FAIL: %s\n", f.what.c_str()); abort(); }
    return 0;
}
}  // namespace pbt

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:abort_on_error=0:max_malloc_fill_size=1000000:malloc_fill_byte=195:max_free_fill_size=4096:"
           "free_fill_byte=215:detect_stack_use_after_return=1:strict_string_checks=0:detect_odr_violation=0:hard_rss_limit_mb=3500:"
           "allocator_may_return_null=1:handle_segv=1:handle_abort=1:quarantine_size_mb=16:symbolize=0:print_summary=1:malloc_context_size=8";
}
extern "C" const char* __msan_default_options() { return "exitcode=77:symbolize=0:poison_in_dtor=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:symbolize=0"; }

#ifdef PBT_FUZZ
#define PBT_MAIN(PROP, RESET, ...)                                                          \
    static void pbt_setup() { pbt::g_cfg.prop = PROP; pbt::g_reset = RESET; pbt::g_tests = {__VA_ARGS__}; } \
    extern "C" int LLVMFuzzerInitialize(int*, char***) { pbt_setup(); return 0; }           \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { return pbt::fuzz_one(PBT_FUZZ, d, n); }
#else
#define PBT_MAIN(PROP, RESET, ...)                                                          \
    int main(int argc, char** argv) {                                                       \
        pbt::g_cfg.prop = PROP;                                                             \
        pbt::g_reset = RESET;                                                               \
        pbt::g_tests = {__VA_ARGS__};                                                       \
        return pbt::pbt_main(argc, argv);                                                   \
    }
#endif
