// C17: sorting orders any array and touches nothing else.
extern "C" {
#include "argtable3.h"
}
#include "pbt.hpp"
#include "heap.hpp"
using namespace pbt;

// elements: `klen` leading bytes are the key (compared modulo a mask), the rest is payload
static int g_klen, g_mask, g_es;
static const unsigned char *g_lo, *g_hi;   // elements given to the comparison lie in the data or in library memory
static int g_cmps;
static bool g_rev;
static int cmp(const void* a, const void* b) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    g_cmps++;
    for (int i = 0; i < g_klen; i++) {
        int p = x[i] & g_mask, r = y[i] & g_mask;
        if (p != r) return (p < r) != g_rev ? -1 : 1;
    }
    return 0;
}
static int cmp_big(const void* a, const void* b) {   // any negative/positive number
    int c = cmp(a, b);
    return c < 0 ? -1000000 : c > 0 ? 0x7fffffff : 0;
}
static void check(Src& s, int n, int es, int klen, int mask, const string& bytes, int i, int k, int es_guard, bool rev, bool big) {
    g_klen = klen; g_mask = mask; g_es = es; g_rev = rev; g_cmps = 0;
    // exact heap block: any access outside is a sanitizer report
    unsigned char* d = (unsigned char*)malloc((size_t)n * (size_t)es ? (size_t)n * (size_t)es : 1);
    memcpy(d, bytes.data(), (size_t)n * (size_t)es);
    heap::clear();
    { heap::In in; arg_mgsort(d, n, es, i, k, big ? cmp_big : cmp); }
    REQUIRE(heap::live == 0, "%zu blocks leaked by sorting", heap::live);
    string out((char*)d, (size_t)n * (size_t)es);
    string ctx = fmt("n=%d size=%d range=%d..%d key %d bytes mask %#x%s: ", n, es, i, k, klen, mask, rev ? " reversed" : "");
    auto el = [&](const string& b, int j) { return b.substr((size_t)j * (size_t)es, (size_t)es); };
    vector<string> want, got;
    for (int j = 0; j < n; j++) {
        bool inside = i < k && j >= i && j <= k;
        if (!inside) { if (el(out, j) != el(bytes, j)) { free(d); fail(ctx + fmt("element %d outside the range changed", j)); } continue; }
        want.push_back(el(bytes, j));
        got.push_back(el(out, j));
    }
    for (size_t j = 1; j < got.size(); j++)
        if (cmp(got[j - 1].data(), got[j].data()) > 0) { free(d); fail(ctx + fmt("not in order at %d", (int)j + i) + " in " + q(bytes.substr(0, 400)) + " out " + q(out.substr(0, 400))); }
    std::multiset<string> w(want.begin(), want.end()), g(got.begin(), got.end());
    free(d);
    if (w != g) fail(ctx + "not a permutation: in " + q(bytes.substr(0, 400)) + " out " + q(out.substr(0, 400)));
}
static void t_sort(Src& s) {
    static const int ES[] = {1, 2, 3, 4, 8, 5, 7, 12, 16, 24, 33, 64, 100, 256};
    static const int WIDE[] = {257, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 4096, 4097, 5000, 8192, 16384, 65535, 65536, 65537, 70000};
    bool wide = s.chance(1, 60);
    int es = wide ? WIDE[s.below(18)] : ES[s.below(14)];
    int n = wide ? s.range(0, es > 5000 ? 4 : 12) : s.chance(1, 200) ? s.range(0, 3000) : s.chance(1, 8) ? s.range(0, 300) : s.range(0, 24);
    int klen = s.chance(1, 2) ? 1 : s.range(1, es);
    if (wide && s.coin()) klen = es;
    static const int MASK[] = {0xff, 1, 3, 0x0f, 0, 0x80};
    int mask = MASK[s.below(6)];
    string bytes;
    u64 x = s.below(0xffffffffu);
    int shape = (int)s.below(4);    // random, ascending, descending, few distinct
    for (int j = 0; j < n; j++)
        for (int b = 0; b < es; b++) {
            x = mix(x);
            bytes += (char)(b < klen && shape == 1 ? j : b < klen && shape == 2 ? 255 - j : b < klen && shape == 3 ? (x & 3) : x);
        }
    int i = 0, k = n - 1;
    if (s.chance(1, 3) && n > 0) { i = (int)s.below((u32)n); k = (int)s.below((u32)n); }
    bool rev = s.chance(1, 4), big = s.chance(1, 4);
    check(s, n, es, klen, mask, bytes, i, k, 0, rev, big);
    s.label(n < 2 ? "n<2" : n < 9 ? "n 2..8" : n < 65 ? "n 9..64" : "n>64");
    if (k > i) s.nontrivial(fmt("n=%d size=%d range=%d..%d key=%d mask=%#x shape=%d data=%s", n, es, i, k, klen, mask, shape, q(bytes.substr(0, 40)).c_str()));
}
// arrays beyond every narrow counter
static void t_huge(Src& s) {
    int es = s.pick<int>({4, 1, 2, 8, 3});
    int n = s.tail(s.chance(1, 3) ? 140000 : 70000);
    if (s.chance(1, 4)) n = s.range(60000, 140000);
    u64 x = s.below(0xffffffffu);
    int shape = (int)s.below(4);
    string bytes((size_t)n * (size_t)es, 0);
    for (int j = 0; j < n; j++)
        for (int b = 0; b < es; b++) { x = mix(x); bytes[(size_t)j * (size_t)es + (size_t)b] = (char)(shape == 1 ? (u64)j >> (8 * (es - 1 - b)) : shape == 2 ? (u64)(n - j) >> (8 * (es - 1 - b)) : shape == 3 ? (x & 3) : x); }
    check(s, n, es, es, 0xff, bytes, 0, n - 1, 0, s.coin(), false);
    s.nontrivial(fmt("n=%d size=%d shape=%d", n, es, shape));
    s.label(n > 65535 ? "n>65535" : "n<=65535");
}
// all arrays of up to 7 elements over {0,1,2} with distinct payloads, all sub-ranges
static void t_small(Src& s) {
    u32 a = s.below(9);
    int n = s.range(0, 7);
    string bytes;
    u32 first[2] = {a % 3, a / 3};
    for (int j = 0; j < n; j++) { u32 v = j < 2 ? first[j] : s.below(3); bytes += (char)v; bytes += (char)('a' + j); }
    for (int i = 0; i <= n; i++)
        for (int k = i ? i - 1 : 0; k < n; k++) check(s, n, 2, 1, 0xff, bytes, i, k, 0, false, false);
    if (n > 1) s.nontrivial("all ranges of " + q(bytes));
}
PBT_MAIN("C17", nullptr, Test{"small", t_small, true, 1000000, 1000000}, Test{"sort", t_sort, false, 300000, 10000000}, Test{"huge", t_huge, false, 120, 2000})
