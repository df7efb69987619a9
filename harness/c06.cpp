// C06: integer arguments convert exactly or are rejected with the right reason.
#include "values.hpp"

static string mag_text(Src& s, unsigned __int128 v, int base) {
    const char* dig = s.coin() ? "0123456789abcdef" : "0123456789ABCDEF";
    string r;
    do { r += dig[(size_t)(v % (unsigned)base)]; v /= (unsigned)base; } while (v);
    std::reverse(r.begin(), r.end());
    return r;
}
static string gen_num(Src& s) {
    int bi = (int)s.weighted({4, 3, 2, 2});
    int base = bi == 0 ? 10 : bi == 1 ? 16 : bi == 2 ? 8 : 2;
    int su = (int)s.weighted({5, 2, 2, 2});
    int shift = su == 0 ? 0 : su * 10;
    unsigned __int128 v;
    switch (s.weighted({3, 4, 2, 2, 1})) {
        case 0: v = s.below(2000); break;
        case 1: {  // near a boundary, divided by the suffix
            static const int P[] = {31, 31, 32, 63, 64, 15, 16, 7, 30, 21};
            unsigned __int128 b = (unsigned __int128)1 << P[s.below(10)];
            b >>= (shift < 60 ? shift : 0);
            long d = (long)s.range(-3, 3);
            v = b + (unsigned __int128)(__int128)d;
            if ((__int128)v < 0) v = 0;
            break;
        }
        case 2: v = s.below(0xffffffffu); break;
        case 3: v = s.bits64() >> s.below(64); break;
        default: v = ((unsigned __int128)s.bits64() << 40) + s.bits64(); break;
    }
    string r = s.pick_s({"", "-", "+"});
    static const char* PX[4][2] = {{"", ""}, {"0x", "0X"}, {"0o", "0O"}, {"0b", "0B"}};
    r += PX[bi][s.below(2)];
    if (s.chance(1, 8)) r += string((size_t)s.range(1, 30), '0');
    r += mag_text(s, v, base);
    static const char* SU[4][4] = {{"", "", "", ""}, {"KB", "kb", "Kb", "kB"}, {"MB", "mb", "Mb", "mB"}, {"GB", "gb", "Gb", "gB"}};
    r += SU[su][s.below(4)];
    if (s.chance(1, 12)) r = string((size_t)s.range(1, 3), " \t\n"[s.below(3)]) + r;
    if (s.chance(1, 12)) r += string((size_t)s.range(1, 3), " \t\n"[s.below(3)]);
    return r;
}
static string mutate(Src& s, string v) {
    static const char AL[] = "0123456789abcdefABCDEFxXoObBkKmMgGtTpP+- .,\t_eEuUlL";
    if (s.chance(1, 10)) {  // suffixes and prefixes nobody documents
        v += s.pick_s({"KiB", "MiB", "GiB", "kib", "K", "M", "G", "B", "TB", "PB", "EB", "KBB", "KBKB", "K B", "Ki", "bytes", "KBps", "kbit", "L", "LL", "U", "u", "f", "e3", ".0", ".", "_000", ",000", "%", "h", "x", "0x", "KB\vX", "\xc2\xa0"});
        if (s.coin()) return v;
    }
    int n = (int)s.weighted({3, 4, 2, 1});
    for (int i = 0; i < n; i++) switch (s.below(4)) {
        case 0: v.insert(s.below((u32)v.size() + 1), 1, AL[s.below(sizeof AL - 1)]); break;
        case 1: if (!v.empty()) v.erase(s.below((u32)v.size()), 1); break;
        case 2: if (!v.empty()) v[s.below((u32)v.size())] = AL[s.below(sizeof AL - 1)]; break;
        default: if (!v.empty()) v[s.below((u32)v.size())] = (char)(1 + s.below(255)); break;
    }
    return v;
}
static void t_grammar(Src& s) {
    Entry e;
    e.kind = INT;
    int n = s.range(1, 8);
    vector<string> v;
    for (int i = 0; i < n; i++) v.push_back(s.chance(2, 5) ? mutate(s, gen_num(s)) : gen_num(s));
    check_batch(s, e, v, (Route)s.below(5), (int)s.below(2));
}
static void t_int_roundtrip(Src& s) {  // every int in every base
    Entry e;
    e.kind = INT;
    vector<string> v;
    int n = s.range(1, 10);
    for (int i = 0; i < n; i++) {
        int x = (int)(u32)(s.bits64() >> s.below(33));
        if (s.chance(1, 8)) x = s.coin() ? INT_MAX - (int)s.below(3) : INT_MIN + (int)s.below(3);
        unsigned __int128 m = x < 0 ? (unsigned __int128)(-(__int128)x) : (unsigned __int128)x;
        static const int B[] = {10, 16, 8, 2};
        static const char* PX[] = {"", "0x", "0o", "0b"};
        u32 b = s.below(4);
        string t = (x < 0 ? "-" : s.coin() ? "+" : "") + string(PX[b]) + mag_text(s, m, B[b]);
        int y;
        REQUIRE(oracle::int_value(t, &y) == oracle::I_OK && y == x, "harness: oracle disagrees on %s", t.c_str());
        v.push_back(t);
    }
    check_batch(s, e, v, (Route)s.below(5), 0);
}
// every string of up to 5 characters over a small alphabet
static void t_small(Src& s) {
    static const char AL[] = "0129-+xobKBf ";
    Entry e;
    e.kind = INT;
    string v;
    for (int i = 0; i < 5; i++) {
        u32 c = s.below(sizeof AL);
        if (!c) break;
        v += AL[c - 1];
    }
    vector<string> vals{v};
    check_batch(s, e, vals, SHORT_SEP, 1);
}
static void t_many(Src& s) {
    Entry e;
    e.kind = INT;
    vector<string> v;
    int n = s.range(1, 7);
    for (int i = 0; i < n; i++) v.push_back(s.chance(1, 9) ? mutate(s, gen_num(s)) : gen_num(s));
    check_many(s, e, v);
}
PBT_MAIN("C06", nullptr, Test{"small", t_small, true, 1000000, 1000000}, Test{"grammar", t_grammar, false, 300000, 8000000}, Test{"roundtrip", t_int_roundtrip, false, 100000, 3000000}, Test{"many", t_many, false, 600, 20000})
