// C16: the hash table is a faithful map. Model: std::map plus the allocation hooks.
extern "C" {
#include "argtable3_private.h"
}
#undef xmalloc
#undef xcalloc
#undef xrealloc
#undef xfree
#include "pbt.hpp"
#include "heap.hpp"
using namespace pbt;

struct Key { u32 id, h; };
struct Val { u64 serial; };
static u32 hash_key(const void* k) { return ((const Key*)k)->h; }
static int eq_key(const void* a, const void* b) { return ((const Key*)a)->id == ((const Key*)b)->id; }

static u32 hash_of(int kind, u32 id) {
    switch (kind) {
        case 0: return id;
        case 1: return 7;                         // everything collides
        case 2: return id & 1;
        case 3: return (u32)mix(id);
        case 4: return id % 5 * 0x10000000u;
        case 5: return 0xffffffffu - id;
        default: return id * 53;                  // multiples of the first table size
    }
}
struct Slot { Key* k; Val* v; u64 serial; };
struct Tab {
    arg_hashtable_t* h = nullptr;
    int hk = 0;
    std::map<u32, Slot> m;
};
static u64 g_serial;
static Val* new_val() { Val* v = (Val*)malloc(sizeof(Val)); v->serial = ++g_serial; return v; }
static Key* new_key(const Tab& t, u32 id) { Key* k = (Key*)malloc(sizeof(Key)); k->id = id; k->h = hash_of(t.hk, id); return k; }

static void insert(Tab& t, u32 id) {
    Key* k;
    Val* v;
    { heap::In in; k = new_key(t, id); v = new_val(); }
    t.m[id] = {k, v, v->serial};
    heap::In in;
    arg_hashtable_insert(t.h, k, v);
}
static void check_one(Tab& t, u32 id, const string& ops) {
    Key probe{id, hash_of(t.hk, id)};
    Val* got = (Val*)arg_hashtable_search(t.h, &probe);
    auto it = t.m.find(id);
    if (it == t.m.end()) REQUIRE(!got, "key %u is not in the table but was found\n  %s", id, ops.c_str());
    else {
        REQUIRE(got == it->second.v, "key %u: lookup returned %s\n  %s", id, got ? "another value" : "nothing", ops.c_str());
        REQUIRE(got->serial == it->second.serial, "key %u: value changed\n  %s", id, ops.c_str());
    }
}
static void check_pos(Tab& t, arg_hashtable_itr_t* it, std::set<u32>& seen, const string& ops, u32* idp = nullptr) {
    Key* k = (Key*)arg_hashtable_itr_key(it);
    Val* v = (Val*)arg_hashtable_itr_value(it);
    auto f = t.m.find(k->id);
    REQUIRE(f != t.m.end(), "iterator at key %u, which is not in the table\n  %s", k->id, ops.c_str());
    REQUIRE(f->second.k == k && f->second.v == v, "iterator at key %u shows a wrong key or value\n  %s", k->id, ops.c_str());
    REQUIRE(seen.insert(k->id).second, "iterator visits key %u twice\n  %s", k->id, ops.c_str());
    if (idp) *idp = k->id;
}
static vector<u32> full_iter(Tab& t, const string& ops) {
    vector<u32> order;
    std::set<u32> seen;
    arg_hashtable_itr_t* it;
    { heap::In in; it = arg_hashtable_itr_create(t.h); }
    if (!t.m.empty()) {
        u32 id;
        do { check_pos(t, it, seen, ops, &id); order.push_back(id); } while (arg_hashtable_itr_advance(it) && order.size() <= t.m.size());
    }
    REQUIRE(order.size() == t.m.size(), "iteration visited %zu of %zu entries\n  %s", order.size(), t.m.size(), ops.c_str());
    REQUIRE(arg_hashtable_itr_advance(it) == 0, "advance past the end reports an entry\n  %s", ops.c_str());
    { heap::In in; arg_hashtable_itr_destroy(it); }
    return order;
}
static void check_all(Tab& t, const vector<u32>& ids, const string& ops) {
    REQUIRE(arg_hashtable_count(t.h) == t.m.size(), "count is %u, expected %zu\n  %s", arg_hashtable_count(t.h), t.m.size(), ops.c_str());
    for (u32 id : ids) check_one(t, id, ops);
}
static void destroy(Tab& t, bool values, const string& ops) {
    size_t before = heap::live;
    { heap::In in; arg_hashtable_destroy(t.h, values ? 1 : 0); }
    if (!values)
        for (auto& e : t.m) { REQUIRE(e.second.v->serial == e.second.serial, "a value the caller keeps was changed\n  %s", ops.c_str()); free(e.second.v); }
    (void)before;
    t.m.clear();
    t.h = nullptr;
}

static void run_ops(Src& s, int nops, int nkeys, bool small) {
    heap::clear();
    g_serial = 0;
    int nt = !small && s.chance(1, 6) ? 2 : 1;
    vector<Tab> T((size_t)nt);
    string ops;
    static const u32 MS[] = {0, 1, 16, 52, 53, 54, 96, 97, 193, 1000, 6151, 10000};
    for (auto& t : T) {
        u32 ms = small ? 0 : MS[s.below(12)];
        t.hk = (int)s.below(7);
        heap::In in;
        t.h = arg_hashtable_create(ms, hash_key, eq_key);
        REQUIRE(t.h, "creating a table of %u failed", ms);
        ops += fmt("table(min %u, hash %d) ", ms, t.hk);
    }
    vector<u32> ids;
    for (int i = 0; i < nkeys; i++) ids.push_back((u32)i);
    for (int n = 0; n < nops; n++) {
        Tab& t = T[s.below((u32)nt)];
        u32 id = s.below((u32)nkeys);
        string tn = nt > 1 ? fmt("%d:", (int)(&t - &T[0])) : string();
        switch (s.weighted({8, 5, 2, 2, 2, 2, 1})) {
            case 0:
                if (t.m.count(id)) break;
                ops += tn + fmt("+%u ", id);
                insert(t, id);
                break;
            case 1: {
                ops += tn + fmt("-%u ", id);
                Key probe{id, hash_of(t.hk, id)};
                { heap::In in; arg_hashtable_remove(t.h, &probe); }
                t.m.erase(id);
                break;
            }
            case 2: {
                Key probe{id, hash_of(t.hk, id)};
                Val* v;
                int r;
                { heap::In in; v = new_val(); r = arg_hashtable_change(t.h, &probe, v); }
                u64 ser = g_serial;
                ops += tn + fmt("change%u ", id);
                auto f = t.m.find(id);
                if (f == t.m.end()) { REQUIRE(r == 0, "change of an absent key reports success\n  %s", ops.c_str()); free(v); }
                else { REQUIRE(r != 0, "change of a present key reports failure\n  %s", ops.c_str()); f->second.v = v; f->second.serial = ser; }
                break;
            }
            case 3: {  // iterate, removing some
                ops += tn + "iter-remove(";
                arg_hashtable_itr_t* it;
                { heap::In in; it = arg_hashtable_itr_create(t.h); }
                std::set<u32> seen;
                size_t total = t.m.size();
                u32 mode = s.below(3);   // none, some, all
                bool more = total > 0;
                while (more) {
                    u32 k;
                    check_pos(t, it, seen, ops, &k);
                    bool rm = mode == 2 || (mode == 1 && s.coin());
                    if (rm) {
                        ops += fmt("%u ", k);
                        t.m.erase(k);
                        heap::In in;
                        more = arg_hashtable_itr_remove(it);
                    } else more = arg_hashtable_itr_advance(it);
                    REQUIRE(seen.size() <= total, "iteration does not end\n  %s", ops.c_str());
                }
                ops += ") ";
                REQUIRE(seen.size() == total, "iteration visited %zu of %zu entries\n  %s", seen.size(), total, ops.c_str());
                { heap::In in; arg_hashtable_itr_destroy(it); }
                break;
            }
            case 4: {  // seek, then go on to the end
                vector<u32> order = full_iter(t, ops);
                Tab& from = T[s.below((u32)nt)];
                arg_hashtable_itr_t* it;
                { heap::In in; it = arg_hashtable_itr_create(from.h); }
                Key probe{id, hash_of(t.hk, id)};
                int r = arg_hashtable_itr_search(it, t.h, &probe);
                ops += tn + fmt("seek%u ", id);
                REQUIRE((r != 0) == (t.m.count(id) != 0), "seek of key %u reports %d\n  %s", id, r, ops.c_str());
                if (r) {
                    size_t p = 0;
                    while (order[p] != id) p++;
                    std::set<u32> seen;
                    bool more = true;
                    u32 act = s.below(3);   // walk on; remove and walk on; remove alternately
                    for (size_t i = p; i < order.size(); i++) {
                        u32 k;
                        REQUIRE(more, "iteration from key %u ends early\n  %s", id, ops.c_str());
                        check_pos(t, it, seen, ops, &k);
                        REQUIRE(k == order[i], "iteration from key %u visits %u where a full iteration visits %u\n  %s", id, k, order[i], ops.c_str());
                        if ((act == 1 && i == p) || (act == 2 && ((i - p) & 1) == 0)) {
                            ops += fmt("(remove %u) ", k);
                            heap::In in;
                            t.m.erase(k);
                            more = arg_hashtable_itr_remove(it);
                        } else more = arg_hashtable_itr_advance(it);
                    }
                    REQUIRE(!more, "iteration from key %u runs past the end\n  %s", id, ops.c_str());
                }
                { heap::In in; arg_hashtable_itr_destroy(it); }
                break;
            }
            case 5: full_iter(t, ops); ops += tn + "iter "; break;
            default: {  // replace the whole table
                bool fv = s.coin();
                ops += tn + fmt("destroy(%d)+create ", fv);
                destroy(t, fv, ops);
                heap::In in;
                t.h = arg_hashtable_create(small ? 0 : MS[s.below(12)], hash_key, eq_key);
            }
        }
        for (auto& k : T) {
            if (nkeys <= 40) check_all(k, ids, ops);
            else { REQUIRE(arg_hashtable_count(k.h) == k.m.size(), "count is %u, expected %zu\n  %s", arg_hashtable_count(k.h), k.m.size(), ops.c_str()); check_one(k, id, ops); }
        }
    }
    size_t maxn = 0;
    for (auto& t : T) {
        check_all(t, ids, ops);
        full_iter(t, ops);
        maxn = t.m.size() > maxn ? t.m.size() : maxn;
        bool fv = s.coin();
        ops += fmt("destroy(%d)", fv);
        destroy(t, fv, ops);
    }
    REQUIRE(heap::live == 0, "%zu blocks are still allocated\n  %s", heap::live, ops.c_str());
    if (nops >= 2) s.nontrivial(ops);
}
static void t_ops(Src& s) { run_ops(s, s.range(1, s.chance(1, 6) ? 120 : 25), s.chance(1, 2) ? 8 : 40, false); }
static void t_big(Src& s) { run_ops(s, s.range(50, 900), s.range(60, 500), false); }
static void t_small(Src& s) {  // every short history over three keys, every hash kind but the duplicates
    heap::clear();
    g_serial = 0;
    u32 first = s.below(9);
    Tab t;
    { heap::In in; t.h = arg_hashtable_create(0, hash_key, eq_key); }
    static const int HK[] = {1, 0, 6};
    string ops;
    auto step = [&](u32 op) {
        u32 id = op % 3;
        switch (op / 3) {
            case 0: if (!t.m.count(id)) { insert(t, id); ops += fmt("+%u ", id); } break;
            case 1: { Key p{id, hash_of(t.hk, id)}; { heap::In in; arg_hashtable_remove(t.h, &p); } t.m.erase(id); ops += fmt("-%u ", id); break; }
            default: {
                ops += fmt("iter-remove%u ", id);
                arg_hashtable_itr_t* it;
                { heap::In in; it = arg_hashtable_itr_create(t.h); }
                std::set<u32> seen;
                size_t total = t.m.size();
                bool more = total > 0;
                while (more) {
                    u32 k;
                    check_pos(t, it, seen, ops, &k);
                    REQUIRE(seen.size() <= total, "iteration does not end\n  %s", ops.c_str());
                    if (k == id) { heap::In in; t.m.erase(k); more = arg_hashtable_itr_remove(it); } else more = arg_hashtable_itr_advance(it);
                }
                REQUIRE(seen.size() == total, "iteration visited %zu of %zu entries\n  %s", seen.size(), total, ops.c_str());
                { heap::In in; arg_hashtable_itr_destroy(it); }
            }
        }
        check_all(t, {0, 1, 2}, ops);
    };
    t.hk = HK[s.below(3)];
    ops = fmt("hash %d: ", t.hk);
    for (u32 i = 0; i < 3; i++) { insert(t, i); if (i == first % 3) break; }
    step(first);
    for (int i = 0; i < 4; i++) step(s.below(9));
    full_iter(t, ops);
    destroy(t, true, ops);
    REQUIRE(heap::live == 0, "%zu blocks are still allocated\n  %s", heap::live, ops.c_str());
    s.nontrivial(ops);
}
// growth through the table sizes: insert n, verify all, remove a residue class, verify, re-insert
static void t_growth(Src& s) {
    heap::clear();
    g_serial = 0;
    static const int N[] = {34, 35, 36, 63, 64, 126, 127, 252, 254, 499, 502, 1002, 1004, 2001, 2003, 3998, 4000, 7987, 7989, 12000, 65540, 70000};
    int n = N[s.below(22)];
    Tab t;
    static const int HK[] = {0, 3, 5, 6};
    t.hk = HK[s.below(4)];
    static const u32 MS[] = {0, 53, 100, 5000};
    u32 ms = MS[s.below(4)];
    string ops = fmt("min %u hash %d n %d", ms, t.hk, n);
    { heap::In in; t.h = arg_hashtable_create(ms, hash_key, eq_key); }
    auto verify = [&] {
        REQUIRE(arg_hashtable_count(t.h) == t.m.size(), "count is %u, expected %zu\n  %s", arg_hashtable_count(t.h), t.m.size(), ops.c_str());
        for (int i = -3; i < n + 3; i++) check_one(t, (u32)i, ops);
        full_iter(t, ops);
    };
    for (int i = 0; i < n; i++) { insert(t, (u32)i); if (i < 300 || (i & 255) == 0) { check_one(t, 0, ops); check_one(t, (u32)i / 2, ops); check_one(t, (u32)i, ops); check_one(t, (u32)i + 1, ops); } }
    verify();
    for (int i = 0; i < n; i += 3) { Key p{(u32)i, hash_of(t.hk, (u32)i)}; { heap::In in; arg_hashtable_remove(t.h, &p); } t.m.erase((u32)i); }
    verify();
    for (int i = 0; i < n; i += 6) insert(t, (u32)i);
    verify();
    destroy(t, true, ops);
    REQUIRE(heap::live == 0, "%zu blocks are still allocated\n  %s", heap::live, ops.c_str());
    s.nontrivial("growth " + ops);
}
static void t_toolarge(Src& s) {
    u32 v = (1u << 30) + 1 + (s.below(8) ? s.below(0x80000000u) : 0);
    heap::clear();
    heap::In in;
    arg_hashtable_t* h = arg_hashtable_create(v, hash_key, eq_key);
    REQUIRE(!h, "a table of at least %u slots was created", v);
    REQUIRE(heap::live == 0, "%zu blocks leaked", heap::live);
    s.nontrivial(fmt("too large %u", v));
}
PBT_MAIN("C16", nullptr, Test{"small", t_small, true, 1000000, 1000000}, Test{"growth", t_growth, true, 1000, 1000}, Test{"toolarge", t_toolarge, false, 2000, 20000}, Test{"ops", t_ops, false, 150000, 4000000}, Test{"big", t_big, false, 6000, 200000})
