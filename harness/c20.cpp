// C20: every block the library allocates is released by the matching release call, slots are cleared,
// and arg_nullcheck tells exactly whether an entry is missing.
#include "heap.hpp"
typedef heap::In InLib;
#define HIST_LARGE 60
#include "hist.hpp"

static void settle_identity() { arg_set_module_name("x"); arg_set_module_version(0, 0, 0, "x"); }   // untracked blocks replace tracked ones
static void t_history(Src& s) {
    settle_identity();
    heap::clear();
    World w(s);
    int n = s.range(1, s.chance(1, 8) ? 40 : 12);
    for (int i = 0; i < n; i++) w.step();
    w.finish();
    settle_identity();
    REQUIRE(heap::live == 0, "%zu blocks of the library are still allocated at the end\n  %s", heap::live, w.ops.c_str());
    if (heap::allocs >= 3) s.nontrivial(w.ops);
    s.label(heap::allocs < 20 ? "<20 allocations" : heap::allocs < 100 ? "20..99 allocations" : ">=100 allocations");
}
// tables with missing entries: check and release
static void t_nulls(Src& s) {
    heap::clear();
    TableOpt to;
    to.max_entries = s.chance(1, 5) ? 30 : 6;
    Spec sp = gen_table(s, to);
    vector<void*> v;
    v.resize(sp.e.size() + 1);
    size_t n = sp.e.size() + 1;
    for (size_t i = 0; i < sp.e.size(); i++) { void* p; { heap::In in; p = build_entry(sp.e[i], API); } v[i] = p; }
    { void* p; { heap::In in; p = arg_end(sp.cap); } v[n - 1] = p; }
    REQUIRE(arg_nullcheck(v.data()) == 0, "a complete table is reported as incomplete\n  %s", sp.desc().c_str());
    // an array longer than the table: what follows the terminator does not matter
    bool tail = s.coin();
    size_t more = 0;
    if (tail && s.coin()) {             // another table, or part of one, in the same array
        more = 1 + s.below(4);
        for (size_t i = 0; i < more; i++) {
            void* p = nullptr;
            u32 k = s.below(5);
            v.push_back(nullptr);
            heap::In in;
            if (k == 0) p = arg_lit0("l", nullptr, nullptr); else if (k == 1) p = arg_strn(nullptr, "x", nullptr, 0, 3, nullptr); else if (k == 2) p = arg_rex0("r", nullptr, "a*", nullptr, 0, nullptr); else if (k == 3) p = arg_end(5);
            v.back() = p;
        }
        REQUIRE(arg_nullcheck(v.data()) == 0, "slots after the terminator are looked at\n  %s", sp.desc().c_str());
        s.label("entries behind the terminator");
    } else if (tail) { v.push_back(nullptr); REQUIRE(arg_nullcheck(v.data()) == 0, "a slot after the terminator is looked at\n  %s", sp.desc().c_str()); }
    u32 mode = s.below(3);
    vector<void*> was = v;
    string miss;
    for (size_t i = 0; i < n; i++)
        if (mode && (mode == 2 ? s.chance(1, 3) : i == s.below((u32)n))) { void* one = v[i]; arg_freetable(&one, 1); REQUIRE(!one, "the slot is not cleared"); v[i] = nullptr; miss += fmt("%zu ", i); }
    int chk = n && (v[n - 1] || !miss.empty()) ? arg_nullcheck(v.data()) : 1;
    REQUIRE((chk != 0) == !miss.empty(), "table check reports %d with missing entries [%s]\n  %s", chk, miss.c_str(), sp.desc().c_str());
    for (size_t i = 0; i < n; i++) REQUIRE(v[i] == was[i] || !v[i], "the check changed slot %zu", i);
    char behind;                        // must not be looked at
    v.push_back(&behind);
    { heap::In in; arg_freetable(v.data(), v.size() - 1); }
    for (size_t i = 0; i + 1 < v.size(); i++) REQUIRE(!v[i], "slot %zu of %zu (%zu of them behind the terminator) is not cleared\n  %s missing [%s]", i, v.size() - 1, more, sp.desc().c_str(), miss.c_str());
    REQUIRE(v.back() == (void*)&behind, "a slot beyond the given size was touched\n  %s", sp.desc().c_str());
    REQUIRE(heap::live == 0, "%zu blocks are still allocated after freeing a table with missing entries [%s]\n  %s", heap::live, miss.c_str(), sp.desc().c_str());
    REQUIRE(arg_nullcheck(nullptr) != 0, "no table at all is reported as complete");
    s.label(miss.empty() ? "complete" : "missing entries");
    if (n > 1) s.nontrivial(sp.desc() + " missing " + miss);
}
// the older arg_free: everything up to the terminator or the first missing entry, nothing behind it
static void t_oldfree(Src& s) {
    heap::clear();
    TableOpt to;
    to.max_entries = s.chance(1, 5) ? 30 : 6;
    Spec sp = gen_table(s, to);
    size_t n = sp.e.size() + 1;
    vector<void*> v(n);
    for (size_t i = 0; i < sp.e.size(); i++) { heap::In in; v[i] = build_entry(sp.e[i], API); }
    { heap::In in; v[n - 1] = arg_end(sp.cap); }
    bool parse = s.coin();
    vector<string> a;
    std::unique_ptr<Argv> av;
    if (parse) { a = gen_argv(s, sp, 6); av.reset(new Argv(a)); heap::In in; arg_parse(av->argc(), av->p.data(), v.data()); }
    char after;                        // must not be looked at
    v.push_back(&after);
    long gap = -1;
    if (s.chance(1, 3)) {
        gap = (long)s.below((u32)n);
        void* one = v[(size_t)gap];
        heap::In in;
        arg_freetable(&one, 1);
        v[(size_t)gap] = nullptr;
    }
    vector<void*> was = v;
    { heap::In in; arg_free(v.data()); }
    string ctx = sp.desc() + fmt(" missing %ld", gap);
    for (size_t i = 0; i < n; i++) {
        if (gap >= 0 && (long)i > gap) { REQUIRE(v[i] == was[i], "slot %zu behind the missing one was touched\n  %s", i, ctx.c_str()); continue; }
        REQUIRE(!v[i], "slot %zu is not cleared\n  %s", i, ctx.c_str());
    }
    REQUIRE(v[n] == (void*)&after, "the slot behind the table was touched\n  %s", ctx.c_str());
    if (gap >= 0) { heap::In in; arg_freetable(v.data() + gap, n - (size_t)gap); }
    REQUIRE(heap::live == 0, "%zu blocks are still allocated\n  %s", heap::live, ctx.c_str());
    s.label(gap < 0 ? "complete" : "missing entry");
    if (n > 1) s.nontrivial("arg_free " + ctx);
}
PBT_MAIN("C20", nullptr, Test{"nulls", t_nulls, false, 60000, 1000000}, Test{"oldfree", t_oldfree, false, 30000, 500000}, Test{"history", t_history, false, 80000, 3000000})
