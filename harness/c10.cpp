// C10: file arguments decompose losslessly into name, base name and extension.
#include "values.hpp"

static void t_small(Src& s) {  // every path of up to 8 characters over {/ . a b}
    static const char AL[] = "/.ab";
    Entry e;
    e.kind = FIL;
    string v;
    for (int i = 0; i < 8; i++) {
        u32 c = s.below(sizeof AL);
        if (!c) break;
        v += AL[c - 1];
    }
    check_batch(s, e, vector<string>{v}, SHORT_SEP, 0);
}
static string gen_path(Src& s) {
    string r;
    int n = s.size(s.chance(1, 20) ? 400 : 14);
    if (s.chance(1, 100)) {   // very long paths
        string part = s.pick_s({"d", "dir/", "a.b/", ".", "/", "x", "../"});
        int len = s.tail(s.chance(1, 8) ? 70000 : 6000);
        while ((int)r.size() < len) r += part;
        n = s.range(0, 8);
    }
    for (int i = 0; i < n; i++) switch (s.weighted({4, 3, 3, 2, 1})) {
        case 0: r += (char)('a' + s.below(26)); break;
        case 1: r += '/'; break;
        case 2: r += '.'; break;
        case 3: r += s.pick_s({"..", "./", "../", "tar.gz", "\\", ":", " ", "-"}); break;
        default: r += (char)(1 + s.below(255)); break;
    }
    return r;
}
static void t_random(Src& s) {
    Entry e;
    e.kind = FIL;
    int n = s.range(1, 6);
    vector<string> v;
    for (int i = 0; i < n; i++) v.push_back(gen_path(s));
    string ctx;
    check_batch(s, e, v, (Route)s.below(5), (int)s.below(3), &ctx);
}
// algebra of the decomposition, independent of the oracle, and the parts point into the argument itself
static void t_laws(Src& s) {
    vector<string> a{"prog"};
    int n = s.range(1, 5);
    for (int i = 0; i < n; i++) { a.push_back("-f"); a.push_back(gen_path(s)); }
    arg_file* f = arg_filen("f", nullptr, nullptr, 0, n, nullptr);
    void* tab[] = {f, arg_end(5)};
    Argv av(a);
    set_posix(false);
    int ret = arg_parse(av.argc(), av.p.data(), tab);
    string ctx = argv_desc(a);
    REQUIRE(ret == 0 && f->count == n, "ret %d count %d\n  %s", ret, f->count, ctx.c_str());
    for (int i = 0; i < n; i++) {
        string in = a[(size_t)(2 + 2 * i)], name = f->filename[i], base = f->basename[i], ext = f->extension[i];
        REQUIRE(name == in, "file name %s differs from the argument %s", q(name).c_str(), q(in).c_str());
        REQUIRE(base.find('/') == string::npos, "base name %s contains a separator (%s)", q(base).c_str(), q(in).c_str());
        REQUIRE(in.size() >= base.size() && in.compare(in.size() - base.size(), string::npos, base) == 0, "base name %s is no suffix of %s", q(base).c_str(), q(in).c_str());
        REQUIRE(base.size() >= ext.size() && base.compare(base.size() - ext.size(), string::npos, ext) == 0, "extension %s is no suffix of %s", q(ext).c_str(), q(base).c_str());
        if (!ext.empty()) REQUIRE(ext[0] == '.' && ext.size() >= 2 && ext.find('.', 1) == string::npos && ext.size() < base.size(), "odd extension %s of %s", q(ext).c_str(), q(in).c_str());
    }
    arg_freetable(tab, 2);
    s.nontrivial(ctx);
}
static void t_many(Src& s) {
    Entry e;
    e.kind = FIL;
    vector<string> v;
    int n = s.range(1, 7);
    for (int i = 0; i < n; i++) v.push_back(gen_path(s));
    check_many(s, e, v);
}
PBT_MAIN("C10", nullptr, Test{"small", t_small, true, 1000000, 1000000}, Test{"random", t_random, false, 200000, 5000000}, Test{"laws", t_laws, false, 60000, 2000000}, Test{"many", t_many, false, 600, 20000})
