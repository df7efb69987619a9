// C03: equivalent spellings of a request parse identically (metamorphic; the request's values are the oracle).
#include "plan.hpp"

static Obs parse(const Spec& sp, const vector<string>& a) {
    Built b = build(sp);
    b.set_defaults();
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    av.check_untouched();
    return observe(b, ret);
}
static void t_spell(Src& s) {
    TableOpt to;
    to.unique_tags = true;
    to.positional_lit = false;
    to.max_entries = s.chance(1, 20) ? 30 : 7;
    Spec sp = gen_table(s, to);
    Plan p = gen_plan(s, sp, s.chance(1, 30) ? s.tail(100) : 3);
    Obs want = plan_obs(sp, p);
    bool posix = s.chance(1, 8);
    set_posix(posix);
    SpellOpt so;
    so.posix = posix;
    std::set<string> f;
    vector<string> a = spell(s, sp, p, &f, so), b = spell(s, sp, p, &f, so);
    string ctx = sp.desc() + " " + p.desc() + " ";
    Obs oa = parse(sp, a);
    compare_obs(want, oa, ctx + argv_desc(a));
    Obs ob = parse(sp, b);
    compare_obs(want, ob, ctx + argv_desc(b));
    for (auto& x : f) s.label(x);
    size_t nopt = 0;
    for (auto& v : p.opt) nopt += v.size();
    if (a != b && nopt + p.operands.size() >= 2) s.nontrivial(ctx + argv_desc(a) + " = " + argv_desc(b));
    if (p.operands.size() >= 2 && nopt >= 2) s.label(">=2 options and >=2 operands");
}
PBT_MAIN("C03", nullptr, Test{"spellings", t_spell, false, 300000, 8000000})
