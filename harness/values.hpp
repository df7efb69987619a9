// values.hpp - feed a batch of argument texts to one value entry and compare every outcome with the oracle
#pragma once
#include "plan.hpp"
#include "text.hpp"

// how the values reach the entry
enum Route { SHORT_SEP, SHORT_ATT, LONG_EQ, LONG_SEP, POSITIONAL };
// one entry, max = number of values; every value is given once; refused ones are reported in order
static void check_batch(Src& s, Entry e, const vector<string>& vals, Route r, int extra_slots, string* canon = nullptr) {
    e.shorts.clear();
    e.longs.clear();
    if (r == SHORT_SEP || r == SHORT_ATT) e.shorts = "x";
    if (r == LONG_EQ || r == LONG_SEP) e.longs = {"val"};
    e.min = 0;
    e.max = (int)vals.size() + extra_slots;
    e.finish();
    Spec sp;
    sp.e.push_back(e);
    sp.cap = 2 * (int)vals.size() + 2;
    vector<string> a{"prog"};
    if (r == POSITIONAL) a.push_back("--");
    vector<string> fed;
    for (auto& v : vals) {
        if (v.empty() && r != POSITIONAL && r != SHORT_SEP) continue;
        fed.push_back(v);
        switch (r) {
            case SHORT_SEP: a.push_back("-x"); a.push_back(v); break;
            case SHORT_ATT: a.push_back("-x" + v); break;
            case LONG_EQ: a.push_back("--val=" + v); break;
            case LONG_SEP: a.push_back("--val"); a.push_back(v); break;
            default: a.push_back(v);
        }
    }
    set_posix(false);
    Built b = build(sp);
    b.set_defaults();
    Argv av(a);
    int ret = API->arg_parse(av.argc(), av.p.data(), b.tab.data());
    Obs o = observe(b, ret);
    string ctx = sp.desc() + " " + argv_desc(a);
    // expectation: each option value on its own; positionals stop at the first refusal
    vector<string> slots;
    vector<Err> errs;
    size_t accepted = 0;
    for (size_t i = 0; i < fed.size(); i++) {
        string out;
        EK ek = E_OTHER;
        if (Model::convert(e, fed[i], (int)accepted, &out, &ek)) { slots.push_back(out); accepted++; }
        else {
            Err x;
            x.k = ek; x.parent = 0; x.has = true; x.arg = fed[i];
            errs.push_back(x);
            if (r == POSITIONAL) {
                for (size_t j = i + 1; j < fed.size(); j++) { Err y; y.k = E_NOMATCH; y.has = true; y.arg = fed[j]; errs.push_back(y); }
                break;
            }
        }
    }
    Obs want;
    want.ret = (int)errs.size();
    want.count.push_back((int)accepted);
    want.slots.push_back(slots);
    for (int k = (int)accepted; k < e.max; k++) want.slots[0].push_back(Model::def_slot(e, k));
    want.errs = errs;
    compare_obs(want, o, ctx);
    for (auto& x : errs) s.label(string("refused: ") + EKNAME[x.k]);
    if (accepted) s.label("accepted some");
    if (canon) *canon = ctx;
    if (!fed.empty()) s.nontrivial(ctx);
}
// very many values for one entry
static void check_many(Src& s, Entry e, const vector<string>& base) {
    int n = s.tail(s.chance(1, 10) ? 5000 : 600);
    vector<string> v;
    for (int i = 0; i < n; i++) v.push_back(base[(size_t)i % base.size()]);
    check_batch(s, e, v, (Route)s.below(5), (int)s.below(2));
    if (n > 255) s.label("more than 255 values");
}
