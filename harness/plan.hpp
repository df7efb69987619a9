// plan.hpp - valid requests ("what the user wants") and their many spellings.
#pragma once
#include "table.hpp"

struct Occ { int entry; bool has; string val; };
struct Plan {
    vector<vector<Occ>> opt;     // per entry, in order
    vector<string> operands;
    vector<int> owner;           // entry of each operand
    string desc() const {
        string r = "request{";
        for (auto& v : opt) for (auto& o : v) r += fmt(" #%d", o.entry) + (o.has ? "=" + q(o.val) : "");
        for (size_t i = 0; i < operands.size(); i++) r += fmt(" @%d:", owner[i]) + q(operands[i]);
        return r + " }";
    }
};
static string gen_value_nonempty(Src& s, const Entry& e) {
    string v = gen_good_value(s, e);
    if (v.empty()) v = "ab";
    if (e.kind == STR && s.chance(1, 4)) { v = gen_text(s, s.chance(1, 8) ? 300 : 12); if (v.empty()) v = "t"; }
    if ((e.kind == STR || e.kind == FIL) && s.chance(1, 6)) v = s.pick<char>({'=', '-', ':', '+', ',', '/', '\\', '%', ' ', '.', '"', '=', '-'}) + v;
    return v;
}
// empties: an empty value is possible for a letter in the next argument, and as an operand
static Plan gen_plan(Src& s, const Spec& sp, int extra, bool empties = true) {
    Plan p;
    p.opt.resize(sp.e.size());
    vector<int> pos;
    for (size_t i = 0; i < sp.e.size(); i++) {
        const Entry& e = sp.e[i];
        if (e.kind == REM) continue;
        if (!e.tagged()) { pos.push_back((int)i); continue; }
        int hi = e.emax();
        if (hi > e.min + extra) hi = e.min + extra;
        int k = s.range(e.min, hi);
        for (int j = 0; j < k; j++) {
            Occ o{(int)i, e.takes_value(), ""};
            if (o.has && e.optval && s.coin()) o.has = false;
            if (o.has) o.val = gen_value_nonempty(s, e);
            if (o.has && empties && (e.kind == STR || e.kind == FIL) && !e.optval && !e.shorts.empty() && s.chance(1, 16)) o.val.clear();
            p.opt[i].push_back(o);
        }
    }
    // positionals: every entry but the last one used is filled up, so the hand-over is determined
    int last_req = -1;
    for (size_t t = 0; t < pos.size(); t++)
        if (sp.e[(size_t)pos[t]].min > 0) last_req = (int)t;
    int last = s.range(last_req, (int)pos.size() - 1);
    for (int t = 0; t <= last; t++) {
        const Entry& e = sp.e[(size_t)pos[(size_t)t]];
        int k = t < last ? e.emax() : s.range(e.min, e.emax());
        for (int j = 0; j < k; j++) { p.operands.push_back(e.kind == LIT ? "lit" : empties && (e.kind == STR || e.kind == FIL) && s.chance(1, 12) ? string() : gen_value_nonempty(s, e)); p.owner.push_back(pos[(size_t)t]); }
    }
    return p;
}
static Obs plan_obs(const Spec& sp, const Plan& p) {
    Model m(sp);
    EK ek;
    for (auto& v : p.opt) for (auto& o : v) REQUIRE(m.scan(o.entry, o.has ? &o.val : nullptr, &ek), "harness: plan value refused: %s", q(o.val).c_str());
    for (size_t i = 0; i < p.operands.size(); i++) REQUIRE(m.scan(p.owner[i], &p.operands[i], &ek), "harness: plan operand refused: %s", q(p.operands[i]).c_str());
    m.o.ret = 0;
    return m.o;
}
// one spelling of the request
struct SpellOpt { bool posix = false; };
static vector<string> spell(Src& s, const Spec& sp, const Plan& p, std::set<string>* feats, SpellOpt so = SpellOpt()) {
    Model m(sp);
    vector<size_t> next(p.opt.size(), 0);
    vector<Occ> seq;
    for (;;) {
        vector<int> avail;
        for (size_t i = 0; i < p.opt.size(); i++)
            if (next[i] < p.opt[i].size()) avail.push_back((int)i);
        if (avail.empty()) break;
        int i = avail[s.below((u32)avail.size())];
        seq.push_back(p.opt[(size_t)i][next[(size_t)i]++]);
    }
    vector<vector<string>> units;
    bool pack = s.chance(1, 8);   // letters go together wherever they can
    for (size_t i = 0; i < seq.size();) {
        const Entry* e = &sp.e[(size_t)seq[i].entry];
        bool use_short = !e->shorts.empty() && (e->longs.empty() || (seq[i].has && seq[i].val.empty()) || (pack ? !s.chance(1, 40) : s.coin()));
        if (use_short) {
            string t = "-";
            vector<string> u;
            int in = 0;
            for (;;) {
                t += e->shorts[s.below((u32)e->shorts.size())];
                in++;
                if (e->takes_value()) {
                    if (seq[i].has) {
                        if (e->optval || (!seq[i].val.empty() && s.coin())) { t += seq[i].val; u.push_back(t); feats->insert("attached"); }
                        else { u.push_back(t); u.push_back(seq[i].val); feats->insert("separate"); }
                    } else u.push_back(t);
                    i++;
                    break;
                }
                i++;
                if (i < seq.size() && !sp.e[(size_t)seq[i].entry].shorts.empty() && (pack ? !s.chance(1, 40) : s.coin())) { e = &sp.e[(size_t)seq[i].entry]; continue; }
                u.push_back(t);
                break;
            }
            if (in > 1) feats->insert("cluster");
            units.push_back(u);
        } else {
            string l = e->longs[s.below((u32)e->longs.size())];
            if (s.coin()) {
                string a = l.substr(0, (size_t)s.range(1, (int)l.size()));
                if (m.long_owner(a) == seq[i].entry) { if (a != l) feats->insert("abbreviation"); l = a; }
            }
            if (!seq[i].has) units.push_back({"--" + l});
            else if (e->optval || s.coin()) { units.push_back({"--" + l + "=" + seq[i].val}); feats->insert("long="); }
            else { units.push_back({"--" + l, seq[i].val}); feats->insert("long separate"); }
            i++;
        }
    }
    // operands: a prefix of them among the options, the rest at the end, after "--" when needed
    size_t split = 0;
    size_t maxsplit = 0;
    while (maxsplit < p.operands.size() && !(p.operands[maxsplit].size() >= 2 && p.operands[maxsplit][0] == '-')) maxsplit++;
    if (!so.posix) split = (size_t)s.below((u32)maxsplit + 1);
    vector<string> out{"prog"};
    size_t k = 0;
    for (size_t i = 0; i <= units.size(); i++) {
        while (k < split && (s.coin() || i == units.size())) { out.push_back(p.operands[k++]); if (i < units.size()) feats->insert("operand before option"); }
        if (i < units.size()) for (auto& t : units[i]) out.push_back(t);
    }
    bool need = false;
    for (size_t j = split; j < p.operands.size(); j++) need |= p.operands[j].size() >= 2 && p.operands[j][0] == '-';
    if (so.posix && split < p.operands.size() && !(p.operands[split].size() >= 2 && p.operands[split][0] == '-')) need = false;
    if (need || s.coin()) { out.push_back("--"); feats->insert("--"); }
    for (; k < p.operands.size(); k++) out.push_back(p.operands[k]);
    return out;
}
