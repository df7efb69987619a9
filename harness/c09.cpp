// C09: regular-expression arguments accept exactly the strings their pattern denotes.
// Oracle: membership by sets of end positions over the pattern's syntax tree (no backtracking, no greed).
#include "values.hpp"
#include <bitset>

typedef std::bitset<256> CS;
struct Node;
typedef std::shared_ptr<Node> NP;
struct Node {
    enum T { SET, SEQ, ALT, GROUP, REP, BOL, EOL, WB } t;
    CS set;
    string src;              // SET: its spelling
    vector<NP> kid;
    bool cap = true;         // GROUP; WB: true for \b, false for \B
    int lo = 0, hi = 0;      // REP, hi<0: unbounded
    string quant;            // REP: its spelling
};
static NP mk(Node::T t) { NP n = std::make_shared<Node>(); n->t = t; return n; }
static string render(const NP& n) {
    switch (n->t) {
        case Node::SET: return n->src;
        case Node::BOL: return "^";
        case Node::EOL: return "$";
        case Node::WB: return n->cap ? "\\b" : "\\B";
        case Node::SEQ: { string r; for (auto& k : n->kid) r += render(k); return r; }
        case Node::ALT: { string r; for (size_t i = 0; i < n->kid.size(); i++) r += (i ? "|" : "") + render(n->kid[i]); return r; }
        case Node::GROUP: return (n->cap ? "(" : "(?:") + render(n->kid[0]) + ")";
        default: return render(n->kid[0]) + n->quant;
    }
}
typedef std::set<int> PS;
static bool isws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static PS ends(const NP& n, const string& x, const PS& from) {
    PS out;
    if (from.empty()) return out;
    switch (n->t) {
        case Node::SET: for (int p : from) if (p < (int)x.size() && n->set[(unsigned char)x[(size_t)p]]) out.insert(p + 1); return out;
        case Node::BOL: if (from.count(0)) out.insert(0); return out;
        case Node::EOL: if (from.count((int)x.size())) out.insert((int)x.size()); return out;
        case Node::WB:
            for (int p : from) {
                bool bef = p > 0 && !isws(x[(size_t)p - 1]), aft = p < (int)x.size() && !isws(x[(size_t)p]);
                if ((bef != aft) == n->cap) out.insert(p);
            }
            return out;
        case Node::SEQ: { PS c = from; for (auto& k : n->kid) c = ends(k, x, c); return c; }
        case Node::ALT: for (auto& k : n->kid) { PS c = ends(k, x, from); out.insert(c.begin(), c.end()); } return out;
        case Node::GROUP: return ends(n->kid[0], x, from);
        case Node::REP: {
            PS cur = from, all;
            for (int i = 0; i < n->lo; i++) cur = ends(n->kid[0], x, cur);
            all = cur;
            for (int i = n->lo; n->hi < 0 || i < n->hi; i++) {
                PS nx = ends(n->kid[0], x, cur), fresh;
                for (int p : nx) if (!all.count(p)) fresh.insert(p);
                if (fresh.empty()) break;
                all.insert(fresh.begin(), fresh.end());
                cur = nx;
            }
            return all;
        }
    }
    return out;
}
static bool denotes(const NP& n, const string& x) { return ends(n, x, PS{0}).count((int)x.size()) > 0; }
static bool nullable(const NP& n) {
    switch (n->t) {
        case Node::SET: return false;
        case Node::BOL: case Node::EOL: case Node::WB: return true;
        case Node::SEQ: for (auto& k : n->kid) if (!nullable(k)) return false; return true;
        case Node::ALT: for (auto& k : n->kid) if (nullable(k)) return true; return false;
        case Node::GROUP: return nullable(n->kid[0]);
        default: return n->lo == 0 || nullable(n->kid[0]);
    }
}
static CS first(const NP& n) {
    switch (n->t) {
        case Node::SET: return n->set;
        case Node::BOL: case Node::EOL: case Node::WB: return CS();
        case Node::SEQ: { CS r; for (auto& k : n->kid) { r |= first(k); if (!nullable(k)) break; } return r; }
        case Node::ALT: { CS r; for (auto& k : n->kid) r |= first(k); return r; }
        case Node::GROUP: return first(n->kid[0]);
        default: return n->hi == 0 ? CS() : first(n->kid[0]);
    }
}
// one-character-lookahead deterministic given what may follow; nx: the syntactic successor (may be null)
static bool decided(const NP& n, const CS& follow, const NP& nx) {
    switch (n->t) {
        case Node::SET: case Node::BOL: case Node::EOL: case Node::WB: return true;
        case Node::GROUP: return decided(n->kid[0], follow, nx);
        case Node::SEQ: {
            CS f = follow;
            for (size_t i = n->kid.size(); i-- > 0;) {
                if (!decided(n->kid[i], f, i + 1 < n->kid.size() ? n->kid[i + 1] : nx)) return false;
                CS g = first(n->kid[i]);
                f = nullable(n->kid[i]) ? (f | g) : g;
            }
            return true;
        }
        case Node::ALT: {
            CS seen;
            for (size_t i = 0; i < n->kid.size(); i++) {
                CS g = first(n->kid[i]);
                if ((g & seen).any()) return false;
                seen |= g;
                if (nullable(n->kid[i])) {
                    if (i + 1 < n->kid.size()) return false;  // an empty alternative must be the last
                    if ((seen & follow).any()) return false;
                }
                if (!decided(n->kid[i], follow, n->kid.size() == 1 ? nx : nullptr)) return false;
            }
            return true;
        }
        default: {
            const NP& b = n->kid[0];
            if (nullable(b)) return false;
            CS g = first(b);
            bool variable = n->hi < 0 || n->hi > n->lo;
            if (variable && (g & follow).any()) return false;
            if (!decided(b, n->hi == 1 ? follow : (follow | g), nx)) return false;
            // a variable repetition directly followed by something that may match nothing (other than another
            // optional repetition or the end) is stopped early by the engine: outside the stated domain
            if (variable && n->hi != 1 && nx && nullable(nx) && nx->t != Node::EOL && !(nx->t == Node::REP && nx->lo == 0)) return false;
            return true;
        }
    }
}
// ---- generator
static const char PRINT[] = "abcdxyzABZ019_ -,:;=@#!~%&'\"<>/";
static string esc(char c) { return string(strchr("\\()[]^$.*+?{}|-", c) ? "\\" : "") + c; }
static CS fold(CS c, bool ic) {
    if (!ic) return c;
    CS r = c;
    for (int i = 'a'; i <= 'z'; i++) if (c[(size_t)i] || c[(size_t)(i - 32)]) { r.set((size_t)i); r.set((size_t)(i - 32)); }
    return r;
}
static CS cclass(char k) {
    CS r;
    for (int i = 1; i < 256; i++) {
        bool a = i < 128;
        bool up = i >= 'A' && i <= 'Z', low = i >= 'a' && i <= 'z', dg = i >= '0' && i <= '9';
        bool sp = i == ' ' || (i >= 9 && i <= 13), ct = i < 32 || i == 127, pu = a && !ct && i > 32 && !up && !low && !dg;
        bool xd = dg || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F');
        bool v;
        switch (k) {
            case 'a': v = up || low; break;          case 'A': v = !(up || low); break;
            case 'w': v = up || low || dg || i == '_'; break;  case 'W': v = !(up || low || dg || i == '_'); break;
            case 's': v = sp; break;                 case 'S': v = !sp; break;
            case 'd': v = dg; break;                 case 'D': v = !dg; break;
            case 'x': v = xd; break;                 case 'X': v = !xd; break;
            case 'c': v = ct && a; break;            case 'C': v = !(ct && a); break;
            case 'p': v = pu; break;                 case 'P': v = !pu; break;
            case 'l': v = low; break;                default: v = up; break;
        }
        if (v) r.set((size_t)i);
    }
    return r;
}
static const char CCL[] = "adwsxpAWSDXPcClu";
// one literal character in one of its spellings, outside or inside a class
static char gen_char(Src& s, const char* alpha, bool cls, string* src) {
    static const char SPECIAL[] = "\\()[]^$.*+?{}|-", CTL[] = "\n\t\r\f\v", CTLN[] = "ntrfv";
    // escaping any other character, letters without a meaning of their own included, denotes that character
    static const char PLAIN[] = "eghijkmoqyzEFGHIJKLMNOQRTUVYZ0189_/\"'%&~!@#<>=:;, bB";
    switch (s.weighted({10, 2, 1, 1})) {
        case 0: { char c = alpha[s.below((u32)strlen(alpha))]; *src = esc(c); return c; }
        case 1: {
            char c = SPECIAL[s.below(sizeof SPECIAL - 1)];
            bool bare = s.coin() && strchr(cls ? "().*+?{}|$[" : "]}-", c);
            *src = bare ? string(1, c) : esc(c);
            return c;
        }
        case 2: { u32 k = s.below(5); *src = string("\\") + CTLN[k]; return CTL[k]; }
        default: { char c = PLAIN[s.below((u32)(sizeof PLAIN - (cls ? 1 : 3)))]; *src = string("\\") + c; return c; }
    }
}
static NP gen_set(Src& s, bool ic, const char* alpha) {
    NP n = mk(Node::SET);
    u32 ncl = ic ? 14 : 16;  // \l and \u have no defined meaning when case is ignored
    switch (s.weighted({8, 1, 2, 4})) {
        case 0: {
            n->set.set((unsigned char)gen_char(s, alpha, false, &n->src));
            n->set = fold(n->set, ic);
            break;
        }
        case 1: n->src = "."; n->set.set(); n->set.reset(0); break;
        case 2: { char k = CCL[s.below(ncl)]; n->src = string("\\") + k; n->set = cclass(k); break; }
        default: {
            bool neg = s.chance(1, 4);
            string r = neg ? "[^" : "[";
            CS lit, cc;
            if (s.chance(1, 12)) { r += "-"; lit.set('-'); }  // a leading dash stands for itself
            int m = s.chance(1, 10) ? s.range(5, 14) : s.range(1, 4);
            for (int i = 0; i < m; i++) switch (s.weighted({4, 3, 1})) {
                case 0: { string sp; char c = gen_char(s, alpha, true, &sp); r += sp; lit.set((unsigned char)c); break; }
                case 1: {
                    if (s.chance(1, 5)) {  // control characters and escapes as end points
                        u32 a = s.below(5), b = s.below(5);
                        static const char O[] = "\t\n\v\f\r", N[] = "tnvfr";
                        if (a > b) std::swap(a, b);
                        r += string("\\") + N[a] + "-\\" + N[b];
                        for (u32 c = a; c <= b; c++) lit.set((unsigned char)O[c]);
                        break;
                    }
                    static const char* R[] = {"az", "AZ", "09", "af", "xz", "13", "bb", "!/", "Az", "Zb", " ~", "a~", "0a", "[a", "*A", "Y_"};
                    const char* p = R[s.below(16)];
                    char a = p[0], b = p[1];
                    if (isalnum((unsigned char)a) && isalnum((unsigned char)b) && s.coin()) a = (char)(a + s.below((u32)(b - a) + 1));
                    r += esc(a) + "-" + esc(b);
                    for (int c = a; c <= b; c++) lit.set((size_t)c);
                    if (s.chance(1, 10)) { r += "-"; lit.set('-'); }  // and so does one behind a range
                    break;
                }
                default: { char k = CCL[s.below(ncl)]; r += string("\\") + k; cc |= cclass(k); break; }
            }
            n->src = r + "]";
            n->set = fold(lit, ic) | cc;
            if (neg) n->set.flip();
            n->set.reset(0);
        }
    }
    return n;
}
static NP gen_alt(Src& s, int depth, bool ic, const char* alpha);
static NP gen_elem(Src& s, int depth, bool ic, const char* alpha) {
    NP n;
    if (depth > 0 && s.chance(1, 4)) {
        n = mk(Node::GROUP);
        n->cap = !s.chance(1, 3);
        n->kid.push_back(gen_alt(s, depth - 1, ic, alpha));
    } else n = gen_set(s, ic, alpha);
    if (s.chance(1, 3)) {
        NP r = mk(Node::REP);
        r->kid.push_back(n);
        switch (s.below(6)) {
            case 0: r->lo = 0; r->hi = -1; r->quant = "*"; break;
            case 1: r->lo = 1; r->hi = -1; r->quant = "+"; break;
            case 2: r->lo = 0; r->hi = 1; r->quant = "?"; break;
            case 3: r->lo = r->hi = s.range(0, 3); r->quant = fmt("{%d}", r->lo); break;
            case 4: r->lo = s.range(0, 3); r->hi = -1; r->quant = fmt("{%d,}", r->lo); break;
            default: r->lo = s.range(0, 2); r->hi = r->lo + s.range(0, 3); r->quant = fmt("{%d,%d}", r->lo, r->hi); break;
        }
        n = r;
    }
    return n;
}
static NP gen_alt(Src& s, int depth, bool ic, const char* alpha) {
    NP a = mk(Node::ALT);
    int m = s.chance(1, 4) ? s.range(2, 3) : 1;
    for (int i = 0; i < m; i++) {
        NP q = mk(Node::SEQ);
        if (s.chance(1, 12)) q->kid.push_back(mk(Node::BOL));
        int k = s.range(1, 4);
        for (int j = 0; j < k; j++) {
            if (s.chance(1, 16)) { NP w = mk(Node::WB); w->cap = s.coin(); q->kid.push_back(w); }
            q->kid.push_back(gen_elem(s, depth, ic, alpha));
        }
        if (s.chance(1, 24)) { NP w = mk(Node::WB); w->cap = s.coin(); q->kid.push_back(w); }
        if (s.chance(1, 12)) q->kid.push_back(mk(Node::EOL));
        a->kid.push_back(q);
    }
    return a;
}
// a member of the language (if the anchors inside allow it)
static void sample(Src& s, const NP& n, string* out) {
    switch (n->t) {
        case Node::SET: {
            vector<int> c;
            for (int i = 1; i < 256; i++) if (n->set[(size_t)i]) c.push_back(i);
            if (c.empty()) return;
            size_t k = s.below((u32)c.size());
            if (s.chance(3, 4)) for (size_t j = 0; j < c.size(); j++) { size_t m = (k + j) % c.size(); if (isalnum(c[m])) { k = m; break; } }
            *out += (char)c[k];
            return;
        }
        case Node::SEQ: for (auto& k : n->kid) sample(s, k, out); return;
        case Node::ALT: sample(s, n->kid[s.below((u32)n->kid.size())], out); return;
        case Node::GROUP: sample(s, n->kid[0], out); return;
        case Node::REP: { int hi = n->hi < 0 ? n->lo + 3 : n->hi; int k = s.range(n->lo, hi); for (int i = 0; i < k && out->size() < 400; i++) sample(s, n->kid[0], out); return; }
        default: return;
    }
}
static vector<string> gen_texts(Src& s, const NP& n, bool ic) {
    vector<string> v;
    int m = s.range(1, 6);
    for (int i = 0; i < m; i++) {
        string t;
        sample(s, n, &t);
        if (s.chance(1, 3)) for (auto& c : t) if (isalpha((unsigned char)c) && s.coin()) c ^= 32;
        if (s.chance(1, 2)) {
            int k = (int)s.weighted({0, 3, 1});
            for (int j = 0; j < k; j++) switch (s.below(4)) {
                case 0: t.insert(s.below((u32)t.size() + 1), 1, PRINT[s.below(sizeof PRINT - 1)]); break;
                case 1: if (!t.empty()) t.erase(s.below((u32)t.size()), 1); break;
                case 2: if (!t.empty()) t[s.below((u32)t.size())] = PRINT[s.below(sizeof PRINT - 1)]; break;
                default: if (!t.empty()) t += t[s.below((u32)t.size())]; break;
            }
        }
        v.push_back(t);
    }
    return v;
}
struct RexRun {
    vector<string> stored;
    vector<bool> accepted;
};
static RexRun run_rex(const string& pat, bool ic, const vector<string>& texts, bool big = false) {
    int n = (int)texts.size();
    arg_rex* r = arg_rexn("x", nullptr, pat.c_str(), nullptr, 0, n + 1, ic ? ARG_REX_ICASE : 0, nullptr);
    void* tab[] = {r, arg_end(n + 1)};
    vector<string> a{"prog"};
    for (auto& t : texts) { a.push_back("-x"); a.push_back(t); }
    Argv av(a);
    set_posix(false);
    int ret = arg_parse(av.argc(), av.p.data(), tab);
    struct arg_end* e = (struct arg_end*)tab[1];
    RexRun R;
    string ctx = "pattern " + q(pat) + (ic ? " (case ignored) " : " ") + (big ? fmt("%d texts", n) : argv_desc(a));
    REQUIRE(ret >= 0 && ret <= n && r->count == n - ret, "%d refused, %d stored\n  %s", ret, r->count, ctx.c_str());
    // refused ones by their position in argv
    std::set<const char*> ref;
    for (int i = 0; i < ret; i++) { REQUIRE(e->parent[i] == (void*)r, "error of another entry\n  %s", ctx.c_str()); ref.insert(e->argval[i]); }
    int k = 0;
    for (int i = 0; i < n; i++) {
        bool acc = !ref.count(av.p[(size_t)(2 + 2 * i)]);
        R.accepted.push_back(acc);
        if (acc) { REQUIRE(string(r->sval[k]) == texts[(size_t)i], "stored %s instead of the argument\n  %s", q(r->sval[k]).c_str(), ctx.c_str()); k++; }
    }
    REQUIRE(k == r->count, "stored %d values, accepted %d\n  %s", r->count, k, ctx.c_str());
    // the messages are printable
    string msg = capture_ds(API, [&](arg_dstr_t d) { API->arg_print_errors_ds(d, e, "p"); });
    arg_freetable(tab, 2);
    return R;
}
static void check_texts(Src& s, const NP& n, bool ic, const vector<string>& t) {
    string pat = render(n);
    bool det = decided(n, CS(), nullptr);
    RexRun R = run_rex(pat, ic, t);
    string ctx = "pattern " + q(pat) + (ic ? " (case ignored)" : "");
    bool anyin = false, anyout = false;
    for (size_t i = 0; i < t.size(); i++) {
        bool in = denotes(n, t[i]);
        (in ? anyin : anyout) = true;
        if (R.accepted[i]) REQUIRE(in, "accepts %s, which the pattern does not denote\n  %s", q(t[i]).c_str(), ctx.c_str());
        else if (det) REQUIRE(!in, "rejects %s, which the (unambiguous) pattern denotes\n  %s", q(t[i]).c_str(), ctx.c_str());
    }
    s.label(det ? "unambiguous pattern" : "ambiguous pattern");
    if (det && anyin) s.label("unambiguous, member");
    if (anyin) s.label("member");
    if (anyout) s.label("non-member");
    s.nontrivial(ctx + " " + argv_desc(t));
}
static void check_ast(Src& s, const NP& n, bool ic, const char*) {
    vector<string> t = gen_texts(s, n, ic);
    if (s.chance(1, 20)) {  // the same pattern as a group far into a long one
        int k = s.chance(1, 3) ? s.range(1, 12) : s.range(40, 500);
        string pre;
        NP sq = mk(Node::SEQ), a = mk(Node::ALT), g = mk(Node::GROUP);
        for (int i = 0; i < k; i++) { NP c = mk(Node::SET); char x = (char)('a' + (i * 7 + k) % 26); c->src = string(1, x); c->set.set((unsigned char)x); c->set = fold(c->set, ic); sq->kid.push_back(c); pre += x; }
        g->cap = s.coin();
        g->kid.push_back(n);
        sq->kid.push_back(g);
        a->kid.push_back(sq);
        for (auto& x : t) x = pre + x;
        check_texts(s, a, ic, t);
        return;
    }
    check_texts(s, n, ic, t);
}
static void t_sound(Src& s) {
    bool ic = s.chance(1, 3);
    const char* alpha = s.coin() ? "ab" : PRINT;
    NP n = gen_alt(s, 2, ic, alpha);
    check_ast(s, n, ic, "random");
}
// patterns that are unambiguous by construction: every element starts with a character class of its own
static const char* POOLS[] = {"ab", "cd", "ef", "gh", "01", "23", "45", "_:", "=,", "@#", "XY", "PQ", "MN", "89", "!~", " \t"};
static int g_pool;
static NP det_set(Src& s, bool ic) {
    NP n = mk(Node::SET);
    const char* p = POOLS[g_pool++ % 16];
    auto esc = [](char c) { return c == '\t' ? string("\\t") : ::esc(c); };
    switch (s.below(4)) {
        case 0: n->src = esc(p[0]); n->set.set((unsigned char)p[0]); break;
        case 1: n->src = string("[") + esc(p[0]) + esc(p[1]) + "]"; n->set.set((unsigned char)p[0]); n->set.set((unsigned char)p[1]); break;
        case 2: if (p[1] == p[0] + 1) { n->src = string("[") + esc(p[0]) + "-" + esc(p[1]) + "]"; n->set.set((unsigned char)p[0]); n->set.set((unsigned char)p[1]); break; } /* fall through */
        default: n->src = esc(p[1]); n->set.set((unsigned char)p[1]); break;
    }
    n->set = fold(n->set, ic);
    return n;
}
static NP det_alt(Src& s, int depth, bool ic);
static NP det_elem(Src& s, int depth, bool ic) {
    NP n;
    if (depth > 0 && g_pool < 12 && s.chance(1, 3)) {
        n = mk(Node::GROUP);
        n->cap = s.coin();
        n->kid.push_back(det_alt(s, depth - 1, ic));
    } else n = det_set(s, ic);
    if (!nullable(n) && s.coin()) {
        NP r = mk(Node::REP);
        r->kid.push_back(n);
        switch (s.below(6)) {
            case 0: r->lo = 0; r->hi = -1; r->quant = "*"; break;
            case 1: r->lo = 1; r->hi = -1; r->quant = "+"; break;
            case 2: r->lo = 0; r->hi = 1; r->quant = "?"; break;
            case 3: r->lo = r->hi = s.range(0, 4); r->quant = fmt("{%d}", r->lo); break;
            case 4: r->lo = s.range(0, 3); r->hi = -1; r->quant = fmt("{%d,}", r->lo); break;
            default: r->lo = s.range(0, 3); r->hi = r->lo + s.range(0, 3); r->quant = fmt("{%d,%d}", r->lo, r->hi); break;
        }
        n = r;
    }
    return n;
}
static NP det_alt(Src& s, int depth, bool ic) {
    NP a = mk(Node::ALT);
    int m = s.chance(1, 3) ? s.range(2, 3) : 1;
    for (int i = 0; i < m; i++) {
        NP q = mk(Node::SEQ);
        int k = s.range(1, 3);
        for (int j = 0; j < k; j++) {
            if (s.chance(1, 12)) { NP w = mk(Node::WB); w->cap = s.coin(); q->kid.push_back(w); }
            q->kid.push_back(det_elem(s, depth, ic));
        }
        if (s.chance(1, 16)) { NP w = mk(Node::WB); w->cap = s.coin(); q->kid.push_back(w); }
        a->kid.push_back(q);
    }
    return a;
}
static void t_complete(Src& s) {
    bool ic = s.chance(1, 3);
    g_pool = 0;
    NP n = det_alt(s, 3, ic);
    if (g_pool > 16) throw Discard{};
    if (s.chance(1, 8)) n->kid[0]->kid.insert(n->kid[0]->kid.begin(), mk(Node::BOL));
    if (s.chance(1, 8)) n->kid.back()->kid.push_back(mk(Node::EOL));
    check_ast(s, n, ic, "unambiguous");
}
// repetition counts of one to five digits, texts around the bounds
static void t_counts(Src& s) {
    static const int C[] = {2, 3, 7, 9, 10, 11, 12, 19, 20, 25, 63, 64, 99, 100, 101, 120, 127, 128, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1024, 2047, 4096};
    bool ic = s.chance(1, 4);
    g_pool = (int)s.below(3);
    auto count = [&]() { return s.chance(2, 3) ? C[s.below(s.coin() ? 20 : sizeof C / sizeof *C)] : s.range(4, 400); };
    NP sq = mk(Node::SEQ), a = mk(Node::ALT), body, r = mk(Node::REP);
    a->kid.push_back(sq);
    int pre = s.range(0, 2), post = s.range(0, 2);
    for (int i = 0; i < pre; i++) sq->kid.push_back(det_set(s, ic));
    switch (s.below(3)) {
        case 0: body = det_set(s, ic); break;
        case 1: body = mk(Node::GROUP); body->cap = s.coin(); { NP q = mk(Node::SEQ), al = mk(Node::ALT); int k = s.range(1, 3); for (int i = 0; i < k; i++) q->kid.push_back(det_set(s, ic)); al->kid.push_back(q); body->kid.push_back(al); } break;
        default: body = mk(Node::GROUP); body->cap = s.coin(); { NP al = mk(Node::ALT); int k = s.range(2, 3); for (int i = 0; i < k; i++) { NP q = mk(Node::SEQ); q->kid.push_back(det_set(s, ic)); al->kid.push_back(q); } body->kid.push_back(al); } break;
    }
    r->kid.push_back(body);
    switch (s.below(4)) {
        case 0: r->lo = r->hi = count(); r->quant = fmt("{%d}", r->lo); break;
        case 1: r->lo = count(); r->hi = -1; r->quant = fmt("{%d,}", r->lo); break;
        case 2: r->lo = s.range(0, 12); r->hi = r->lo + count(); r->quant = fmt("{%d,%d}", r->lo, r->hi); break;
        default: r->lo = count(); r->hi = r->lo + (s.coin() ? s.range(0, 12) : count()); r->quant = fmt("{%d,%d}", r->lo, r->hi); break;
    }
    sq->kid.push_back(r);
    for (int i = 0; i < post; i++) sq->kid.push_back(det_set(s, ic));
    vector<string> t;
    int m = s.range(2, 5);
    for (int i = 0; i < m; i++) {
        int base = r->hi > 0 && s.coin() ? r->hi : r->lo, k;
        switch (s.below(5)) {
            case 0: k = base; break;
            case 1: k = base - 1; break;
            case 2: k = base + 1; break;
            case 3: k = base + s.range(0, 12) - 6; break;
            default: k = s.range(0, base); break;
        }
        if (k < 0) k = 0;
        string x;
        for (int j = 0; j < pre; j++) sample(s, sq->kid[(size_t)j], &x);
        string one;
        Src& g = s;
        for (int j = 0; j < k; j++) { if (j < 3) { one.clear(); sample(g, body, &one); } x += one; }
        for (int j = 0; j < post; j++) sample(s, sq->kid[sq->kid.size() - (size_t)post + (size_t)j], &x);
        t.push_back(x);
    }
    check_texts(s, a, ic, t);
}
// long patterns: many elements, alternatives, groups side by side and nested
static void t_long(Src& s) {
    bool ic = s.chance(1, 4);
    g_pool = 0;
    int k = s.range(8, s.chance(1, 4) ? 200 : 60);
    NP a = mk(Node::ALT);
    int alts = s.chance(1, 3) ? s.range(2, 12) : 1;
    if (s.chance(1, 6)) {  // deep nesting
        NP in = det_set(s, ic);
        int d = s.range(2, 60);
        for (int i = 0; i < d; i++) {
            NP q = mk(Node::SEQ), al = mk(Node::ALT), g = mk(Node::GROUP);
            if (s.chance(1, 3)) q->kid.push_back(det_set(s, ic));
            q->kid.push_back(in);
            if (s.chance(1, 3)) q->kid.push_back(det_set(s, ic));
            al->kid.push_back(q);
            g->cap = s.coin();
            g->kid.push_back(al);
            in = g;
            if (s.chance(1, 8)) { NP r = mk(Node::REP); r->kid.push_back(g); r->lo = s.range(1, 2); r->hi = r->lo; r->quant = fmt("{%d}", r->lo); in = r; }
        }
        NP q = mk(Node::SEQ);
        q->kid.push_back(in);
        a->kid.push_back(q);
    } else for (int i = 0; i < alts; i++) {
        NP q = mk(Node::SEQ);
        for (int j = 0; j < k / alts + 1; j++) {
            NP e = det_set(s, ic);
            if (s.chance(1, 4)) { NP g = mk(Node::GROUP), al = mk(Node::ALT), qq = mk(Node::SEQ); qq->kid.push_back(e); if (s.coin()) qq->kid.push_back(det_set(s, ic)); al->kid.push_back(qq); g->cap = s.coin(); g->kid.push_back(al); e = g; }
            if (s.chance(1, 4)) { NP r = mk(Node::REP); r->kid.push_back(e); switch (s.below(4)) { case 0: r->lo = 0; r->hi = -1; r->quant = "*"; break; case 1: r->lo = 1; r->hi = -1; r->quant = "+"; break; case 2: r->lo = 0; r->hi = 1; r->quant = "?"; break; default: r->lo = r->hi = 2; r->quant = "{2}"; } e = r; }
            q->kid.push_back(e);
        }
        a->kid.push_back(q);
    }
    check_ast(s, a, ic, "long");
}
// very long texts under an unbounded or large repetition
static void t_huge(Src& s) {
    static const int L[] = {65533, 65534, 65535, 65536, 65537, 65540, 70000, 131071, 131072};
    int k = L[s.below(9)];
    bool ic = s.coin();
    switch (s.below(4)) {
        case 0: case 1: {
            static const char* P[] = {"a*", "a+", "a{3,}", "a*b", "xa+b", "(ab)*", "(?:a|b)+c", ".*"};
            u32 w = s.below(8);
            string x;
            for (int i = 0; i < k; i++) x += w >= 5 && i % 2 ? 'b' : 'a';
            if (w == 5 && x.size() % 2) x += 'b';
            if (w == 3 || w == 4) x += 'b';
            if (w == 4) x.insert(0, 1, 'x');
            if (w == 6) x += 'c';
            RexRun R = run_rex(P[w], ic, {x, x + "q"}, true);
            REQUIRE(R.accepted[0] && R.accepted[1] == (w == 7), "a text of %d characters %s by %s", (int)x.size(), R.accepted[0] ? "plus q accepted" : "rejected", P[w]);
            break;
        }
        default: {
            string pat = s.coin() ? fmt("a{%d}", k) : fmt("a{1,%d}", k);
            vector<string> t{string((size_t)k, 'a'), string((size_t)k + 1, 'a'), "", "b"};
            if (k > 65536) t.push_back(string((size_t)(k & 0xffff), 'a'));
            if (pat.find(',') == string::npos) { t.push_back("a"); t.push_back(string((size_t)k - 1, 'a')); }
            RexRun R = run_rex(pat, ic, t, true);
            for (size_t i = 1; i < t.size(); i++) if (!(pat.find(',') != string::npos && i == 4)) REQUIRE(!R.accepted[i], "%s accepts %d characters", pat.c_str(), (int)t[i].size());
            if (k < 65535) REQUIRE(R.accepted[0], "%s rejects %d characters", pat.c_str(), k);
        }
    }
    s.nontrivial(fmt("text of %d", k));
}
// Alternatives are tried from left to right and the first that matches is taken; a repetition that could go on ends at
// the first place where the element behind it matches ('.*\.txt', '(jpg|jpeg)'). Reference: that rule, applied from
// left to right to alternatives of sequences of elements.
static int elem_end(const NP& e, const string& x, int p) {
    switch (e->t) {
        case Node::SET: return p < (int)x.size() && e->set[(unsigned char)x[(size_t)p]] ? p + 1 : -1;
        case Node::GROUP:
            for (auto& q : e->kid[0]->kid) {
                int c = p;
                for (auto& k : q->kid) if (c >= 0) c = elem_end(k, x, c);
                if (c >= 0) return c;
            }
            return -1;
        default: for (int i = 0; i < e->lo && p >= 0; i++) p = elem_end(e->kid[0], x, p); return p;
    }
}
static int by_rule(const vector<NP>& it, const string& x) {
    int p = 0;
    for (size_t i = 0; i < it.size(); i++) {
        const NP& e = it[i];
        if (e->t != Node::REP) {
            p = elem_end(e, x, p);
            if (p < 0) return -1;
            continue;
        }
        int c = 0, n;
        const NP* nx = i + 1 < it.size() ? &it[i + 1] : nullptr;
        if (nx && (*nx)->t == Node::REP && (*nx)->lo == 0) nx = nullptr;  // an element that may be missing ends nothing
        while ((e->hi < 0 || c < e->hi) && (n = elem_end(e->kid[0], x, p)) >= 0) {
            p = n, c++;
            if (c >= e->lo && nx && elem_end(*nx, x, p) >= 0) break;
        }
        if (c < e->lo) return -1;
    }
    return p;
}
static void t_stop(Src& s) {
    bool ic = s.chance(1, 4);
    const char* alpha = s.chance(2, 3) ? "ab." : "abcx.-1";
    auto set = [&]() {
        NP n;
        if (s.chance(1, 4)) { n = mk(Node::SET); n->src = "."; n->set.set(); n->set.reset(0); return n; }
        if (s.chance(1, 4)) return gen_set(s, ic, alpha);
        n = mk(Node::SET);
        char c = alpha[s.below((u32)strlen(alpha))];
        n->src = esc(c);
        n->set.set((unsigned char)c);
        n->set = fold(n->set, ic);
        return n;
    };
    auto seq = [&](int k) {
        vector<NP> it;
        for (int i = 0; i < k; i++) {
            NP n;
            if (s.chance(1, 4)) {  // a group of plain elements
                n = mk(Node::GROUP);
                NP al = mk(Node::ALT);
                int alts = s.coin() ? 1 : s.range(2, 4);
                for (int h = 0; h < alts; h++) {
                    NP q = mk(Node::SEQ);
                    int m = s.range(1, 4);
                    for (int j = 0; j < m; j++) q->kid.push_back(set());
                    al->kid.push_back(q);
                }
                n->cap = s.coin();
                n->kid.push_back(al);
            } else n = set();
            if (s.chance(2, 5)) {
                NP r = mk(Node::REP);
                r->kid.push_back(n);
                switch (s.below(6)) {
                    case 0: case 1: r->lo = 0; r->hi = -1; r->quant = "*"; break;
                    case 2: r->lo = 1; r->hi = -1; r->quant = "+"; break;
                    case 3: r->lo = s.range(0, 3); r->hi = -1; r->quant = fmt("{%d,}", r->lo); break;
                    case 4: r->lo = 0; r->hi = 1; r->quant = "?"; break;
                    default: r->lo = s.range(0, 3); r->hi = r->lo + s.range(1, 4); r->quant = fmt("{%d,%d}", r->lo, r->hi); break;
                }
                n = r;
            }
            it.push_back(n);
        }
        return it;
    };
    NP top = mk(Node::ALT);
    int nalt = s.chance(1, 3) ? s.range(2, 4) : 1;
    vector<vector<NP>> its;
    for (int h = 0; h < nalt; h++) {
        vector<NP> it = seq(nalt == 1 ? s.range(2, 6) : s.range(1, 4));
        NP sq = mk(Node::SEQ);
        size_t a = 0, b = 0;
        if (s.chance(1, 3)) {  // some of the elements put in a group of their own
            a = s.below((u32)it.size());
            b = a + 1 + s.below((u32)(it.size() - a));
            if (a > 0 && it[a - 1]->t == Node::REP) a = b = 0;   // there the group as a whole would be the element behind
            if (nalt > 1 && b > a && it[b - 1]->t == Node::REP) a = b = 0;  // the engine does not look beyond a group there
        }
        for (size_t i = 0; i < it.size(); i++) {
            if (i == a && b > a) {
                NP g = mk(Node::GROUP), al = mk(Node::ALT), q = mk(Node::SEQ);
                for (size_t j = a; j < b; j++) q->kid.push_back(it[j]);
                al->kid.push_back(q);
                g->cap = s.coin();
                g->kid.push_back(al);
                sq->kid.push_back(g);
                i = b - 1;
            } else sq->kid.push_back(it[i]);
        }
        top->kid.push_back(sq);
        its.push_back(it);
    }
    vector<string> t;
    int m = s.range(1, 6);
    for (int i = 0; i < m; i++) {
        string x;
        for (auto& e : its[s.below((u32)nalt)]) sample(s, e, &x);
        if (s.coin()) for (auto& c : x) if (s.coin()) c = alpha[s.below((u32)strlen(alpha))];
        t.push_back(x);
    }
    string pat = render(top);
    RexRun R = run_rex(pat, ic, t);
    bool any = false;
    for (size_t i = 0; i < t.size(); i++) {
        bool in = denotes(top, t[i]);
        int e = -1;
        for (auto& it : its) if (e < 0) e = by_rule(it, t[i]);
        bool rule = e == (int)t[i].size();
        if (rule && !in) { fprintf(stderr, "harness: rule outside the language\n"); abort(); }
        any |= rule;
        if (R.accepted[i]) REQUIRE(in, "accepts %s, which the pattern does not denote\n  pattern %s", q(t[i]).c_str(), q(pat).c_str());
        else REQUIRE(!rule, "rejects %s, which the pattern denotes, taking the first matching alternative and ending each repetition where the element behind it first matches\n  pattern %s%s", q(t[i]).c_str(), q(pat).c_str(), ic ? " (case ignored)" : "");
    }
    s.label(any ? "member by the first-place rule" : "no member");
    if (any) s.nontrivial(q(pat) + " " + argv_desc(t));
}
// single elements against every byte
static void t_bytes(Src& s) {
    bool ic = s.coin();
    static vector<NP> E[2];
    u32 which = s.below(800);
    Src g;
    g.rs = 77 + which * 1000 + ic;
    ShardMem* keep = g_me;
    g_me = nullptr;
    NP n = gen_set(g, ic, PRINT);
    g_me = keep;
    int c0 = 1 + 32 * (int)s.below(8);
    vector<string> t;
    for (int c = c0; c < c0 + 32 && c < 256; c++) t.push_back(string(1, (char)c));
    RexRun R = run_rex(n->src, ic, t);
    for (size_t i = 0; i < t.size(); i++)
        REQUIRE(R.accepted[i] == (bool)n->set[(unsigned char)t[i][0]], "%s %s for pattern %s%s", R.accepted[i] ? "accepts" : "rejects", q(t[i]).c_str(), q(n->src).c_str(), ic ? " (case ignored)" : "");
    s.nontrivial(n->src + fmt(" ic=%d bytes %d..", ic, c0));
}
// ---- reference parser: pattern text -> syntax tree. The text of a pattern, not a tree, is what a user writes.
struct Invalid {};
struct Undef {};   // forms to which no meaning is documented ('a*?', '(*a)', 'a^b', ...): only safety is claimed
struct Parser {
    const string& t;
    bool ic;
    size_t p = 0;
    Parser(const string& t, bool ic) : t(t), ic(ic) {}
    int at() const { return p < t.size() ? (unsigned char)t[p] : -1; }
    static bool printable(int c) { return c >= 32 && c < 127; }
    // an escaped character, *p behind the backslash; false: a class of characters
    bool escaped(bool cls, unsigned char* c, NP* other) {
        if (at() < 0) throw Invalid{};
        unsigned char k = (unsigned char)t[p++];
        const char* z;
        if ((z = strchr("ntrfv", k))) { *c = (unsigned char)"\n\t\r\f\v"[z - "ntrfv"]; return true; }
        if (strchr(CCL, k)) { NP n = mk(Node::SET); n->set = cclass((char)k); if (ic && (k == 'l' || k == 'u')) throw Undef{}; *other = n; return false; }
        if (!cls && (k == 'b' || k == 'B')) { NP n = mk(Node::WB); n->cap = k == 'b'; *other = n; return false; }
        *c = k;
        return true;
    }
    NP one(unsigned char c) { NP n = mk(Node::SET); n->set.set(c); n->set = fold(n->set, ic); return n; }
    NP klass() {  // behind '['
        bool neg = false;
        CS lit, cc;
        if (at() == '^') neg = true, p++;
        if (at() == ']') throw Invalid{};
        int pend = -1;      // a single character that a dash could extend
        bool pendcc = false;
        while (at() != ']') {
            if (at() < 0) throw Invalid{};
            if (at() == '-' && pendcc) throw Invalid{};  // a range cannot start with a class of characters
            if (at() == '-' && pend >= 0) {
                p++;
                if (at() < 0 || at() == ']') throw Invalid{};  // unfinished range
                unsigned char hi;
                NP o;
                if (at() == '\\') { p++; if (!escaped(true, &hi, &o)) throw Undef{}; }
                else { if (!printable(at())) throw Invalid{}; hi = (unsigned char)at(); p++; }
                if ((signed char)pend > (signed char)hi) throw Invalid{};
                for (int c = (signed char)pend; c <= (signed char)hi; c++) if (c) lit.set((unsigned char)c);
                pend = -1;
                continue;
            }
            if (pend >= 0) lit.set((size_t)pend);
            pend = -1, pendcc = false;
            if (at() == '\\') {
                unsigned char c;
                NP o;
                p++;
                if (escaped(true, &c, &o)) pend = c; else cc |= o->set, pendcc = true;
            } else { if (!printable(at())) throw Invalid{}; pend = at(); p++; }
        }
        if (pend >= 0) lit.set((size_t)pend);
        p++;
        NP n = mk(Node::SET);
        n->set = fold(lit, ic) | cc;
        if (neg) n->set.flip();
        n->set.reset(0);
        return n;
    }
    int number() {
        long v = 0;
        while (at() >= '0' && at() <= '9') { v = v * 10 + (at() - '0'); p++; if (v > 1000000) v = 1000000; }
        if (v >= 65535) throw Invalid{};
        return (int)v;
    }
    NP element() {
        NP n;
        int c = at();
        if (c < 0) throw Invalid{};
        if (strchr("*+?{)|^", c)) throw Undef{};
        if (c == '(') {
            p++;
            n = mk(Node::GROUP);
            if (at() == '?') { p++; if (at() != ':') throw Invalid{}; p++; n->cap = false; }
            n->kid.push_back(list());
            if (at() != ')') throw Invalid{};
            p++;
        } else if (c == '[') { p++; n = klass(); }
        else if (c == '$') { p++; n = mk(Node::EOL); }
        else if (c == '.') { p++; n = mk(Node::SET); n->set.set(); n->set.reset(0); }
        else if (c == '\\') { unsigned char k; NP o; p++; n = escaped(false, &k, &o) ? one(k) : o; }
        else { if (!printable(c)) throw Invalid{}; p++; n = one((unsigned char)c); }
        NP r = mk(Node::REP);
        switch (at()) {
            case '*': r->lo = 0; r->hi = -1; p++; break;
            case '+': r->lo = 1; r->hi = -1; p++; break;
            case '?': r->lo = 0; r->hi = 1; p++; break;
            case '{':
                p++;
                if (at() < '0' || at() > '9') throw Invalid{};
                r->lo = r->hi = number();
                if (at() == ',') { p++; r->hi = -1; if (at() >= '0' && at() <= '9') r->hi = number(); }
                if (at() != '}') throw Invalid{};
                p++;
                if (r->hi >= 0 && r->hi < r->lo) throw Undef{};
                break;
            default: return n;
        }
        r->kid.push_back(n);
        return r;
    }
    NP list() {
        NP a = mk(Node::ALT);
        for (;;) {
            NP q = mk(Node::SEQ);
            if (at() == '^') { p++; q->kid.push_back(mk(Node::BOL)); }
            do q->kid.push_back(element()); while (at() >= 0 && at() != '|' && at() != ')' && at() != '*' && at() != '+');
            a->kid.push_back(q);
            if (at() != '|') return a;
            p++;
        }
    }
    NP whole() {
        NP a = list();
        if (at() >= 0) throw Invalid{};
        return a;
    }
};
// bound on the work the reference needs
static double weight(const NP& n) {
    double w = 0;
    for (auto& k : n->kid) w += weight(k);
    if (n->t == Node::REP) w *= n->hi < 0 ? n->lo + 3 : n->hi + 1;
    return w < 1 ? 1 : w;
}
static void t_text(Src& s) {
    static const char AL[] = "ab()[]{}|*+?^$.\\-,019:dwBbx";
    bool ic = s.chance(1, 3);
    string pat;
    if (s.chance(1, 3)) {
        int n = s.range(1, 14);
        for (int i = 0; i < n; i++) pat += s.chance(1, 30) ? (char)(1 + s.below(255)) : AL[s.below(sizeof AL - 1)];
    } else {  // a well-formed one, damaged
        pat = render(gen_alt(s, 2, ic, s.coin() ? "ab" : PRINT));
        int k = (int)s.weighted({2, 4, 2, 1});
        for (int i = 0; i < k; i++) {
            size_t at = s.below((u32)pat.size() + 1);
            char c = s.chance(1, 20) ? (char)(1 + s.below(255)) : AL[s.below(sizeof AL - 1)];
            switch (s.below(4)) {
                case 0: pat.insert(at, 1, c); break;
                case 1: if (at < pat.size()) pat[at] = c; break;
                case 2: if (at < pat.size()) pat.erase(at, 1 + s.below(3)); break;
                default: if (at < pat.size()) { string d = pat.substr(at, 1 + s.below(5)); pat.insert(s.below((u32)pat.size() + 1), d); }
            }
        }
        if (s.chance(1, 10)) { size_t at = s.below((u32)pat.size() + 1); string d(1, "123456789"[s.below(9)]); int k2 = s.range(0, 22); for (int i = 0; i < k2; i++) d += (char)('0' + s.below(10)); pat.insert(at, "{" + d + (s.coin() ? "}" : ",}")); }
    }
    NP n;
    int kind = 0;
    Parser ps(pat, ic);
    try { n = ps.whole(); if (weight(n) > 5000) kind = 2; } catch (Invalid&) { kind = 1; } catch (Undef&) { kind = 2; }
    auto noise = [&]() {
        string x;
        int l = s.range(0, 10);
        for (int j = 0; j < l; j++) x += s.chance(1, 10) ? (char)(1 + s.below(255)) : "ab 01-]A?"[s.below(9)];
        return x;
    };
    if (kind == 0) {
        vector<string> t = gen_texts(s, n, ic);
        if (s.coin()) t.push_back(noise());
        bool det = decided(n, CS(), nullptr);
        RexRun R = run_rex(pat, ic, t);
        bool anyin = false;
        for (size_t i = 0; i < t.size(); i++) {
            bool in = denotes(n, t[i]);
            anyin |= in;
            if (R.accepted[i]) REQUIRE(in, "accepts %s, which the pattern does not denote\n  pattern %s%s", q(t[i]).c_str(), q(pat).c_str(), ic ? " (case ignored)" : "");
            else if (det) REQUIRE(!in, "rejects %s, which the (unambiguous) pattern denotes\n  pattern %s%s", q(t[i]).c_str(), q(pat).c_str(), ic ? " (case ignored)" : "");
        }
        s.label(det ? anyin ? "unambiguous, member" : "unambiguous" : "ambiguous");
        s.nontrivial(q(pat) + argv_desc(t));
        return;
    }
    vector<string> t{noise(), "", "a", noise()};
    if (pat.size() < 40) t.push_back(pat);
    RexRun R = run_rex(pat, ic, t);
    if (kind == 1) {
        for (size_t i = 0; i < t.size(); i++) REQUIRE(!R.accepted[i], "the pattern %s does not compile but accepts %s", q(pat).c_str(), q(t[i]).c_str());
        s.nontrivial("broken " + q(pat));
    }
    s.label(kind == 1 ? "broken" : n ? "too large for the reference" : "no documented meaning");
}
// patterns that cannot be compiled
static void t_broken(Src& s) {
    string core;
    int k = s.range(0, 3);
    for (int i = 0; i < k; i++) core += "abc1"[s.below(4)];
    string pat;
    switch (s.below(15)) {
        case 0: pat = "(" + core + "a"; break;
        case 1: pat = core + "a)"; break;
        case 2: pat = core + "[ab"; break;
        case 3: pat = core + "[]"; break;
        case 4: pat = core + "a{"; break;
        case 5: pat = core + "a{x}"; break;
        case 6: pat = core + "a{1"; break;
        case 7: pat = core + "[z-a]"; break;
        case 8: pat = core + "a**"; break;
        case 9: pat = core + "a+*b"; break;
        case 10: pat = core + "\\"; break;
        case 11: pat = core + "[\\d-z]"; break;
        case 12: pat = "(?" + core + "a)"; break;
        case 13: pat = core + (char)(128 + s.below(128)); break;
        default: pat = core + (char)(1 + s.below(8)); break;
    }
    vector<string> t{core + "a", pat, "", "a"};
    int m = s.range(0, 3);
    for (int i = 0; i < m; i++) t.push_back(gen_text(s, 8));
    RexRun R = run_rex(pat, s.coin(), t);
    for (size_t i = 0; i < t.size(); i++) REQUIRE(!R.accepted[i], "the pattern %s does not compile but accepts %s", q(pat).c_str(), q(t[i]).c_str());
    s.nontrivial("broken " + q(pat) + argv_desc(t));
}
// any pattern bytes, any text bytes: memory safety and termination (sanitizers, CPU limit)
static void t_raw(Src& s) {
    static const char AL[] = "ab()[]{}|*+?^$.\\-,019:dwBbx";
    string pat;
    int n = s.range(0, 12);
    for (int i = 0; i < n; i++) pat += s.chance(1, 12) ? (char)(1 + s.below(255)) : AL[s.below(sizeof AL - 1)];
    vector<string> t;
    int m = s.range(1, 4);
    for (int i = 0; i < m; i++) {
        string x;
        int l = s.range(0, 10);
        for (int j = 0; j < l; j++) x += s.chance(1, 10) ? (char)(1 + s.below(255)) : "ab 01-"[s.below(6)];
        t.push_back(x);
    }
    run_rex(pat, s.coin(), t);
    s.nontrivial("raw " + q(pat) + argv_desc(t));
}
PBT_MAIN("C09", nullptr, Test{"bytes", t_bytes, true, 100000, 100000}, Test{"unambiguous", t_complete, false, 250000, 6000000}, Test{"any_pattern", t_sound, false, 200000, 6000000},
         Test{"first_place", t_stop, false, 200000, 6000000},
         Test{"counts", t_counts, false, 20000, 400000}, Test{"long", t_long, false, 20000, 400000}, Test{"huge", t_huge, true, 400, 400},
         Test{"broken", t_broken, false, 40000, 500000}, Test{"text", t_text, false, 250000, 8000000}, Test{"raw", t_raw, false, 200000, 6000000})
