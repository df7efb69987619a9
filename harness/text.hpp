// text.hpp - reference rendering of usage lines, glossaries, wrapped text and error messages.
#pragma once
#include "table.hpp"

struct Longer {};   // an option text longer than the library's line buffer: may be cut
enum { LINEBUF = 190, ATLEAST = 150 };
static bool g_mark = false;             // mark such texts instead of giving up
static const char CUT0[] = "\x01<\x02<\x01", CUT1[] = "\x01>\x02>\x01";
// got is the marked text with each marked part cut somewhere behind its first ATLEAST characters, or not at all
static bool match_cut(const string& want, size_t w, const string& got, size_t g) {
    for (;;) {
        size_t m = want.find(CUT0, w);
        string fix = want.substr(w, m == string::npos ? string::npos : m - w);
        if (got.compare(g, fix.size(), fix) != 0) return false;
        g += fix.size();
        if (m == string::npos) return g == got.size();
        size_t e = want.find(CUT1, m);
        string part = want.substr(m + 5, e - m - 5);
        size_t k = 0;
        while (k < part.size() && g + k < got.size() && part[k] == got[g + k]) k++;
        for (size_t low = k > ATLEAST + 8 ? k - 8 : (size_t)ATLEAST; k >= low; k--)      // (a cut through "--" or a separator leaves up to 3 odd characters)
            for (size_t odd = 0; odd <= 3 && g + k + odd <= got.size(); odd++)
                if (match_cut(want, e + 5, got, g + k + odd)) return true;
        return false;
    }
}

static string opt_verbose(const string& shorts, const vector<string>& longs, const string* dt, bool optval, const char* sep) {
    string r;
    for (size_t i = 0; i < shorts.size(); i++) r += (i ? sep : "") + string("-") + shorts[i];
    for (size_t i = 0; i < longs.size(); i++) r += (r.empty() ? "" : sep) + string("--") + longs[i];
    if (dt) {
        if (!longs.empty()) r += "=";
        else if (!shorts.empty()) r += " ";
        r += optval ? "[" + *dt + "]" : *dt;
    }
    if (r.size() > LINEBUF) { if (g_mark) return CUT0 + r + CUT1; throw Longer{}; }
    return r;
}
static string entry_verbose(const Entry& e, const char* sep, bool with_opt) {
    string d = e.datatype();
    return opt_verbose(e.shorts, e.longs, e.has_datatype() ? &d : nullptr, with_opt && e.optval, sep);
}
static string entry_compact(const Entry& e) {
    string d = e.datatype();
    vector<string> l;
    if (e.shorts.empty() && !e.longs.empty()) l.push_back(e.longs[0]);
    return opt_verbose(e.shorts.substr(0, 1), l, e.has_datatype() ? &d : nullptr, e.optval, "|");
}
static int hdr_min(const Entry& e) { return e.kind == REM ? 1 : e.min; }
static int hdr_max(const Entry& e) { return e.kind == REM ? 1 : e.emax(); }
static string repeat(const Entry& e, const string& t) {
    string r;
    for (int i = 0; i < hdr_min(e); i++) r += " " + t;
    int d = hdr_max(e) - hdr_min(e);
    if (d == 1) r += " [" + t + "]";
    else if (d == 2) r += " [" + t + "] [" + t + "]";
    else if (d >= 3) r += " [" + t + "]...";
    return r;
}
static string usage_compact(const Spec& sp, const string& suffix) {
    string must, may, r;
    for (auto& e : sp.e)
        if (!e.shorts.empty() && !e.takes_value()) (e.min >= 1 ? must : may) += e.shorts[0];
    if (!must.empty()) r += " -" + must + (may.empty() ? "" : "[" + may + "]");
    else if (!may.empty()) r += " [-" + may + "]";
    for (auto& e : sp.e) {
        if (!e.shorts.empty() && !e.takes_value()) continue;
        string t = entry_compact(e);
        if (t.empty()) continue;
        r += repeat(e, t);
    }
    return r + suffix;
}
static string usage_verbose(const Spec& sp, const string& suffix) {
    string r;
    for (auto& e : sp.e) r += repeat(e, entry_verbose(e, "|", true));
    return r + suffix;
}
static string glossary(const Spec& sp, const char* f) {
    string r;
    for (auto& e : sp.e)
        if (e.has_gl) r += fmt(f ? f : "  %-20s %s\n", entry_verbose(e, ", ", true).c_str(), e.gl.c_str());
    return r;
}
// lines of a wrapped text; exact only when no paragraph ends in white space that overflows its line
static vector<string> wrap_lines(const string& text, unsigned width, bool* exact) {
    vector<string> out;
    vector<string> par;
    string cur;
    for (char c : text) { if (c == '\n') { par.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty() || text.empty() || par.empty()) par.push_back(cur);
    auto sp = [](char c) { return oracle::ws(c); };
    for (auto& p : par) {
        size_t i = 0;
        if (!p.empty() && sp(p.back())) *exact = false;
        bool any = false;
        for (;;) {
            while (i < p.size() && sp(p[i])) i++;
            if (i >= p.size()) { if (!any) out.push_back(""); break; }
            any = true;
            string rest = p.substr(i);
            if (rest.size() <= width) { out.push_back(rest); break; }
            size_t end = width;
            if (sp(rest[width])) { while (end > 0 && sp(rest[end - 1])) end--; }
            else {
                size_t k = width;
                while (k > 0 && !sp(rest[k])) k--;
                if (k == 0) end = width;
                else { while (k > 0 && sp(rest[k - 1])) k--; end = k; }
            }
            out.push_back(rest.substr(0, end));
            i += end;
        }
    }
    return out;
}
static string wrap_text(const string& text, unsigned lm, unsigned rm, bool* exact) {
    vector<string> l = wrap_lines(text, rm - lm + 1, exact);
    string r;
    for (size_t i = 0; i < l.size(); i++) r += (i ? string(lm, ' ') : string()) + l[i] + "\n";
    return r;
}
static string glossary_gnu(const Spec& sp, bool* exact) {
    string r;
    for (auto& e : sp.e) {
        if (!e.has_gl) continue;
        string t = entry_verbose(e, ", ", true);
        if (e.shorts.empty() && !e.longs.empty()) t = "    " + t;
        if (t.size() > 25) { r += "  " + t + " \n"; t.clear(); }
        r += fmt("  %-25s ", t.c_str());
        r += wrap_text(e.gl, 28, 79, exact);
    }
    return r + "\n";
}
// the date shown as example: 1999-12-31 23:59:59 in the entry's format (only the fixed formats of the tables)
static string date_example(int sub) {
    switch (sub) {
        case 0: return "1999-12-31";
        case 1: return "23:59";
        case 2: return "12/31/99";
        case 3: return "31 Dec 1999";
        case 5: return "23:59:59";
        case 6: return "12/31/99 23:59";
        case 7: return "December 31, 1999";
        case 8: return "1999/001";
        case 9: return "Sunday 99";
        default: return "11:59 PM";
    }
}
static string err_text(const Spec& sp, const Err& x, const string& prog) {
    string P = prog + ": ";
    if (x.parent < 0) switch (x.k) {
        case E_LIMIT: return P + "too many errors to display\n";
        case E_NOMATCH: return P + "unexpected argument \"" + x.arg + "\"\n";
        case E_MISSARG: return P + "option \"" + x.arg + "\" requires an argument\n";
        case E_LONG: return P + "invalid option \"" + x.arg + "\"\n";
        default: return P + "invalid option \"-" + string(1, (char)x.ch) + "\"\n";
    }
    const Entry& e = sp.e[(size_t)x.parent];
    string dt = e.datatype();
    string opt = opt_verbose(e.shorts, e.longs, e.has_datatype() ? &dt : nullptr, false, "|");
    auto optval = [&] { return opt_verbose(e.shorts, e.longs, &x.arg, false, "|"); };
    switch (x.k) {
        case E_MIN: return P + "missing option " + opt + "\n" + (e.kind == LIT ? "\n" : "");
        case E_MAX: return e.kind == LIT ? P + "extraneous option " + opt + "\n" : P + "excess option " + optval() + "\n";
        case E_OVER: return P + "integer overflow at option " + opt + " (" + x.arg + " is too large)\n";
        case E_BAD:
            if (e.kind == REX) return P + "illegal value  " + optval() + "\n";
            if (e.kind == DAT) return P + "illegal timestamp format \"" + x.arg + "\"\ncorrect format is \"" + date_example(e.sub) + "\"\n";
            return P + "invalid argument \"" + x.arg + "\" to option " + opt + "\n";
        default: return "?";
    }
}
// run a stream printing function and return what it wrote
template <class F> static string capture(F f) {
    char* buf = nullptr;
    size_t n = 0;
    FILE* fp = open_memstream(&buf, &n);
    f(fp);
    fclose(fp);
    string r(buf, n);
    free(buf);
    return r;
}
template <class F> static string capture_ds(const Api* A, F f) {
    arg_dstr_t ds = A->arg_dstr_create();
    f(ds);
    return ds_take(A, ds);
}
struct Mark { Mark() { g_mark = true; } ~Mark() { g_mark = false; } };
static void require_cut(const string& want, const string& got, const string& what) {
    if (!match_cut(want, 0, got, 0)) fail(what + " (marked parts may be cut behind their first 150 characters)\n  expected " + q(want) + "\n  observed " + q(got));
}
static void require_eq(const string& want, const string& got, const string& what) {
    if (want != got) fail(what + "\n  expected " + q(want) + "\n  observed " + q(got));
}
