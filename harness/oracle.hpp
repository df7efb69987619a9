// oracle.hpp - reference semantics of the value types, written from the documented
// behaviour and independently of the library's code.
#pragma once
#include <cctype>
#include <climits>
#include <cstring>
#include <algorithm>
#include <ctime>
#include <string>
#include "pbt.hpp"

namespace oracle {
using std::string;

static inline bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static inline char lo(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static inline bool ieq(const string& a, const string& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (lo(a[i]) != lo(b[i])) return false;
    return true;
}

// ---- integers
enum IntRes { I_OK, I_OVERFLOW, I_BAD };
static inline IntRes int_value(const string& s, int* out) {
    size_t i = 0, n = s.size();
    while (i < n && ws(s[i])) i++;
    bool neg = false;
    if (i < n && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    int base = 10;
    if (i + 1 < n && s[i] == '0') {
        char p = lo(s[i + 1]);
        if (p == 'x') base = 16;
        if (p == 'o') base = 8;
        if (p == 'b') base = 2;
        if (base != 10) i += 2;
    }
    __int128 v = 0;
    size_t d0 = i;
    for (; i < n; i++) {
        int d;
        char c = lo(s[i]);
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
        else break;
        if (d >= base) break;
        v = v * base + d;
        if (v > ((__int128)1 << 80)) v = (__int128)1 << 80;
    }
    if (i == d0) return I_BAD;
    __int128 mul = 1;
    if (i + 1 < n && lo(s[i + 1]) == 'b') {
        char c = lo(s[i]);
        if (c == 'k') mul = 1024;
        if (c == 'm') mul = 1048576;
        if (c == 'g') mul = 1073741824;
        if (mul != 1) i += 2;
    }
    while (i < n && ws(s[i])) i++;
    if (i != n) return I_BAD;
    v *= mul;
    if (neg) v = -v;
    if (v > INT_MAX || v < INT_MIN) return I_OVERFLOW;
    *out = (int)v;
    return I_OK;
}

// ---- doubles: grammar of the standard conversion, whole string
static inline bool dbl_grammar(const string& s) {
    size_t i = 0, n = s.size();
    while (i < n && ws(s[i])) i++;
    if (i < n && (s[i] == '+' || s[i] == '-')) i++;
    string r;
    for (size_t k = i; k < n; k++) r += lo(s[k]);
    if (r == "inf" || r == "infinity" || r == "nan") return true;
    if (r.size() > 4 && r.compare(0, 4, "nan(") == 0 && r.back() == ')') {
        for (size_t k = 4; k + 1 < r.size(); k++)
            if (!(isalnum((unsigned char)r[k]) || r[k] == '_')) return false;
        return true;
    }
    bool hex = r.size() > 2 && r[0] == '0' && r[1] == 'x' && (isxdigit((unsigned char)r[2]) || (r[2] == '.' && r.size() > 3 && isxdigit((unsigned char)r[3])));
    size_t k = hex ? 2 : 0;
    auto dig = [&](char c) { return hex ? isxdigit((unsigned char)c) != 0 : isdigit((unsigned char)c) != 0; };
    size_t nd = 0;
    while (k < r.size() && dig(r[k])) k++, nd++;
    if (k < r.size() && r[k] == '.') {
        k++;
        while (k < r.size() && dig(r[k])) k++, nd++;
    }
    if (!nd) return false;
    if (k < r.size() && r[k] == (hex ? 'p' : 'e')) {
        k++;
        if (k < r.size() && (r[k] == '+' || r[k] == '-')) k++;
        size_t e0 = k;
        while (k < r.size() && isdigit((unsigned char)r[k])) k++;
        if (k == e0) return false;
    }
    return k == r.size();
}

// ---- dates
static const char* const DAYS[7] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char* const MONS[12] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};

static inline string tm_str(const struct tm& t) {
    return pbt::fmt("Y%d M%d D%d h%d m%d s%d w%d y%d", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday);
}
struct DateParser {
    const string& s;
    size_t p = 0;
    struct tm& t;
    bool century = false, yy = false;
    DateParser(const string& s_, struct tm& t_) : s(s_), t(t_) {}
    bool num(int lo_, int hi, int* out) {
        int digits = 0, v = 0;
        for (int h = hi; h; h /= 10) digits++;
        if (digits == 0) digits = 1;
        int k = 0;
        while (k < digits && p < s.size() && s[p] >= '0' && s[p] <= '9' && (k == 0 || v * 10 <= hi)) { v = v * 10 + (s[p] - '0'); p++; k++; }
        if (!k || v < lo_ || v > hi) return false;
        *out = v;
        return true;
    }
    bool word(const char* w) {
        size_t n = strlen(w);
        if (s.size() - p < n || !ieq(s.substr(p, n), w)) return false;
        p += n;
        return true;
    }
    void spaces() { while (p < s.size() && ws(s[p])) p++; }
    bool name(const char* const* tab, int n, int* out) {
        for (int i = 0; i < n; i++)
            if (word(tab[i]) || word(string(tab[i]).substr(0, 3).c_str())) { *out = i; return true; }
        return false;
    }
    bool run(const string& f) {
        for (size_t i = 0; i < f.size(); i++) {
            if (ws(f[i])) { spaces(); continue; }
            if (f[i] != '%') { if (p >= s.size() || s[p] != f[i]) return false; p++; continue; }
            i++;
            if (i < f.size() && (f[i] == 'E' || f[i] == 'O')) i++;  // modifiers carry no meaning (generators use legal ones)
            int v;
            if (i >= f.size()) return false;
            switch (f[i]) {
                case '%': if (p >= s.size() || s[p] != '%') return false; p++; break;
                case 'c': if (!sub("%m/%d/%y %H:%M:%S")) return false; break;
                case 'D': case 'x': if (!sub("%m/%d/%y")) return false; break;
                case 'R': if (!sub("%H:%M")) return false; break;
                case 'r': if (!sub("%I:%M:%S %p")) return false; break;
                case 'T': case 'X': if (!sub("%H:%M:%S")) return false; break;
                case 'A': case 'a': if (!name(DAYS, 7, &t.tm_wday)) return false; break;
                case 'B': case 'b': case 'h': if (!name(MONS, 12, &t.tm_mon)) return false; break;
                case 'C':
                    if (!num(0, 99, &v)) return false;
                    { int rest = yy ? ((t.tm_year + 1900) % 100) : 0; t.tm_year = v * 100 + rest - 1900; }
                    century = true;
                    break;
                case 'd': case 'e': if (!num(1, 31, &t.tm_mday)) return false; break;
                case 'k': case 'H': if (!num(0, 23, &t.tm_hour)) return false; break;
                case 'l': case 'I': if (!num(1, 12, &v)) return false; t.tm_hour = v % 12; break;
                case 'j': if (!num(1, 366, &v)) return false; t.tm_yday = v - 1; break;
                case 'M': if (!num(0, 59, &t.tm_min)) return false; break;
                case 'm': if (!num(1, 12, &v)) return false; t.tm_mon = v - 1; break;
                case 'p':
                    if (word("AM")) { if (t.tm_hour > 11) return false; }
                    else if (word("PM")) { if (t.tm_hour > 11) return false; t.tm_hour += 12; }
                    else return false;
                    break;
                case 'S': if (!num(0, 61, &t.tm_sec)) return false; break;
                case 'U': case 'W': if (!num(0, 53, &v)) return false; break;
                case 'w': if (!num(0, 6, &t.tm_wday)) return false; break;
                case 'Y': if (!num(0, 9999, &v)) return false; t.tm_year = v - 1900; break;
                case 'y':
                    if (!num(0, 99, &v)) return false;
                    if (century) t.tm_year = (t.tm_year + 1900) / 100 * 100 + v - 1900;
                    else { t.tm_year = v <= 68 ? v + 100 : v; yy = true; }
                    break;
                case 'n': case 't': spaces(); break;
                default: return false;
            }
        }
        return true;
    }
    bool sub(const char* f) {  // composite conversions start afresh as to century/year pairing
        bool c = century, y = yy;
        century = yy = false;
        bool r = run(f);
        century = c;
        yy = y;
        return r;
    }
};
static inline bool date_value(const string& fmt, const string& text, struct tm* t) {
    struct tm tmp = *t;
    DateParser p(text, tmp);
    if (!p.run(fmt) || p.p != text.size()) return false;
    *t = tmp;
    return true;
}

// ---- files
static inline string base_name(const string& f) {
    size_t k = f.rfind('/');
    string b = k == string::npos ? f : f.substr(k + 1);
    if (b == "." || b == "..") return "";
    return b;
}
static inline string extension(const string& f) {
    string b = base_name(f);
    size_t k = b.rfind('.');
    if (k == string::npos || k == 0 || k + 1 == b.size()) return "";
    return b.substr(k);
}

// ---- regular expressions: fixed patterns with hand-written membership tests
struct RexPat {
    const char* pat;
    int icase;
    bool (*in)(const string&);
    const char* good[4];
};
static bool rx_lower(const string& s) { if (s.empty()) return false; for (char c : s) if (!(c >= 'a' && c <= 'z')) return false; return true; }
static bool rx_hello(const string& s) { return s == "hello" || s == "bye"; }
static bool rx_num(const string& s) { if (s.size() < 2 || s.size() > 3) return false; for (char c : s) if (!(c >= '0' && c <= '9')) return false; return true; }
static bool rx_abc(const string& s) { size_t i = 0; while (s.compare(i, 2, "ab") == 0) i += 2; if (i < s.size() && s[i] == 'c') i++; return i == s.size(); }
static bool rx_icase(const string& s) { return ieq(s, "yes") || ieq(s, "no"); }
static bool rx_xdy(const string& s) { return s.size() == 3 && s[0] == 'x' && s[2] == 'y'; }
static bool rx_foo(const string& s) {
    if (s.compare(0, 4, "foo:") != 0 && s.compare(0, 4, "bar:") != 0) return false;
    return s.size() >= 5 && s.size() <= 6 && s.find(':', 4) == string::npos;
}
static bool rx_ver(const string& s) {
    size_t i = 0, k;
    auto digits = [&] { k = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; return i > k; };
    if (!digits() || i >= s.size() || s[i++] != '.' || !digits()) return false;
    if (i == s.size()) return true;
    if (s[i++] != '-') return false;
    k = i;
    while (i < s.size() && ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'))) i++;
    if (i == k) return false;
    if (i < s.size() && isdigit((unsigned char)s[i])) i++;
    return i == s.size();
}
static const RexPat REX[] = {
    {"[a-z]+", 0, rx_lower, {"a", "abc", "zz", "q"}},
    {"hello|bye", 0, rx_hello, {"hello", "bye", "hello", "bye"}},
    {"[0-9]{2,3}", 0, rx_num, {"12", "345", "00", "999"}},
    {"(ab)*c?", 0, rx_abc, {"", "ab", "ababc", "c"}},
    {"yes|no", 1, rx_icase, {"yes", "NO", "YeS", "no"}},
    {"^x.y$", 0, rx_xdy, {"xay", "x-y", "x y", "xxy"}},
    {"(?:foo|bar):[^:]{1,2}", 0, rx_foo, {"foo:a", "bar:--", "foo: ", "bar:zz"}},
    {"\\d+\\.\\d+(-[A-Z]+\\d?)?", 1, rx_ver, {"1.2", "10.20-rc1", "0.0-A", "3.14-BETA2"}},
};
enum { NREX = 8 };
static const char* const DATEFMT[] = {"%Y-%m-%d", "%H:%M", nullptr, "%d %b %Y", "%I:%M %p", "%T", "%D %R", "%B %e, %Y", "%Y/%j", "%A %y"};
enum { NDATE = 10 };
}  // namespace oracle
