// C08: dates parse back to exactly the calendar fields they were written from.
#include "values.hpp"

struct Piece { string conv; string text; };   // one conversion (or literal) and what a writer prints for it
struct DateCase {
    string format, text;
    struct tm want;      // prior contents overwritten by the fields mentioned
    std::set<string> lab;
};
static struct tm gen_tm(Src& s) {
    struct tm t;
    memset(&t, 0, sizeof t);
    int y = (int)s.weighted({4, 2, 2, 1});
    int year = y == 0 ? s.range(1969, 2068) : y == 1 ? s.range(1900, 2100) : y == 2 ? s.range(0, 9999) : (int[]){0, 1, 99, 100, 1899, 1900, 1999, 2000, 2068, 2069, 9999}[s.below(11)];
    static const int DM[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
    int mon = (int)s.below(12);
    int dim = DM[mon] + (mon == 1 && leap);
    int mday = s.chance(1, 4) ? dim : s.range(1, dim);
    int yday = mday - 1;
    for (int i = 0; i < mon; i++) yday += DM[i] + (i == 1 && leap);
    // weekday (Sakamoto), proleptic Gregorian
    static const int T[] = {0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4};
    int yy = year - (mon < 2) + 400;
    t.tm_wday = (yy + yy / 4 - yy / 100 + yy / 400 + T[mon] + mday) % 7;
    t.tm_year = year - 1900;
    t.tm_mon = mon;
    t.tm_mday = mday;
    t.tm_yday = yday;
    t.tm_hour = s.chance(1, 4) ? (int[]){0, 11, 12, 13, 23}[s.below(5)] : s.range(0, 23);
    t.tm_min = s.range(0, 59);
    t.tm_sec = s.chance(1, 10) ? s.range(59, 61) : s.range(0, 59);
    return t;
}
static string caseify(Src& s, string w) {
    int m = (int)s.below(4);
    for (auto& c : w)
        if (isalpha((unsigned char)c)) c = m == 0 ? c : m == 1 ? (char)toupper(c) : m == 2 ? (char)tolower(c) : (s.coin() ? (char)toupper(c) : (char)tolower(c));
    return w;
}
static const char* alt(Src& s, const char* mods) {  // optional legal modifier
    static char b[2];
    if (!s.chance(1, 8)) return "";
    b[0] = mods[s.below((u32)strlen(mods))];
    b[1] = 0;
    return b;
}
// strict: fully padded numbers, as strftime writes them
static DateCase gen_case(Src& s, const struct tm& prior, bool strict, bool percent_c = true, bool longfmt = false) {
    DateCase c;
    struct tm t = gen_tm(s);
    c.want = prior;
    int year = t.tm_year + 1900;
    vector<Piece> pc;
    auto num = [&](int v, int w) { return strict || s.coin() ? fmt("%0*d", w, v) : fmt("%d", v); };
    // --- date
    auto month = [&] {
        switch (s.below(4)) {
            case 0: pc.push_back({string("%") + alt(s, "O") + "m", num(t.tm_mon + 1, 2)}); break;
            default: {
                string full = oracle::MONS[t.tm_mon];
                bool ab = s.coin();
                pc.push_back({string("%") + "bBh"[s.below(3)], caseify(s, ab ? full.substr(0, 3) : full)});
                c.lab.insert("month name");
            }
        }
        c.want.tm_mon = t.tm_mon;
    };
    auto day = [&] { pc.push_back({string("%") + alt(s, "O") + "de"[s.below(2)], num(t.tm_mday, 2)}); c.want.tm_mday = t.tm_mday; };
    bool date_done = false, time_done = false;
    if (percent_c && s.chance(1, 24)) {   // date and time as the library reads them ('%x %X'); see the known finding on its example
        if (year < 1969 || year > 2068) { year = 1969 + year % 100; t.tm_year = year - 1900; }
        pc.push_back({string("%") + alt(s, "E") + "c", num(t.tm_mon + 1, 2) + "/" + num(t.tm_mday, 2) + "/" + num(year % 100, 2) + " " + num(t.tm_hour, 2) + ":" + num(t.tm_min, 2) + ":" + num(t.tm_sec, 2)});
        c.want.tm_year = t.tm_year; c.want.tm_mon = t.tm_mon; c.want.tm_mday = t.tm_mday; c.want.tm_hour = t.tm_hour; c.want.tm_min = t.tm_min; c.want.tm_sec = t.tm_sec;
        date_done = time_done = true;
        c.lab.insert("%c");
    } else if (s.chance(1, 8)) {
        if (year < 1969 || year > 2068) { year = 1969 + year % 100; t.tm_year = year - 1900; }
        bool D = s.coin();
        pc.push_back({D ? "%D" : string("%") + alt(s, "E") + "x", num(t.tm_mon + 1, 2) + "/" + num(t.tm_mday, 2) + "/" + num(year % 100, 2)});
        c.want.tm_year = t.tm_year; c.want.tm_mon = t.tm_mon; c.want.tm_mday = t.tm_mday;
        date_done = true;
        c.lab.insert("composite date");
    } else if (s.chance(3, 4)) {
        switch (s.below(5)) {
            case 0: case 1: pc.push_back({string("%") + alt(s, "E") + "Y", num(year, 4)}); c.want.tm_year = t.tm_year; break;
            case 2:
                if (year < 1969 || year > 2068) { year = 1969 + year % 100; t.tm_year = year - 1900; }
                pc.push_back({string("%") + alt(s, "EO") + "y", num(year % 100, 2)});
                c.want.tm_year = t.tm_year;
                c.lab.insert("two digit year");
                break;
            case 3:
                pc.push_back({string("%") + alt(s, "E") + "C", num(year / 100, 2)});
                pc.push_back({string("%") + alt(s, "EO") + "y", num(year % 100, 2)});
                c.want.tm_year = t.tm_year;
                c.lab.insert("century+year");
                break;
            default:
                pc.push_back({"%y", num(year % 100, 2)});
                pc.push_back({"%C", num(year / 100, 2)});
                c.want.tm_year = t.tm_year;
                c.lab.insert("year+century");
                break;
        }
    }
    if (!date_done) { if (s.chance(2, 3)) month(); if (s.chance(2, 3)) day(); }
    if (s.chance(1, 4)) {
        if (s.coin()) pc.push_back({string("%") + alt(s, "O") + "w", fmt("%d", t.tm_wday)});
        else { string full = oracle::DAYS[t.tm_wday]; pc.push_back({string("%") + "aA"[s.below(2)], caseify(s, s.coin() ? full.substr(0, 3) : full)}); c.lab.insert("day name"); }
        c.want.tm_wday = t.tm_wday;
    }
    if (s.chance(1, 8)) { pc.push_back({"%j", num(t.tm_yday + 1, 3)}); c.want.tm_yday = t.tm_yday; }
    if (s.chance(1, 12)) pc.push_back({string("%") + alt(s, "O") + "UW"[s.below(2)], num(s.range(0, 53), 2)});
    // --- time
    auto h12 = [&] { int h = t.tm_hour % 12; return h ? h : 12; };
    if (!time_done) switch (s.below(8)) {
        case 0: break;
        case 1: pc.push_back({"%R", num(t.tm_hour, 2) + ":" + num(t.tm_min, 2)}); c.want.tm_hour = t.tm_hour; c.want.tm_min = t.tm_min; break;
        case 2: pc.push_back({s.coin() ? string("%T") : string("%") + alt(s, "E") + "X", num(t.tm_hour, 2) + ":" + num(t.tm_min, 2) + ":" + num(t.tm_sec, 2)}); c.want.tm_hour = t.tm_hour; c.want.tm_min = t.tm_min; c.want.tm_sec = t.tm_sec; break;
        case 3: pc.push_back({"%r", num(h12(), 2) + ":" + num(t.tm_min, 2) + ":" + num(t.tm_sec, 2) + " " + caseify(s, t.tm_hour < 12 ? "AM" : "PM")}); c.want.tm_hour = t.tm_hour; c.want.tm_min = t.tm_min; c.want.tm_sec = t.tm_sec; c.lab.insert("%r"); break;
        case 4: case 5: {
            bool l = s.chance(1, 3);
            pc.push_back({l ? "%l" : string("%") + alt(s, "O") + "I", num(h12(), 2)});
            if (s.coin()) { pc.push_back({string("%") + alt(s, "O") + "M", num(t.tm_min, 2)}); c.want.tm_min = t.tm_min; }
            pc.push_back({"%p", caseify(s, t.tm_hour < 12 ? "AM" : "PM")});
            c.want.tm_hour = t.tm_hour;
            c.lab.insert("12 hour clock");
            break;
        }
        default: {
            bool k = s.chance(1, 3);
            pc.push_back({k ? "%k" : string("%") + alt(s, "O") + "H", num(t.tm_hour, 2)}); c.want.tm_hour = t.tm_hour;
            if (s.coin()) { pc.push_back({string("%") + alt(s, "O") + "M", num(t.tm_min, 2)}); c.want.tm_min = t.tm_min; }
            if (s.coin()) { pc.push_back({string("%") + alt(s, "O") + "S", num(t.tm_sec, 2)}); c.want.tm_sec = t.tm_sec; }
        }
    }
    // order: keep pairs with an order dependency (%C/%y, %I/%p) in order by only rotating time before date
    if (s.chance(1, 4) && pc.size() > 1) {
        size_t n = pc.size(), k = 0;
        for (size_t i = 0; i < n; i++) if (pc[i].conv[pc[i].conv.size() - 1] == 'H') k = i;
        if (k) std::rotate(pc.begin(), pc.begin() + (long)k, pc.end());
    }
    // separators
    auto wspace = [&](bool need) {
        if (strict) return string(" ");
        string r;
        int n = s.range(need ? 1 : 0, 3);
        for (int i = 0; i < n; i++) r += " \t\n\v\f\r"[s.below(6)];
        return r;
    };
    auto spacefmt = [&] { return s.pick_s({" ", " ", "  ", "\t", "%n", "%t"}); };
    if (s.chance(1, 10)) { c.format += spacefmt(); c.text += wspace(false); }
    bool pad = longfmt && s.chance(1, 60);   // a lot of literal text around the conversions
    for (size_t i = 0; i < pc.size(); i++) {
        if (pad) {
            string w = s.pick_s({"the year is", "-", "x", "month_", ".."}), l;
            int n = s.tail(s.chance(1, 4) ? 300 : 90);
            while ((int)l.size() < n) l += w;
            for (char x : l) { c.format += x; if (x != ' ') c.text += x; else c.text += ' '; }
        }
        if (i) {
            bool digits = isdigit((unsigned char)pc[i - 1].text.back()) && isdigit((unsigned char)pc[i].text[0]);
            u32 w = s.below(5);
            if (w == 0 && (strict || !digits)) ;  // nothing between: only with padded numbers
            else if (w <= 2) { string l = s.pick_s({"-", "/", ":", ".", ",", "T", "at", "%%", "_"}); c.format += l; c.text += l == "%%" ? "%" : l; }
            else { c.format += spacefmt(); c.text += wspace(digits); c.lab.insert("white space"); }
        }
        c.format += pc[i].conv;
        c.text += pc[i].text;
    }
    if (s.chance(1, 10)) { c.format += spacefmt(); c.text += wspace(false); }
    if (pc.empty()) { c.format += "x"; c.text += "x"; }
    return c;
}
static struct tm gen_prior(Src& s) {
    struct tm t;
    memset(&t, 0, sizeof t);
    if (s.coin()) return t;
    t.tm_sec = s.range(0, 59); t.tm_min = s.range(0, 59); t.tm_hour = s.range(0, 23); t.tm_mday = s.range(1, 31); t.tm_mon = s.range(0, 11);
    t.tm_year = s.range(0, 300); t.tm_wday = s.range(0, 6); t.tm_yday = s.range(0, 365); t.tm_isdst = s.range(-1, 1);
    return t;
}
static string full_tm(const struct tm& t) { return oracle::tm_str(t) + fmt(" dst%d", t.tm_isdst); }

struct DateTab {
    arg_date* d;
    void* tab[2];
    std::unique_ptr<Argv> av;   // the table refers to the arguments
    DateTab(const char* f, int n) { d = arg_daten("d", "date", f, nullptr, 0, n, nullptr); tab[0] = d; tab[1] = arg_end(10); }
    ~DateTab() { arg_freetable(tab, 2); }
    int parse(const vector<string>& texts) {
        vector<string> a{"prog"};
        for (auto& t : texts) { a.push_back("-d"); a.push_back(t); }
        av.reset(new Argv(a));
        set_posix(false);
        return arg_parse(av->argc(), av->p.data(), tab);
    }
    string message() {
        arg_dstr_t ds = arg_dstr_create();
        arg_print_errors_ds(ds, (struct arg_end*)tab[1], "P");
        string r = arg_dstr_cstr(ds);
        arg_dstr_destroy(ds);
        return r;
    }
};
static void t_roundtrip(Src& s) {
    int n = s.range(1, 3);
    struct tm prior = gen_prior(s);
    bool strict = s.chance(1, 3);
    DateCase c = gen_case(s, prior, strict, true, true);
    DateTab T(c.format.c_str(), n);
    for (int i = 0; i < n; i++) T.d->tmval[i] = prior;
    int k = n > 1 && s.chance(1, 4) ? n : 1;    // several occurrences, each slot with contents of its own
    vector<struct tm> want(1, c.want);
    for (int i = 1; i < k; i++) {
        struct tm p = gen_prior(s);
        T.d->tmval[i] = p;
        want.push_back(p);
        REQUIRE(oracle::date_value(c.format, c.text, &want.back()), "harness: reference rejects %s in %s", q(c.text).c_str(), q(c.format).c_str());
    }
    int ret = T.parse(vector<string>((size_t)k, c.text));
    string ctx = "format " + q(c.format) + " text " + q(c.text) + " prior " + full_tm(prior);
    REQUIRE(ret == 0, "text written in the format is rejected\n  %s\n  %s", ctx.c_str(), ret ? T.message().c_str() : "");
    REQUIRE(T.d->count == k, "count %d\n  %s", T.d->count, ctx.c_str());
    for (int i = 1; i < k; i++) require_eq(full_tm(want[(size_t)i]), full_tm(T.d->tmval[i]), fmt("fields of occurrence %d differ\n  ", i) + ctx);
    require_eq(full_tm(c.want), full_tm(T.d->tmval[0]), "fields differ\n  " + ctx);
    for (int i = k; i < n; i++) require_eq(full_tm(prior), full_tm(T.d->tmval[i]), "another slot was touched\n  " + ctx);
    s.nontrivial(ctx);
    for (auto& l : c.lab) s.label(l);
}
static void t_reject(Src& s) {
    struct tm prior = gen_prior(s);
    DateCase c = gen_case(s, prior, s.coin(), true, true);
    string t = c.text;
    int m = (int)s.weighted({0, 5, 3, 1});
    static const char AL[] = "0123456789:/-. aApPmMJjdDx%";
    for (int i = 0; i < m; i++) switch (s.below(5)) {
        case 0: t.insert(s.below((u32)t.size() + 1), 1, AL[s.below(sizeof AL - 1)]); break;
        case 1: if (!t.empty()) t.erase(s.below((u32)t.size()), 1); break;
        case 2: if (!t.empty()) t[s.below((u32)t.size())] = AL[s.below(sizeof AL - 1)]; break;
        case 3: if (!t.empty()) t.resize(s.below((u32)t.size())); break;
        default: if (!t.empty()) { size_t k = s.below((u32)t.size()); if (isdigit((unsigned char)t[k])) t[k] = "0369"[s.below(4)]; } break;
    }
    struct tm want = prior;
    bool ok = oracle::date_value(c.format, t, &want);
    DateTab T(c.format.c_str(), 2);
    T.d->tmval[0] = T.d->tmval[1] = prior;
    int ret = T.parse({t});
    string ctx = "format " + q(c.format) + " text " + q(t) + " prior " + full_tm(prior);
    REQUIRE((ret == 0) == ok, "%s although the text %s the format\n  %s", ret ? "rejected" : "accepted", ok ? "matches" : "does not match", ctx.c_str());
    require_eq(full_tm(ok ? want : prior), full_tm(T.d->tmval[0]), "fields differ\n  " + ctx);
    REQUIRE(T.d->count == (ok ? 1 : 0), "count %d\n  %s", T.d->count, ctx.c_str());
    if (!ok) {
        struct arg_end* e = (struct arg_end*)T.tab[1];
        REQUIRE(ret == 1 && e->parent[0] == (void*)T.d && e->argval[0] && t == e->argval[0], "the error does not belong to the entry\n  %s", ctx.c_str());
        string m1 = T.message();
        REQUIRE(m1.find("illegal timestamp format \"" + t + "\"\n") != string::npos, "message does not show the text: %s\n  %s", q(m1).c_str(), ctx.c_str());
    }
    s.label(ok ? "still valid" : "rejected");
    s.nontrivial(ctx);
}
static void check_example(const string& format) {
    DateTab T(format.empty() ? nullptr : format.c_str(), 1);
    int ret = T.parse({"\x01 not a date"});
    string ctx = "format " + q(format);
    REQUIRE(ret == 1, "nonsense accepted\n  %s", ctx.c_str());
    string m = T.message();
    string mark = "correct format is \"";
    size_t k = m.rfind(mark);
    REQUIRE(k != string::npos && m.size() >= k + mark.size() + 2 && m.compare(m.size() - 2, 2, "\"\n") == 0, "no example in the message %s\n  %s", q(m).c_str(), ctx.c_str());
    string ex = m.substr(k + mark.size(), m.size() - 2 - k - mark.size());
    DateTab U(format.empty() ? nullptr : format.c_str(), 1);
    REQUIRE(U.parse({ex}) == 0, "the example %s shown for the format is itself rejected\n  %s", q(ex).c_str(), ctx.c_str());
}
static void t_example(Src& s) {
    struct tm prior = gen_prior(s);
    DateCase c = gen_case(s, prior, true, false);
    if (s.chance(1, 200)) c.format = "";
    check_example(c.format);
    s.nontrivial("example for " + q(c.format));
}
// a format with a conversion that does not exist (or a modifier that does not apply) matches nothing
static void t_unsupported(Src& s) {
    struct tm prior = gen_prior(s);
    DateCase c = gen_case(s, prior, s.coin());
    string bad = s.pick_s({"%q", "%Q", "%i", "%J", "%K", "%L", "%N", "%v", "%", "%E", "%O", "%Ed", "%EH", "%EM", "%Em", "%ES", "%EB", "%ED", "%Oj", "%OD", "%OT", "%OR", "%Or", "%OY", "%OC", "%OB", "%Ep", "%Op", "%Ow%Ew", "%EOd", "%OEy", "%!", "%1", "%\xff", "%Ej", "%Ek", "%Ol", "%Ee", "%EU"});
    c.format += bad;
    if (s.coin()) c.text += s.pick_s({"1", "12", "%", "1 1", "AM", " ", "Monday", "0", bad.c_str()});
    DateTab T(c.format.c_str(), 1);
    T.d->tmval[0] = prior;
    int ret = T.parse({c.text});
    string ctx = "format " + q(c.format) + " text " + q(c.text);
    REQUIRE(ret == 1 && T.d->count == 0, "accepted although the format is not a supported one\n  %s", ctx.c_str());
    T.message();
    s.nontrivial(ctx);
}
static void t_known_c(Src& s) { check_example("%c"); }   // not part of the search: known finding

// every day of a range of years through one fixed set of formats
static void t_calendar(Src& s) {
    int year = 1895 + (int)s.below(210);
    int mon = (int)s.below(12);
    int mday = 1 + (int)s.below(31);
    static const int DM[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (mday > DM[mon]) return;
    struct { const char* f; string t; } c[] = {
        {"%Y-%m-%d", fmt("%04d-%02d-%02d", year, mon + 1, mday)},
        {"%d %B %Y", fmt("%02d %s %d", mday, oracle::MONS[mon], year)},
        {"%b%d%C%y", fmt("%.3s%02d%02d%02d", oracle::MONS[mon], mday, year / 100, year % 100)},
    };
    for (auto& x : c) {
        DateTab T(x.f, 1);
        REQUIRE(T.parse({x.t}) == 0, "%s rejected for %s", x.t.c_str(), x.f);
        struct tm& t = T.d->tmval[0];
        REQUIRE(t.tm_year == year - 1900 && t.tm_mon == mon && t.tm_mday == mday, "%s in format %s gives %s", x.t.c_str(), x.f, oracle::tm_str(t).c_str());
    }
    s.nontrivial(c[0].t);
}
// every value of every numeric field, in range or not
static void t_fields(Src& s) {
    static const struct { char c; int lo, hi; } F[] = {{'d', 1, 31}, {'e', 1, 31}, {'H', 0, 23}, {'k', 0, 23}, {'I', 1, 12}, {'l', 1, 12}, {'j', 1, 366}, {'M', 0, 59}, {'m', 1, 12}, {'S', 0, 61}, {'U', 0, 53}, {'W', 0, 53}, {'w', 0, 6}, {'y', 0, 99}, {'C', 0, 99}, {'Y', 0, 9999}};
    u32 f = s.below(16);
    int v = (int)s.below(1200);
    int width = (int)s.below(4);
    string text = fmt("%0*d", width + 1, v);
    string format = string("%") + F[f].c;
    struct tm prior;
    memset(&prior, 0, sizeof prior);
    struct tm want = prior;
    bool ok = oracle::date_value(format, text, &want);
    int digits = F[f].hi > 999 ? 4 : F[f].hi > 99 ? 3 : F[f].hi > 9 ? 2 : 1;
    if ((int)text.size() <= digits) REQUIRE(ok == (v >= F[f].lo && v <= F[f].hi), "harness: oracle on %s %s", format.c_str(), text.c_str());
    DateTab T(format.c_str(), 1);
    int ret = T.parse({text});
    REQUIRE((ret == 0) == ok, "%s %s for format %s", text.c_str(), ret ? "rejected" : "accepted", format.c_str());
    require_eq(full_tm(want), full_tm(T.d->tmval[0]), "fields after " + text + " in " + format);
    s.nontrivial(format + " " + text);
}
PBT_MAIN("C08", nullptr, Test{"fields", t_fields, true, 1000000, 1000000}, Test{"calendar", t_calendar, true, 100000, 100000}, Test{"roundtrip", t_roundtrip, false, 300000, 8000000},
         Test{"reject", t_reject, false, 300000, 8000000}, Test{"example", t_example, false, 60000, 1000000}, Test{"unsupported", t_unsupported, false, 40000, 400000}, Test{"known_percent_c", t_known_c, false, 0, 0})
