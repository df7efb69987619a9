// table.hpp - generated argument tables: specification, construction through the public
// constructors, observation through the public structs, and a reference parser.
#pragma once
#include <memory>
#include <optional>
extern "C" {
#include "argtable3.h"
}
#include "oracle.hpp"
#include "pbt.hpp"

using namespace pbt;

// ---- the library under test, as a table of entry points (several builds can be loaded at once)
#define API_LIST(X)                                                                                                                        \
    X(arg_rem) X(arg_lit0) X(arg_lit1) X(arg_litn) X(arg_int0) X(arg_int1) X(arg_intn) X(arg_dbl0) X(arg_dbl1) X(arg_dbln) X(arg_str0)      \
    X(arg_str1) X(arg_strn) X(arg_rex0) X(arg_rex1) X(arg_rexn) X(arg_file0) X(arg_file1) X(arg_filen) X(arg_date0) X(arg_date1)            \
    X(arg_daten) X(arg_end) X(arg_parse) X(arg_print_option) X(arg_print_syntax) X(arg_print_syntaxv) X(arg_print_glossary)                 \
    X(arg_print_glossary_gnu) X(arg_print_formatted) X(arg_print_errors) X(arg_print_option_ds) X(arg_print_syntax_ds)                      \
    X(arg_print_syntaxv_ds) X(arg_print_glossary_ds) X(arg_print_glossary_gnu_ds) X(arg_print_errors_ds) X(arg_freetable) X(arg_nullcheck)  \
    X(arg_dstr_create) X(arg_dstr_catf) X(arg_dstr_destroy) X(arg_dstr_cstr) X(arg_dstr_reset) X(arg_cmd_init) X(arg_cmd_uninit) X(arg_cmd_register)         \
    X(arg_set_module_name) X(arg_set_module_version) X(arg_make_get_help_msg) X(arg_make_help_msg) X(arg_make_syntax_err_msg)               \
    X(arg_make_syntax_err_help_msg) X(arg_dstr_set) X(arg_dstr_cat) X(arg_dstr_catc) X(arg_dstr_free) X(arg_cmd_unregister) X(arg_cmd_dispatch) X(arg_cmd_count) \
    X(arg_cmd_info) X(arg_cmd_itr_create) X(arg_cmd_itr_destroy) X(arg_cmd_itr_advance) X(arg_cmd_itr_key) X(arg_cmd_itr_value) X(arg_cmd_itr_search) \
    X(arg_mgsort) X(arg_free)
struct Api {
#define X(n) decltype(&::n) n;
    API_LIST(X)
#undef X
};
#ifndef PBT_NO_DEFAULT_API
static const Api g_default_api = {
#define X(n) &::n,
    API_LIST(X)
#undef X
};
static const Api* API = &g_default_api;
#else
static const Api* API = nullptr;
#endif

enum Kind { LIT, INT, DBL, STR, REX, FIL, DAT, REM, NKIND };
static const char* const KINDNAME[] = {"lit", "int", "dbl", "str", "rex", "file", "date", "rem"};

struct Entry {
    Kind kind = LIT;
    string shorts;              // "" = none
    vector<string> longs;
    bool optval = false;
    bool has_dt = false, has_gl = false;
    string dt, gl;
    int min = 0, max = 1;       // as declared (max may be < min)
    int sub = 0;                // pattern / format index
    string longjoined;          // storage
    int emax() const { return kind == REM ? 1 : (max < min ? min : max); }
    bool tagged() const { return !shorts.empty() || !longs.empty(); }
    bool takes_value() const { return kind != LIT && kind != REM; }
    string datatype() const {   // effective data type text ("" + has=false -> none)
        if (has_dt) return dt;
        switch (kind) {
            case INT: return "<int>";
            case DBL: return "<double>";
            case STR: return "<string>";
            case FIL: return "<file>";
            case REX: return oracle::REX[sub].pat;
            case DAT: return oracle::DATEFMT[sub] ? oracle::DATEFMT[sub] : "%x";
            default: return "";
        }
    }
    bool has_datatype() const { return kind == LIT ? false : (kind == REM ? has_dt : true); }
    const char* c_short() const { return shorts.empty() ? nullptr : shorts.c_str(); }
    const char* c_long() const { return longs.empty() ? nullptr : longjoined.c_str(); }
    const char* c_dt() const { return has_dt ? dt.c_str() : nullptr; }
    const char* c_gl() const { return has_gl ? gl.c_str() : nullptr; }
    void finish() {
        longjoined.clear();
        for (size_t i = 0; i < longs.size(); i++) longjoined += (i ? "," : "") + longs[i];
    }
    string desc() const {
        string r = KINDNAME[kind];
        r += "(" + (shorts.empty() ? string("-") : q(shorts)) + "," + (longs.empty() ? string("-") : q(longjoined));
        if (has_dt) r += ",dt=" + q(dt);
        if (kind == REX) r += fmt(",%s", oracle::REX[sub].pat);
        if (kind == DAT) r += fmt(",%s", oracle::DATEFMT[sub] ? oracle::DATEFMT[sub] : "NULL");
        if (kind != REM) r += fmt(",%d..%d", min, max);
        if (optval) r += ",optvalue";
        if (has_gl) r += "," + q(gl);
        return r + ")";
    }
};
struct Spec {
    vector<Entry> e;
    int cap = 20;
    string desc() const {
        string r = "table{";
        for (size_t i = 0; i < e.size(); i++) r += (i ? ", " : "") + e[i].desc();
        return r + fmt("; end(%d)}", cap);
    }
};
static string argv_desc(const vector<string>& a) {
    string r = "argv[";
    for (size_t i = 0; i < a.size(); i++) r += (i ? " " : "") + q(a[i]);
    return r + "]";
}

// ---- recognisable default values stored in every slot before a parse
static int def_int(int i) { return -7000 - i; }
static double def_dbl(int i) { return -0.125 - i; }
static const char* def_str(int i) {
    static const char* d[] = {"<def0>", "<def1>", "<def2>", "<def3>", "<def4>", "<def5>", "<def6>", "<def7>"};
    return d[i & 7];
}
static struct tm def_tm(int i) {
    struct tm t;
    memset(&t, 0, sizeof t);
    t.tm_year = 33 + i; t.tm_mon = 4; t.tm_mday = 17; t.tm_hour = 3; t.tm_min = 44; t.tm_sec = 51; t.tm_wday = 2; t.tm_yday = 101;
    return t;
}

// ---- the real table
struct Built {
    const Spec* sp = nullptr;
    const Api* api = nullptr;
    vector<void*> tab;   // entries + end
    struct arg_end* end() const { return (struct arg_end*)tab.back(); }
    int* count(size_t i) const {
        switch (sp->e[i].kind) {
            case LIT: return &((arg_lit*)tab[i])->count;
            case INT: return &((arg_int*)tab[i])->count;
            case DBL: return &((arg_dbl*)tab[i])->count;
            case STR: return &((arg_str*)tab[i])->count;
            case REX: return &((arg_rex*)tab[i])->count;
            case FIL: return &((arg_file*)tab[i])->count;
            case DAT: return &((arg_date*)tab[i])->count;
            default: return nullptr;
        }
    }
    void set_defaults() {
        for (size_t i = 0; i < sp->e.size(); i++) {
            const Entry& e = sp->e[i];
            for (int k = 0; k < e.emax(); k++) switch (e.kind) {
                case INT: ((arg_int*)tab[i])->ival[k] = def_int(k); break;
                case DBL: ((arg_dbl*)tab[i])->dval[k] = def_dbl(k); break;
                case STR: ((arg_str*)tab[i])->sval[k] = def_str(k); break;
                case REX: ((arg_rex*)tab[i])->sval[k] = def_str(k); break;
                case FIL: ((arg_file*)tab[i])->filename[k] = def_str(k); ((arg_file*)tab[i])->basename[k] = def_str(k + 1); ((arg_file*)tab[i])->extension[k] = def_str(k + 2); break;
                case DAT: ((arg_date*)tab[i])->tmval[k] = def_tm(k); break;
                default: break;
            }
        }
    }
    string slot(size_t i, int k) const {
        switch (sp->e[i].kind) {
            case INT: return fmt("%d", ((arg_int*)tab[i])->ival[k]);
            case DBL: { u64 b; memcpy(&b, &((arg_dbl*)tab[i])->dval[k], 8); return fmt("%016llx", (unsigned long long)b); }
            case STR: return q(((arg_str*)tab[i])->sval[k]);
            case REX: return q(((arg_rex*)tab[i])->sval[k]);
            case FIL: { arg_file* f = (arg_file*)tab[i]; return q(f->filename[k]) + "|" + q(f->basename[k]) + "|" + q(f->extension[k]); }
            case DAT: return oracle::tm_str(((arg_date*)tab[i])->tmval[k]);
            default: return "";
        }
    }
    void free() { if (!tab.empty()) api->arg_freetable(tab.data(), tab.size()); tab.clear(); }
    ~Built() { free(); }
    Built() {}
    Built(const Built&) = delete;
    Built(Built&& o) : sp(o.sp), api(o.api), tab(std::move(o.tab)) { o.tab.clear(); }
};

static void* build_entry(const Entry& e, const Api* A) {
    const char *s = e.c_short(), *l = e.c_long(), *d = e.c_dt(), *g = e.c_gl();
    bool v0 = e.min == 0 && e.max == 1, v1 = e.min == 1 && e.max == 1;
    void* r = nullptr;
    switch (e.kind) {
        case LIT: r = v0 ? (void*)A->arg_lit0(s, l, g) : v1 ? (void*)A->arg_lit1(s, l, g) : (void*)A->arg_litn(s, l, e.min, e.max, g); break;
        case INT: r = v0 ? (void*)A->arg_int0(s, l, d, g) : v1 ? (void*)A->arg_int1(s, l, d, g) : (void*)A->arg_intn(s, l, d, e.min, e.max, g); break;
        case DBL: r = v0 ? (void*)A->arg_dbl0(s, l, d, g) : v1 ? (void*)A->arg_dbl1(s, l, d, g) : (void*)A->arg_dbln(s, l, d, e.min, e.max, g); break;
        case STR: r = v0 ? (void*)A->arg_str0(s, l, d, g) : v1 ? (void*)A->arg_str1(s, l, d, g) : (void*)A->arg_strn(s, l, d, e.min, e.max, g); break;
        case FIL: r = v0 ? (void*)A->arg_file0(s, l, d, g) : v1 ? (void*)A->arg_file1(s, l, d, g) : (void*)A->arg_filen(s, l, d, e.min, e.max, g); break;
        case REX: {
            const char* p = oracle::REX[e.sub].pat;
            int fl = oracle::REX[e.sub].icase ? ARG_REX_ICASE : 0;
            r = v0 ? (void*)A->arg_rex0(s, l, p, d, fl, g) : v1 ? (void*)A->arg_rex1(s, l, p, d, fl, g) : (void*)A->arg_rexn(s, l, p, d, e.min, e.max, fl, g);
            break;
        }
        case DAT: {
            const char* f = oracle::DATEFMT[e.sub];
            r = v0 ? (void*)A->arg_date0(s, l, f, d, g) : v1 ? (void*)A->arg_date1(s, l, f, d, g) : (void*)A->arg_daten(s, l, f, d, e.min, e.max, g);
            break;
        }
        default: r = A->arg_rem(d, g);
    }
    if (r && e.optval) ((arg_hdr*)r)->flag |= ARG_HASOPTVALUE;
    return r;
}
static Built build(const Spec& sp, const Api* A = API) {
    Built b;
    b.sp = &sp;
    b.api = A;
    for (auto& e : sp.e) b.tab.push_back(build_entry(e, A));
    b.tab.push_back(A->arg_end(sp.cap));
    return b;
}

// ---- errors, as a user can see them
enum EK { E_LIMIT, E_NOMATCH, E_LONG, E_MISSARG, E_SHORT, E_MIN, E_MAX, E_BAD, E_OVER, E_OTHER };
static const char* const EKNAME[] = {"too-many", "unexpected-argument", "invalid-long", "missing-value", "invalid-short", "below-minimum", "above-maximum", "bad-value", "overflow", "?"};
struct Err {
    EK k = E_OTHER;
    int parent = -1;      // entry index, -1 = the end entry
    bool has = false;
    string arg;
    int ch = 0;
    string str() const {
        string r = EKNAME[k];
        if (parent >= 0) r += fmt("@%d", parent);
        if (k == E_SHORT) r += fmt("'%c'", ch);
        if (has) r += q(arg);
        return r;
    }
};
static string errs_str(const vector<Err>& v) {
    string r = "[";
    for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + v[i].str();
    return r + "]";
}
struct Obs {
    int ret = 0;
    vector<int> count;
    vector<vector<string>> slots;
    vector<Err> errs;
    string str() const {
        string r = fmt("ret=%d ", ret);
        for (size_t i = 0; i < count.size(); i++) {
            r += fmt("#%zu:%d{", i, count[i]);
            for (size_t k = 0; k < slots[i].size(); k++) r += (k ? " " : "") + slots[i][k];
            r += "} ";
        }
        return r + errs_str(errs);
    }
};

static string ds_take(const Api* A, arg_dstr_t ds) {
    string r = A->arg_dstr_cstr(ds);
    A->arg_dstr_destroy(ds);
    return r;
}
// message of error i alone
static string err_message(const Built& b, int i, const char* prog = "P") {
    struct arg_end tmp = *b.end();
    tmp.error += i;
    tmp.parent += i;
    tmp.argval += i;
    tmp.count = 1;
    arg_dstr_t ds = b.api->arg_dstr_create();
    b.api->arg_print_errors_ds(ds, &tmp, prog);
    return ds_take(b.api, ds);
}
static Err observe_err(const Built& b, int i) {
    struct arg_end* end = b.end();
    Err e;
    void* par = end->parent[i];
    if (end->argval[i]) { e.has = true; e.arg = end->argval[i]; }
    if (par == (void*)end) {
        switch (end->error[i]) {
            case ARG_ELIMIT: e.k = E_LIMIT; break;
            case ARG_ENOMATCH: e.k = E_NOMATCH; break;
            case ARG_ELONGOPT: e.k = E_LONG; break;
            case ARG_EMISSARG: e.k = E_MISSARG; break;
            default: e.k = E_SHORT; e.ch = (unsigned char)end->error[i]; break;
        }
        return e;
    }
    e.parent = -2;
    for (size_t k = 0; k + 1 < b.tab.size(); k++)
        if (b.tab[k] == par) e.parent = (int)k;
    REQUIRE(e.parent >= 0, "error %d refers to no entry of the table (parent %p)", i, par);
    string m = err_message(b, i, "P");
    if (m.find("P: missing option ") == 0) e.k = E_MIN;
    else if (m.find("P: excess option ") == 0 || m.find("P: extraneous option ") == 0) e.k = E_MAX;
    else if (m.find("P: integer overflow ") == 0) e.k = E_OVER;
    else if (m.find("P: invalid argument ") == 0 || m.find("P: illegal ") == 0) e.k = E_BAD;
    else e.k = E_OTHER;
    return e;
}
static Obs observe(const Built& b, int ret) {
    Obs o;
    o.ret = ret;
    for (size_t i = 0; i < b.sp->e.size(); i++) {
        int* c = b.count(i);
        o.count.push_back(c ? *c : 0);
        o.slots.emplace_back();
        if (b.sp->e[i].takes_value())
            for (int k = 0; k < b.sp->e[i].emax(); k++) o.slots.back().push_back(b.slot(i, k));
    }
    struct arg_end* end = b.end();
    REQUIRE(end->count >= 0 && end->count <= (b.sp->cap < 1 ? 1 : b.sp->cap), "recorded error count %d outside 0..%d", end->count, b.sp->cap);
    for (int i = 0; i < end->count; i++) o.errs.push_back(observe_err(b, i));
    return o;
}
// a real argv whose strings are individually heap allocated (so over-reads are caught)
struct Argv {
    vector<char*> p;
    vector<string> copy;
    vector<char*> pcopy;
    explicit Argv(const vector<string>& a) {
        for (auto& s : a) { char* c = new char[s.size() + 1]; memcpy(c, s.c_str(), s.size() + 1); p.push_back(c); }
        p.push_back(nullptr);
        copy = a;
        pcopy = p;
    }
    ~Argv() { for (auto c : pcopy) delete[] c; }
    int argc() const { return (int)copy.size(); }
    void check_untouched() const {
        REQUIRE(p == pcopy, "the caller's argument vector was modified");
        for (size_t i = 0; i < copy.size(); i++) REQUIRE(copy[i] == p[i], "argument %zu was modified: now %s", i, q(p[i]).c_str());
    }
    Argv(const Argv&) = delete;
};

// ---- reference parser ---------------------------------------------------------------------
struct Unspecified {};  // command line outside the documented domain
struct Model {
    const Spec& sp;
    Obs o;
    int cap;
    vector<vector<char>> given;                     // slots the command line gave a value for
    vector<vector<struct tm>>* tms = nullptr;       // date slots before the parse (default: the recognisable defaults)
    explicit Model(const Spec& s) : sp(s), cap(s.cap < 1 ? 1 : s.cap) {
        for (auto& e : s.e) {
            o.count.push_back(0);
            o.slots.emplace_back();
            given.emplace_back((size_t)e.emax(), 0);
            if (e.takes_value())
                for (int k = 0; k < e.emax(); k++) o.slots.back().push_back(def_slot(e, k));
        }
    }
    static string def_slot(const Entry& e, int k) {
        switch (e.kind) {
            case INT: return fmt("%d", def_int(k));
            case DBL: { double d = def_dbl(k); u64 b; memcpy(&b, &d, 8); return fmt("%016llx", (unsigned long long)b); }
            case STR: case REX: return q(def_str(k));
            case FIL: return q(def_str(k)) + "|" + q(def_str(k + 1)) + "|" + q(def_str(k + 2));
            case DAT: return oracle::tm_str(def_tm(k));
            default: return "";
        }
    }
    virtual ~Model() {}
    virtual void error(EK k, int parent, const string* arg, int ch = 0) {
        Err e;
        e.k = k;
        e.parent = parent;
        if (arg) { e.has = true; e.arg = *arg; }
        e.ch = ch;
        if ((int)o.errs.size() < cap) o.errs.push_back(e);
        else { Err l; l.k = E_LIMIT; o.errs.back() = l; }
    }
    // conversion alone: 0 ok
    static bool convert(const Entry& e, const string& v, int k, string* out, EK* ek, const struct tm* pre = nullptr) {
        switch (e.kind) {
            case INT: {
                int x;
                switch (oracle::int_value(v, &x)) {
                    case oracle::I_OK: *out = fmt("%d", x); return true;
                    case oracle::I_OVERFLOW: *ek = E_OVER; return false;
                    default: *ek = E_BAD; return false;
                }
            }
            case DBL: {
                if (!oracle::dbl_grammar(v)) { *ek = E_BAD; return false; }
                double d = strtod(v.c_str(), nullptr);
                u64 b;
                memcpy(&b, &d, 8);
                *out = fmt("%016llx", (unsigned long long)b);
                return true;
            }
            case STR: *out = q(v); return true;
            case REX: if (!oracle::REX[e.sub].in(v)) { *ek = E_BAD; return false; } *out = q(v); return true;
            case FIL: *out = q(v) + "|" + q(oracle::base_name(v)) + "|" + q(oracle::extension(v)); return true;
            case DAT: {
                struct tm t = pre ? *pre : def_tm(k);
                if (!oracle::date_value(oracle::DATEFMT[e.sub] ? oracle::DATEFMT[e.sub] : "%x", v, &t)) { *ek = E_BAD; return false; }
                *out = oracle::tm_str(t);
                return true;
            }
            default: return true;
        }
    }
    // one occurrence of entry i; true if accepted
    virtual bool scan(int i, const string* v, EK* ek) {
        const Entry& e = sp.e[(size_t)i];
        int& c = o.count[(size_t)i];
        if (c >= e.emax()) { *ek = E_MAX; return false; }
        if (e.kind == LIT || !v) { c++; return true; }
        string out;
        if (!convert(e, *v, c, &out, ek, tms && e.kind == DAT ? &(*tms)[(size_t)i][(size_t)c] : nullptr)) return false;
        o.slots[(size_t)i][(size_t)c] = out;
        given[(size_t)i][(size_t)c] = 1;
        c++;
        return true;
    }
    void option(int i, const string* v) {
        EK ek = E_OTHER;
        if (!scan(i, v, &ek)) error(ek, i, v);
    }
    int short_owner(char c) const {
        for (size_t i = 0; i < sp.e.size(); i++)
            if (sp.e[i].shorts.find(c) != string::npos) return (int)i;
        return -1;
    }
    // long name lookup: >=0 entry, -1 unknown, -2 ambiguous
    int long_owner(const string& name) const {
        int cand = -1;
        bool amb = false;
        for (size_t i = 0; i < sp.e.size(); i++)
            for (auto& l : sp.e[i].longs) {
                if (l == name) return (int)i;
                if (l.compare(0, name.size(), name) == 0) {
                    if (cand >= 0 && cand != (int)i) amb = true;
                    if (cand < 0) cand = (int)i;
                }
            }
        return amb ? -2 : cand;
    }
    void run(const vector<string>& a, bool posix) {
        vector<string> operands;
        size_t i = 1;
        if (a.empty()) { minimums(); o.ret = (int)o.errs.size(); return; }
        while (i < a.size()) {
            const string& t = a[i];
            if (t.size() < 2 || t[0] != '-') {
                if (posix) break;
                operands.push_back(t);
                i++;
                continue;
            }
            if (t == "--") { i++; break; }
            if (t[1] == '-') {
                i++;
                size_t eq = t.find('=', 2);
                string name = t.substr(2, eq == string::npos ? string::npos : eq - 2);
                int w = long_owner(name);
                if (w < 0) { error(E_LONG, -1, &t); continue; }
                const Entry& e = sp.e[(size_t)w];
                if (!e.takes_value()) {
                    if (eq != string::npos) { error(E_LONG, -1, &t); continue; }
                    option(w, nullptr);
                    continue;
                }
                string v;
                if (eq != string::npos) v = t.substr(eq + 1);
                else if (e.optval) { option(w, nullptr); continue; }
                else if (i < a.size()) v = a[i++];
                else { error(E_MISSARG, -1, &t); continue; }
                if (v.empty()) error(E_MISSARG, -1, &a[i - 1]);
                option(w, &v);
                continue;
            }
            // cluster of short options
            size_t k = 1;
            bool next = false;
            while (k < t.size() && !next) {
                char c = t[k++];
                if (c == '-') throw Unspecified{};
                int w = short_owner(c);
                if (w < 0 && c >= 1 && c <= 5) throw Unspecified{};  // known finding: collides with the library's own error codes
                if (w < 0) { error(E_SHORT, -1, nullptr, (unsigned char)c); continue; }
                const Entry& e = sp.e[(size_t)w];
                if (!e.takes_value()) { option(w, nullptr); continue; }
                next = true;
                if (k < t.size()) { string v = t.substr(k); option(w, &v); }
                else if (e.optval) option(w, nullptr);
                else if (i + 1 < a.size()) { i++; option(w, &a[i]); }
                else error(E_MISSARG, -1, &t);
            }
            i++;
        }
        for (; i < a.size(); i++) operands.push_back(a[i]);
        positionals(operands);
        if (o.errs.empty()) minimums();
        o.ret = (int)o.errs.size();
    }
    void positionals(const vector<string>& ops) {
        vector<int> pos;
        for (size_t i = 0; i < sp.e.size(); i++)
            if (!sp.e[i].tagged() && sp.e[i].kind != REM) pos.push_back((int)i);
        size_t k = 0, t = 0;
        EK last = E_OTHER;
        int lastp = -1;
        bool pending = false;
        while (k < ops.size() && t < pos.size()) {
            EK ek = E_OTHER;
            if (scan(pos[t], &ops[k], &ek)) { k++; pending = false; }
            else { last = ek; lastp = pos[t]; pending = true; t++; }
        }
        if (k >= ops.size()) return;
        if (pending) { error(last, lastp, &ops[k]); k++; }
        for (; k < ops.size(); k++) error(E_NOMATCH, -1, &ops[k]);
    }
    virtual void minimums() {
        for (size_t i = 0; i < sp.e.size(); i++)
            if (sp.e[i].kind != REM && o.count[i] < sp.e[i].min) error(E_MIN, (int)i, nullptr);
    }
};

// ---- generators ---------------------------------------------------------------------------
static const vector<string> LONGPOOL = {"alpha", "al", "alphabet", "all", "beta", "be", "bet", "gamma", "x", "xy", "xyz", "verbose", "ver", "version", "help", "no-color", "no", "with.dot", "UPPER", "a", "b", "ab", "aab", "9lives"};
static const char LETTERS[] = "abcdefgvxyzABZW0159@#%_+~,./hijklmnopqrstuwCDEFGHIJKLMNOPQRSTUVXY234678!\"$&'()*<>[\\]^`{|}";

static string gen_name(Src& s) {
    if (s.chance(3, 4)) return s.pick(LONGPOOL);
    string r;
    if (s.chance(1, 10)) {  // long names that differ late
        r = string((size_t)s.tail(s.chance(1, 4) ? 120 : 40), "nm"[s.below(2)]);
        int k = s.range(0, 2);
        for (int i = 0; i < k; i++) r += "ab-2"[s.below(4)];
        if (!r.empty()) return r;
    }
    int n = s.range(1, 6);
    for (int i = 0; i < n; i++) r += "ab-c_"[s.below(i ? 5 : 2)];
    return r;
}
static string gen_text(Src& s, int maxlen) {
    int n = s.size(maxlen);
    string r;
    for (int i = 0; i < n; i++) {
        if (s.chance(1, 5)) r += ' ';
        else if (s.chance(1, 40)) r += "\n\t%\\\"\xe9"[s.below(6)];
        else if (s.chance(1, 60)) r += s.pick_s({"%%", "%s", "%d", "%n", "\\n", "\r\n", "--", "''", "\n\n", "\t\t", "%1$s", "%"});
        else r += (char)('a' + s.below(26));
    }
    return r;
}
struct TableOpt {
    bool unique_tags = false;   // no two entries share a letter or a long name
    int max_entries = 7;
    bool rem = true;
    bool positional_lit = true;
    int maxcount = 4;
    bool tails = true;          // now and then unusually large limits, tables and texts
};
static Entry gen_entry(Src& s, const TableOpt& to, bool tagged, std::set<char>& used, std::set<string>& usedl) {
    Entry e;
    e.kind = (Kind)s.weighted({5, 5, 3, 5, 2, 2, 2});
    if (!tagged && e.kind == LIT && !(to.positional_lit && s.chance(1, 10))) e.kind = STR;
    if (e.kind == REX) e.sub = (int)s.below(oracle::NREX);
    if (e.kind == DAT) e.sub = (int)s.below(oracle::NDATE);
    if (tagged) {
        int form = (int)s.weighted({4, 3, 3});  // short, long, both
        if (form != 1) {
            int n = s.chance(1, 4) ? s.range(2, 3) : 1;
            if (to.tails && s.chance(1, 24)) n = 1 + s.tail(30);
            for (int i = 0; i < n; i++) {
                char c = LETTERS[s.below(s.chance(1, 4) ? sizeof LETTERS - 1 : 13)];
                if (e.shorts.find(c) != string::npos) continue;
                if (to.unique_tags && !used.insert(c).second) continue;
                e.shorts += c;
            }
        }
        if (form != 0 || e.shorts.empty()) {
            int n = s.chance(1, 4) ? s.range(2, 3) : 1;
            if (to.tails && s.chance(1, 24)) n = 1 + s.tail(24);
            for (int i = 0; i < n; i++) {
                string l = gen_name(s);
                if (to.unique_tags && !usedl.insert(l).second) continue;
                e.longs.push_back(l);
            }
        }
        if (e.shorts.empty() && e.longs.empty()) {
            string l = fmt("opt%u", (unsigned)usedl.size());
            usedl.insert(l);
            e.longs.push_back(l);
        }
        if (e.takes_value() && s.chance(1, 4)) e.optval = true;
    }
    switch (s.below(5)) {
        case 0: e.min = 0; e.max = 1; break;
        case 1: e.min = 1; e.max = 1; break;
        case 2: e.min = 0; e.max = s.range(0, to.maxcount); break;
        case 3: e.min = s.range(0, 2); e.max = e.min + s.range(0, to.maxcount); break;
        default: e.min = s.range(0, 2); e.max = s.range(0, to.maxcount); break;
    }
    if (to.tails && s.chance(1, 16)) {
        e.min = s.chance(1, 3) ? s.tail(s.chance(1, 4) ? 40 : 10) : s.range(0, 1);
        e.max = s.coin() ? e.min : e.min + s.tail(s.chance(1, 4) ? 300 : 20);
    }
    if (e.kind != LIT && s.chance(1, 3)) { e.has_dt = true; e.dt = s.pick_s({"N", "<n>", "FILE", "x|y", "KEY=VAL", "", "a b"}); if (to.tails && s.chance(1, 16)) e.dt = string((size_t)s.tail(120), 'D'); }
    if (s.chance(2, 3)) { e.has_gl = true; e.gl = gen_text(s, to.tails && s.chance(1, 16) ? 300 : 30); }
    e.finish();
    return e;
}
static Spec gen_table(Src& s, const TableOpt& to = TableOpt()) {
    Spec sp;
    std::set<char> used;
    std::set<string> usedl;
    int n = s.range(0, to.max_entries);
    if (to.tails && s.chance(1, 250)) n = s.tail(140);
    for (int i = 0; i < n; i++) {
        if (to.rem && s.chance(1, 15)) {
            Entry e;
            e.kind = REM;
            if (s.coin()) { e.has_dt = true; e.dt = s.pick_s({"DEST", "a|b"}); }
            if (s.coin()) { e.has_gl = true; e.gl = gen_text(s, 20); }
            e.finish();
            sp.e.push_back(e);
            continue;
        }
        sp.e.push_back(gen_entry(s, to, !s.chance(1, 4), used, usedl));
    }
    sp.cap = s.chance(1, 4) ? s.range(1, 4) : 20;
    if (to.tails && s.chance(1, 16)) sp.cap = 1 + s.tail(300);
    return sp;
}
static string gen_good_value(Src& s, const Entry& e) {
    switch (e.kind) {
        case INT: {
            static const char* v[] = {"0", "7", "-5", "+12", "0x1F", "0o17", "0b101", "2KB", "1mb", "-0X10", "2147483647", "-2147483648", "1GB", "  42", "13 "};
            return s.chance(1, 3) ? fmt("%d", (int)s.below(0xffffffffu)) : string(v[s.below(15)]);
        }
        case DBL: { static const char* v[] = {"0", "1.5", "-2e3", ".5", "5.", "1e-300", "0x1.8p3", "inf", "-3", "+.25"}; return v[s.below(10)]; }
        case STR: case LIT: { static const char* v[] = {"s", "hello world", "x=y", "-5", "a", "--", "-", "quite a long string value for an option", "\xc3\xa9", "5"}; return v[s.below(10)]; }
        case REX: return oracle::REX[e.sub].good[s.below(4)];
        case FIL: { static const char* v[] = {"f", "a.txt", "/x/y.tar.gz", "../.bashrc", "dir/", "..", "a.", "./.a.b"}; return v[s.below(8)]; }
        case DAT:
            switch (e.sub) {
                case 0: return fmt("%04d-%02d-%02d", s.range(1970, 2037), s.range(1, 12), s.range(1, 28));
                case 1: return fmt("%02d:%02d", s.range(0, 23), s.range(0, 59));
                case 2: return fmt("%02d/%02d/%02d", s.range(1, 12), s.range(1, 28), s.range(0, 99));
                case 3: return fmt("%d %s %d", s.range(1, 28), string(oracle::MONS[s.below(12)]).substr(0, s.coin() ? 3 : 20).c_str(), s.range(1000, 9999));
                case 5: return fmt("%02d:%02d:%02d", s.range(0, 23), s.range(0, 59), s.range(0, 61));
                case 6: return fmt("%02d/%02d/%02d %02d:%02d", s.range(1, 12), s.range(1, 31), s.range(0, 99), s.range(0, 23), s.range(0, 59));
                case 7: return fmt("%s %d, %d", string(oracle::MONS[s.below(12)]).substr(0, s.coin() ? 3 : 20).c_str(), s.range(1, 31), s.range(1000, 9999));
                case 8: return fmt("%04d/%03d", s.range(1, 9999), s.range(1, 366));
                case 9: return fmt("%s %02d", string(oracle::DAYS[s.below(7)]).substr(0, s.coin() ? 3 : 20).c_str(), s.range(0, 99));
                default: return fmt("%d:%02d %s", s.range(1, 12), s.range(0, 59), s.coin() ? "pm" : "AM");
            }
        default: return "v";
    }
}
static string gen_any_value(Src& s, const Entry& e) {
    switch (s.weighted({6, 2, 1, 1})) {
        case 0: return gen_good_value(s, e);
        case 1: { static const char* v[] = {"", "x", "-", "--", "-1", "12a", "0x", "99999999999", "1.5.2", "2020-13-01", "=", "a b", "-a", "--alpha", "1e", "8GB", "abC", "hellobye"}; return v[s.below(18)]; }
        case 2: { string v = gen_good_value(s, e); if (!v.empty()) v[s.below((u32)v.size())] = "a0-:. Z"[s.below(7)]; return v; }
        default:
            if (s.chance(1, 8)) { string v = gen_text(s, 12); return v + string((size_t)s.tail(600), "v=- 0"[s.below(5)]) + v; }
            return gen_text(s, 12);
    }
}
// tokens of one command line: mostly meaningful for the table
static vector<string> gen_argv(Src& s, const Spec& sp, int maxtok) {
    vector<string> a{"prog"};
    vector<int> tagged, pos;
    for (size_t i = 0; i < sp.e.size(); i++) {
        if (sp.e[i].tagged()) tagged.push_back((int)i);
        else if (sp.e[i].kind != REM) pos.push_back((int)i);
    }
    int n = s.size(maxtok);
    int burst = s.chance(1, 12) ? 1 + (int)s.below((u32)n + 1) : 0;  // this group of tokens is repeated
    for (int i = 0; i < n; i++) {
        if (i + 1 == burst) {
            size_t from = a.size() > 2 ? a.size() - 1 - s.below(2) : 1;
            vector<string> g(a.begin() + (long)from, a.end());
            int k = s.tail(s.chance(1, 4) ? 80 : 12);
            for (int j = 0; j < k; j++) a.insert(a.end(), g.begin(), g.end());
        }
        u32 w = s.weighted({10, 10, 8, 2, 1, 1});
        if ((w == 0 || w == 1) && tagged.empty()) w = 2;
        switch (w) {
            case 0: {  // short cluster
                string t = "-";
                int m = s.chance(1, 3) ? s.range(1, 4) : 1;
                bool sep = false;
                string val;
                for (int k = 0; k < m; k++) {
                    const Entry& e = sp.e[(size_t)tagged[s.below((u32)tagged.size())]];
                    if (e.shorts.empty()) continue;
                    t += e.shorts[s.below((u32)e.shorts.size())];
                    if (e.takes_value()) {
                        val = gen_any_value(s, e);
                        if (s.chance(1, 12)) break;             // value missing (or the next token)
                        if (s.coin()) t += val; else if (!e.optval || s.chance(1, 4)) sep = true;
                        break;
                    }
                    if (s.chance(1, 25)) t += LETTERS[s.below(sizeof LETTERS - 1)];
                }
                a.push_back(t);
                if (sep) a.push_back(val);
                break;
            }
            case 1: {  // long
                const Entry& e = sp.e[(size_t)tagged[s.below((u32)tagged.size())]];
                if (e.longs.empty()) { if (!e.shorts.empty()) a.push_back(string("-") + e.shorts[0]); break; }
                string l = e.longs[s.below((u32)e.longs.size())];
                if (s.chance(1, 4)) l = l.substr(0, (size_t)s.range(1, (int)l.size()));
                else if (s.chance(1, 15)) l += "abz-"[s.below(4)];
                string t = "--" + l;
                bool give = e.takes_value() ? !s.chance(1, 10) : s.chance(1, 15);
                if (give && e.optval && s.chance(1, 2)) give = false;
                if (give) {
                    string v = gen_any_value(s, e);
                    if (s.coin()) { a.push_back(t + "=" + v); }
                    else { a.push_back(t); a.push_back(v); }
                } else a.push_back(t);
                break;
            }
            case 2: {  // operand
                if (pos.empty() || s.chance(1, 12)) a.push_back(gen_text(s, 6));
                else a.push_back(gen_any_value(s, sp.e[(size_t)pos[s.below((u32)pos.size())]]));
                break;
            }
            case 3: a.push_back(s.pick_s({"--", "-", "", "-5", "--x", "--=", "---", "-z", "--alp", "--be=3", "--no", "-@"})); break;
            case 4: { string t = "-"; int m = s.range(1, 5); for (int k = 0; k < m; k++) t += LETTERS[s.below(sizeof LETTERS - 1)]; a.push_back(t); break; }
            default: a.push_back("--" + gen_name(s) + (s.coin() ? "=" + gen_text(s, 4) : "")); break;
        }
    }
    return a;
}
static const char* g_posix_value = "1";    // being set is what matters, not to what
static void set_posix(bool on) {
    if (on) setenv("POSIXLY_CORRECT", g_posix_value, 1);
    else unsetenv("POSIXLY_CORRECT");
}
static void compare_obs(const Obs& want, const Obs& got, const string& ctx) {
    if (want.str() == got.str()) return;
    fail("parse result differs\n  " + ctx + "\n  expected " + want.str() + "\n  observed " + got.str());
}
