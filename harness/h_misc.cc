// C07, C08, C24, C25: descriptor codes, conversions, options and errors, string helpers
#include "common.h"
#include <wreport/codetables.h>
#include <wreport/conv.h>
#include <wreport/notes.h>
#include <wreport/options.h>
#include <wreport/utils/string.h>
#include <climits>
#include <sstream>
#include <regex.h>
#include <cmath>

// ---- C07
HARNESS("C07", type_names, nullptr)
{
    static const char* names[] = { "string", "decimal", "integer", "binary" };
    static const Vartype types[] = { Vartype::String, Vartype::Decimal, Vartype::Integer, Vartype::Binary };
    for (unsigned i = 0; i < 4; ++i) ASSERTL(!strcmp(vartype_format(types[i]), names[i]) && vartype_parse(names[i]) == types[i], "names of types");
    unsigned n = vs_concretize(vs_u("n", 0, vs_thorough() ? 9 : 8, 6));
    std::string s = std::string("integerxx").substr(0, n);
    vs_bytes(&s[0], n, "s");
    for (unsigned i = 0; i < n; ++i) vs_assume(s[i] != 0);
    int want = -1;
    for (unsigned k = 0; k < 4; ++k)
    {
        if (strlen(names[k]) != n) continue;
        bool same = true;
        for (unsigned i = 0; i < n; ++i) same &= s[i] == names[k][i];
        if (same) want = k;
    }
    Vartype got = Vartype::String; bool threw = false;
    try { got = vartype_parse(s.c_str()); } catch (error_consistency&) { threw = true; }
    ASSERTL(threw == (want < 0), "only the names of types are accepted");
    if (threw) vs_reach("refused"); else { ASSERTL(got == types[want], "the type named"); vs_reach("accepted"); }
}
HARNESS("C07", code_format, nullptr)
{
    unsigned c = vs_u("code", 0, 65535, WR_VAR(0, 12, 101));
    unsigned f = c >> 14, x = (c >> 8) & 63, y = c & 255;
    ASSERT(WR_VAR_F(c) == f && WR_VAR_X(c) == x && WR_VAR_Y(c) == y);
    std::string s = varcode_format((Varcode)c);
    ASSERT(s.size() == 6);
    ASSERT(s[0] == "BRCD"[f]);
    ASSERT(s[1] == '0' + x / 10 && s[2] == '0' + x % 10);
    ASSERT(s[3] == '0' + y / 100 && s[4] == '0' + y / 10 % 10 && s[5] == '0' + y % 10);
    vs_reach("end");
}
HARNESS("C07", code_roundtrip, nullptr)
{
    unsigned f = vs_concretize(vs_u("f", 0, 3, 0)), x = vs_u("x", 0, 63, 12), y = vs_u("y", 0, 255, 101);
    Varcode c = WR_VAR(f, x, y);
    char b[7] = {"BRCD"[f], (char)('0' + x / 10), (char)('0' + x % 10), (char)('0' + y / 100), (char)('0' + y / 10 % 10), (char)('0' + y % 10), 0};
    ASSERT(varcode_parse(b) == c);
    b[0] = '0' + f;
    ASSERT(varcode_parse(b) == c);
    vs_reach("end");
}
HARNESS("C07", code_parse, nullptr)
{
    unsigned n = vs_concretize(vs_u("n", 0, 7, 6));
    char* b = new char[n + 1];
    memcpy(b, "B12101x", n); b[n] = 0;
    vs_bytes(b, n, "txt");
    unsigned len = 0; while (b[len]) ++len;
    bool ok = len >= 6 && strchr("BRCD0123", b[0]);
    for (unsigned i = 1; ok && i < 6; ++i) ok = b[i] >= '0' && b[i] <= '9';
    bool threw = false; Varcode c = 0;
    try { c = varcode_parse(b); } catch (error_consistency&) { threw = true; }
    ASSERT(threw == !ok);
    if (ok)
    {
        unsigned x = (b[1] - '0') * 10 + b[2] - '0', y = (b[3] - '0') * 100 + (b[4] - '0') * 10 + b[5] - '0';
        if (x < 64 && y < 256)
        {
            unsigned f = 0; for (unsigned i = 0; i < 4; ++i) if (b[0] == "BRCD"[i] || b[0] == "0123"[i]) f = i;
            ASSERT(c == WR_VAR(f, x, y));
            vs_reach("parsed");
        }
    } else vs_reach("rejected");
    delete[] b;
}
HARNESS("C07", code_null, nullptr)
{
    unsigned k = vs_concretize(vs_u("k", 0, 1, 0));
    bool threw = false;
    try { varcode_parse(k ? nullptr : ""); } catch (error_consistency&) { threw = true; }
    ASSERT(threw);
    vs_reach("end");
}

// ---- C08
struct U { const char* a; const char* b; double mul, add, tol; };
// independent statement of the supported pairs: b = a * mul + add
static const U units[] = {
    {"K", "C", 1, -273.15, 1e-4}, {"K", "C/10", 10, -2731.5, 1e-3}, {"C", "C/10", 10, 0, 1e-9},
    {"minuti", "S", 60, 0, 1e-9}, {"MINUTE", "S", 60, 0, 1e-9}, {"G/M**3", "KG/M**3", 1e-3, 0, 1e-9}, {"ug/m**3", "KG/M**3", 1e-9, 0, 1e-9}, {"mg/l", "KG/M**3", 1e-3, 0, 1e-9},
    {"PA", "KPA", 1e-3, 0, 1e-9}, {"M", "MM", 1e3, 0, 1e-9}, {"M", "cm", 100, 0, 1e-9}, {"M", "KM", 1e-3, 0, 1e-9}, {"%", "PERCENT", 1, 0, 1e-9}, {"FT", "M", 0.3048, 0, 2e-5},
    {"cal/cm**2", "J/M**2", 41868, 0, 3e-5}, {"J/M**2", "MJ/M**2", 1e-6, 0, 1e-9}, {"m/s/10", "M/S", 0.1, 0, 1e-9}, {"nodi", "M/S", 0.514444, 0, 2e-5},
    {"PA", "mBar", 0.01, 0, 1e-9}, {"PA", "hPa", 0.01, 0, 1e-9}, {"PA", "Bar", 1e-5, 0, 1e-9}, {"NBAR", "PA", 1e-4, 0, 1e-9}, {"hm", "M", 100, 0, 1e-9}, {"mm", "M", 1e-3, 0, 1e-9},
    {"mV", "V", 1e-3, 0, 1e-9}, {"1/8", "%", 12.5, 0, 1e-9}, {"mm/10", "KG/M**2", 0.1, 0, 1e-9}, {"GPM", "m**2/s**2", 9.80665, 0, 1e-6}, {"GPM", "M**2/S**2", 9.80665, 0, 1e-6},
    {"MGP", "m**2/s**2", 9.80665, 0, 1e-6}, {"MGP", "M**2/S**2", 9.80665, 0, 1e-6}, {"cal/s/cm**2", "W/M**2", 41868, 0, 3e-5}, {"cal/h/cm**2", "W/M**2", 11.63, 0, 1e-9}, {"Mj/m**2", "J/M**2", 1e6, 0, 1e-9},
    {"RATIO", "%", 100, 0, 1e-9}, {"ms/cm", "S/M", 0.1, 0, 1e-9}, {"mS/cm", "S/M", 0.1, 0, 1e-9},
    {"A", "YEAR", 1, 0, 0}, {"YEARS", "YEAR", 1, 0, 0}, {"MON", "MONTH", 1, 0, 0}, {"MONTHS", "MONTH", 1, 0, 0}, {"D", "DAY", 1, 0, 0}, {"DAYS", "DAY", 1, 0, 0}, {"H", "HOUR", 1, 0, 0}, {"HOURS", "HOUR", 1, 0, 0},
    {"MIN", "MINUTE", 1, 0, 0}, {"MINUTES", "MINUTE", 1, 0, 0}, {"SECONDS", "SECOND", 1, 0, 0}, {"SECOND", "S", 1, 0, 0}, {"sec", "S", 1, 0, 0}, {"G/G", "KG/KG", 1, 0, 0}, {"m**(2/3)/S", "M**(2/3)/S", 1, 0, 0},
    {"DEGREE**2", "DEGREE2", 1, 0, 0}, {"KG/M**2", "KGM-2", 1, 0, 0}, {"KG/M**2", "KG M-2", 1, 0, 0}, {"J/M**2", "JM-2", 1, 0, 0}, {"Bq/L", "BQ L-1", 1, 0, 0}, {"DOBSON", "DU", 1, 0, 0}, {"LOG(1/M**2)", "LOG (M-2)", 1, 0, 0},
    {"DEGREE", "DEG", 1, 0, 0}, {"DEGREE TRUE", "DEG", 1, 0, 0}, {"DEGREE TRUE", "gsess", 1, 0, 0}, {"m/sec", "M/S", 1, 0, 0}, {"m", "M", 1, 0, 0}, {"mm", "KG/M**2", 1, 0, 0}, {"degree true", "DEGREE TRUE", 1, 0, 0},
    {"GPM", "MGP", 1, 0, 0}, {"W/m**2", "W/M**2", 1, 0, 0}, {"J M-2", "J/M**2", 1, 0, 0}, {"ppt", "PART PER THOUSAND", 1, 0, 0}, {"NTU", "LM", 1, 0, 0},
};
static const unsigned NU = sizeof(units) / sizeof(units[0]);
HARNESS("C08", units_linear, nullptr)
{
    unsigned k = vs_concretize(vs_u("pair", 0, NU - 1, 0)), dir = vs_concretize(vs_u("dir", 0, 1, 0));
    const U& u = units[k];
    double d;
    if (u.tol == 0) { d = 1; vs_f64(&d, "d"); vs_assume(d == d); double r = dir ? convert_units(u.b, u.a, d) : convert_units(u.a, u.b, d); ASSERT(r == d); vs_reach("ident"); return; }
    // largest magnitude of the source value
    int top = vs_thorough() ? 100000 : 1000;
    d = vs_i("v", -top, top, 20);
    double want = dir ? (d - u.add) / u.mul : d * u.mul + u.add;
    double r = dir ? convert_units(u.b, u.a, d) : convert_units(u.a, u.b, d);
    double slack = u.add != 0 ? u.tol : u.tol * top * (dir ? 1 / u.mul : u.mul);
    double e = r - want;
    ASSERT(e <= slack); ASSERT(e >= -slack);
    // and back
    double back = dir ? convert_units(u.a, u.b, r) : convert_units(u.b, u.a, r);
    slack = u.add != 0 ? 1e-6 : 5e-5 * top;
    e = back - d;
    ASSERT(e <= slack); ASSERT(e >= -slack);
    vs_reach("linear");
}
HARNESS("C08", units_same, nullptr)
{
    char u[4] = "KPA"; vs_bytes(u, 3, "unit");
    char v[4]; memcpy(v, u, 4);
    double d = 1; vs_f64(&d, "d"); vs_assume(d == d);
    ASSERT(convert_units(u, v, d) == d);
    vs_reach("end");
}
HARNESS("C08", units_unknown, nullptr)
{
    // a unit nobody knows: no conversion from or to it
    char u[4] = "~zz"; vs_bytes(u + 1, 2, "unit");
    unsigned k = vs_concretize(vs_u("k", 0, 2, 0)), dir = vs_concretize(vs_u("dir", 0, 1, 0));
    const char* other = k == 0 ? "K" : k == 1 ? "M" : "%";
    bool threw = false;
    try { if (dir) convert_units(other, u, 1); else convert_units(u, other, 1); } catch (error_unimplemented&) { threw = true; }
    ASSERT(threw);
    vs_reach("end");
}
// a pair of known units with no conversion between them
HARNESS("C08", units_pairs, nullptr)
{
    unsigned i = vs_concretize(vs_u("i", 0, NU - 1, 0)), j = vs_concretize(vs_u("j", 0, NU - 1, 0));
    const char *a = units[i].a, *b = units[j].b;
    bool supported = !strcmp(a, b);
    for (unsigned k = 0; k < NU; ++k) if ((!strcmp(units[k].a, a) && !strcmp(units[k].b, b)) || (!strcmp(units[k].a, b) && !strcmp(units[k].b, a))) supported = true;
    bool threw = false;
    try { convert_units(a, b, 1); } catch (error_unimplemented&) { threw = true; }
    if (!supported) ASSERT(threw); else ASSERT(!threw);
    vs_reach(supported ? "supported" : "unsupported");
}
HARNESS("C08", octants, nullptr)
{
    if (vs_concretize(vs_u("dir", 0, 1, 0)))
    {
        int o = vs_i("o", INT_MIN, INT_MAX, 3);
        bool threw = false; double d = 0;
        try { d = convert_octants_to_degrees(o); } catch (error_domain&) { threw = true; }
        ASSERT(threw == (o < 0 || o > 8));
        if (!threw) { ASSERT(d == o * 45.0); ASSERT(convert_degrees_to_octants(d) == o); ASSERT(convert_units("octants", "DEGREE TRUE", o) == d); vs_reach("octant"); }
    } else {
        double d = 100; vs_f64(&d, "d"); vs_assume(d == d);
        bool threw = false; int o = 0;
        try { o = convert_degrees_to_octants(d); } catch (error_domain&) { threw = true; }
        ASSERT(threw == (d < 0 || d > 360));
        if (!threw)
        {
            ASSERT(o >= 0 && o <= 8);
            ASSERT((o == 0) == (d == 0));
            // never more than 22.5 degrees away
            if (o > 0 && o < 8) ASSERT(d - o * 45.0 <= 22.5 && o * 45.0 - d <= 22.5);
            if (o == 8) ASSERT(d >= 337.5 || d <= 22.5);
            vs_reach("degrees");
        }
    }
}
typedef int (*conv_fn)(int);
struct CT { conv_fn fwd, bwd; int base, slash; };
HARNESS("C08", cloud_codes, nullptr)
{
    static const CT t[] = {{convert_WMO0500_to_BUFR20012, convert_BUFR20012_to_WMO0500, 0, 59}, {convert_WMO0509_to_BUFR20012, convert_BUFR20012_to_WMO0509, 10, 60},
        {convert_WMO0515_to_BUFR20012, convert_BUFR20012_to_WMO0515, 20, 61}, {convert_WMO0513_to_BUFR20012, convert_BUFR20012_to_WMO0513, 30, 62}};
    const CT& c = t[vs_concretize(vs_u("table", 0, 3, 0))];
    int v = vs_i("v", INT_MIN, INT_MAX, 3);
    bool threw = false; int r = 0;
    if (vs_concretize(vs_u("dir", 0, 1, 0)))
    {
        try { r = c.fwd(v); } catch (error_domain&) { threw = true; }
        ASSERT(threw == (v < -1 || v > 9));
        if (!threw) { ASSERT(r == (v == -1 ? c.slash : v + c.base)); ASSERT(c.bwd(r) == v); vs_reach("to"); }
    } else {
        try { r = c.bwd(v); } catch (error_domain&) { threw = true; }
        ASSERT(threw == !(v == c.slash || (v >= c.base && v <= c.base + 9)));
        if (!threw) { ASSERT(c.fwd(r) == v); vs_reach("from"); }
    }
}
HARNESS("C08", weather_codes, nullptr)
{
    static const CT t[] = {{convert_WMO4677_to_BUFR20003, convert_BUFR20003_to_WMO4677, 99, 0}, {convert_WMO4561_to_BUFR20004, convert_BUFR20004_to_WMO4561, 9, 0}};
    const CT& c = t[vs_concretize(vs_u("table", 0, 1, 0))];
    conv_fn f = vs_concretize(vs_u("dir", 0, 1, 0)) ? c.fwd : c.bwd;
    int v = vs_i("v", INT_MIN, INT_MAX, 3);
    bool threw = false; int r = 0;
    try { r = f(v); } catch (error_domain&) { threw = true; }
    ASSERT(threw == (v > c.base));
    if (!threw) { ASSERT(r == v); vs_reach("same"); }
}
HARNESS("C08", level_codes, nullptr)
{
    unsigned v = vs_u("v", 0, 127, 4);
    unsigned r = convert_BUFR08001_to_BUFR08042(v);
    if (v & 1) ASSERT(r == 0x3ffff);
    else
    {
        ASSERT(r < 0x40000 && !(r & 1));
        ASSERT(((r >> 17) & 1) == ((v >> 6) & 1));
        ASSERT(((r >> 16) & 1) == ((v >> 5) & 1));
        ASSERT(((r >> 15) & 1) == ((v >> 4) & 1));
        ASSERT(((r >> 14) & 1) == ((v >> 3) & 1));
        ASSERT(((r >> 13) & 1) == ((v >> 2) & 1) && ((r >> 12) & 1) == ((v >> 2) & 1));
        ASSERT(((r >> 11) & 1) == ((v >> 1) & 1));
        ASSERT((r & 0x7ff) == 0);
    }
    ASSERT(convert_BUFR08042_to_BUFR08001(r) == (v & 1 ? 127u : v));
    unsigned w = vs_u("w", 0, 0x3ffff, 0x800);
    unsigned q = convert_BUFR08042_to_BUFR08001(w);
    if (w & 1) ASSERT(q == 127);
    else
    {
        unsigned want = ((w >> 17) & 1) << 6 | ((w >> 16) & 1) << 5 | ((w >> 15) & 1) << 4 | ((w >> 14) & 1) << 3 | (((w >> 13) | (w >> 12)) & 1) << 2 | ((w >> 11) & 1) << 1;
        ASSERT(q == want);
    }
    unsigned a = vs_u("a", 0, 511, 8);
    unsigned z = convert_AOFVSS_to_BUFR08042(a);
    unsigned want = ((a & 1) ? BUFR08042::MAXWIND : 0) | ((a & 2) ? BUFR08042::TROPO : 0) | ((a & (8 | 32)) ? BUFR08042::STD : 0) | ((a & 64) ? BUFR08042::SURFACE : 0) | ((a & 128) ? BUFR08042::SIGWIND : 0) | ((a & 256) ? BUFR08042::SIGTEMP : 0);
    ASSERT(z == want);
    vs_reach("end");
}

// ---- C24
static int opt_int = 0;
static void nest(unsigned depth, unsigned maxd, unsigned boom, const int* vals)
{
    if (depth == maxd) { if (boom) throw error_domain("boom"); return; }
    int before = opt_int; bool b1 = options::var_silent_domain_errors, b2 = options::var_clamp_domain_errors;
    struct Back { int before; bool b1, b2; ~Back() { ASSERT(opt_int == before); ASSERT(options::var_silent_domain_errors == b1); ASSERT(options::var_clamp_domain_errors == b2); } };
    try {
        auto o = options::local_override(opt_int, vals[depth]);
        auto o1 = options::local_override(options::var_silent_domain_errors, (vals[depth] & 1) != 0);
        auto o2 = options::local_override(options::var_clamp_domain_errors, (vals[depth] & 2) != 0);
        ASSERT(opt_int == vals[depth]);
        ASSERT(options::var_silent_domain_errors == ((vals[depth] & 1) != 0));
        ASSERT(options::var_clamp_domain_errors == ((vals[depth] & 2) != 0));
        nest(depth + 1, maxd, boom, vals);
        ASSERT(opt_int == vals[depth]);
        ASSERT(options::var_silent_domain_errors == ((vals[depth] & 1) != 0));
        if (boom == 2 + depth) throw error_type("after");
    } catch (error&) {
        ASSERT(opt_int == before && options::var_silent_domain_errors == b1 && options::var_clamp_domain_errors == b2);
        if (depth == 0) return;
        throw;
    }
    ASSERT(opt_int == before && options::var_silent_domain_errors == b1 && options::var_clamp_domain_errors == b2);
}
HARNESS("C24", override_nest, nullptr)
{
    int vals[4];
    for (unsigned i = 0; i < 4; ++i) { char nm[4] = "v0"; nm[1] += i; vals[i] = vs_i(nm, INT_MIN, INT_MAX, i + 1); }
    opt_int = vs_i("start", INT_MIN, INT_MAX, 77);
    int s = opt_int;
    nest(0, vs_concretize(vs_u("depth", 1, 4, 2)), vs_concretize(vs_u("boom", 0, 5, 0)), vals);
    ASSERT(opt_int == s);
    vs_reach("end");
}
// Notes go to the stream of the innermost scope, and back to the previous one after it
static unsigned note_no;
static std::string note() { return "note " + std::to_string(++note_no) + "."; }
static void send(bool formatted, const std::string& n) { if (formatted) notes::logf("%s", n.c_str()); else notes::log() << n; }
static std::string collect(unsigned depth, unsigned shape, unsigned boom, bool& threw)
{
    std::ostringstream out;
    std::string want, inner;
    try
    {
        notes::Collect c(out);
        ASSERTL(notes::logs() && notes::get_target() == &out, "notes are collected");
        std::string n = note(); send(shape & 1, n); want += n;
        if (depth < 3 && (shape >> 1 & 1 << depth))
        {
            bool t = false;
            collect(depth + 1, shape, boom, t);
            ASSERTL(notes::get_target() == &out, "the previous target is back");
            threw |= t;
        }
        n = note(); send(!(shape & 1), n); want += n;
        if (boom == depth + 1) throw error_type("boom");
        n = note(); send(shape & 1, n); want += n;
    } catch (error_type&) { threw = true; }
    ASSERTL(out.str() == want, "the notes of this scope and no others");
    return want;
}
HARNESS("C24", notes_nest, nullptr)
{
    std::ostringstream outer;
    bool set = vs_concretize(vs_u("outer", 0, 1, 1));
    note_no = 0;
    if (set) notes::set_target(outer); else ASSERT(!notes::logs());
    unsigned shape = vs_concretize(vs_u("shape", 0, 15, 3)), boom = vs_concretize(vs_u("boom", 0, 4, 0));
    bool threw = false;
    send(shape & 1, "before.");
    collect(0, shape, boom, threw);
    send(shape & 1, "after.");
    if (set) { ASSERTL(notes::get_target() == &outer && outer.str() == "before.after.", "the first target is back"); }
    else ASSERTL(!notes::logs(), "notes are discarded again");
    vs_reach(threw ? "thrown" : "end");
}
struct NullHook : options::DomainErrorHook { int n = 0; void handle_domain_error_int(Var&, int32_t) override { ++n; } void handle_domain_error_double(Var&, double) override { ++n; } };
HARNESS("C24", override_effect, nullptr)
{
    _Varinfo info; info.set_bufr(WR_VAR(0, 1, 1), "n", "NUMERIC", 0, 3, 0, 7);
    NullHook hook; Var var(&info, 1);
    int v = vs_i("v", 127, INT_MAX, 200);
    unsigned mode = vs_concretize(vs_u("mode", 0, 2, 0));
    {
        auto o0 = options::local_override(options::var_silent_domain_errors, mode == 0);
        auto o1 = options::local_override(options::var_clamp_domain_errors, mode == 1);
        auto o2 = options::local_override(options::var_hook_domain_errors, mode == 2 ? (options::DomainErrorHook*)&hook : nullptr);
        var.seti(v);
        if (mode == 0) ASSERT(!var.isset());
        if (mode == 1) ASSERT(var.enqi() == 126);
        if (mode == 2) ASSERT(hook.n == 1);
    }
    bool threw = false;
    try { var.seti(v); } catch (error_domain&) { threw = true; }
    ASSERT(threw);
    vs_reach("end");
}
template<typename E> static void err_case(ErrorCode code, const char* txt, int num)
{
    char ref[64]; unsigned n = 0;
    for (const char* p = txt; *p; ++p) ref[n++] = *p;
    ref[n++] = ':'; ref[n++] = '0' + num; ref[n] = 0;
    bool got = false;
    try { E::throwf("%s:%d", txt, num); }
    catch (error& e) { got = true; ASSERT(e.code() == code); ASSERT(!strcmp(e.what(), ref)); }
    ASSERT(got);
    got = false;
    try { throw E(std::string(txt)); } catch (E& e) { got = true; ASSERT(e.code() == code); ASSERT(!strcmp(e.what(), txt)); ASSERT(error::strerror(e.code()) && *error::strerror(e.code())); }
    ASSERT(got);
}
HARNESS("C24", error_codes, nullptr)
{
    unsigned k = vs_concretize(vs_u("class", 0, 10, 0)), n = vs_concretize(vs_u("n", 0, 3, 2));
    // formatted messages leave the encoding: the text is enumerated
    static const char alpha[] = "%ns\xff";
    char txt[4] = "";
    for (unsigned i = 0; i < n; ++i) { char nm[4] = "t0"; nm[1] += i; txt[i] = alpha[vs_concretize(vs_u(nm, 0, 3, i))]; }
    txt[n] = 0;
    int num = n;
    switch (k)
    {
        case 0: err_case<error_notfound>(WR_ERR_NOTFOUND, txt, num); break;
        case 1: err_case<error_type>(WR_ERR_TYPE, txt, num); break;
        case 2: err_case<error_handles>(WR_ERR_HANDLES, txt, num); break;
        case 3: err_case<error_toolong>(WR_ERR_TOOLONG, txt, num); break;
        case 4: err_case<error_consistency>(WR_ERR_CONSISTENCY, txt, num); break;
        case 5: err_case<error_unimplemented>(WR_ERR_UNIMPLEMENTED, txt, num); break;
        case 6: err_case<error_domain>(WR_ERR_DOMAIN, txt, num); break;
        case 7: {
            bool got = false; errno = 2;
            try { throw error_system(std::string(txt)); } catch (error& e) { got = true; ASSERT(e.code() == WR_ERR_SYSTEM); ASSERT(!strncmp(e.what(), txt, n)); ASSERT(strlen(e.what()) > n + 2); }
            ASSERT(got); break;
        }
        case 9: {
            if (!vs_thorough()) vs_assume(n < 2);
            // the error number given, whatever errno is
            int no = vs_concretize(vs_u("errno", 1, 40, 2));
            errno = no == 13 ? 2 : 13;
            bool got = false;
            try { throw error_system(std::string(txt), no); } catch (error& e) { got = true; ASSERT(e.code() == WR_ERR_SYSTEM); ASSERT(std::string(e.what()) == std::string(txt) + ": " + strerror(no)); }
            ASSERT(got);
            errno = no; got = false;
            try { error_system::throwf("%s", txt); } catch (error& e) { got = true; ASSERT(e.code() == WR_ERR_SYSTEM); ASSERT(std::string(e.what()) == std::string(txt) + ": " + strerror(no)); }
            ASSERT(got); break;
        }
        case 10: {
            regex_t re; int code = regcomp(&re, "[", REG_EXTENDED);
            char det[512]; regerror(code, &re, det, 512);
            std::string want = std::string(txt) + ": " + det;
            bool got = false;
            try { throw error_regexp(code, &re, txt); } catch (error& e) { got = true; ASSERT(e.code() == WR_ERR_REGEX); ASSERT(want == e.what()); }
            ASSERT(got); got = false;
            try { error_regexp::throwf(code, &re, "%s", txt); } catch (error& e) { got = true; ASSERT(e.code() == WR_ERR_REGEX); ASSERT(want == e.what()); }
            ASSERT(got); break;
        }
        case 8: {
            bool got = false;
            try { error_parse::throwf("file", 12, "%s", txt); } catch (error& e) { got = true; ASSERT(e.code() == WR_ERR_PARSE); ASSERT(!strncmp(e.what(), "file:12: ", 9)); ASSERT(strlen(e.what()) == 9 + n); }
            ASSERT(got); break;
        }
    }
    vs_reach("end");
}
HARNESS("C24", error_length, nullptr)
{
    // messages of any length are kept whole
    unsigned n = vs_concretize(vs_u("n", 0, 66, 10)); n = n * (vs_concretize(vs_u("m", 0, 1, 0)) ? 16 : 1);
    std::string s(n, 'x');
    if (n) s[n - 1] = 'e';
    bool got = false;
    try { error_consistency::throwf("%s!", s.c_str()); } catch (error_consistency& e) { got = true; ASSERT(std::string(e.what()) == s + "!"); }
    ASSERT(got);
    vs_reach("end");
}

// ---- C25
static std::string any_bytes(unsigned maxlen, bool nul = true)
{
    unsigned n = vs_concretize(vs_u("n", 0, maxlen, maxlen > 2 ? 2 : maxlen));
    std::string s = std::string("a b/c%d\\").substr(0, n);
    char* b = new char[n + 1]; memcpy(b, s.data(), n);
    vs_bytes(b, n, "s");
    if (!nul) for (unsigned i = 0; i < n; ++i) vs_assume(b[i] != 0);
    s.assign(b, n);
    delete[] b;
    return s;
}
static bool eq(const std::string& a, const std::string& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
HARNESS("C25", url_roundtrip, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 3 : 2);
    std::string e = str::encode_url(s);
    for (char c : e) ASSERT((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("-_!*'()%", c)));
    ASSERT(eq(str::decode_url(e), s));
    vs_reach("end");
}
HARNESS("C25", url_decode, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 4 : 3);
    std::string d = str::decode_url(s);
    ASSERT(d.size() <= s.size());
    // everything before the first escape is kept
    for (unsigned i = 0; i < s.size() && s[i] != '%'; ++i) ASSERT(d[i] == s[i]);
    if (s.size() == 1 && s[0] == '%') ASSERT(d.empty());
    vs_reach("end");
}
HARNESS("C25", cstring_roundtrip, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 3 : 2);
    std::string e = str::encode_cstring(s);
    for (unsigned i = 0; i < e.size(); ++i) { unsigned char c = e[i]; ASSERT(c >= 32 && c != 127); if (c == '"') ASSERT(i > 0 && e[i - 1] == '\\'); }
    size_t len = 99;
    ASSERT(eq(str::decode_cstring(e, len), s));
    ASSERT(len == e.size());
    // and inside a quoted string
    std::string q = e + "\"rest";
    ASSERT(eq(str::decode_cstring(q, len), s));
    ASSERT(len == e.size() + 1);
    vs_reach("end");
}
HARNESS("C25", cstring_decode, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 4 : 3);
    size_t len = 99;
    std::string d = str::decode_cstring(s, len);
    ASSERT(len <= s.size());
    ASSERT(d.size() <= s.size());
    vs_reach("end");
}
HARNESS("C25", base64_roundtrip, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 7 : 5);
    std::string e = str::encode_base64(s);
    ASSERT(e.size() == (s.size() + 2) / 3 * 4);
    for (unsigned i = 0; i < e.size(); ++i) { char c = e[i]; ASSERT((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '+' || c == '/' || (c == '=' && i + 2 >= e.size())); }
    ASSERT(eq(str::decode_base64(e), s));
    vs_reach("end");
}
HARNESS("C25", base64_decode, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 6 : 4);
    std::string d = str::decode_base64(s);
    ASSERT(d.size() <= (s.size() + 3) / 4 * 3);
    vs_reach("end");
}
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
HARNESS("C25", strip, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 5 : 4);
    unsigned b = 0, e = s.size();
    while (b < e && sp(s[b])) ++b;
    ASSERT(eq(str::lstrip(s), s.substr(b)));
    while (e > 0 && sp(s[e - 1])) --e;
    ASSERT(eq(str::rstrip(s), s.substr(0, e)));
    ASSERT(eq(str::strip(s), b < e ? s.substr(b, e - b) : std::string()));
    vs_reach("end");
}
HARNESS("C25", split, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 5 : 4);
    unsigned sepk = vs_concretize(vs_u("sep", 0, 1, 0)), skip = vs_concretize(vs_u("skip", 0, 1, 0));
    std::string sep = sepk ? "::" : ",";
    str::Split sp(s, sep, skip);
    std::vector<std::string> got;
    unsigned guard = 0;
    for (auto i = sp.begin(); i != sp.end(); ++i) { got.push_back(*i); if (++guard > 10) vs_fail("split does not end"); }
    // reference
    std::vector<std::string> want; size_t p = 0;
    if (!s.empty()) while (true)
    {
        size_t q = p; bool f = false;
        while (q + sep.size() <= s.size()) { bool m = true; for (unsigned k = 0; k < sep.size(); ++k) if (s[q + k] != sep[k]) m = false; if (m) { f = true; break; } ++q; }
        std::string tok = f ? s.substr(p, q - p) : s.substr(p);
        if (!skip || !tok.empty()) want.push_back(tok);
        if (!f) break;
        p = q + sep.size();
    }
    if (!skip)
    {
        ASSERT(got.size() == want.size());
        for (unsigned i = 0; i < want.size(); ++i) ASSERT(eq(got[i], want[i]));
        vs_reach("all");
    } else {
        // no empty tokens
        ASSERT(got.size() == want.size());
        for (unsigned i = 0; i < want.size(); ++i) ASSERT(eq(got[i], want[i]));
        vs_reach("skip");
    }
}
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
HARNESS("C25", paths, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 5 : 4, false);
    std::string b = str::basename(s), d = str::dirname(s);
    size_t slash = std::string::npos; for (unsigned i = 0; i < s.size(); ++i) if (s[i] == '/') slash = i;
    ASSERT(eq(b, slash == std::string::npos ? s : s.substr(slash + 1)));
    ASSERT(!d.empty());
    if (slash == std::string::npos) ASSERT(d == ".");
    std::string a = "x"; str::appendpath(a, s);
    if (s.empty()) ASSERT(a == "x");
    else ASSERT(eq(a, s[0] == '/' ? "x" + s : "x/" + s));
    std::string a2 = "x/"; str::appendpath(a2, s);
    if (!s.empty()) ASSERT(eq(a2, s[0] == '/' ? "x" + s : "x/" + s));
    std::string a3; str::appendpath(a3, s); ASSERT(eq(a3, s));
    std::string n = str::normpath(s);
    ASSERT(!n.empty());
    if (s.size() && s[0] == '/') ASSERT(n[0] == '/'); else ASSERT(n[0] != '/');
    vs_reach("end");
}
// The same place without empty, . and .. components
HARNESS("C25", path_norm, nullptr)
{
    unsigned n = vs_concretize(vs_u("n", 0, vs_thorough() ? 9 : 7, 6));
    std::string s = std::string("a/../b/..").substr(0, n);
    vs_bytes(&s[0], n, "s");
    for (unsigned i = 0; i < n; ++i) vs_assume((s[i] == '.') | (s[i] == '/') | (s[i] == 'a'));
    bool abs = n && s[0] == '/';
    std::vector<std::string> want; size_t p = 0;
    while (p <= n)
    {
        size_t q = p; while (q < n && s[q] != '/') ++q;
        std::string c = s.substr(p, q - p);
        p = q + 1;
        if (c.empty() || c == ".") continue;
        if (c != "..") want.push_back(c);
        else if (!want.empty() && want.back() != "..") want.pop_back();
        else if (!abs) want.push_back(c);
    }
    std::string w = abs ? "/" : "";
    for (unsigned i = 0; i < want.size(); ++i) w += (i ? "/" : "") + want[i];
    if (w.empty()) w = ".";
    ASSERT(eq(str::normpath(s), w));
    vs_reach("end");
}
HARNESS("C25", join, nullptr)
{
    // formatted text leaves the encoding: the items are enumerated
    static const char* items[] = { "", "a", ",", "bc" };
    unsigned n = vs_concretize(vs_u("n", 0, 3, 2)), sepk = vs_concretize(vs_u("sep", 0, 2, 1));
    std::string sep = sepk == 0 ? "" : sepk == 1 ? "," : ", ";
    std::vector<std::string> v; std::vector<int> ints; std::string want, wanti;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = vs_concretize(vs_u("item", 0, 3, 1));
        v.push_back(items[k]); ints.push_back(k * 12 - 7);
        want += (i ? sep : std::string()) + items[k]; wanti += (i ? sep : std::string()) + std::to_string(ints.back());
    }
    ASSERT(eq(str::join(sep, v), want) && eq(str::join(sep, v.begin(), v.end()), want));
    ASSERT(eq(str::join(sep, ints), wanti) && eq(str::join(sep, ints.begin(), ints.end()), wanti));
    vs_reach("end");
}
HARNESS("C25", split_rest, nullptr)
{
    std::string s = any_bytes(vs_thorough() ? 5 : 4);
    unsigned sepk = vs_concretize(vs_u("sep", 0, 2, 0)), skip = vs_concretize(vs_u("skip", 0, 1, 0));
    std::string sep = sepk == 0 ? "," : sepk == 1 ? "::" : "";
    str::Split sp(s, sep, skip && sepk != 2);
    unsigned n = 0;
    std::string done; std::vector<std::string> toks; size_t pos = 0;
    for (auto i = sp.begin(); i != sp.end(); ++i)
    {
        if (++n > 10) vs_fail("split does not end");
        ASSERT(!(i == sp.end()));
        ASSERT(eq(*i, i->substr()));
        toks.push_back(*i);
        std::string rest = i.remainder();
        ASSERTL(rest.size() + i->size() <= s.size() - pos, "what is left");
        ASSERTL(eq(rest, s.substr(s.size() - rest.size())), "what is left is the end of the text");
        if (!skip) { ASSERTL(eq(*i, s.substr(pos, i->size())), "tokens are in place"); pos += i->size() + (rest.empty() && pos + i->size() + sep.size() > s.size() ? 0 : sep.size()); ASSERTL(rest.size() == s.size() - pos || rest.empty(), "everything after the token is left"); }
    }
    std::string j;
    for (unsigned i = 0; i < toks.size(); ++i) j += (i ? sep : std::string()) + toks[i];
    if (!skip) ASSERTL(eq(j, s), "tokens are joined to the same text");
    vs_reach("end");
}
HARNESS("C25", case_affix, nullptr)
{
    std::string s = any_bytes(3);
    std::string u = str::upper(s), l = str::lower(s);
    ASSERT(u.size() == s.size() && l.size() == s.size());
    for (unsigned i = 0; i < s.size(); ++i)
    {
        char c = s[i];
        ASSERT(u[i] == (c >= 'a' && c <= 'z' ? c - 32 : c));
        ASSERT(l[i] == (c >= 'A' && c <= 'Z' ? c + 32 : c));
    }
    ASSERT(str::startswith(s, "ab") == (s.size() >= 2 && s[0] == 'a' && s[1] == 'b'));
    ASSERT(str::endswith(s, "ab") == (s.size() >= 2 && s[s.size() - 2] == 'a' && s[s.size() - 1] == 'b'));
    vs_reach("end");
}
