// C03, C23: numeric variables
#include "common.h"
#include <wreport/options.h>
#include <climits>
#include <cmath>
#include <cstdio>

// A few definitions that exercise all the range computations
static void make(_Varinfo& i, unsigned k)
{
    switch (k)
    {
        case 0: i.set_bufr(WR_VAR(0, 12, 101), "temperature", "K", 2, 5, 0, 16); break;
        case 1: i.set_bufr(WR_VAR(0, 1, 1), "block", "NUMERIC", 0, 3, 0, 7); break;
        case 2: i.set_bufr(WR_VAR(0, 7, 1), "height", "M", 0, 5, -400, 15); break;
        case 3: i.set_bufr(WR_VAR(0, 10, 2), "pressure", "PA", -1, 5, -50, 14); break;
        case 4: i.set_bufr(WR_VAR(0, 2, 252), "flags", "FLAG TABLE", 0, 10, 0, 31); break;
        case 5: i.set_bufr(WR_VAR(0, 5, 1), "latitude", "DEGREE", 5, 7, -9000000, 25); break;
        case 6: i.set_crex(WR_VAR(0, 12, 101), "temperature", "C", 1, 3); break;
        case 7: i.set_bufr(WR_VAR(0, 31, 1), "count", "NUMERIC", 0, 3, 0, 8); break;
        case 8: i.set_bufr(WR_VAR(0, 1, 41), "speed", "M/S", 5, 10, -1073741824, 31); break;
        default: i.set_bufr(WR_VAR(0, 11, 2), "x", "M", -3, 9, -100, 20); break;
    }
}
static double p10(int s) { static const double t[] = {1, 10, 100, 1000, 10000, 100000}; return t[s]; }

struct Hook : options::DomainErrorHook
{
    int calls = 0, ival = 0; double dval = 0; bool isint = false;
    void handle_domain_error_int(Var& var, int32_t val) override { ++calls; ival = val; isint = true; var.unset(); }
    void handle_domain_error_double(Var& var, double val) override { ++calls; dval = val; var.unset(); }
};
enum { THROW, SILENT, CLAMP, HOOK };
static Hook hook;
static void policy(unsigned p)
{
    options::var_silent_domain_errors = p == SILENT;
    options::var_clamp_domain_errors = p == CLAMP;
    options::var_hook_domain_errors = p == HOOK ? &hook : nullptr;
    hook = Hook();
}

// What a variable must hold: everything readable from it is consistent
static void check_holds(const Var& var, int v)
{
    Varinfo info = var.info();
    ASSERT(var.isset());
    ASSERT(var.enqi() == v);
    v = var.enqi();
    double expect = info->scale > 0 ? v / p10(info->scale) : info->scale < 0 ? v * p10(-info->scale) : v;
    ASSERT(var.enqd() == expect);
    ASSERT(var.enq<int>() == v);
    ASSERT(var.enq<double>() == expect);
    ASSERT(var.enq(v + 1) == v);
}
static void check_unset(const Var& var)
{
    ASSERT(!var.isset());
    unsigned n = 0;
    try { var.enqi(); } catch (error_notfound&) { ++n; }
    try { var.enqd(); } catch (error_notfound&) { ++n; }
    try { var.enqc(); } catch (error_notfound&) { ++n; }
    try { var.enqs(); } catch (error_notfound&) { ++n; }
    ASSERT(n == 4);
    ASSERT(var.enq(123) == 123);
    ASSERT(var.format("?") == "?");
}
// outcome of storing the integer v
static void check_outcome(const Var& var, bool threw, unsigned pol, int v)
{
    Varinfo info = var.info();
    bool in = v >= info->imin && v <= info->imax;
    if (in) { ASSERT(!threw); check_holds(var, v); vs_reach("in-range"); return; }
    ASSERT(threw == (pol == THROW));
    ASSERT(hook.calls == (pol == HOOK ? 1 : 0));
    if (pol == CLAMP) { check_holds(var, v < info->imin ? info->imin : info->imax); vs_reach("clamped"); }
    else { check_unset(var); vs_reach("unset"); }
    if (pol == HOOK) { ASSERT(hook.isint && hook.ival == v); vs_reach("hook"); }
}

HARNESS("C03", num_seti, nullptr)
{
    unsigned k = vs_concretize(vs_u("def", 0, 9, 0)), pol = vs_concretize(vs_u("policy", 0, 3, 0));
    _Varinfo info; make(info, k);
    Var var(&info, 1);
    int v = vs_i("v", INT_MIN, INT_MAX, 10);
    policy(pol);
    bool threw = false;
    try { var.seti(v); } catch (error_domain&) { threw = true; }
    check_outcome(var, threw, pol, v);
    vs_reach("end");
}

// construction is setting
HARNESS("C03", num_construct, nullptr)
{
    unsigned k = vs_concretize(vs_u("def", 0, 9, 0)), how = vs_concretize(vs_u("how", 0, 1, 0));
    _Varinfo info; make(info, k);
    policy(THROW);
    int v = vs_i("v", INT_MIN, INT_MAX, 10);
    bool threw = false;
    try {
        if (how == 0) { Var var(&info, v); check_holds(var, v); }
        else
        {
            Var var(&info, (double)v);
            if (info.type == Vartype::Integer) check_holds(var, v);
            else ASSERT(var.isset() && var.enqi() == info.encode_decimal(v));
        }
    } catch (error_domain&) { threw = true; }
    if (how == 0) ASSERT(threw == (v < info.imin || v > info.imax));
    else ASSERT(threw == ((double)v < info.dmin || (double)v > info.dmax));
    vs_reach(threw ? "refused" : "built");
}

HARNESS("C03", num_setd, nullptr)
{
    unsigned k = vs_concretize(vs_u("def", 0, 9, 0)), pol = vs_concretize(vs_u("policy", 0, 3, 0));
    _Varinfo info; make(info, k);
    Var var(&info, 1);
    double d = 10;
    vs_f64(&d, "d");
    policy(pol);
    bool threw = false;
    try { var.setd(d); } catch (error_domain&) { threw = true; }
    bool nan = d != d;
    // in range: the rounded value is one the variable can hold
    bool in;
    if (info.type == Vartype::Decimal) in = d >= info.dmin && d <= info.dmax;
    else in = !nan && d > info.imin - 0.5 && d < info.imax + 0.5;
    if (in)
    {
        ASSERT(!threw);
        ASSERT(var.isset());
        int v = var.enqi();
        ASSERT(v >= info.imin && v <= info.imax);
        if (info.type == Vartype::Integer) ASSERT(v == (int)lround(d) || (v - d <= 0.5 && d - v <= 0.5));
        else { double x = info.scale > 0 ? d * p10(info.scale) : d / p10(-info.scale); ASSERT(v == (int)rint(x) || (v - x <= 0.5 && x - v <= 0.5)); }
        vs_reach("in-range");
    } else {
        if (pol == CLAMP && !nan)
        {
            ASSERT(!threw);
            ASSERT(var.isset());
            ASSERT(var.enqi() == (d < 0 || d < info.dmin ? info.imin : info.imax));
            vs_reach("clamped");
        } else {
            ASSERT(threw == (pol == THROW || pol == CLAMP));
            check_unset(var);
            ASSERT(hook.calls == (pol == HOOK ? 1 : 0));
            vs_reach(nan ? "nan" : "unset");
        }
    }
    vs_reach("end");
}

// text: optional minus sign and digits; anything else unsets
static void text_case(unsigned how)
{
    unsigned k = vs_concretize(vs_u("def", 0, 4, 0)), pol = vs_concretize(vs_u("policy", 0, 3, 0));
    static const unsigned defs[] = {0, 2, 3, 4, 1};
    _Varinfo info; make(info, defs[k]);
    unsigned len = vs_concretize(vs_u("len", 1, 4, 3));
    char txt[5]; memcpy(txt, "1234", 5); txt[len] = 0;
    vs_bytes(txt, len, "txt");
    for (unsigned i = 0; i < len; ++i) vs_assume(txt[i] != 0);
    Var var(&info, 1);
    policy(pol);
    bool threw = false;
    try { if (how) var.sets(txt); else var.setc(txt); } catch (error_domain&) { threw = true; }
    bool neg = txt[0] == '-', num = true; int v = 0;
    for (unsigned i = neg; i < len; ++i) if (txt[i] < '0' || txt[i] > '9') num = false; else v = v * 10 + (txt[i] - '0');
    if (neg && len == 1) num = false;
    if (neg) v = -v;
    if (!num) { ASSERT(!threw); check_unset(var); ASSERT(hook.calls == 0); vs_reach("not-number"); }
    else check_outcome(var, threw, pol, v);
    vs_reach("end");
}
HARNESS("C03", num_setc, nullptr) { text_case(0); }
HARNESS("C03", num_sets, nullptr) { text_case(1); }

// long digit strings: values that do not fit in 32 bits are out of range too
HARNESS("C03", num_setc_long, nullptr)
{
    unsigned how = vs_concretize(vs_u("how", 0, 1, 0)), neg = vs_concretize(vs_u("neg", 0, 1, 0));
    unsigned nines = vs_concretize(vs_u("lead", 0, 2, 0));
    _Varinfo info; make(info, 4 - 2 * vs_concretize(vs_u("def", 0, 1, 0)));
    policy(THROW);
    // 10 to 12 digits: leading part fixed, last 10 from the solver
    std::string txt = neg ? "-" : "";
    for (unsigned i = 0; i < nines; ++i) txt += i == 0 ? '1' : '0';
    int64_t v = nines == 0 ? 0 : nines == 1 ? 1 : 10;
    // the last 10 digits: 4 fixed leading choices and a symbolic tail
    unsigned head = vs_concretize(vs_u("head", 0, 3, 0));
    static const char* heads[] = {"214748", "429496", "000000", "999999"};
    txt += heads[head];
    for (unsigned i = 0; i < 6; ++i) v = v * 10 + (heads[head][i] - '0');
    char tail[5] = "0000";
    vs_bytes(tail, 4, "tail");
    for (unsigned i = 0; i < 4; ++i) { vs_assume(tail[i] >= '0' && tail[i] <= '9'); v = v * 10 + (tail[i] - '0'); }
    txt.append(tail, 4);
    if (neg) v = -v;
    Var var(&info, 1);
    bool threw = false;
    try { if (how) var.sets(txt); else var.setc(txt.c_str()); } catch (error_domain&) { threw = true; }
    bool in = v >= info.imin && v <= info.imax;
    ASSERT(threw == !in);
    if (in) { check_holds(var, (int)v); vs_reach("in-range"); } else { check_unset(var); vs_reach("refused"); }
}

// text read from a numeric variable is its integer
HARNESS("C03", num_text, nullptr)
{
    _Varinfo info; make(info, 4);
    // all values of up to 4 digits, then windows of 256 values in every order of magnitude
    static const int bases[] = {0, 9900, 99900, 123400, 999900, 1000000, 9999800, 99999900, 100000000, 999999900, 1000000000, 2147483392};
    unsigned b = vs_concretize(vs_u("base", 0, 11, 0)), neg0 = vs_concretize(vs_u("neg", 0, 1, 0));
    int v = b == 0 ? vs_i("v", 0, 9999, 123) : bases[b] + vs_i("w", 0, 255, 7);
    if (neg0) v = -v - (b == 11);
    Var var(&info, v);
    const char* c = var.enqc();
    std::string s = var.enqs();
    ASSERT(s == c);
    ASSERT(var.enq<std::string>() == c);
    int64_t r = 0; bool neg = c[0] == '-';
    unsigned n = strlen(c);
    ASSERT(n > neg);
    for (unsigned i = neg; i < n; ++i) { ASSERT(c[i] >= '0' && c[i] <= '9'); r = r * 10 + (c[i] - '0'); }
    ASSERT((neg ? -r : r) == v);
    // no leading zeros
    ASSERT(c[(unsigned)neg] != '0' || (!neg && n == 1));
    // and setting it from its own text gives the same value
    Var v2(&info); v2.setc(c);
    ASSERT(v2.isset() && v2.enqi() == v);
    Var v3(&info, s);
    ASSERT(v3.isset() && v3.enqi() == v);
    vs_reach("end");
}

// policies apply to the setting done under them only, and unset() clears
HARNESS("C03", num_sequence, nullptr)
{
    _Varinfo info; make(info, 2);
    Var var(&info);
    bool set = false; int cur = 0;
    for (unsigned i = 0; i < 3; ++i)
    {
        char nm[8] = "op0"; nm[2] += i;
        unsigned op = vs_concretize(vs_u(nm, 0, 4, i));
        nm[0] = 'v';
        int v = vs_i(nm, INT_MIN, INT_MAX, 5);
        policy(op < 4 ? op : 0);
        if (op == 4) { var.unset(); set = false; }
        else
        {
            bool in = v >= info.imin && v <= info.imax;
            try { var.seti(v); } catch (error_domain&) { ASSERT(op == THROW && !in); }
            if (in) { set = true; cur = v; }
            else if (op == CLAMP) { set = true; cur = v < info.imin ? info.imin : info.imax; }
            else set = false;
        }
        ASSERT(var.isset() == set);
        if (set) ASSERT(var.enqi() == cur);
    }
    vs_reach("end");
}

// numeric access to text and binary variables is a type error
HARNESS("C03", num_type_errors, nullptr)
{
    _Varinfo info;
    if (vs_concretize(vs_u("bin", 0, 1, 0))) info.set_binary(WR_VAR(0, 1, 15), "b", 24); else info.set_string(WR_VAR(0, 1, 15), "s", 3);
    Var var(&info, "123");
    int v = vs_i("v", INT_MIN, INT_MAX, 5);
    unsigned n = 0;
    try { var.seti(v); } catch (error_type&) { ++n; }
    try { var.setd(v); } catch (error_type&) { ++n; }
    try { var.enqi(); } catch (error_type&) { ++n; }
    try { var.enqd(); } catch (error_type&) { ++n; }
    ASSERT(n == 4);
    ASSERT(var.isset() && var.enqs() == "123");
    vs_reach("end");
}

// C23: formatted text
static std::string slurp(const Var& var, const char* undef)
{
    char buf[200]; memset(buf, 0, sizeof(buf));
    FILE* f = fmemopen(buf, sizeof(buf) - 1, "w");
    var.format(f, undef);
    fclose(f);
    return buf;
}
static void fmt_case(_Varinfo& info, int v, bool parse = true)
{
    Var var(&info, v);
    std::string s = var.format();
    // reference rendering from the integer: sign, integer part, decimals
    char ref[64]; unsigned n = 0;
    int64_t a = v < 0 ? -(int64_t)v : v;
    char digits[64]; unsigned nd = 0;
    for (int i = 0; i < -info.scale; ++i) digits[nd++] = '0';
    do { digits[nd++] = '0' + a % 10; a /= 10; } while (a);
    while ((int)nd <= info.scale) digits[nd++] = '0';
    if (v == 0 && info.scale < 0) nd = 1;
    if (v < 0) ref[n++] = '-';
    for (int i = nd - 1; i >= 0; --i) { ref[n++] = digits[i]; if (info.scale > 0 && i == info.scale) ref[n++] = '.'; }
    ref[n] = 0;
    ASSERT(s.size() == n);
    for (unsigned i = 0; i < n; ++i) ASSERT(s[i] == ref[i]);
    if (!parse) return;
    Var back(&info);
    back.setf(s.c_str());
    ASSERT(back.isset() && back.enqi() == v);
}
// reading the text back: every value of two (thorough: three) digits
HARNESS("C23", fmt_back, nullptr)
{
    int scale = (int)vs_concretize(vs_u("scale", 0, 7, 2)) - 2;
    unsigned len = vs_thorough() ? 3 : 2;
    _Varinfo info; info.set_crex(WR_VAR(0, 12, 101), "t", "K", scale, len);
    int v = vs_i("v", info.imin, info.imax, 12);
    fmt_case(info, (int)vs_concretize((unsigned)v));
    vs_reach("end");
}
HARNESS("C23", fmt_number, nullptr)
{
    int scale = (int)vs_concretize(vs_u("scale", 0, 7, 2)) - 2;
    unsigned len = vs_thorough() ? 4 : 3;
    _Varinfo info; info.set_crex(WR_VAR(0, 12, 101), "t", "K", scale, len);
    int v = vs_i("v", info.imin, info.imax, 123);
    fmt_case(info, v, false);
    vs_reach("end");
}
// longest values
HARNESS("C23", fmt_number_long, nullptr)
{
    int scale = (int)vs_concretize(vs_u("scale", 0, 33, 2)) - 20;
    _Varinfo info; info.set_crex(WR_VAR(0, 12, 101), "t", "K", scale, 10);
    unsigned k = vs_concretize(vs_u("sign", 0, 1, 0));
    int v = k ? vs_i("v", -2147483647, -2147483600, -2147483640) : vs_i("v", 2147483600, 2147483647, 2147483640);
    v = (int)vs_concretize((unsigned)v);
    Var var(&info, v);
    std::string s = var.format();
    ASSERT(slurp(var, "?") == s);
    if (scale >= 0 || -scale <= 5) fmt_case(info, v);
    else { Var b(&info); b.setf(s.c_str()); ASSERT(b.isset() && b.enqi() == v); }
    vs_reach("end");
}
HARNESS("C23", fmt_text, nullptr)
{
    _Varinfo info; info.set_string(WR_VAR(0, 1, 15), "s", 4);
    unsigned len = vs_concretize(vs_u("len", 0, 5, 3));
    char txt[6]; memcpy(txt, "abcde", 6); txt[len] = 0;
    vs_bytes(txt, len, "txt");
    for (unsigned i = 0; i < len; ++i) vs_assume(txt[i] != 0);
    Var var(&info, txt);
    unsigned want = len < 4 ? len : 4;
    std::string s = var.format("undef");
    ASSERT(s.size() == want);
    for (unsigned i = 0; i < want; ++i) ASSERT(s[i] == txt[i]);
    Var back(&info);
    back.setf(s.c_str());
    if (want) { ASSERT(back.isset()); ASSERT(back == var); }
    else ASSERT(!back.isset());
    vs_reach("end");
}
HARNESS("C23", fmt_binary, nullptr)
{
    unsigned bits = vs_concretize(vs_u("bits", 1, 24, 20));
    _Varinfo info; info.set_binary(WR_VAR(0, 1, 15), "b", bits);
    unsigned char raw[3] = {1, 2, 3};
    vs_bytes(raw, 3, "raw");
    Var var(&info, std::string((const char*)raw, 3));
    std::string s = var.format();
    unsigned n = (bits + 7) / 8;
    ASSERT(s.size() == 2 * n);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned b = raw[i]; if (i == n - 1 && bits % 8) b &= (1 << (bits % 8)) - 1;
        auto hex = [](unsigned d) { return d < 10 ? '0' + d : 'A' + d - 10; };
        ASSERT(s[2 * i] == hex(b >> 4)); ASSERT(s[2 * i + 1] == hex(b & 15));
    }
    vs_reach("end");
}
HARNESS("C23", fmt_stream, nullptr)
{
    // both renderings agree (the stream one leaves the encoding: values enumerated)
    unsigned k = vs_concretize(vs_u("kind", 0, 4, 0));
    unsigned v = vs_concretize(vs_u("v", 0, 40, 11));
    _Varinfo info;
    if (k == 0) info.set_string(WR_VAR(0, 1, 15), "s", 4);
    else if (k == 1) info.set_binary(WR_VAR(0, 1, 15), "b", 12);
    else info.set_crex(WR_VAR(0, 12, 101), "t", "K", k == 2 ? 0 : k == 3 ? 3 : -2, 4);
    Var var(&info);
    char txt[3] = {(char)(32 + v * 2), (char)('0' + v % 10), 0};
    if (v) { if (k < 2) var.sets(txt); else var.seti((int)v * 37 - 300); }
    ASSERT(slurp(var, "nil") == var.format("nil"));
    if (!v) ASSERT(var.format("nil") == "nil");
    // empty and null text unset
    var.setf(v % 2 ? "" : nullptr);
    ASSERT(!var.isset());
    vs_reach("end");
}
// any decimal text that setf is given: nearest representable value
HARNESS("C23", fmt_parse, nullptr)
{
    _Varinfo info; info.set_crex(WR_VAR(0, 12, 101), "t", "K", 1, 4);
    char txt[5] = "12.3";
    vs_bytes(txt, 4, "txt");
    for (unsigned i = 0; i < 4; ++i) vs_assume((txt[i] >= '0' && txt[i] <= '9') || (i > 0 && txt[i] == '.') || (i == 0 && txt[0] == '-'));
    unsigned dots = 0, dot = 4; for (unsigned i = 0; i < 4; ++i) if (txt[i] == '.') { ++dots; dot = i; }
    vs_assume(dots <= 1);
    vs_assume(dots == 0 || dot >= 2);   // at most one decimal digit: exactly representable
    int v = 0; bool neg = txt[0] == '-';
    for (unsigned i = neg; i < 4; ++i) if (txt[i] != '.') v = v * 10 + (txt[i] - '0');
    if (dot >= 3) v *= 10;
    vs_assume(dot == 4 || dot == 3 || dot == 2);
    if (neg) v = -v;
    vs_assume(v >= info.imin && v <= info.imax);
    Var var(&info);
    var.setf(txt);
    ASSERT(var.isset());
    ASSERT(var.enqi() == v);
    vs_reach("end");
}
