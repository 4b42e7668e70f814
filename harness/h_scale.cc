// C02: numeric scaling
#include "common.h"
#include <climits>
#include <cmath>

static const double P10[] = {1.0, 10.0, 100.0, 1000.0, 10000.0, 100000.0, 1000000.0, 10000000.0, 100000000.0, 1000000000.0, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};

static void any_info(_Varinfo& i, int scale, unsigned len, int ref, unsigned bits, Varcode code = WR_VAR(0, 12, 101))
{
    i.set_bufr(code, "x", "K", scale, len, ref, bits);
}

// decimal: decode then encode is the identity, and the decoded value is v / 10^scale
HARNESS("C02", scale_decimal, nullptr)
{
    int scale = (int)vs_concretize(vs_u("scale", 0, 33, 22)) - 20;
    _Varinfo info; any_info(info, scale, 10, 0, 32);
    int v = vs_i("v", INT_MIN, INT_MAX, 12345);
    double d = info.decode_decimal(v);
    double expect = scale >= 0 ? v / P10[scale] : v * P10[-scale];
    ASSERT(d == expect);
    ASSERT(info.encode_decimal(d) == v);
    vs_reach("end");
}

// binary: same, for every field value and reference
HARNESS("C02", scale_binary, nullptr)
{
    int scale = (int)vs_concretize(vs_u("scale", 0, 24, 14)) - 12;
    static const int refs[] = {0, -1, 1, -1024, -40000, -1000000, -1073741824, 1000000};
    int ref = refs[vs_concretize(vs_u("ref", 0, 7, 0))];
    _Varinfo info; any_info(info, scale, 10, ref, 32);
    uint32_t v = vs_u("v", 0, 0xffffffff, 12345);
    double d = info.decode_binary(v);
    double sum = (double)v + ref;
    double expect = scale >= 0 ? sum / P10[scale] : sum * P10[-scale];
    ASSERT(d == expect);
    ASSERT(info.encode_binary(d) == v);
    vs_reach("end");
}
// any reference value
HARNESS("C02", scale_binary_ref, nullptr)
{
    int ref = vs_i("ref", -1073741824, 1073741824, -5);
    _Varinfo info; any_info(info, 0, 10, ref, 30);
    uint32_t v = vs_u("v", 0, (1 << 30) - 1, 12345);
    double d = info.decode_binary(v);
    ASSERT(info.encode_binary(d) == v);
    vs_reach("end");
}

// what does not fit in the bits, or would be negative, is refused
HARNESS("C02", scale_binary_fit, nullptr)
{
    unsigned bits = vs_concretize(vs_u("bits", 1, 32, 8));
    int ref = vs_i("ref", -1000000000, 1000000000, 0);
    _Varinfo info; any_info(info, 0, 10, ref, bits);
    int v = vs_i("v", -1000000000, 1000000000, 10);
    int64_t want = (int64_t)v - ref;
    bool fits = want >= 0 && want <= (int64_t)((1ULL << bits) - 1);
    bool threw = false; uint32_t got = 0;
    try { got = info.encode_binary(v); } catch (error_consistency&) { threw = true; }
    ASSERT(threw == !fits);
    if (!threw) { ASSERT(got == (uint32_t)want); vs_reach("fits"); }
    else vs_reach("refused");
}
HARNESS("C02", scale_binary_nolen, nullptr)
{
    _Varinfo info; info.set_crex(WR_VAR(0, 12, 101), "x", "K", vs_i("scale", -3, 3, 1), 5);
    uint32_t v = vs_u("v", 0, 0xffffffff, 12345);
    bool t1 = false, t2 = false;
    try { info.decode_binary(v); } catch (error_consistency&) { t1 = true; }
    try { info.encode_binary((double)v); } catch (error_consistency&) { t2 = true; }
    ASSERT(t1 && t2);
    vs_reach("end");
}

// encoding any in-range value and decoding it stays within half a unit
HARNESS("C02", scale_half_unit, nullptr)
{
    int scale = (int)vs_concretize(vs_u("scale", 0, vs_thorough() ? 8 : 5, 4)) - (vs_thorough() ? 4 : 2);
    _Varinfo info; any_info(info, scale, 5, -10000, 17);
    double d = 271.5;
    vs_f64(&d, "d");
    vs_assume(d >= info.dmin && d <= info.dmax);
    int e = info.encode_decimal(d);
    ASSERT(e >= info.imin && e <= info.imax);
    double x = scale >= 0 ? d * P10[scale] : d / P10[-scale];
    ASSERT(e == (int)rint(x) || (e - x <= 0.5 && x - e <= 0.5));
    uint32_t b = info.encode_binary(d);
    // the binary form holds the same value, up to ties and the rounding of
    // the subtraction of the reference value
    int be = (int)b + info.bit_ref;
    ASSERT(b == (uint32_t)rint(x - info.bit_ref) || be == e || ((be - e == 1 || be - e == -1) && (e - x >= 0.49999 || x - e >= 0.49999)));
    vs_reach("end");
}

// round_decimal gives the nearest representable value
HARNESS("C02", scale_round, nullptr)
{
    int scale = (int)vs_concretize(vs_u("scale", 0, 8, 6)) - 4;
    _Varinfo info; any_info(info, scale, 6, 0, 20);
    double d = 271.5;
    vs_f64(&d, "d");
    vs_assume(d >= -1000000 && d <= 1000000);
    double r = info.round_decimal(d);
    double x = scale >= 0 ? d * P10[scale] : d / P10[-scale];
    double y = std::round(x);
    ASSERT(r == (scale >= 0 ? y / P10[scale] : y * P10[-scale]));
    vs_reach("end");
}

// declared ranges fit both forms and avoid the missing markers
HARNESS("C02", scale_range, nullptr)
{
    unsigned len = vs_concretize(vs_u("len", 1, 9, 5));
    unsigned bits = vs_concretize(vs_u("bits", 1, 32, 17));
    int scale = vs_concretize(vs_u("scale", 0, 2, 1)); scale -= 1;
    bool cls31 = vs_concretize(vs_u("cls31", 0, 1, 0));
    int ref = vs_i("ref", -1073741824, 1073741824, -10000);
    _Varinfo info; any_info(info, scale, len, ref, bits, cls31 ? WR_VAR(0, 31, 1) : WR_VAR(0, 12, 101));
    int64_t max_bits = (1LL << bits) - 1 - (cls31 ? 0 : 1);   // largest field value that is not missing
    int64_t dec = 1; for (unsigned i = 0; i < len; ++i) dec *= 10;
    // widest range allowed by both forms; 10^len-1 is the missing marker
    int64_t lo = ref, hi = ref + max_bits;
    if (lo < -(dec - 1)) lo = -(dec - 1);
    if (hi > dec - 2) hi = dec - 2;
    ASSERT(info.imin == lo);
    ASSERT(info.imax == hi);
    ASSERT(info.dmin == info.decode_decimal(info.imin));
    ASSERT(info.dmax == info.decode_decimal(info.imax));
    ASSERT(info.type == (scale == 0 ? Vartype::Integer : Vartype::Decimal));
    vs_reach("end");
}
HARNESS("C02", scale_range_crex, nullptr)
{
    unsigned len = vs_concretize(vs_u("len", 1, 12, 5));
    int scale = vs_concretize(vs_u("scale", 0, 10, 1)); scale -= 5;
    _Varinfo info; info.set_crex(WR_VAR(0, 12, 101), "x", "K", scale, len);
    int64_t dec = 1; for (unsigned i = 0; i < len; ++i) dec *= 10;
    if (len < 10) { ASSERT(info.imin == -(dec - 1)); ASSERT(info.imax == dec - 2); }
    else { ASSERT(info.imin == INT_MIN); ASSERT(info.imax == INT_MAX); }
    ASSERT(info.dmin == info.decode_decimal(info.imin));
    ASSERT(info.dmax == info.decode_decimal(info.imax));
    vs_reach("end");
}
