// C14 any bytes given to the BUFR decoder
#include "bufr_common.h"

// Decode an exactly sized copy of the message, so that reading past its end is seen
static bool try_decode(const std::string& m, bool header_only = false)
{
    std::string* copy = new std::string();
    copy->reserve(m.size());
    copy->assign(m);
    bool ok = true;
    try
    {
        auto d = header_only ? BufrBulletin::decode_header(*copy, "f", 0) : BufrBulletin::decode(*copy, "f", 0);
    } catch (error&) { ok = false; }
    delete copy;
    return ok;
}

// Any value in each window of 3 bytes outside of the table choice and the descriptors
static void windows(unsigned kind)
{
    unsigned ed = kind == 1 ? 3 : 4;
    std::string data = kind == 2 ? std::string("\x05\x00\xff\x00\x12\x34\x56\x78\x9a\xbc\xde\xf0", 12) : std::string("\x81\x40\x60", 3);
    std::string m = message(ed, { B(1, 1), B(2, 1), B(20, 3) }, kind == 2 ? 2 : 1, kind == 2, kind == 2 ? "" : "opt", data);
    unsigned s1 = ed == 4 ? 22 : 18, s3 = 8 + s1 + (kind == 2 ? 0 : 7);
    unsigned tables_from = ed == 4 ? 8 + 3 : 8 + 3, tables_to = ed == 4 ? 8 + 8 : 8 + 6;
    unsigned vers_from = ed == 4 ? 8 + 13 : 8 + 10, vers_to = vers_from + 2;
    unsigned desc_from = s3 + 7, desc_to = desc_from + 6;
    unsigned pos = vs_concretize(vs_u("pos", 0, m.size() - 3, 4));
    unsigned char w[3];
    memcpy(w, m.data() + pos, 3);
    vs_bytes(w, 3, "w");
    for (unsigned i = 0; i < 3; ++i)
    {
        unsigned p = pos + i;
        if ((p >= tables_from && p < tables_to) || (p >= vers_from && p < vers_to) || (p >= desc_from && p < desc_to)) continue;
        m[p] = w[i];
    }
    // the declared number of subsets is bounded
    vs_assume((unsigned char)m[s3 + 4] == 0 && (unsigned char)m[s3 + 5] <= (kind == 2 ? 3 : vs_thorough() ? 255 : 7));
    {
        // section 3 may have been moved: the number of subsets is bounded there too
        auto u = [&](size_t p) { return (unsigned)(unsigned char)m[p]; };
        unsigned at = 8 + (u(8) << 16 | u(9) << 8 | u(10));
        vs_assume(at < 8u + s1 + 64);
        at = vs_concretize(at);
        if ((u(8 + (ed == 4 ? 9 : 7)) & 0x80) && at + 3 <= m.size()) { unsigned l = u(at) << 16 | u(at + 1) << 8 | u(at + 2); vs_assume(l < 64); at += vs_concretize(l); }
        if (at + 7 <= m.size()) vs_assume(u(at + 4) == 0 && u(at + 5) <= (kind == 2 ? 3 : vs_thorough() ? 255 : 7));
    }
    bool ok = try_decode(m);
    bool hok = try_decode(m, true);
    ASSERTL(hok | !ok, "what decodes in full has a header that decodes");
    vs_reach(ok ? "decoded" : "refused");
}
HARNESS("C14", any_ed4, load14) { windows(0); }
HARNESS("C14", any_ed3, load14) { windows(1); }
HARNESS("C14", any_compressed, load14) { windows(2); }

// Any data, for descriptor lists that use each feature
static const std::vector<std::vector<Varcode>>& lists()
{
    static const std::vector<std::vector<Varcode>> l = {
        { B(1, 1), B(12, 101), B(1, 6) },
        { R(1, 0), B(31, 0), B(2, 1) },
        { R(1, 0), B(31, 1), B(1, 2), B(2, 1) },
        { R(2, 0), B(31, 2), B(1, 1), B(1, 2) },
        { R(3, 0), B(31, 1), R(1, 0), B(31, 0), B(1, 1) },
        { C(4, 4), B(31, 21), B(1, 1), B(20, 3), C(4, 0), B(2, 1) },
        { C(4, 32), B(31, 21), B(1, 1) },
        { C(3, 12), B(10, 4), C(3, 255), B(10, 4), C(3, 0), B(10, 4) },
        { C(3, 32), B(10, 4), C(3, 255), B(10, 4) },
        { C(6, 9), B(63, 250), B(1, 1) },
        { C(5, 2), B(1, 1) },
        { C(1, 129), C(2, 130), B(12, 101), C(1, 0), C(2, 0), B(5, 1) },
        { C(7, 2), B(12, 101), C(8, 2), B(1, 6) },
        { B(1, 1), B(2, 1), C(22, 0), R(1, 2), B(31, 31), B(33, 7), B(33, 7) },
        { B(1, 1), B(2, 1), C(22, 0), R(1, 0), B(31, 1), B(31, 31), R(1, 0), B(31, 1), B(33, 7) },
        { B(1, 1), B(2, 1), C(23, 0), R(1, 2), B(31, 31), R(1, 0), B(31, 1), C(23, 255) },
        { B(1, 1), C(22, 0), R(1, 1), B(31, 31), B(33, 7), C(22, 0), C(37, 0), B(33, 3) },
        { R(0, 0), B(31, 1), B(1, 1) },
        { R(2, 0), B(31, 1), C(22, 0), R(1, 1) },
    };
    return l;
}
// Windows of arbitrary bytes over a base of small or large values
static void any_data(bool compressed)
{
    unsigned n = vs_concretize(vs_u("list", 0, lists().size() - 1, 0));
    unsigned base = vs_concretize(vs_u("base", 0, 1, 0));
    std::string d = base ? std::string("\xff\xfe\xff\xff\xff\xff\xff\xff", 8) : std::string("\x02\x81\x04\x20\x01\x10\x41\x02", 8);
    if (!vs_thorough() && base == 1 && n % 3) return;
    bool bitmap = n >= 13 && n <= 16;
    unsigned pos = vs_concretize(vs_u("pos", 0, vs_thorough() ? 6 : 2, 0));
    unsigned short w = vs_u("w", 0, 0xffff, 0x0281);
    // the bits of bitmaps become keys of containers, and are concretized
    if (bitmap) w = (w & 0xff00) | 0x40;
    unsigned char hi = w >> 8;
    if (bitmap) { vs_assume((hi & 0x18) == 0); hi = vs_concretize(hi); }
    d[pos] = hi; d[pos + 1] = w;
    unsigned len = vs_concretize(vs_u("cut", 0, 1, 0)) ? pos + 1 : 8;
    unsigned subsets = vs_concretize(vs_u("subsets", 1, 2, 1));
    std::string m = message(4, lists()[n], subsets, compressed, "", d.substr(0, len));
    vs_reach(try_decode(m) ? "decoded" : "refused");
}
HARNESS("C14", any_data, load14) { any_data(false); }
HARNESS("C14", any_data_compressed, load14) { any_data(true); }

// Compressed texts of any length with differences of any length
HARNESS("C14", any_text_compressed, load14)
{
    // a text of its own, with an associated field, as a substituted value, in character data
    unsigned kind = vs_concretize(vs_u("kind", 0, 3, 0));
    static const unsigned lens[] = { 1, 3, 8, 9 };
    unsigned len = lens[vs_concretize(vs_u("len", 0, 3, 1))]; // characters
    unsigned subsets = vs_concretize(vs_u("subsets", 1, 2, 1));
    std::vector<Varcode> l;
    Ref d;
    auto text = [&](unsigned n, const char* name) {
        unsigned char c[3] = { 'a', 'b', 'c' };
        vs_bytes(c, 1, name);
        d.put(c[0], 8);
        for (unsigned i = 1; i < n; ++i) d.put('a' + i, 8);
    };
    switch (kind)
    {
        case 0: l = { C(8, len), B(1, 6), B(1, 1) }; break;
        case 1: l = { C(8, len), C(4, 1), B(31, 21), B(1, 6), C(4, 0), B(1, 1) }; d.put(1, 6); d.put(0, 6); d.put(0, 1); d.put(0, 6); break;
        case 2: l = { C(8, len), B(1, 6), C(23, 0), R(1, 1), B(31, 31), C(23, 255) }; for (unsigned i = 0; i < len; ++i) d.put('a', 8); d.put(0, 6); d.put(0, 1); d.put(0, 6); break;
        case 3: l = { C(5, len), B(1, 1) }; break;
    }
    text(len, "base");
    unsigned diffs[] = { 0, 1, 2, len, len + 1, len + 2, 4 * len, 8 * len, 32, 63 };
    unsigned diff = diffs[vs_concretize(vs_u("diff", 0, 9, 3))];
    if (diff > 63) diff = 62;
    d.put(diff, 6);
    for (unsigned i = 0; i < subsets; ++i) if (diff) text(diff, "diff");
    unsigned tail = vs_concretize(vs_u("tail", 0, 1, 1));
    if (tail) for (unsigned i = 0; i < 8; ++i) d.put(3, 8);
    std::string s(d.buf.begin(), d.buf.end());
    bool ok = try_decode(message(4, l, subsets, true, "", s));
    vs_reach(ok ? "decoded" : "refused");
}
// Any descriptor
static std::vector<Varcode> any_descriptor_b_codes;
static void any_descriptor_b_setup()
{
        auto& r = any_descriptor_b_codes;
        r.clear();
        auto b = mk();
        b->tables.btable->iterate([&](Varinfo i) { if (r.empty() || r.back() != i->code) r.push_back(i->code); return true; });
        r.push_back(0); r.push_back(B(63, 255)); r.push_back(B(31, 255));
}
HARNESS("C14", any_descriptor_b, any_descriptor_b_setup)
{
    // every entry of the table, and as many codes that are not there
    const auto& codes = any_descriptor_b_codes;
    unsigned hi = vs_concretize(vs_u("hi", 0, codes.size() / 64, 0)), lo = vs_concretize(vs_u("lo", 0, 63, 1));
    if (hi * 64 + lo >= codes.size()) return;
    Varcode c = codes[hi * 64 + lo];
    std::vector<Varcode> l = { B(1, 1), c, B(2, 1) };
    std::string d("\x02\x40\x60\xff\xff\xff\x12\x34\x56\x78", 10);
    vs_bytes(&d[1], vs_thorough() ? 6 : 2, "d");
    vs_reach(try_decode(message(4, l, 1, vs_concretize(vs_u("compressed", 0, vs_thorough() ? 1 : 0, 0)), "", d)) ? "decoded" : "refused");
}
static std::vector<Varcode> any_descriptor_d_codes;
static void any_descriptor_d_setup()
{
        auto& r = any_descriptor_d_codes;
        r.clear();
        auto b = mk();
        for (unsigned c = 0xc000; c <= 0xffff; ++c)
            try { b->tables.dtable->query(c); r.push_back(c); } catch (error&) { if (c % 256 == 255) r.push_back(c); }
}
HARNESS("C14", any_descriptor_d, any_descriptor_d_setup)
{
    const auto& codes = any_descriptor_d_codes;
    unsigned hi = vs_concretize(vs_u("hi", 0, codes.size() / 64, 0)), lo = vs_concretize(vs_u("lo", 0, 63, 1));
    if (hi * 64 + lo >= codes.size()) return;
    std::vector<Varcode> l = { B(1, 1), codes[hi * 64 + lo], B(2, 1) };
    std::string d("\x02\x40\x60\xff\xff\xff\x12\x34\x56\x78", 10);
    vs_bytes(&d[1], 1, "d");
    vs_reach(try_decode(message(4, l, 1, false, "", d)) ? "decoded" : "refused");
}
HARNESS("C14", any_operator, load14)
{
    static const unsigned xs[] = { 1, 2, 3, 4, 5, 6, 7, 8, 22, 23, 36, 37, 0, 9, 24, 63 };
    unsigned x = xs[vs_concretize(vs_u("x", 0, vs_thorough() ? 15 : 12, 0))];
    static const unsigned ys[] = { 0, 1, 2, 7, 8, 9, 31, 32, 33, 64, 95, 96, 97, 112, 127, 128, 129, 140, 160, 254, 255 };
    unsigned y = ys[vs_concretize(vs_u("y", 0, sizeof(ys) / sizeof(ys[0]) - 1, 1))];
    static const Varcode nx[] = { B(1, 1), B(12, 101), B(1, 6), B(31, 21), B(33, 7), C(23, 255), B(63, 250) };
    std::vector<Varcode> l = { B(1, 1), C(x, y), nx[vs_concretize(vs_u("next", 0, 6, 1))], B(10, 4) };
    vs_reach(try_decode(message(4, l, 1, vs_concretize(vs_u("compressed", 0, 1, 0)), "", std::string("\x02\x40\x60\xff\x10\xff\x12\x34\x56\x78", 10))) ? "decoded" : "refused");
}
HARNESS("C14", any_replication, load14)
{
    static const unsigned xs[] = { 0, 1, 2, 3, 4, 63 };
    unsigned x = xs[vs_concretize(vs_u("x", 0, 5, 1))];
    static const unsigned ys[] = { 0, 1, 2, 3, 255 };
    unsigned y = ys[vs_concretize(vs_u("y", 0, 4, 1))];
    static const Varcode nx[] = { B(1, 1), B(31, 1), C(1, 130), R(1, 3), C(22, 0), B(31, 31) };
    std::vector<Varcode> l = { B(1, 1), R(x, y), nx[vs_concretize(vs_u("n0", 0, 5, 1))], nx[vs_concretize(vs_u("n1", 0, 5, 0))], B(2, 1) };
    unsigned bitmap = vs_concretize(vs_u("bitmap", 0, 1, 0));
    if (bitmap) l.insert(l.begin() + 1, C(22, 0));
    vs_reach(try_decode(message(4, l, 1, vs_concretize(vs_u("compressed", 0, 1, 0)), "", std::string("\x02\x02\x03\xff\x10\xff\x12\x34\x56\x78", 10))) ? "decoded" : "refused");
}
// A message cut short is never taken as complete
HARNESS("C14", truncated, load14)
{
    unsigned n = vs_concretize(vs_u("list", 0, lists().size() - 1, 0));
    bool compressed = vs_concretize(vs_u("compressed", 0, 1, 0));
    char d[12] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 };
    vs_bytes(d, 1, "d");
    std::string m = message(4, lists()[n], 1, compressed, "", std::string(d, 12));
    static const unsigned cuts[] = { 1, 2, 3, 4, 5, 6, 8, 14, 18, 24 }; // up to inside the descriptors
    unsigned cut = cuts[vs_concretize(vs_u("cut", 0, 9, 1))];
    ASSERTL(!try_decode(m.substr(0, m.size() - cut)), "a message cut short is refused");
    vs_reach("end");
}
HARNESS("C14", truncated_header, load14)
{
    unsigned ed = vs_concretize(vs_u("ed", 2, 4, 4));
    std::string m = message(ed, { B(1, 1), B(2, 1) }, 1, false, vs_concretize(vs_u("opt", 0, 1, 0)) ? "opt" : "", std::string("\x02\x40\x60", 3));
    vs_bytes(&m[m.size() - 7], 3, "d");
    unsigned n = vs_concretize(vs_u("n", 0, m.size() - 1, 20));
    ASSERTL(!try_decode(m.substr(0, n)), "a message cut short is refused");
    ASSERTL(try_decode(m.substr(0, n), true) == (n >= m.size() - 4), "a header can be decoded when all sections but the last are there");
    vs_reach("end");
}
// A data section shorter than the data described is refused
HARNESS("C14", short_data, load14)
{
    static const std::vector<Varcode> l[] = { { B(1, 1), B(1, 2) }, { B(12, 101), B(12, 101) }, { B(1, 6) }, { R(1, 3), B(20, 3) }, { C(5, 3) }, { C(6, 20), B(63, 250) }, { B(1, 1), C(22, 0), R(1, 1), B(31, 31), B(33, 7) } };
    static const unsigned bits[] = { 17, 32, 64, 27, 24, 20, 7 + 1 + 7 };
    unsigned k = vs_concretize(vs_u("list", 0, 6, 0)), subsets = vs_concretize(vs_u("subsets", 1, 3, 1));
    unsigned len = vs_concretize(vs_u("len", 0, 25, 2));
    char d[25]; memset(d, 0, 25);
    vs_bytes(d, len < 3 ? len : 3, "d");
    if (k == 6) vs_assume(!(d[0] & 1)); // the bitmap selects the variable
    bool ok = try_decode(message(4, l[k], subsets, false, "", std::string(d, len)));
    if (len * 8 < bits[k] * subsets && (k != 6 || subsets == 1)) ASSERTL(!ok, "missing data is an error");
    vs_reach(ok ? "decoded" : "refused");
}
