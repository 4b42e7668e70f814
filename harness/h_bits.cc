// C01: bit-packed output and input
#include "common.h"
#include <wreport/buffers/bufr.h>
#include <wreport/bufr/input.h>

static inline uint32_t mask(uint32_t v, unsigned n) { return n >= 32 ? v : v & ((1u << n) - 1); }
// reference reader: bit i of the string, most significant bit first
static inline unsigned bit(const std::string& s, unsigned i) { return ((unsigned char)s[i / 8] >> (7 - i % 8)) & 1; }
static uint32_t ref_bits(const std::string& s, unsigned pos, unsigned n)
{
    uint32_t r = 0;
    for (unsigned i = 0; i < n; ++i) r = (r << 1) | bit(s, pos + i);
    return r;
}

// prefix of a..7 bits, then two fields of any width and value
HARNESS("C01", bits_roundtrip, nullptr)
{
    unsigned n0 = vs_u("n0", 1, 8, 3), n1 = vs_u("n1", 1, 32, 5);
    n0 = vs_concretize(n0); n1 = vs_concretize(n1);
    uint32_t v0 = vs_u("v0", 0, 0xffffffff, 0), v1 = vs_u("v1", 0, 0xffffffff, 0), v2 = vs_u("v2", 0, 0xffffffff, 0);
    std::string buf;
    buffers::BufrOutput out(buf);
    out.add_bits(v0, n0); out.add_bits(v1, n1); out.add_bits(v2, 13);
    out.flush();
    ASSERT(buf.size() == (n0 + n1 + 13 + 7) / 8);
    ASSERT(ref_bits(buf, 0, n0) == mask(v0, n0));
    ASSERT(ref_bits(buf, n0, n1) == mask(v1, n1));
    ASSERT(ref_bits(buf, n0 + n1, 13) == mask(v2, 13));
    for (unsigned i = n0 + n1 + 13; i < buf.size() * 8; ++i) ASSERT(bit(buf, i) == 0);
    bufr::Input in(buf);
    ASSERT(in.get_bits(n0) == mask(v0, n0));
    ASSERT(in.get_bits(n1) == mask(v1, n1));
    ASSERT(in.get_bits(13) == mask(v2, 13));
    vs_reach("end");
}

// 8, 16 and 32 bit fields through their own entry points, unaligned
HARNESS("C01", bits_fixed, nullptr)
{
    unsigned n0 = vs_concretize(vs_u("n0", 1, 8, 3));
    uint32_t v0 = vs_u("v0", 0, 255, 0), a = vs_u("a", 0, 0xffffffff, 1), b = vs_u("b", 0, 0xffff, 2), c = vs_u("c", 0, 0xff, 3);
    unsigned char raw[3]; for (unsigned i = 0; i < 3; ++i) raw[i] = vs_u(i == 0 ? "r0" : i == 1 ? "r1" : "r2", 0, 255, 'x');
    std::string buf("HD");
    buffers::BufrOutput out(buf);
    out.add_bits(v0, n0);
    out.add_bits(a, 32);
    out.append_short(b);
    out.append_byte(c);
    out.raw_append((const char*)raw, 0);
    out.flush();
    ASSERT(buf.size() == 2 + (n0 + 56 + 7) / 8);
    ASSERT(buf[0] == 'H' && buf[1] == 'D');
    ASSERT(ref_bits(buf, 16 + n0, 32) == a);
    ASSERT(ref_bits(buf, 48 + n0, 16) == b);
    ASSERT(ref_bits(buf, 64 + n0, 8) == c);
    out.raw_append((const char*)raw, 3);
    ASSERT(buf.size() == 5 + (n0 + 56 + 7) / 8);
    ASSERT((unsigned char)buf[buf.size() - 1] == raw[2] && (unsigned char)buf[buf.size() - 3] == raw[0]);
    vs_reach("end");
}

// what append_* lays out for values of every type, unaligned
static _Varinfo make_string(unsigned len) { _Varinfo i; i.set_string(WR_VAR(0, 1, 15), "text", len); return i; }
HARNESS("C01", bits_values, nullptr)
{
    unsigned n0 = vs_concretize(vs_u("n0", 1, 8, 3));
    uint32_t v0 = vs_u("v0", 0, 255, 0);
    unsigned kind = vs_concretize(vs_u("kind", 0, 4, 0));
    std::string buf;
    buffers::BufrOutput out(buf);
    out.add_bits(v0, n0);
    if (kind == 0)
    {
        // text of length 0..4 in a field of 3 characters: space padded or cut
        char txt[5]; memcpy(txt, "abcd", 5);
        vs_bytes(txt, 4, "txt");
        out.append_string(txt, 24);
        out.add_bits(5, 3);
        out.flush();
        bool ended = false;
        for (unsigned i = 0; i < 3; ++i)
        {
            if (!txt[i]) ended = true;
            ASSERT(ref_bits(buf, n0 + i * 8, 8) == (ended ? ' ' : (unsigned char)txt[i]));
        }
        ASSERT(ref_bits(buf, n0 + 24, 3) == 5);
        vs_reach("string");
    }
    else if (kind == 1)
    {
        // missing markers of any width: all ones
        unsigned w = vs_concretize(vs_u("w", 1, 72, 9));
        out.append_missing(w);
        out.add_bits(0, 1);
        out.flush();
        ASSERT(buf.size() == (n0 + w + 1 + 7) / 8);
        for (unsigned i = 0; i < w; ++i) ASSERT(bit(buf, n0 + i) == 1);
        ASSERT(bit(buf, n0 + w) == 0);
        vs_reach("missing");
    }
    else if (kind == 2)
    {
        // opaque binary of any number of bits up to 24
        unsigned w = vs_concretize(vs_u("w", 1, 24, 12));
        unsigned char raw[3]; memcpy(raw, "xyz", 3);
        vs_bytes(raw, 3, "raw");
        out.append_binary(raw, w);
        out.add_bits(1, 2);
        out.flush();
        ASSERT(buf.size() == (n0 + w + 2 + 7) / 8);
        unsigned rem = w % 8, k = 0;
        for (; k < w / 8; ++k) ASSERT(ref_bits(buf, n0 + k * 8, 8) == raw[k]);
        if (rem) ASSERT(ref_bits(buf, n0 + k * 8, rem) == mask(raw[k], rem));
        ASSERT(ref_bits(buf, n0 + w, 2) == 1);
        vs_reach("binary");
    }
    else if (kind == 3)
    {
        // a variable, then what the input side makes of it
        _Varinfo info; info.set_bufr(WR_VAR(0, 12, 101), "t", "K", 2, 5, -1000, 16);
        int v = vs_i("v", info.imin, info.imax, 100);
        Var var(&info, v);
        out.append_var(&info, var);
        out.flush();
        ASSERT(ref_bits(buf, n0, 16) == (uint32_t)(v + 1000));
        bufr::Input in(buf);
        in.skip_bits(n0);
        Var r(&info);
        in.decode_number(r);
        ASSERT(r.isset() && r.enqi() == v);
        vs_reach("number");
    }
    else
    {
        _Varinfo info = make_string(3);
        char txt[4]; memcpy(txt, "ab ", 4);
        vs_bytes(txt, 3, "txt");
        Var var(&info, txt);
        out.append_var(&info, var);
        out.flush();
        bufr::Input in(buf);
        in.skip_bits(n0);
        Var r(&info);
        in.decode_string(r);
        // trailing white space is not significant (the first character is
        // always kept), and an all-ones field is missing
        auto blank = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
        unsigned l = strlen(txt);
        char exp[4] = "   "; memcpy(exp, txt, l); l = 3;
        while (l > 1 && blank(exp[l - 1])) --l;
        bool ones = (unsigned char)txt[0] == 0xff && (unsigned char)txt[1] == 0xff && (unsigned char)txt[2] == 0xff;
        ASSERT(r.isset() == !ones);
        if (r.isset())
        {
            ASSERT(strlen(r.enqc()) == l);
            for (unsigned i = 0; i < l; ++i) ASSERT(r.enqc()[i] == exp[i]);
            vs_reach("text");
        }
    }
    vs_reach("end");
}

// reading: every cursor position, width and buffer length
HARNESS("C01", bits_read_bounds, nullptr)
{
    unsigned len = vs_concretize(vs_u("len", 0, vs_thorough() ? 6 : 4, 4));
    unsigned skip = vs_concretize(vs_u("skip", 0, vs_thorough() ? 56 : 36, 9));
    unsigned n = vs_concretize(vs_u("n", 1, 32, 12));
    // exactly sized heap block, so that any access outside is an ASan error
    std::unique_ptr<char[]> mem(new char[len ? len : 1]);
    memset(mem.get(), 'a', len ? len : 1);
    vs_bytes(mem.get(), len, "data");
    std::string data(mem.get(), len);
    bufr::Input in(data);
    bool threw = false;
    try { in.skip_bits(skip); } catch (error_parse&) { threw = true; }
    ASSERTL(threw == (skip > len * 8), "skipping past the end is an error, skipping within is not");
    if (threw) { vs_reach("skip-eof"); return; }
    ASSERT(in.bits_left() == len * 8 - skip);
    uint32_t v = 0;
    try { v = in.get_bits(n); } catch (error_parse&) { threw = true; }
    ASSERTL(threw == (skip + n > len * 8), "reading past the end is an error, reading within is not");
    if (threw) { vs_reach("read-eof"); return; }
    ASSERT(v == ref_bits(data, skip, n));
    ASSERT(in.bits_left() == len * 8 - skip - n);
    vs_reach("read");
}
