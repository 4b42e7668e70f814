// C17 finding messages in a stream
#include "common.h"
#include <wreport/bulletin.h>
#include <cstdio>
#include <cstring>
using namespace wreport;

namespace {
struct Found { size_t off; std::string data; };
// The messages of a BUFR stream, from the definition: each one starts at the
// first "BUFR" after the end of the previous one and is as long as it says
enum End { AT_END, CUT, TOO_SHORT };
End ref_bufr(const std::string& s, size_t pos, Found& f)
{
    for (size_t i = pos; i + 4 <= s.size(); ++i)
    {
        if (!((s[i] == 'B') & (s[i + 1] == 'U') & (s[i + 2] == 'F') & (s[i + 3] == 'R'))) continue;
        f.off = i;
        if (i + 8 > s.size()) return CUT;
        unsigned len = ((unsigned char)s[i + 4] << 16) | ((unsigned char)s[i + 5] << 8) | (unsigned char)s[i + 6];
        if (len < 12) return TOO_SHORT;
        if (len > s.size() - i) return CUT;
        f.data = s.substr(i, vs_concretize(len));
        return (End)-1;
    }
    return AT_END;
}
bool nl(char c) { return (c == '\r') | (c == '\n'); }
// Where the first end mark ends at or after pos: ++, one or more line ends, 7777
bool ref_crex_end(const std::string& s, size_t pos, size_t& end)
{
    for (size_t i = pos; i + 2 <= s.size(); ++i)
    {
        if (!((s[i] == '+') & (s[i + 1] == '+'))) continue;
        size_t j = i + 2;
        while (j < s.size() && nl(s[j])) ++j;
        if (j == i + 2 || j + 4 > s.size()) continue;
        if ((s[j] == '7') & (s[j + 1] == '7') & (s[j + 2] == '7') & (s[j + 3] == '7')) { end = j + 4; return true; }
    }
    return false;
}
End ref_crex(const std::string& s, size_t pos, Found& f)
{
    for (size_t i = pos; i + 6 <= s.size(); ++i)
    {
        if (!((s[i] == 'C') & (s[i + 1] == 'R') & (s[i + 2] == 'E') & (s[i + 3] == 'X') & (s[i + 4] == '+') & (s[i + 5] == '+'))) continue;
        f.off = i;
        size_t e;
        if (!ref_crex_end(s, i + 6, e)) return CUT;
        f.data = s.substr(i, e - i);
        return (End)-1;
    }
    return AT_END;
}
template<typename B, typename R> void check(std::string& s, R ref)
{
    const char* path = vs_file("stream", &s[0], s.size());
    FILE* in = fopen(path, "rb");
    size_t pos = 0;
    for (unsigned n = 0; n < 4; ++n)
    {
        Found f;
        End e = ref(s, pos, f);
        std::string got;
        off_t off = -7;
        if (vs_thorough() || n == 0) got = "previous";
        bool with_off = n != 1;
        try
        {
            bool r = B::read(in, got, n == 2 ? nullptr : "file", with_off ? &off : nullptr);
            if (e == AT_END) { ASSERTL(!r, "the end of the file is reported"); vs_reach("end-of-file"); break; }
            ASSERTL(r, "a message is found");
            ASSERTL(e == (End)-1, "messages cut short or with an impossible length are refused");
            if (with_off) ASSERTL((size_t)off == f.off, "the offset is where the message begins");
            ASSERTL(got.size() == f.data.size(), "the message has its own length");
            for (size_t i = 0; i < got.size(); ++i) ASSERTL(got[i] == f.data[i], "the message has its own bytes");
            pos = f.off + f.data.size();
            vs_reach(n ? "next" : "message");
        } catch (error&) { ASSERTL(e == CUT || e == TOO_SHORT, "whole messages are returned"); vs_reach("refused"); break; }
    }
    fclose(in);
}
}

// Any bytes before a message, between two and after
HARNESS("C17", stream_bufr_around, nullptr)
{
    std::string s;
    unsigned n = vs_concretize(vs_u("before", 0, vs_thorough() ? 24 : 12, 5));
    s.resize(n, 'B');
    vs_bytes(&s[0], n, "b");
    // lengths are arbitrary in stream_bufr_length
    for (unsigned i = 0; i + 4 <= n; ++i) vs_assume(!((s[i] == 'B') & (s[i + 1] == 'U') & (s[i + 2] == 'F') & (s[i + 3] == 'R')));
    s += "BUFR";
    s += std::string("\0\0\x0d\4", 4);
    s += "hello";
    size_t k = s.size();
    unsigned m = vs_concretize(vs_u("between", 0, vs_thorough() ? 8 : 4, 2));
    s.resize(k + m, 'B');
    if (m) vs_bytes(&s[k], m, "m");
    s += std::string("BUFR\0\0\x0c\3BUFR", 12);
    s += "BUF";
    check<BufrBulletin>(s, ref_bufr);
}
// Near misses of the start mark: any text of letters of the mark
HARNESS("C17", stream_bufr_marks, nullptr)
{
    std::string s;
    unsigned n = vs_thorough() ? 24 : 14;
    s.resize(n, 'U');
    vs_bytes(&s[0], n, "b");
    // lengths are arbitrary in stream_bufr_length
    for (unsigned i = 0; i + 4 < n; ++i) vs_assume(!((s[i] == 'B') & (s[i + 1] == 'U') & (s[i + 2] == 'F') & (s[i + 3] == 'R')));
    s += std::string("\0\0\x0c\4hell", 8);
    check<BufrBulletin>(s, ref_bufr);
}
// Any length
HARNESS("C17", stream_bufr_length, nullptr)
{
    std::string s = "x";
    s += "BUFR";
    size_t k = s.size();
    s += std::string("\0\0\x0d\4", 4);
    static const unsigned char high[] = { 0, 1, 128, 255 };
    s[k] = (char)high[vs_concretize(vs_u("high", 0, 3, 0))];
    s[k + 1] = (char)high[vs_concretize(vs_u("mid", 0, 3, 0))];
    vs_bytes(&s[k + 2], 1, "low");
    if (s[k] | s[k + 1]) s[k + 2] = (char)vs_concretize((unsigned char)s[k + 2] & 0x81);
    vs_bytes(&s[k + 3], 1, "edition");
    unsigned m = vs_concretize(vs_u("rest", 0, vs_thorough() ? 40 : 9, 5));
    for (unsigned i = 0; i < m; ++i) s += "BUFR"[i % 4];
    check<BufrBulletin>(s, ref_bufr);
}
// Every truncation of a stream of two messages
HARNESS("C17", stream_bufr_cut, nullptr)
{
    std::string s = std::string("ab") + std::string("BUFR\0\0\x0e\4" "012345", 14) + "\r\n" + std::string("BUFR\0\0\x10\4", 8) + "98765432";
    vs_bytes(&s[10], 3, "d");
    unsigned n = vs_concretize(vs_u("n", 0, s.size(), 20));
    s.resize(n);
    check<BufrBulletin>(s, ref_bufr);
}
HARNESS("C17", stream_crex_around, nullptr)
{
    std::string s;
    unsigned n = vs_concretize(vs_u("before", 0, vs_thorough() ? 12 : 8, 5));
    s.resize(n, 'C');
    vs_bytes(&s[0], n, "b");
    s += "CREX++\r\nT++\r\n7777";
    size_t k = s.size();
    unsigned m = vs_concretize(vs_u("between", 0, vs_thorough() ? 4 : 3, 2));
    s.resize(k + m, 'C');
    if (m) vs_bytes(&s[k], m, "m");
    s += "CREX++++\n7777CREX+";
    check<CrexBulletin>(s, ref_crex);
}
// Near misses of the end mark: any text over the characters of the mark
HARNESS("C17", stream_crex_end, nullptr)
{
    std::string s = "CREX++";
    unsigned n = vs_concretize(vs_u("n", 0, vs_thorough() ? 9 : 7, 5));
    size_t k = s.size();
    s.resize(k + n, '+');
    if (n) vs_bytes(&s[k], n, "e");
    for (unsigned i = 0; i < n; ++i) vs_assume((s[k + i] == '+') | (s[k + i] == '\r') | (s[k + i] == '\n') | (s[k + i] == '7') | (s[k + i] == 'x'));
    unsigned tail = vs_concretize(vs_u("tail", 0, 3, 1));
    s += tail == 0 ? "" : tail == 1 ? "\r\r\n7777" : tail == 2 ? "++\n\n7777" : "7777";
    check<CrexBulletin>(s, ref_crex);
}
HARNESS("C17", stream_crex_cut, nullptr)
{
    std::string s = "abCREX++\r\r\nT000103 A001 B01001++\r\r\n 12++\r\r\n7777\r\nCREX++\nT++\n7777";
    vs_bytes(&s[20], 2, "d");
    unsigned n = vs_concretize(vs_u("n", 0, s.size(), 20));
    s.resize(n);
    check<CrexBulletin>(s, ref_crex);
}
// A message that cannot be written whole is reported
HARNESS("C17", stream_write_short, nullptr)
{
    unsigned room = vs_concretize(vs_u("room", 1, 30, 10)), size = vs_thorough() ? vs_concretize(vs_u("size", 12, 24, 16)) : 12 + 4 * vs_concretize(vs_u("size", 0, 3, 1));
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0)), named = vs_concretize(vs_u("named", 0, 1, 0));
    std::string m(size, 'x');
    char mem[64] = "";
    FILE* out = fmemopen(mem, room, "w");
    setvbuf(out, nullptr, _IONBF, 0);
    bool threw = false;
    try { if (crex) CrexBulletin::write(m, out, named ? "f" : nullptr); else BufrBulletin::write(m, out, named ? "f" : nullptr); } catch (error_system&) { threw = true; }
    fclose(out);
    if (size > room) ASSERTL(threw, "a message that does not fit is reported");
    if (size + 4 <= room) ASSERTL(!threw && !memcmp(mem, m.data(), size), "a message that fits is written");
    vs_reach(threw ? "refused" : "written");
}
// What is written is what is read
HARNESS("C17", stream_write, nullptr)
{
    std::string room(64, '#');
    const char* path = vs_file("out", &room[0], room.size());
    FILE* out = fopen(path, "r+b");
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    std::string m = crex ? "CREX++\r\nTabc++\r\n7777" : std::string("BUFR\0\0\x10\4abcd7777", 16);
    vs_bytes(&m[crex ? 9 : 8], 3, "d");
    for (int i = 0; i < 2; ++i)
        if (crex) CrexBulletin::write(m, out, i ? nullptr : "f"); else BufrBulletin::write(m, out, i ? nullptr : "f");
    rewind(out);
    for (int i = 0; i < 2; ++i)
    {
        std::string got;
        bool r = crex ? CrexBulletin::read(out, got, "f") : BufrBulletin::read(out, got, "f");
        ASSERTL(r, "what is written is read");
        ASSERT(got.size() == m.size());
        for (size_t j = 0; j < m.size(); ++j) ASSERTL(got[j] == m[j], "messages are written byte for byte");
    }
    fclose(out);
    vs_reach("end");
}
