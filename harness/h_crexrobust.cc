// C16 any bytes given to the CREX decoder
#include "crex_common.h"

static bool try_decode(const std::string& m, bool header_only = false)
{
    std::string* copy = new std::string();
    copy->reserve(m.size());
    copy->assign(m);
    bool ok = true;
    try
    {
        auto d = header_only ? CrexBulletin::decode_header(*copy, "f", 0) : CrexBulletin::decode(*copy, "f", 0);
    } catch (error&) { ok = false; }
    delete copy;
    return ok;
}
struct Msg { const char* text; unsigned body; };
static const char* const msgs[] = {
    "CREX++\r\r\nT000103 A001 B01001 B00001 R02000 B01002 B12001++\r\r\n 12 abc 0002 034 -123\r\r\n 045 007++\r\r\n7777\r\r\n",
    "CREX++\r\r\nT000103 A001002 B01001 B00001 R02002 B01002 B12001 E++\r\r\n 112 2abc 3034 4-123 5/// 6///+\r\r\n 7-12 8/// 9034 0007 1045 2-001++\r\r\n7777\r\r\n",
    "CREX++\r\r\nT000103 A001 B01001++\r\r\n 12+ 34++\r\r\nSUPP text\r\r\n++\r\r\n7777\r\r\n",
};
static size_t body(const std::string& m) { return m.find("++", 6) + 2; }
static size_t descs(const std::string& m) { return m.find(" B"); }

// Windows of arbitrary characters anywhere after the descriptors
HARNESS("C16", crex_any_data, loadc)
{
    std::string m = msgs[vs_concretize(vs_u("msg", 0, vs_thorough() ? 2 : 1, 0))];
    size_t from = body(m) - 2;
    unsigned pos = vs_concretize(vs_u("pos", from, m.size() - 2, from));
    vs_bytes(&m[pos], vs_thorough() ? 2 : 1, "w");
    bool ok = try_decode(m);
    vs_reach(ok ? "decoded" : "refused");
}
// Pairs of arbitrary characters in the numbers and separators
HARNESS("C16", crex_any_pair, loadc)
{
    std::string m = msgs[vs_thorough() ? vs_concretize(vs_u("msg", 0, 2, 0)) : 1];
    size_t from = body(m);
    unsigned pos = vs_concretize(vs_u("pos", from, m.size() - 3, from));
    unsigned char w[2] = { 'a', 'b' };
    vs_bytes(w, 2, "w");
    // one character of each kind, and any control character or byte above 127
    vs_assume(w[0] == '/' || w[0] == '+' || w[0] == '-' || w[0] == ' ' || (vs_thorough() && (w[0] == 0 || w[0] == '7')));
    m[pos] = (char)vs_concretize(w[0]); m[pos + 1] = w[1];
    vs_reach(try_decode(m) ? "decoded" : "refused");
}
// Any character in the header and in the descriptors
HARNESS("C16", crex_any_header, loadc)
{
    std::string m = msgs[vs_thorough() ? vs_concretize(vs_u("msg", 0, 1, 0)) : 1];
    unsigned pos = vs_concretize(vs_u("pos", 0, body(m) - 1, 9));
    unsigned char w = m[pos];
    vs_bytes(&w, 1, "w");
    if (pos >= 9 && !vs_thorough()) vs_assume((w >= 32 && w < 127) || w == 0 || w == 13 || w >= 254);
    if (pos >= 9) w = vs_concretize(w); // digits of tables and descriptors select containers
    m[pos] = w;
    bool ok = try_decode(m);
    bool h = try_decode(m, true);
    ASSERTL(h | !ok, "what decodes in full has a header that decodes");
    vs_reach(ok ? "decoded" : "refused");
}
// Any way of ending the header
HARNESS("C16", crex_header_end, loadc)
{
    std::string m = msgs[0];
    unsigned n = vs_concretize(vs_u("n", 9, body(m), 20));
    m = m.substr(0, n);
    unsigned k = vs_concretize(vs_u("k", 0, 3, 2));
    char t[3] = { '+', '+', ' ' };
    vs_bytes(t, k, "t");
    static const char cs[] = { '+', 'E', 'B', 'R', 'T', 'A', ' ', '\r', '0', '9', 'x', 0 };
    for (unsigned i = 0; i < k; ++i)
    {
        bool any = false;
        for (char c : cs) any |= t[i] == c;
        vs_assume(any);
        t[i] = (char)vs_concretize((unsigned char)t[i]);
        if (!vs_thorough() && i == 1) break;
    }
    m.append(t, k);
    bool ok = try_decode(m, true);
    ASSERTL(!try_decode(m), "a message cut short is refused");
    vs_reach(ok ? "decoded" : "refused");
}
// Every truncation is refused
HARNESS("C16", crex_truncated, loadc)
{
    unsigned k = vs_concretize(vs_u("msg", 0, 2, 0));
    std::string m = msgs[k];
    size_t b = body(m);
    // any digit in the first value
    unsigned n = vs_concretize(vs_u("n", 0, m.rfind("7777") + 3, 20));
    if (!vs_thorough() && n % 12) ;
    else if (k != 1) { vs_bytes(&m[b + 4], 1, "d"); vs_assume(m[b + 4] >= '0' && m[b + 4] <= '9'); }
    else vs_bytes(&m[b + 9], 1, "d");
    ASSERTL(try_decode(m), "the whole message is decoded");
    ASSERTL(!try_decode(m.substr(0, n)), "a message cut short is refused");
    ASSERTL(try_decode(m.substr(0, n), true) == (n >= b), "a header is decoded when its end is there");
    vs_reach("end");
}
// A wrong check digit is refused
HARNESS("C16", crex_check_digit, loadc)
{
    auto b = mkc();
    b->has_check_digit = true;
    unsigned n = vs_concretize(vs_u("values", 1, 22, 3));
    unsigned missing = vs_concretize(vs_u("missing", 0, 1, 0));
    for (unsigned i = 0; i < n; ++i) b->datadesc.push_back(i % 3 == 1 ? B(0, 1) : B(1, 2));
    auto& s = b->obtain_subset(0);
    for (unsigned i = 0; i < n; ++i)
        if (missing && i % 2) s.store_variable_undef(b->datadesc[i]);
        else if (i % 3 == 1) s.store_variable_c(b->datadesc[i], "abc");
        else s.store_variable_i(b->datadesc[i], (int)i - 5);
    std::string m = b->encode();
    ASSERTL(try_decode(m), "good check digits are accepted");
    unsigned which = vs_concretize(vs_u("which", 0, n - 1, 0));
    // position of the check digit of that value
    size_t p = body(m) + 3;
    for (unsigned i = 0; i <= which; ++i)
    {
        while (m[p] == ' ' || m[p] == '\r' || m[p] == '\n') ++p;
        if (i == which) break;
        while (m[p] != ' ') ++p;
    }
    unsigned char good = m[p];
    ASSERT(good == '0' + (which + 1) % 10);
    vs_bytes(&m[p], 1, "digit");
    // a space is a separator
    vs_assume((unsigned char)m[p] != good && m[p] != ' ' && !(m[p] >= 9 && m[p] <= 13));
    ASSERTL(!try_decode(m), "a wrong check digit is refused");
    vs_reach("end");
}
// Any descriptor
static std::vector<Varcode> crex_any_descriptor_codes;
static void crex_any_descriptor_setup()
{
        auto& r = crex_any_descriptor_codes;
        r.clear();
        auto b = mkc();
        b->tables.btable->iterate([&](Varinfo i) { if (r.empty() || r.back() != i->code) r.push_back(i->code); return true; });
        for (unsigned c = 0xc000; c <= 0xffff; ++c)
            try { b->tables.dtable->query(c); r.push_back(c); } catch (error&) {}
        for (unsigned x : { 0, 1, 2, 3, 4, 63 }) for (unsigned y : { 0, 1, 2, 3, 255 }) r.push_back(R(x, y));
        for (unsigned x : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 22, 23, 24, 36, 37, 63 }) for (unsigned y : { 0, 1, 2, 130, 255 }) r.push_back(C(x, y));
        r.push_back(0); r.push_back(B(63, 255));
}
HARNESS("C16", crex_any_descriptor, crex_any_descriptor_setup)
{
    const auto& codes = crex_any_descriptor_codes;
    unsigned hi = vs_concretize(vs_u("hi", 0, codes.size() / 64, 0)), lo = vs_concretize(vs_u("lo", 0, 63, 1));
    if (hi * 64 + lo >= codes.size()) return;
    Varcode c = codes[hi * 64 + lo];
    char x[80];
    snprintf(x, 80, "CREX++\r\r\nT000103 A001 B01001 %c%02d%03d B01002++\r\r\n 12 ", "BRCD"[WR_VAR_F(c)], WR_VAR_X(c), WR_VAR_Y(c));
    std::string m = x;
    char v[3] = { '0', '0', '1' };
    vs_bytes(v, 1, "v");
    vs_assume(v[0] == '0' || v[0] == '/' || v[0] == '-' || (vs_thorough() && (v[0] == '+' || v[0] == 'a' || v[0] == '9')));
    v[0] = (char)vs_concretize(v[0]);
    m.append(v, 1);
    if (WR_VAR_F(c) == 0)
    {
        auto b = mkc();
        if (b->tables.btable->contains(c)) m += std::string(b->tables.btable->query(c)->len - (v[0] != '-'), v[0] == '/' ? '/' : '1');
        m += " 003++\r\r\n7777";
    }
    else
        m += "01 001 003 1234567890++\r\r\n7777";
    vs_reach(try_decode(m) ? "decoded" : "refused");
}
