// C10, C29 every decoded message can be encoded again, and printed
#include "crex_common.h"
#include <wreport/bulletin/dds-scanfeatures.h>
#include <wreport/bulletin/interpreter.h>
#include <functional>

// Descriptor lists that use each feature
static const std::vector<std::vector<Varcode>>& lists()
{
    static const std::vector<std::vector<Varcode>> l = {
        { B(1, 1), B(12, 101), B(1, 6) },
        { D(1, 1), B(20, 3), R(2, 2), B(1, 1), B(2, 1) },
        { R(1, 0), B(31, 0), B(2, 1) },
        { R(1, 0), B(31, 1), B(1, 2), B(2, 1) },
        { R(3, 0), B(31, 1), R(1, 0), B(31, 0), B(1, 1) },
        { C(4, 4), B(31, 21), B(1, 1), B(20, 3), C(4, 0), B(2, 1) },
        { C(3, 12), B(10, 4), C(3, 255), B(10, 4), C(3, 0), B(10, 4) },
        { C(6, 9), B(63, 250), B(1, 1) },
        { C(5, 2), B(1, 1) },
        { C(1, 129), C(2, 130), B(12, 101), C(1, 0), C(2, 0), B(5, 1) },
        { C(7, 2), B(12, 101), C(7, 0), C(8, 2), B(1, 6), C(8, 0), B(1, 1) },
        { B(1, 1), B(2, 1), C(22, 0), R(1, 2), B(31, 31), B(1, 31), R(1, 2), B(33, 7) },
        { B(1, 1), B(2, 1), C(22, 0), C(36, 0), R(1, 0), B(31, 1), B(31, 31), R(1, 0), B(31, 1), B(33, 7) },
        { B(1, 1), B(2, 1), C(23, 0), R(1, 2), B(31, 31), R(1, 0), B(31, 1), C(23, 255) },
        { B(1, 1), C(22, 0), C(36, 0), R(1, 1), B(31, 31), B(33, 7), C(22, 0), C(37, 0), B(33, 3), C(37, 255) },
    };
    return l;
}

static void print_setup() { load14(); }

// Whatever decodes can be printed in all the ways there are
static void any_print(bool compressed)
{
    unsigned n = vs_concretize(vs_u("list", 0, lists().size() - 1, 0));
    bool bitmap = n >= 11;
    std::string d = compressed ? std::string(16, 0) : std::string("\x02\x81\x04\x20\x01\x10\x41\x02\x00\x00\x00\x00", 12);
    unsigned pos = vs_concretize(vs_u("pos", 0, vs_thorough() ? 6 : 2, 0));
    unsigned char w[2] = { 2, 0x81 };
    vs_bytes(w, 2, "w");
    if (bitmap) { w[1] = 0x40; vs_assume((w[0] & 0x18) == 0); w[0] = vs_concretize(w[0]); }
    d[pos] = w[0]; d[pos + 1] = w[1];
    unsigned subsets = vs_concretize(vs_u("subsets", 1, 2, 1));
    std::string m = message(4, lists()[n], subsets, compressed, "", d);
    std::unique_ptr<BufrBulletin> b;
    try { b = BufrBulletin::decode(m, "f", 0); } catch (error&) { }
    FILE* out = fopen("/dev/null", "w");
    std::unique_ptr<BufrBulletin> v;
    try { v = BufrBulletin::decode_verbose(m, out, "f", 0); } catch (error&) { }
    ASSERTL(!!b == !!v, "the verbose decoder accepts what the decoder accepts");
    if (!b) { fclose(out); vs_reach("refused"); return; }
    same_subsets(*b, *v);
    try { b->print(out); } catch (error&) { ASSERTL(0, "print"); }
    try { b->print_structured(out); } catch (error&) { ASSERTL(0, "print_structured"); }
    try { b->print_datadesc(out, 1); } catch (error&) { ASSERTL(0, "print_datadesc"); }
    bulletin::ScanFeatures scan(b->tables, b->datadesc);
    try { scan.run(); } catch (error&) { ASSERTL(0, "ScanFeatures"); }
    fclose(out);
    same_subsets(*b, *v);
    vs_reach("end");
}
HARNESS("C29", print_any, print_setup) { any_print(false); }
HARNESS("C29", print_any_compressed, print_setup) { any_print(true); }

// What is printed is what the bulletin holds
static std::string printed(std::function<void(FILE*)> f)
{
    char* p = nullptr; size_t size = 0;
    FILE* out = open_memstream(&p, &size);
    bool ok = true;
    try { f(out); } catch (error&) { ok = false; }
    fclose(out);
    std::string res(p, size);
    free(p);
    ASSERTL(ok, "everything decoded can be printed");
    return res;
}
static std::string line(const Var& v)
{
    char buf[200];
    snprintf(buf, sizeof buf, "%d%02d%03d %.64s(%s): ", WR_VAR_FXY(v.code()), v.info()->desc, v.info()->unit);
    return buf + v.format("(undef)") + "\n";
}
static std::string lines(const Var& v)
{
    std::string s = line(v);
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) s += "           " + line(*a);
    return s;
}
static void same_print(const Bulletin& b)
{
    std::string plain = printed([&](FILE* out) { b.print(out); }), want;
    for (unsigned i = 0; i < b.subsets.size(); ++i)
        for (unsigned j = 0; j < b.subsets[i].size(); ++j)
        {
            char lead[40];
            snprintf(lead, sizeof lead, "  [%u][%u] ", i, j);
            want += lead + lines(b.subsets[i][j]);
        }
    size_t at = plain.find(" Variables:\n");
    ASSERT(at != std::string::npos);
    ASSERTL(plain.substr(at + 12) == want, "each variable is listed, with its attributes, in its place");

    // The structured listing has the same variables, in the same order
    std::string structured = printed([&](FILE* out) { b.print_structured(out); });
    at = structured.find(" Variables:\n");
    ASSERT(at != std::string::npos && structured.substr(0, at) == plain.substr(0, plain.find(" Variables:\n")));
    at += 12;
    for (unsigned i = 0; i < b.subsets.size(); ++i)
        for (unsigned j = 0; j < b.subsets[i].size(); ++j)
        {
            std::string l = lines(b.subsets[i][j]);
            at = structured.find(l, at);
            ASSERTL(at != std::string::npos, "each variable is in the structured listing");
            at += l.size();
        }
    // The descriptors as well, in the header
    at = 0;
    for (auto c : b.datadesc)
    {
        char l[20];
        snprintf(l, sizeof l, "  %d%02d%03d\n", WR_VAR_FXY(c));
        at = plain.find(l, at);
        ASSERTL(at != std::string::npos, "each descriptor is listed");
        at += strlen(l);
    }
    // and one line for each operator in the description of the descriptors
    std::string desc = printed([&](FILE* out) { b.print_datadesc(out, 2); });
    at = 0;
    for (auto c : b.datadesc)
    {
        // delayed replication factors are on the line of the replication, that of bitmaps is left out
        if (WR_VAR_F(c) == 1 || WR_VAR_X(c) == 31) continue;
        char l[20];
        snprintf(l, sizeof l, "%d%02d%03d", WR_VAR_FXY(c));
        at = desc.find(l, at);
        ASSERTL(at != std::string::npos, "each descriptor is described");
        at += strlen(l);
    }
    bulletin::ScanFeatures scan(b.tables, b.datadesc);
    bool ok = true;
    try { scan.run(); } catch (error&) { ok = false; }
    ASSERTL(ok, "the features are found");
    for (unsigned i = 0; i < b.datadesc.size(); ++i)
    {
        Varcode c = b.datadesc[i];
        if (WR_VAR_F(c) != 2) continue;
        char l[20];
        if (WR_VAR_X(c) == 6) snprintf(l, sizeof l, "C%02d%03d:B%02d%03d", WR_VAR_X(c), WR_VAR_Y(c), WR_VAR_X(b.datadesc[i + 1]), WR_VAR_Y(b.datadesc[i + 1]));
        else snprintf(l, sizeof l, "C%02d%03d", WR_VAR_X(c), WR_VAR_Y(c));
        ASSERTL(scan.features.count(l) == 1, "each operator is a feature");
    }
}
HARNESS("C29", print_text, print_setup)
{
    unsigned n = vs_concretize(vs_u("list", 0, lists().size() - 1, 0));
    bool compressed = vs_concretize(vs_u("compressed", 0, 1, 0));
    unsigned subsets = vs_concretize(vs_u("subsets", 1, 2, 1));
    static const char* datas[] = { "\x02\x81\x04\x20\x01\x10\x41\x02\0\0\0\0\0\0\0\0\0\0\0\0\0", "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x01\x22\x43\x64\x05\x26\x47\x68\x09\x2a\x4b\x6c\x0d\x2e\x4f\x60\x01\x22\x43\x64" };
    std::string d(datas[vs_concretize(vs_u("data", 0, 3, 0))], 20);
    unsigned pos = vs_concretize(vs_u("pos", 0, vs_thorough() ? 8 : 2, 0));
    d[pos] = vs_concretize(vs_u("w", 0, vs_thorough() ? 255 : 15, 4)) * (vs_thorough() ? 1 : 17);
    std::string m = message(4, lists()[n], subsets, compressed, "", d);
    std::unique_ptr<BufrBulletin> b;
    try { b = BufrBulletin::decode(m, "f", 0); } catch (error&) { vs_reach("refused"); return; }

    same_print(*b);
    vs_reach("end");
}

// Texts end at the first zero: one cannot be encoded again, and what is before it may end in spaces
static bool whole_texts(const Bulletin& b)
{
    for (const auto& s : b.subsets)
        for (const auto& v : s)
        {
            if (!v.isset() || v.info()->type != Vartype::String || WR_VAR_F(v.code()) == 2 && WR_VAR_X(v.code()) != 5) continue;
            const char* t = v.enqc();
            size_t len = strlen(t);
            if (WR_VAR_F(v.code()) == 2) { if (len != v.info()->len) return false; }
            else if (!len || (len > 1 && isspace((unsigned char)t[len - 1]))) return false;
        }
    return true;
}
// Whatever decodes can be encoded, and decodes to the same again
static void reencode(bool compressed)
{
    unsigned n = vs_concretize(vs_u("list", 0, lists().size(), 0));
    static const std::vector<Varcode> more = { B(10, 4), C(3, 12), B(10, 4), C(3, 255), B(10, 4), C(3, 0), B(10, 4) };
    const auto& l = n < lists().size() ? lists()[n] : more;
    bool bitmap = n >= 11;
    std::string d = compressed ? std::string(16, 0) : std::string("\x02\x81\x04\x20\x01\x10\x41\x02\x00\x00\x00\x00", 12);
    if (n == 0 && !compressed) d = "ABCDEFGHIJKLMNOPQRSTUVWX";
    unsigned pos = vs_concretize(vs_u("pos", 0, vs_thorough() ? 6 : 2, 0));
    unsigned char w[2] = { 2, 0x81 };
    vs_bytes(w, 2, "w");
    if (bitmap && n < lists().size()) { w[1] = 0x40; vs_assume((w[0] & 0x18) == 0); w[0] = vs_concretize(w[0]); }
    d[pos] = w[0]; d[pos + 1] = w[1];
    unsigned subsets = vs_concretize(vs_u("subsets", 1, 2, 1));
    std::string m = message(4, l, subsets, compressed, "", d);
    std::unique_ptr<BufrBulletin> b;
    try { b = BufrBulletin::decode(m, "f", 0); } catch (error&) { vs_reach("refused"); return; }
    if (!whole_texts(*b)) { vs_reach("zeros"); return; }
    std::string buf;
    bool ok = true;
    try { buf = b->encode(); } catch (error&) { ok = false; }
    ASSERTL(ok, "what is decoded can be encoded");
    std::unique_ptr<BufrBulletin> b2;
    try { b2 = BufrBulletin::decode(buf, "f", 0); } catch (error&) { ok = false; }
    ASSERTL(ok, "what is encoded can be decoded");
    same_subsets(*b, *b2);
    vs_reach("end");
}
HARNESS("C10", reencode_any, print_setup) { reencode(false); }
HARNESS("C10", reencode_any_compressed, print_setup) { reencode(true); }

// The same for CREX: one character anywhere in the data replaced by each of these
static std::string any_crex()
{
    static const char* const msgs[] = {
        "CREX++\r\r\nT000103 A001 B01001 B00001 R02000 B01002 B12001++\r\r\n 12 abc 0002 034 -123 045 007++\r\r\n7777\r\r\n",
        "CREX++\r\r\nT000103 A001002 B01001 B00001 R02002 B01002 B12001 E++\r\r\n 112 2abc 3034 4-123 5/// 6///+\r\r\n 7-12 8/// 9034 0007 1045 2-001++\r\r\n7777\r\r\n",
        "CREX++\r\r\nT000103 A001 B01001 D07004 B12001++\r\r\n 12 34 045 12345 -12345 1 123456 123 123+ 01++\r\r\n7777\r\r\n",
    };
    static const char w[] = "0159-/+ aE\r\n";
    std::string m = msgs[vs_concretize(vs_u("msg", 0, 2, 0))];
    size_t from = m.find("++", 6) + 2;
    unsigned pos = vs_concretize(vs_u("pos", from, m.size() - 14, from));
    m[pos] = w[vs_concretize(vs_u("w", 0, 11, 1))];
    if (vs_thorough()) m[pos + 1] = w[vs_concretize(vs_u("w1", 0, 11, 1))];
    return m;
}
HARNESS("C15", crex_reencode, loadc)
{
    std::string m = any_crex();
    std::unique_ptr<CrexBulletin> b, b2;
    try { b = CrexBulletin::decode(m, "f", 0); } catch (error&) { vs_reach("refused"); return; }
    std::string buf;
    bool ok = true;
    try { buf = b->encode(); } catch (error&) { ok = false; }
    ASSERTL(ok, "what is decoded can be encoded");
    try { b2 = CrexBulletin::decode(buf, "f", 0); } catch (error&) { ok = false; }
    ASSERTL(ok, "what is encoded can be decoded");
    same_subsets(*b, *b2);
    vs_reach("end");
}
HARNESS("C29", print_crex, loadc)
{
    std::string m = any_crex();
    std::unique_ptr<CrexBulletin> b, v;
    try { b = CrexBulletin::decode(m, "f", 0); } catch (error&) { }
    std::string verbose = printed([&](FILE* out) { try { v = CrexBulletin::decode_verbose(m, out, "f", 0); } catch (error&) { } });
    ASSERTL(!!b == !!v, "the verbose decoder accepts what the decoder accepts");
    if (!b) { vs_reach("refused"); return; }
    same_subsets(*b, *v);
    same_print(*b);
    vs_reach("end");
}
