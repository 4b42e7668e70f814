// C18 table lookups, C19 table files
#include "common.h"
#include <wreport/dtable.h>
#include <wreport/tables.h>
#include <algorithm>
#include <cstdlib>
#include <fstream>
using namespace wreport;

namespace {
std::string repo_tables() { const char* p = getenv("WREPORT_TABLES"); return p ? p : "/repo/tables"; }

struct Line
{
    std::string s;
    Line(bool crex = false) : s(crex ? 157 : 118, ' ')
    {
        s[1] = '0';
        code("12001");
        text(8, "TEMPERATURE");
        text(73, "K");
        right(98, 3, "1"); right(102, 12, "0"); right(115, 3, "12");
        if (crex) { text(119, "C"); right(143, 6, "1"); right(149, 7, "3"); }
    }
    void text(unsigned p, const char* t) { while (*t) s[p++] = *t++; }
    void code(const char* t) { text(2, t); }
    void right(unsigned p, unsigned w, const char* t) { size_t n = strlen(t); for (unsigned i = 0; i < w; ++i) s[p + i] = ' '; for (size_t i = 0; i < n; ++i) s[p + w - n + i] = t[i]; }
    std::string str() const { return s + "\n"; }
};
unsigned dig(char c) { return (unsigned)(c - '0'); }
// two symbolic digits
void digits(char* p, unsigned n, const char* name) { vs_bytes(p, n, name); for (unsigned i = 0; i < n; ++i) vs_assume((p[i] >= '0') & (p[i] <= '9')); }
bool space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }

// text field: up to trailing white space, or one less than the room for it
void same_field(const char* got, unsigned size, const std::string& raw, unsigned pos, const char* what)
{
    bool rest = true; // everything after this is white space
    for (int i = (int)size - 1; i >= 0; --i)
    {
        rest = rest & space(raw[pos + i]);
        if (i == (int)size - 1) ASSERTL(got[i] == 0, "texts are terminated");
        else ASSERTL(got[i] == (rest ? 0 : raw[pos + i]), what);
    }
}
const char* const bunits[] = { "K", "CCITTIA5", "CODE TABLE 0 01 001", "FLAGTABLE 12", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "CODE TABLE", "FLAG TABLE", "CCITTIA", "CODE" };
const char* const bunits_out[] = { "K", "CCITTIA5", "CODE TABLE", "FLAG TABLE", "ABCDEFGHIJKLMNOPQRSTUVW", "CODE TABLE", "FLAG TABLE", "CCITTIA", "CODE" };
}

// Every field of a BUFR B table line
HARNESS("C19", tab_bufr_fields, nullptr)
{
    Line l;
    char code[6] = "12001";
    bool any_code = vs_concretize(vs_u("any_code", 0, 1, 0));
    if (any_code) digits(code, 5, "code");
    unsigned x = dig(code[0]) * 10 + dig(code[1]), y = dig(code[2]) * 100 + dig(code[3]) * 10 + dig(code[4]);
    l.code(code);
    unsigned u = any_code ? 0 : vs_concretize(vs_u("unit", 0, 8, 0));
    char unit[25] = {}; strncpy(unit, bunits[u], 24);
    l.s[73] = ' '; l.text(73, unit);
    static const struct { const char* t; int v; } scales[] = { { "0", 0 }, { "1", 1 }, { "-1", -1 }, { "-20", -20 }, { "12", 12 }, { "- 2", -2 }, { "-10", -10 } };
    auto& sc = scales[u == 0 && !any_code ? vs_concretize(vs_u("scale", 0, 6, 0)) : 0];
    l.right(98, 3, sc.t);
    static const unsigned bits[] = { 12, 1, 7, 8, 24, 31, 32, 256 };
    unsigned bl = bits[u < 2 && !any_code ? vs_concretize(vs_u("bits", 0, u == 0 ? 6 : 7, 0)) : 0];
    char bt[8]; snprintf(bt, 8, "%u", bl); l.right(115, 3, bt);
    char ref[12] = "00000";
    bool neg = vs_concretize(vs_u("neg", 0, 1, 0));
    strcpy(ref, "17025");
    if (!any_code) digits(ref + 3, 1, "ref");
    int r = 0; for (int i = 0; i < 5; ++i) r = r * 10 + (int)dig(ref[i]);
    if (neg) { l.right(102, 12, (std::string("-") + ref).c_str()); r = -r; } else l.right(102, 12, ref);
    std::string text = l.str();
    const char* path = vs_file("b", &text[0], text.size());
    try
    {
        const Vartable* t = Vartable::load_bufr(path);
        ASSERTL((x < 64) & (y < 256), "codes that do not exist are refused");
        Varcode c = WR_VAR(0, x, y);
        ASSERT(t->contains(c));
        Varinfo i = t->query(c);
        ASSERT(i->code == c);
        ASSERT(strcmp(i->unit, bunits_out[u]) == 0);
        ASSERT(strcmp(i->desc, "TEMPERATURE") == 0);
        ASSERT(i->scale == sc.v);
        ASSERT(i->bit_ref == r);
        ASSERT(i->bit_len == bl);
        if (u == 1) { ASSERT(i->type == Vartype::String); ASSERT(i->len == bl / 8); }
        else
        {
            ASSERT(i->type == (sc.v ? Vartype::Decimal : Vartype::Integer));
            // digits for all values of the field
            static const unsigned len[] = { 4, 1, 3, 3, 8, 10, 10 };
            for (unsigned k = 0; k < 7; ++k) if (bits[k] == bl) ASSERT(i->len == len[k]);
        }
        unsigned n = 0;
        t->iterate([&](Varinfo v) { ++n; return v->code == c; });
        ASSERT(n == 1);
        ASSERT(t->path() == path && t->pathname() == path);
        ASSERTL(Vartable::load_bufr(path) == t, "a table is loaded once");
        vs_reach("end");
    } catch (error_parse&) { ASSERTL((x > 63) | (y > 255), "well formed lines are read"); vs_reach("refused"); }
}
// The texts of a line, of every length
HARNESS("C19", tab_texts, nullptr)
{
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    Line l(crex);
    unsigned w = vs_thorough() ? 4 : 3;
    // a text ending anywhere in the field
    unsigned end = vs_concretize(vs_u("end", w, 64, 11));
    for (unsigned i = 0; i < 64; ++i) l.s[8 + i] = i < end ? 'a' + i % 26 : ' ';
    vs_bytes(&l.s[8 + end - w], w, "d");
    for (unsigned i = 0; i < w; ++i) { char c = l.s[8 + end - w + i]; vs_assume((c != 0) & (c != '\n')); }
    unsigned up = crex ? 119 : 73;
    unsigned uend = 3 + end % 22;
    if (uend > 24) uend = 24;
    for (unsigned i = 0; i < 24; ++i) l.s[up + i] = i < uend ? 'a' + i % 26 : ' ';
    if (vs_thorough() || end >= 44) { vs_bytes(&l.s[up + uend - 2], 2, "u"); for (unsigned i = 0; i < 2; ++i) { char c = l.s[up + uend - 2 + i]; vs_assume((c != 0) & (c != '\n')); } }
    std::string text = l.str();
    const char* path = vs_file("b", &text[0], text.size());
    const Vartable* t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
    Varinfo i = t->query(WR_VAR(0, 12, 1));
    same_field(i->desc, 64, l.s, 8, "the description is read as written");
    same_field(i->unit, 24, l.s, up, "the unit is read as written");
    vs_reach("end");
}
// CREX lines
HARNESS("C19", tab_crex_fields, nullptr)
{
    Line l(true);
    char code[6] = "12001";
    digits(code, 5, "code");
    unsigned x = dig(code[0]) * 10 + dig(code[1]), y = dig(code[2]) * 100 + dig(code[3]) * 10 + dig(code[4]);
    l.code(code);
    static const char* const units[] = { "C", "CHARACTER", "CODE TABLE 3", "FLAG TABLE", "CCITTIA5" };
    static const char* const units_out[] = { "C", "CHARACTER", "CODE TABLE", "FLAG TABLE", "CCITTIA5" };
    unsigned u = vs_concretize(vs_u("unit", 0, 4, 0));
    l.s[119] = ' '; l.text(119, units[u]);
    static const struct { const char* t; int v; } scales[] = { { "0", 0 }, { "1", 1 }, { "-1", -1 }, { "-20", -20 }, { "12", 12 }, { "- 2", -2 } };
    auto& sc = scales[u == 0 ? vs_concretize(vs_u("scale", 0, 5, 0)) : 0];
    l.right(143, 6, sc.t);
    unsigned len = vs_concretize(vs_u("len", 1, 15, 3));
    char lt[8]; snprintf(lt, 8, "%u", len); l.right(149, 7, lt);
    std::string text = l.str();
    const char* path = vs_file("b", &text[0], text.size());
    try
    {
        const Vartable* t = Vartable::load_crex(path);
        ASSERTL((x < 64) & (y < 256), "codes that do not exist are refused");
        Varcode c = WR_VAR(0, x, y);
        Varinfo i = t->query(c);
        ASSERT(i->code == c);
        ASSERT(strcmp(i->unit, units_out[u]) == 0);
        ASSERT(i->scale == sc.v);
        ASSERT(i->len == len);
        ASSERT(i->bit_ref == 0 && i->bit_len == 0);
        ASSERT(i->type == (u == 1 ? Vartype::String : sc.v ? Vartype::Decimal : Vartype::Integer));
        ASSERTL(Vartable::load_crex(path) == t, "a table is loaded once");
        vs_reach("end");
    } catch (error_parse&) { ASSERTL((x > 63) | (y > 255), "well formed lines are read"); vs_reach("refused"); }
}
// Numbers of any size and anywhere in their columns
HARNESS("C19", tab_columns, nullptr)
{
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    Line l(crex);
    struct Col { unsigned pos, width; } bc[] = { { 98, 3 }, { 102, 12 }, { 115, 3 } }, cc[] = { { 143, 6 }, { 149, 7 } };
    unsigned which = vs_concretize(vs_u("column", 0, crex ? 1 : 2, 1));
    Col c = crex ? cc[which] : bc[which];
    bool is_len = which == (crex ? 1 : 2), is_ref = !crex && which == 1;
    // characters of the number, sign included, and where it begins
    unsigned n = vs_concretize(vs_u("chars", 1, c.width, 1));
    unsigned at = vs_concretize(vs_u("at", 0, c.width - n, 0));
    bool neg = !is_len && n > 1 && vs_concretize(vs_u("neg", 0, 1, 0));
    unsigned nd = n - neg;
    unsigned maxd = is_ref ? 9 : is_len ? 2 : 2;
    std::string t(n, '0');
    if (neg) t[0] = '-';
    // leading zeros make up for what is more than the largest numbers
    for (unsigned i = 0; i < nd; ++i) if (nd - i <= maxd) t[neg + i] = is_ref ? '1' + i % 9 : '1';
    unsigned sym = is_ref ? (nd < 2 ? nd : 2) : 1;
    if (sym > nd) sym = nd;
    digits(&t[n - sym], sym, "d");
    if (is_len) vs_assume(t[n - 1] != '0');
    int v = 0;
    for (unsigned i = neg; i < n; ++i) v = v * 10 + (int)dig(t[i]);
    if (neg) v = -v;
    for (unsigned i = 0; i < c.width; ++i) l.s[c.pos + i] = ' ';
    for (unsigned i = 0; i < n; ++i) l.s[c.pos + at + i] = t[i];
    // columns next to each other, with a blank between them
    if (!is_len && !crex) l.s[115] = '0';
    if (crex && is_len) { l.right(143, 6, ""); l.s[143] = '1'; }
    std::string text = l.str();
    const char* path = vs_file("b", &text[0], text.size());
    const Vartable* tab = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
    Varinfo i = tab->query(WR_VAR(0, 12, 1));
    int scale = 1, ref = 0, len = crex ? 3 : 12;
    if (which == 0) scale = v; else if (is_ref) ref = v; else len = v;
    ASSERTL(i->scale == scale, "the scale is read as written");
    ASSERTL(i->bit_ref == ref, "the reference value is read as written");
    ASSERTL((int)(crex ? i->len : i->bit_len) == len, "the length is read as written");
    ASSERTL(i->type == (scale ? Vartype::Decimal : Vartype::Integer), "the type follows from the scale");
    vs_reach("end");
}
// Several lines: entries in order, looked up by any code
HARNESS("C18", tab_lookup, nullptr)
{
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    unsigned n = vs_concretize(vs_u("n", 1, vs_thorough() ? 7 : 5, 3));
    std::string text;
    std::vector<Varcode> codes;
    bool sorted = true;
    for (unsigned i = 0; i < n; ++i)
    {
        Line l(crex);
        char c[6] = "12000";
        c[3] = '0' + i;
        digits(c + 3, 2, "code");
        l.code(c);
        char sc[4]; snprintf(sc, 4, "%u", i + 1);
        l.right(98, 3, sc); if (crex) l.right(143, 6, sc);
        text += l.str();
        codes.push_back(WR_VAR(0, 12, dig(c[3]) * 10 + dig(c[4])));
        if (i) sorted = sorted & (codes[i - 1] < codes[i]);
    }
    const char* path = vs_file("b", &text[0], text.size());
    try
    {
        const Vartable* t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
        ASSERTL(sorted, "tables out of order are refused");
        Varcode q = (Varcode)vs_u("query", 0, 0xffff, WR_VAR(0, 12, 0));
        unsigned is = 0;
        for (unsigned i = 0; i < n; ++i) is += (codes[i] == q) ? i + 1 : 0;
        ASSERTL(t->contains(q) == (is != 0), "a table contains its codes");
        try
        {
            Varinfo v = t->query(q);
            ASSERTL(is != 0, "codes that are not there are not found");
            ASSERT(v->code == q);
            ASSERTL(v->scale == (int)is, "the entry is the one of the code");
            ASSERT(t->query(q) == v);
            vs_reach("found");
        } catch (error_notfound&) { ASSERTL(is == 0, "all codes are found"); vs_reach("not-found"); }
        unsigned k = 0;
        t->iterate([&](Varinfo v) { ASSERT(v->code == codes[k]); ASSERT(v->scale == (int)k + 1); ++k; return true; });
        ASSERT(k == n);
    } catch (error_parse&) { ASSERTL(!sorted, "sorted tables are read"); vs_reach("refused"); }
}
// Lines that are too short, and any characters
HARNESS("C19", tab_short, nullptr)
{
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    Line l(true);
    bool repl = vs_concretize(vs_u("replicator", 0, 1, 0));
    if (repl) l.code("31001");
    unsigned n = vs_concretize(vs_u("n", 0, 160, 20));
    Line first(true);
    first.code("01001");
    l.s.resize(160, ' ');
    // numbers have their own harness
    if (n <= 98 || (n > 121 && n <= 143)) vs_bytes(&l.s[n > 3 ? n - 3 : 0], n < 3 ? n : 3, "c");
    for (unsigned i = n > 3 ? n - 3 : 0; i < n; ++i) vs_assume((l.s[i] != 0) & (l.s[i] != '\n'));
    std::string text = first.str() + l.s.substr(0, n) + (vs_thorough() && vs_concretize(vs_u("newline", 0, 1, 1)) == 0 ? "" : "\n");
    bool nl = text.back() == '\n';
    const char* path = vs_file("b", &text[0], text.size());
    unsigned len = n + nl;
    try
    {
        const Vartable* t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
        ASSERTL(len == 0 || len >= (crex ? repl ? 7u : 157u : 119u), "short lines are refused");
        ASSERT(t->contains(WR_VAR(0, 1, 1)));
        vs_reach("read");
    } catch (error_parse&) { ASSERTL(len < (crex ? 157u : 119u), "complete lines are read"); vs_reach("refused"); }
}
HARNESS("C19", tab_any, nullptr)
{
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    Line a(crex), l(crex), z(crex);
    a.code("01001"); z.code("31001");
    unsigned pos = vs_concretize(vs_u("pos", 0, l.s.size() - 2, 20));
    vs_bytes(&l.s[pos], vs_thorough() ? 2 : 1, "c");
    std::string text = a.str() + l.str() + z.str();
    const char* path = vs_file("b", &text[0], text.size());
    try
    {
        const Vartable* t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
        t->iterate([](Varinfo v) { ASSERT(strnlen(v->desc, 64) < 64 && strnlen(v->unit, 24) < 24); return true; });
        for (unsigned i = 2; i < 7; ++i) ASSERTL(l.s[i] >= '0' && l.s[i] <= '9', "lines without a code are refused");
        if (pos < 2 || pos > 6) { ASSERT(t->contains(WR_VAR(0, 1, 1)) && t->contains(WR_VAR(0, 31, 1))); }
        vs_reach("read");
    } catch (error_parse&) { vs_reach("refused"); }
}
namespace {
std::string dline(Varcode head, unsigned count, const char* code6)
{
    char x[64];
    if (head) snprintf(x, 64, " 3%02d%03d %2u ", WR_VAR_X(head), WR_VAR_Y(head), count);
    else snprintf(x, 64, "           ");
    return std::string(x) + code6 + "\n";
}
}
// D tables: any codes, in any order
HARNESS("C19", tab_d, nullptr)
{
    unsigned n = vs_concretize(vs_u("entries", 1, 3, 2));
    std::string text;
    std::vector<Varcode> heads; std::vector<std::vector<Varcode>> lists;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned cnt = i == 0 ? vs_concretize(vs_u("count", 1, 3, 2)) : 3 - i;
        lists.emplace_back();
        for (unsigned k = 0; k < cnt; ++k)
        {
            char c[7] = "001001";
            if ((n < 3 && k == (i & 1)) || vs_thorough())
            {
                vs_bytes(c, 1, "f"); vs_assume((c[0] >= '0') & (c[0] <= '3'));
                digits(c + 5, 1, "y");
            }
            std::string l = dline(k ? 0 : WR_VAR(3, 1, 1), cnt, c);
            if (!k)
            {
                l[6] = '5'; digits(&l[5 + (i & 1)], 1, "head"); if (n == 3) l[5 + (i & 1)] = (char)vs_concretize((unsigned char)l[5 + (i & 1)] & 0x33);
                if (vs_thorough() && vs_concretize(vs_u("letter", 0, 1, 0))) l[1] = 'D';
                heads.push_back(WR_VAR(3, 1, dig(l[5]) * 10 + dig(l[6])));
            }
            text += l;
            lists.back().push_back(WR_VAR(dig(c[0]), 1, dig(c[4]) * 10 + dig(c[5])));
        }
    }
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) vs_assume(heads[i] != heads[j]);
    const char* path = vs_file("d", &text[0], text.size());
    bool crex = vs_thorough() ? vs_concretize(vs_u("crex", 0, 1, 0)) : n & 1;
    const DTable* t = crex ? DTable::load_crex(path) : DTable::load_bufr(path);
    ASSERT((crex ? DTable::load_crex(path) : DTable::load_bufr(path)) == t);
    for (unsigned i = 0; i < n; ++i)
    {
        try
        {
            Opcodes o = t->query(heads[i]);
            ASSERTL(o.size() == lists[i].size(), "the expansion is as long as written");
            for (unsigned k = 0; k < lists[i].size(); ++k) ASSERTL(o[k] == lists[i][k], "the expansion is the one written");
        } catch (error_notfound&) { vs_fail("all the sequences of a table are found"); }
    }
    Varcode q = (Varcode)vs_u("query", 0, 0xffff, 0);
    for (unsigned i = 0; i < n; ++i) vs_assume(q != heads[i]);
    try { t->query(q); vs_fail("other sequences are not found"); } catch (error_notfound&) {}
    vs_reach("end");
}
// The advertised number of items is the number of items
HARNESS("C19", tab_d_count, nullptr)
{
    std::string text;
    unsigned n = vs_concretize(vs_u("entries", 1, 2, 1));
    bool good = true;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned said = vs_concretize(vs_u("said", 0, 3, 1)), have = vs_concretize(vs_u("have", 1, 4, 1));
        if (said != have) good = false;
        for (unsigned k = 0; k < have; ++k) text += dline(k ? 0 : WR_VAR(3, 1, 1 + i), said, "001002");
    }
    unsigned extra = vs_concretize(vs_u("extra", 0, 3, 0));
    if (extra == 1) text = dline(0, 0, "001001") + text;
    if (extra == 2) text += "short\n";
    if (extra == 3) text += "* this is not a table line\n";
    if (extra) good = false;
    const char* path = vs_file("d", &text[0], text.size());
    try
    {
        DTable::load_bufr(path);
        ASSERTL(good, "inconsistent D tables are refused");
        vs_reach("read");
    } catch (error&) { ASSERTL(!good, "consistent D tables are read"); vs_reach("refused"); }
}
HARNESS("C19", tab_d_any, nullptr)
{
    std::string text = dline(WR_VAR(3, 1, 1), 2, "001001") + dline(0, 0, "001002") + dline(WR_VAR(3, 1, 2), 1, "301001");
    unsigned pos = vs_concretize(vs_u("pos", 0, text.size() - 2, 20));
    vs_bytes(&text[pos], vs_thorough() ? 2 : 1, "c");
    unsigned cut = vs_thorough() && vs_concretize(vs_u("whole", 0, 1, 1)) == 0 ? pos + 1 : text.size();
    text.resize(cut);
    const char* path = vs_file("d", &text[0], text.size());
    try
    {
        const DTable* t = DTable::load_bufr(path);
        if (pos > 18 && pos < 40) { Opcodes o = t->query(WR_VAR(3, 1, 1)); ASSERT(o.size() == 2 && o[0] == WR_VAR(0, 1, 1)); }
        vs_reach("read");
    } catch (error&) { vs_reach("refused"); }
}
// Shipped tables: every code between an entry and the next
namespace {
struct Ship { std::string path; bool crex; const Vartable* b = nullptr; const DTable* d = nullptr; std::vector<Varcode> codes; std::vector<std::string> lines; std::vector<std::vector<Varcode>> lists; };
std::vector<Ship> ships;
void ship(const char* name, bool crex)
{
    ships.emplace_back();
    Ship& s = ships.back();
    s.path = repo_tables() + "/" + name; s.crex = crex;
    std::ifstream in(s.path); std::string l;
    auto num = [](const std::string& t) { return (Varcode)(((t[0] - '0') << 14) | (((t[1] - '0') * 10 + t[2] - '0') << 8) | ((t[3] - '0') * 100 + (t[4] - '0') * 10 + t[5] - '0')); };
    if (name[0] == 'B')
    {
        while (std::getline(in, l))
        {
            if (crex && l.size() < 156) continue;
            s.codes.push_back(num(l.substr(1, 6))); s.lines.push_back(l);
        }
        s.b = crex ? Vartable::load_crex(s.path) : Vartable::load_bufr(s.path);
        return;
    }
    std::vector<std::pair<Varcode, std::vector<Varcode>>> r;
    while (std::getline(in, l))
    {
        if (l[1] != ' ') r.push_back({ num(l.substr(1, 6)), {} });
        r.back().second.push_back(num(l.substr(11, 6)));
    }
    std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& e : r)
    {
        // a code defined more than once has the last definition
        if (!s.codes.empty() && s.codes.back() == e.first) { s.lists.back() = e.second; continue; }
        s.codes.push_back(e.first); s.lists.push_back(e.second);
    }
    s.d = crex ? DTable::load_crex(s.path) : DTable::load_bufr(s.path);
}
void ships_b()
{
    ship("B0000000000000033000.txt", false);
    ship("B000203.txt", true);
    if (!vs_thorough()) return;
    ship("B0000000000000014000.txt", false); ship("B0000000000000024000.txt", false); ship("B0000000000098013102.txt", false); ship("B000000002551104.txt", false); ship("B000103.txt", true);
}
void ships_d()
{
    ship("D0000000000000013000.txt", false); ship("D0000000000000033000.txt", false);
    if (!vs_thorough()) return;
    ship("D0000000000000012000.txt", false); ship("D0000000000000014000.txt", false); ship("D0000000000098013102.txt", false); ship("D000203.txt", true); ship("D000103.txt", true);
}
Varcode pick(const Ship& s, unsigned& idx, unsigned& delta)
{
    unsigned hi = vs_concretize(vs_u("hi", 0, s.codes.size() / 64, 0)), lo = vs_concretize(vs_u("lo", 0, 63, 1));
    idx = hi * 64 + lo;
    if (idx >= s.codes.size()) return 0;
    unsigned next = idx + 1 < s.codes.size() ? s.codes[idx + 1] : 0x10000;
    delta = vs_u("delta", 0, next - s.codes[idx] - 1, 0);
    return (Varcode)(s.codes[idx] + delta);
}
// first integer at or after that column
long at(const std::string& l, size_t p) { while (p < l.size() && l[p] == ' ') ++p; bool neg = p < l.size() && l[p] == '-'; if (neg) ++p; while (p < l.size() && l[p] == ' ') ++p; long r = 0; for (; p < l.size() && l[p] >= '0' && l[p] <= '9'; ++p) r = r * 10 + (l[p] - '0'); return neg ? -r : r; }
std::string field(const std::string& l, size_t p, size_t n) { std::string r = l.substr(p, n); while (!r.empty() && (r.back() == ' ' || r.back() == '\r')) r.pop_back(); if (r.size() == n) r.pop_back(); return r; }
}
HARNESS("C18", ship_b, ships_b)
{
    Ship& s = ships[vs_concretize(vs_u("table", 0, ships.size() - 1, 0))];
    unsigned idx, delta;
    Varcode c = pick(s, idx, delta);
    if (idx >= s.codes.size()) return;
    try
    {
        Varinfo i = s.b->query(c);
        ASSERTL(delta == 0, "codes that are not there are not found");
        ASSERT(s.b->contains(c));
        const std::string& l = s.lines[idx];
        ASSERT(i->code == s.codes[idx]);
        ASSERT(field(l, 8, 64) == i->desc);
        std::string u = field(l, s.crex ? 119 : 73, 24);
        if (u.compare(0, 10, "CODE TABLE") == 0 || u.compare(0, 9, "CODETABLE") == 0) u = "CODE TABLE";
        if (u.compare(0, 10, "FLAG TABLE") == 0 || u.compare(0, 9, "FLAGTABLE") == 0) u = "FLAG TABLE";
        ASSERT(u == i->unit);
        if (s.crex) { ASSERT(i->scale == at(l, 143) && i->len == at(l, 149)); }
        else { ASSERT(i->scale == at(l, 98) && i->bit_ref == at(l, 102) && i->bit_len == at(l, 115)); }
        vs_reach("found");
    } catch (error_notfound&) { ASSERTL(delta != 0, "all the codes of a table are found"); ASSERT(!s.b->contains(c)); vs_reach("not-found"); }
}
HARNESS("C18", ship_d, ships_d)
{
    Ship& s = ships[vs_concretize(vs_u("table", 0, ships.size() - 1, 0))];
    unsigned idx, delta;
    Varcode c = pick(s, idx, delta);
    if (idx >= s.codes.size()) return;
    try
    {
        Opcodes o = s.d->query(c);
        ASSERTL(delta == 0, "sequences that are not there are not found");
        auto& l = s.lists[idx];
        ASSERT(o.size() == l.size());
        for (unsigned i = 0; i < l.size(); ++i) ASSERT(o[i] == l[i]);
        vs_reach("found");
    } catch (error_notfound&) { ASSERTL(delta != 0, "all the sequences of a table are found"); vs_reach("not-found"); }
}
// Altered definitions
namespace {
const Vartable *tb, *tc;
void alt_setup() { tb = Vartable::load_bufr(repo_tables() + "/B0000000000000014000.txt"); tc = Vartable::load_crex(repo_tables() + "/B000103.txt"); }
struct Req { const Vartable* t; Varcode c; };
// integer, decimal, with reference value, code table, text, class 31
const Varcode acodes[] = { WR_VAR(0, 1, 1), WR_VAR(0, 12, 101), WR_VAR(0, 5, 1), WR_VAR(0, 20, 3), WR_VAR(0, 1, 15), WR_VAR(0, 31, 1) };
void check_altered(Varinfo v, const _Varinfo& base, int scale, unsigned bits, int ref)
{
    ASSERTL(v->scale == scale, "the scale is the one asked for");
    ASSERTL(v->bit_len == bits, "the bit length is the one asked for");
    ASSERTL(v->bit_ref == ref, "the reference value is the one asked for");
    ASSERT(v->code == base.code);
    ASSERT(strcmp(v->desc, base.desc) == 0 && strcmp(v->unit, base.unit) == 0);
    if (base.type == Vartype::String) { ASSERT(v->type == Vartype::String); ASSERT(v->len == bits / 8); return; }
    ASSERTL(v->type == (scale ? Vartype::Decimal : Vartype::Integer), "the type goes with the scale");
    // all the values of the field are in the range and can be written
    long lo = ref, hi = (long)ref + (1L << bits) - 2;
    if (WR_VAR_X(v->code) == 31) ++hi;
    if (lo < INT32_MIN) lo = INT32_MIN;
    if (hi > INT32_MAX) hi = INT32_MAX;
    long room = 1; for (unsigned i = 0; i < v->len && i < 12; ++i) room *= 10;
    // the largest number of all is the missing value of CREX
    if (hi == room - 1) --hi;
    ASSERTL(v->imin <= lo, "the range has the smallest value");
    ASSERTL(v->imax >= hi, "the range has the largest value");
    ASSERTL(lo > -room && hi < room, "there are digits for all values");
}
}
HARNESS("C18", alt_one, alt_setup)
{
    unsigned k = vs_concretize(vs_u("code", 0, 5, 0));
    Varcode c = acodes[k];
    _Varinfo base = *tb->query(c);
    const _Varinfo* basep = tb->query(c);
    static const unsigned bl[] = { 1, 3, 7, 8, 12, 17, 25, 30, 31, 32, 33 };
    unsigned bits = k == 4 ? vs_concretize(vs_u("bits", 1, 80, 8)) : vs_thorough() || k == 1 ? vs_concretize(vs_u("bits", 1, 34, 8)) : bl[vs_concretize(vs_u("bits", 0, 10, 3))];
    static const int sc[] = { -17, -16, -1, 0, 1, 2, 16, 17 };
    int scale = k == 4 || k == 3 ? 0 : vs_thorough() ? (int)vs_concretize(vs_u("scale", 0, 44, 20)) - 22 : k == 1 ? 1 : sc[vs_concretize(vs_u("scale", 0, 7, 3))];
    int ref = k == 4 ? 0 : vs_i("ref", INT32_MIN, INT32_MAX, 0);
    bool same = scale == base.scale && bits == base.bit_len && ref == base.bit_ref;
    try
    {
        Varinfo v = tb->query_altered(c, scale, bits, ref);
        if (k != 4) ASSERTL(same || (scale >= -16 && scale <= 16 && bits <= 32), "definitions out of range are refused");
        if (same) ASSERTL(v == basep, "no change is the definition itself");
        else
        {
            ASSERTL(v != basep, "a change is another definition");
            check_altered(v, base, scale, bits, ref);
        }
        ASSERTL(tb->query_altered(c, scale, bits, ref) == v, "the same request gives the same definition");
        vs_reach("end");
    } catch (error_consistency&) { ASSERTL(!(scale >= -16 && scale <= 16 && bits <= 32), "definitions in range are given"); vs_reach("refused"); }
    const _Varinfo* after = tb->query(c);
    ASSERT(after == basep);
    ASSERT(after->scale == base.scale && after->bit_len == base.bit_len && after->bit_ref == base.bit_ref && after->len == base.len);
    ASSERT(after->imin == base.imin && after->imax == base.imax && after->type == base.type);
}
// Several requests in any order
HARNESS("C18", alt_history, alt_setup)
{
    unsigned n = vs_thorough() ? 4 : 3;
    struct { Varcode c; int scale; unsigned bits; int ref; Varinfo v; } r[4];
    for (unsigned i = 0; i < n; ++i)
    {
        r[i].c = acodes[vs_concretize(vs_u("code", 0, 1, 0))];
        r[i].scale = vs_i("scale", 0, vs_thorough() ? 2 : 1, 1);
        r[i].bits = vs_u("bits", 8, vs_thorough() ? 10 : 9, 8);
        r[i].ref = vs_i("ref", -1, vs_thorough() ? 1 : 0, 0);
        r[i].v = tb->query_altered(r[i].c, r[i].scale, r[i].bits, r[i].ref);
    }
    for (unsigned i = 0; i < n; ++i)
    {
        ASSERTL(r[i].v->scale == r[i].scale && r[i].v->bit_len == r[i].bits && r[i].v->bit_ref == r[i].ref && r[i].v->code == r[i].c, "a definition stays as given");
        ASSERTL(r[i].v == tb->query_altered(r[i].c, r[i].scale, r[i].bits, r[i].ref), "the same request gives the same definition");
        for (unsigned j = 0; j < i; ++j)
        {
            bool same = r[i].c == r[j].c && r[i].scale == r[j].scale && r[i].bits == r[j].bits && r[i].ref == r[j].ref;
            ASSERTL((r[i].v == r[j].v) == same, "different requests give different definitions");
        }
    }
    vs_reach("end");
}
HARNESS("C18", alt_missing, alt_setup)
{
    Varcode c = (Varcode)vs_u("code", WR_VAR(0, 63, 1), 0xffff, WR_VAR(0, 63, 1));
    const Vartable* t = vs_concretize(vs_u("crex", 0, 1, 0)) ? tc : tb;
    try { t->query_altered(c, 1, 8, 0); vs_fail("a definition is made of a code that is not there"); } catch (error_notfound&) {}
    vs_reach("end");
}
// Definitions that are not in tables
HARNESS("C18", made_up, alt_setup)
{
    Tables t;
    unsigned kind = vs_concretize(vs_u("kind", 0, 2, 0));
    if (kind == 0)
    {
    unsigned n1 = vs_concretize(vs_u("bits", 1, vs_thorough() ? 255 : 70, 9));
    unsigned n2 = vs_concretize(vs_u("bits2", 0, 2, 0)) + n1 - 1; if (!n2) n2 = 1;
    Varcode c1 = WR_VAR(0, 60, vs_u("y", 0, 3, 1)), c2 = WR_VAR(0, 60, vs_u("y2", 0, 3, 1));
    Varinfo u1 = t.get_unknown(c1, n1), u2 = t.get_unknown(c2, n2);
    ASSERT(u1->code == c1 && u2->code == c2);
    ASSERT(u1->bit_len == n1 && u2->bit_len == n2);
    ASSERT(u1->type == Vartype::Binary && u1->len == (n1 + 7) / 8 && u2->len == (n2 + 7) / 8);
    ASSERT((u1 == u2) == (c1 == c2 && n1 == n2));
    ASSERT(t.get_unknown(c1, n1) == u1);
    vs_reach("unknown");
    return;
    }
    if (kind == 1)
    {
    unsigned l1 = vs_concretize(vs_u("len", 1, 4, 3)), l2 = vs_concretize(vs_u("len2", 1, 4, 3));
    Varinfo s1 = t.get_chardata(WR_VAR(2, 5, l1), l1), s2 = t.get_chardata(WR_VAR(2, 5, l2), l2);
    ASSERT(s1->code == WR_VAR(2, 5, l1) && s1->type == Vartype::String && s1->len == l1 && s1->bit_len == 8 * l1);
    ASSERT(s2->code == WR_VAR(2, 5, l2) && s2->len == l2);
    ASSERT((s1 == s2) == (l1 == l2));
    vs_reach("characters");
    return;
    }
    char b1[4] = "+-+", b2[4] = "+-+";
    unsigned m = vs_concretize(vs_u("m", 0, 3, 3));
    vs_bytes(b1, 3, "b1"); vs_bytes(b2, 3, "b2");
    for (int i = 0; i < 3; ++i) { vs_assume((b1[i] == '+') | (b1[i] == '-')); vs_assume((b2[i] == '+') | (b2[i] == '-')); }
    Varcode d1 = vs_concretize(vs_u("op", 0, 1, 0)) ? WR_VAR(2, 22, 0) : WR_VAR(2, 23, 0), d2 = WR_VAR(2, 22, 0);
    Varinfo m1 = t.get_bitmap(d1, std::string(b1, 3)), m2 = t.get_bitmap(d2, std::string(b2, m));
    ASSERT(m1->code == d1 && m1->type == Vartype::String && m1->len == 3);
    ASSERT(m2->code == d2 && m2->len == m);
    bool same = m == 3 && d1 == d2; for (int i = 0; i < 3; ++i) same = same && b1[i] == b2[i];
    ASSERT((m1 == m2) == same);
    vs_reach("bitmap");
}

// Definitions made for bitmaps, character data and local descriptors
HARNESS("C18", made_history, nullptr)
{
    static const Varcode codes[] = { WR_VAR(2, 22, 0), WR_VAR(2, 23, 0), WR_VAR(0, 63, 200), WR_VAR(0, 63, 201), WR_VAR(0, 1, 200) };
    static const unsigned lens[] = { 1, 8, 9, 33, 40, 41, 255 };
    auto t = std::unique_ptr<Tables>(new Tables);
    struct Made { unsigned kind; Varcode code; std::string key; Varinfo info; };
    std::vector<Made> made;
    unsigned n = vs_thorough() ? 3 : 2, kind0 = vs_concretize(vs_u("kind", 0, 2, 0));
    auto right = [](const Made& m) {
        Varinfo i = m.info;
        ASSERTL(i->code == m.code, "the code asked for");
        if (m.kind == 2) ASSERTL((i->type == Vartype::Binary) & (i->bit_len == m.key.size()) & (i->len == (m.key.size() + 7) / 8), "a local descriptor has the bits asked for");
        else ASSERTL((i->type == Vartype::String) & (i->len == m.key.size()) & (i->bit_len == m.key.size() * 8), "a text has the length asked for");
    };
    for (unsigned k = 0; k < n; ++k)
    {
        Made m; m.kind = kind0;
        if (kind0 == 1)
        {
            unsigned len = lens[vs_concretize(vs_u("len", 0, 6, 1))];
            m.code = WR_VAR(2, 5, len); m.key = std::string(len, 'x');
            m.info = t->get_chardata(m.code, len);
        } else {
            m.code = codes[vs_concretize(vs_u("code", 0, vs_thorough() ? 4 : 1, 0))];
            unsigned len = lens[vs_concretize(vs_u("len", 0, vs_thorough() ? 6 : 4, 1))];
            m.key = std::string(len, '+');
            if (kind0 == 0)
            {
                // a mark somewhere
                unsigned p = vs_concretize(vs_u("mark", 0, vs_thorough() ? 2 : 1, 0));
                if (p) m.key[p == 2 ? 0 : len - 1] = '-';
                m.info = t->get_bitmap(m.code, m.key);
            } else m.info = t->get_unknown(m.code, len);
        }
        made.push_back(m);
        for (auto& o : made) { right(o); if (o.code == m.code && o.key == m.key) ASSERTL(o.info == m.info, "the same definition when asked again"); }
        // they stay when the tables are moved
        unsigned mv = vs_thorough() || !k ? vs_concretize(vs_u("move", 0, 2, 0)) : 0;
        if (mv == 1) t.reset(new Tables(std::move(*t)));
        if (mv == 2) { std::unique_ptr<Tables> u(new Tables); u->get_chardata(WR_VAR(2, 5, 3), 3); *u = std::move(*t); t = std::move(u); Tables& self = *t; *t = std::move(self); }
        for (auto& o : made) right(o);
    }
    vs_reach("end");
}
