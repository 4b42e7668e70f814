// C28 validation of bulletins against their descriptors
#include "common.h"
#include <wreport/bulletin.h>
#include <wreport/bulletin/dds-validator.h>
#include <wreport/subset.h>
#include <wreport/tableinfo.h>
#include <wreport/tables.h>
using namespace wreport;

namespace {
const Varcode c_block = WR_VAR(0, 1, 1), c_temp = WR_VAR(0, 12, 101), c_name = WR_VAR(0, 1, 19), c_conf = WR_VAR(0, 33, 7), c_lon = WR_VAR(0, 6, 1), c_sig = WR_VAR(0, 31, 21), c_count = WR_VAR(0, 31, 1), c_type = WR_VAR(0, 2, 1), c_ele = WR_VAR(0, 7, 1);
std::unique_ptr<BufrBulletin> bufr()
{
    auto b = BufrBulletin::create();
    b->originating_centre = b->originating_subcentre = 0; b->master_table_version_number = 14; b->data_category = 0;
    b->rep_year = 2026; b->rep_month = b->rep_day = 1; b->rep_hour = b->rep_minute = 0;
    b->load_tables();
    return b;
}
std::unique_ptr<CrexBulletin> crex()
{
    auto b = CrexBulletin::create();
    b->originating_centre = b->originating_subcentre = 0; b->edition_number = 2; b->master_table_version_number = 3; b->master_table_version_number_bufr = 0; b->data_category = 0;
    b->load_tables();
    return b;
}
void val_setup() { static bool done; if (done) return; done = true; bufr(); crex(); }
bool validates(const Bulletin& b)
{
    try { for (unsigned i = 0; i < b.subsets.size(); ++i) { bulletin::DDSValidator v(b, i); v.run(); } return true; } catch (error&) { return false; }
}
bool encodes(const Bulletin& b) { try { b.encode(); return true; } catch (error&) { return false; } }
// same verdict, when the variables are those described
void verdict(const Bulletin& b)
{
    bool v = validates(b), e = encodes(b);
    ASSERTL(!v | e, "what validates can be encoded");
    ASSERTL(v | !e, "what can be encoded validates");
    vs_reach(v ? "valid" : "invalid");
}
}

// numbers, stored with a wider definition than the one they are encoded with
HARNESS("C28", val_number, val_setup)
{
    auto b = bufr();
    static const Varcode codes[] = { c_block, c_ele, c_type, c_count };
    Varcode c = codes[vs_concretize(vs_u("code", 0, 3, 0))];
    Varinfo info = b->tables.btable->query(c);
    static const unsigned widths[] = { 2, 7, 8, 16, 31, 32 };
    unsigned w = vs_concretize(vs_u("width", 0, 6, 0));
    bool change = w < 6 && (c == c_block || c == c_ele);
    if (change) b->datadesc.push_back(WR_VAR(2, 1, 128 + (int)widths[w] - (int)info->bit_len));
    b->datadesc.push_back(c);
    if (change) b->datadesc.push_back(WR_VAR(2, 1, 0));
    static _Varinfo wide;
    wide = *info;
    wide.bit_len = 32; wide.imin = INT32_MIN + 1; wide.imax = INT32_MAX; wide.dmin = INT32_MIN + 1; wide.dmax = INT32_MAX; wide.len = 10;
    Subset& s = b->obtain_subset(0);
    Var v(&wide);
    if (vs_concretize(vs_u("set", 0, 1, 1))) v.seti(vs_i("value", INT32_MIN + 1, INT32_MAX, 3));
    s.store_variable(v);
    verdict(*b);
}
// values of the descriptor itself
HARNESS("C28", val_own, val_setup)
{
    auto b = bufr();
    static const Varcode codes[] = { c_block, c_temp, c_lon, c_count, WR_VAR(0, 31, 0) };
    Varcode c = codes[vs_concretize(vs_u("code", 0, 4, 0))];
    Varinfo info = b->tables.btable->query(c);
    b->datadesc.push_back(c);
    Subset& s = b->obtain_subset(0);
    // scaled ones are taken in windows
    int lo = info->imin, hi = info->imax;
    if (info->scale && hi - lo > 200) switch (vs_concretize(vs_u("window", 0, 2, 0))) { case 0: hi = lo + 60; break; case 1: lo = hi - 60; break; case 2: lo = (lo + hi) / 2; hi = lo + 60; break; }
    int val = vs_i("value", lo, hi, lo);
    if (info->scale) val = vs_concretize(val - lo) + lo;
    s.store_variable_i(c, val);
    verdict(*b);
    ASSERTL(validates(*b), "values of a variable are valid for its own descriptor");
}
// texts
HARNESS("C28", val_text, val_setup)
{
    bool is_crex = vs_concretize(vs_u("crex", 0, 1, 0));
    std::unique_ptr<Bulletin> b;
    if (is_crex) b = crex(); else b = bufr();
    Varcode c = WR_VAR(0, 1, 6);
    b->datadesc.push_back(c);
    Subset& s = b->obtain_subset(0);
    static _Varinfo i;
    i = *b->tables.btable->query(c);
    i.len = 12; i.bit_len = 96;
    char t[4] = {}; unsigned n = vs_concretize(vs_u("len", 0, 2, 1)); vs_bytes(t, n, "text");
    for (unsigned k = 0; k < n; ++k) vs_assume(t[k] != 0);
    std::string txt(t, n);
    if (vs_concretize(vs_u("long", 0, 1, 0))) txt += "ABCDEFGHI";
    Var v(&i);
    if (vs_concretize(vs_u("set", 0, 1, 1))) v.setc(txt.c_str());
    s.store_variable(v);
    verdict(*b);
}
// CREX numbers
HARNESS("C28", val_crex, val_setup)
{
    auto b = crex();
    static const Varcode codes[] = { c_block, WR_VAR(0, 7, 1), WR_VAR(0, 1, 2) };
    Varcode c = codes[vs_concretize(vs_u("code", 0, 2, 0))];
    b->datadesc.push_back(c);
    Subset& s = b->obtain_subset(0);
    static _Varinfo wide;
    wide = *b->tables.btable->query(c);
    int lim = 1; for (unsigned i = 0; i < wide.len; ++i) lim *= 10;
    wide.len = 9; wide.imin = -999999999; wide.imax = 999999999; wide.dmin = -999999999; wide.dmax = 999999999;
    Var v(&wide);
    if (vs_concretize(vs_u("set", 0, 1, 1))) v.seti((vs_concretize(vs_u("sign", 0, 1, 0)) ? -lim : lim) + (int)vs_concretize(vs_u("value", 0, vs_thorough() ? 200 : 40, 3)) - (vs_thorough() ? 100 : 20));
    s.store_variable(v);
    verdict(*b);
}
// operators: associated fields, new reference values, local descriptors, bitmaps
HARNESS("C28", val_operators, val_setup)
{
    auto b = bufr();
    Subset& s = b->obtain_subset(0);
    const Vartable* bt = b->tables.btable;
    switch (vs_concretize(vs_u("what", 0, 3, 0)))
    {
        case 0: {
            unsigned bits = vs_concretize(vs_u("bits", 1, 8, 2));
            b->datadesc = { (Varcode)WR_VAR(2, 4, bits), c_sig, c_block, WR_VAR(2, 4, 0) };
            s.store_variable_i(c_sig, vs_concretize(vs_u("significance", 1, 2, 1)));
            Var v(bt->query(c_block), 3);
            // significance 1 is stored in B33002, 2 in B33003 (see associated_fields.cc)
            unsigned which = vs_concretize(vs_u("attr", 0, 2, 1));
            if (which) v.seta(Var(bt->query(which == 1 ? WR_VAR(0, 33, 2) : WR_VAR(0, 33, 3)), vs_i("value", 0, 3, 1) & (which == 1 ? 1 : 3)));
            s.store_variable(v);
            verdict(*b);
            break;
        }
        case 1: {
            unsigned bits = vs_concretize(vs_u("bits", 1, 32, 2));
            int ref = vs_i("ref", INT32_MIN + 1, INT32_MAX, 0);
            b->datadesc = { (Varcode)WR_VAR(2, 3, bits), c_ele, WR_VAR(2, 3, 255), c_ele };
            static _Varinfo i;
            i = *bt->query(c_ele);
            i.bit_ref = ref;
            Var v(&i);
            s.store_variable(v);
            verdict(*b);
            break;
        }
        case 2: {
            unsigned bits = vs_concretize(vs_u("bits", 1, 16, 7));
            b->datadesc = { (Varcode)WR_VAR(2, 6, bits), c_block, c_ele };
            if (bits == 7) s.store_variable_i(c_block, vs_i("value", 0, 126, 1));
            else { Varinfo u = b->tables.get_unknown(c_block, bits); s.store_variable_undef(u); }
            s.store_variable_i(c_ele, vs_i("next", -400, 32366, 0));
            verdict(*b);
            break;
        }
        case 3: {
            // a bitmap of 1..3 marks where another number may be described
            unsigned n = vs_concretize(vs_u("marks", 1, 3, 2)), m = vs_concretize(vs_u("described", 0, 3, 2));
            b->datadesc = { c_block, c_ele, WR_VAR(2, 22, 0), (Varcode)WR_VAR(1, 1, m) };
            if (m == 0) b->datadesc.push_back(c_count);
            b->datadesc.push_back(WR_VAR(0, 31, 31));
            unsigned set = vs_concretize(vs_u("set", 0, 1, 1)), rep = vs_concretize(vs_u("values", 0, 1, 1));
            if (rep) { b->datadesc.push_back(WR_VAR(1, 1, 1)); b->datadesc.push_back(c_conf); }
            s.store_variable_i(c_block, 3);
            Var v(bt->query(c_ele), 5);
            static _Varinfo wide; wide = *bt->query(c_conf); wide.bit_len = 32; wide.imin = INT32_MIN + 1; wide.imax = INT32_MAX; wide.dmin = wide.imin; wide.dmax = wide.imax;
            if (set) v.seta(Var(&wide, vs_i("conf", -5, 300, 0)));
            s.store_variable(v);
            std::string bm(n, '-'); bm[n - 1] = '+';
            Varinfo bi = b->tables.get_bitmap(WR_VAR(2, 22, 0), bm);
            s.store_variable(Var(bi, bm.c_str()));
            verdict(*b);
            break;
        }
    }
}
// the variables have to be those described
HARNESS("C28", val_structure, val_setup)
{
    bool is_crex = vs_concretize(vs_u("crex", 0, 1, 0));
    std::unique_ptr<Bulletin> b;
    if (is_crex) b = crex(); else b = bufr();
    static const Varcode codes[] = { c_block, WR_VAR(0, 1, 2), c_count };
    Varcode count = is_crex ? WR_VAR(0, 31, 12) : c_count;
    std::vector<Varcode> want;
    unsigned shape = vs_concretize(vs_u("shape", 0, is_crex ? 4 : 9, 0));
    unsigned n = 0;
    switch (shape)
    {
        case 0: b->datadesc = { c_block }; want = { c_block }; break;
        case 1: b->datadesc = { c_block, codes[1] }; want = { c_block, codes[1] }; break;
        case 2: b->datadesc = { WR_VAR(1, 1, 2), c_block, codes[1] }; want = { c_block, c_block, codes[1] }; break;
        case 3: b->datadesc = { WR_VAR(1, 1, 0), c_count, c_block }; if (is_crex) b->datadesc.erase(b->datadesc.begin() + 1); n = vs_concretize(vs_u("count", 0, 2, 1)); want = { count }; for (unsigned i = 0; i < n; ++i) want.push_back(c_block); break;
        case 4: b->datadesc = { WR_VAR(3, 1, 1) }; want = { c_block, codes[1] }; break;
        case 5: b->datadesc = { c_block, WR_VAR(2, 5, 2), codes[1] }; want = { c_block, WR_VAR(2, 5, 2), codes[1] }; break;
        case 6: b->datadesc = { c_block, WR_VAR(2, 6, 9), WR_VAR(0, 63, 200), codes[1] }; want = { c_block, WR_VAR(0, 63, 200), codes[1] }; break;
        case 7: b->datadesc = { WR_VAR(2, 4, 2), c_sig, c_block, WR_VAR(2, 4, 0), codes[1] }; want = { c_sig, c_block, codes[1] }; break;
        case 8: b->datadesc = { c_block, WR_VAR(2, 22, 0), WR_VAR(1, 1, 1), WR_VAR(0, 31, 31), WR_VAR(0, 1, 31), c_conf }; want = { c_block, WR_VAR(2, 22, 0), WR_VAR(0, 1, 31) }; break;
        case 9: b->datadesc = { c_block, WR_VAR(2, 23, 0), WR_VAR(1, 1, 1), WR_VAR(0, 31, 31), WR_VAR(2, 23, 255), codes[1] }; want = { c_block, WR_VAR(2, 23, 0), codes[1] }; break;
    }
    // variables: those, or one missing, or one changed
    std::vector<Varcode> have(want);
    unsigned what = vs_concretize(vs_u("change", 0, 4, 0));
    unsigned pos = vs_concretize(vs_u("where", 0, want.size() - 1, 0));
    if (what == 1) have.erase(have.begin() + pos);
    if (what == 2) { vs_assume(!(shape == 3 && pos == 0)); have[pos] = c_temp; }
    if (what == 3) { vs_assume(!(shape == 3 && pos == 0)); have[pos] = have[pos] == c_block ? codes[1] : c_block; }
    if (what == 4)
    {
        // a code that differs only in one part
        vs_assume(!(shape == 3 && pos == 0));
        unsigned bit = vs_concretize(vs_u("bit", 0, 15, 0));
        have[pos] ^= 1 << bit;
    }
    Subset& s = b->obtain_subset(0);
    for (unsigned k = 0; k < have.size(); ++k)
    {
        Varcode c = have[k], w = what == 1 ? c : want[k];
        if (c != w && what == 4) { static _Varinfo other; other = *b->tables.btable->query(c_block); other.code = c; s.store_variable(Var(&other, 1)); }
        else if (c == WR_VAR(2, 5, 2)) s.store_variable(Var(b->tables.get_chardata(c, 2), "ab"));
        else if (c == WR_VAR(0, 63, 200)) s.store_variable_undef(b->tables.get_unknown(c, 9));
        else if (c == c_sig) s.store_variable_i(c, 1);
        else if (c == WR_VAR(2, 22, 0) || c == WR_VAR(2, 23, 0)) s.store_variable(Var(b->tables.get_bitmap(c, "+"), "+"));
        else if (c == count) s.store_variable_i(c, n); else if (c == c_temp) s.store_variable_undef(c); else s.store_variable_i(c, vs_i("value", 0, 5, 1));
    }
    bool v = validates(*b);
    if (shape == 3 && what == 1 && pos == 0 && n) { ASSERTL(!v, "a count is needed"); vs_reach("invalid"); return; }
    ASSERTL(v == (have == want), "a subset is valid exactly if its variables are those described");
    if (v) ASSERTL(encodes(*b), "what validates can be encoded");
    vs_reach(v ? "valid" : "invalid");
}
