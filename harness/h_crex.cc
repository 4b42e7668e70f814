// C15 CREX round trip
#include "crex_common.h"

static std::string descs_text(const std::vector<Varcode>& l)
{
    std::string r;
    for (auto c : l) { char x[16]; snprintf(x, 16, " %c%02d%03d", "BRCD"[WR_VAR_F(c)], WR_VAR_X(c), WR_VAR_Y(c)); r += x; }
    return r;
}
static void set_or_miss(CRef& ref, Var& v, const char* name, int lo, int hi)
{
    int x = vs_i(name, lo, hi, lo);
    v.seti(x);
    ref.number(x, v.info()->len);
}
// Numbers of every length, values and missing
HARNESS("C15", crex_numbers, loadc)
{
    auto b = mkc();
    b->has_check_digit = vs_concretize(vs_u("check", 0, 1, 0));
    static const Varcode codes[] = { B(2, 1), B(1, 1), B(1, 2), B(12, 1), B(5, 2), B(10, 4), B(7, 7), B(5, 1), B(6, 1), B(31, 12), B(13, 11), B(1, 59) };
    Varcode c = codes[vs_concretize(vs_u("code", 0, vs_thorough() ? 10 : 8, 0))];
    b->datadesc = { c, B(1, 2), c };
    auto& s = b->obtain_subset(0);
    CRef ref(b->has_check_digit);
    Varinfo info = b->tables.btable->query(c);
    unsigned sym = (vs_thorough() ? vs_concretize(vs_u("sym", 0, 1, 0)) : b->has_check_digit) * 2;
    for (unsigned i = 0; i < 3; ++i)
    {
        Varinfo in = i == 1 ? b->tables.btable->query(B(1, 2)) : info;
        Var v(in);
        unsigned kind = i == 1 ? 0 : i == sym ? vs_concretize(vs_u("kind", 1, 3, 1)) : vs_concretize(vs_u("other", 0, 1, 0)) * 4;
        switch (kind)
        {
            case 0: ref.missing(in->len); break;
            case 1: { int hi = in->imax > 399 ? 399 : in->imax, lo = in->imin < -399 ? -399 : in->imin; set_or_miss(ref, v, "v", lo, hi); break; }
            case 2: set_or_miss(ref, v, "v", in->imax > 300 ? in->imax - 100 : 0, in->imax); break;
            case 4: v.seti(in->imin); ref.number(in->imin, in->len); break;
            case 3: set_or_miss(ref, v, "v", in->imin, in->imin < -300 ? in->imin + 100 : 0); break;
        }
        s.store_variable(v);
    }
    std::string m = b->encode();
    same_text(m, head(*b, descs_text(b->datadesc)) + ref.s + tail);
    auto d = CrexBulletin::decode(m, "f", 0);
    same_crex(*b, *d);
    ASSERT(d->datadesc == b->datadesc);
    vs_reach("end");
}
// Every value of a 4 digit variable
HARNESS("C15", crex_values, loadc)
{
    auto b = mkc();
    b->datadesc = { B(5, 2) };
    auto& s = b->obtain_subset(0);
    CRef ref(false);
    Var v(b->tables.btable->query(B(5, 2)));
    set_or_miss(ref, v, "v", v.info()->imin, v.info()->imax);
    s.store_variable(v);
    std::string m = b->encode();
    same_text(m, head(*b, " B05002") + ref.s + tail);
    auto d = CrexBulletin::decode(m, "f", 0);
    same_crex(*b, *d);
    vs_reach("end");
}
// Texts
HARNESS("C15", crex_text, loadc)
{
    auto b = mkc();
    b->has_check_digit = vs_concretize(vs_u("check", 0, 1, 0));
    Varcode c = vs_concretize(vs_u("code", 0, 1, 0)) ? B(0, 10) : B(0, 1); // 1 and 3 characters
    b->datadesc = { B(1, 1), c, B(1, 2) };
    auto& s = b->obtain_subset(0);
    CRef ref(b->has_check_digit);
    s.store_variable_i(B(1, 1), 12);
    ref.number(12, 2);
    Var v(b->tables.btable->query(c));
    unsigned n = vs_concretize(vs_u("n", 0, v.info()->len, v.info()->len));
    char t[4] = "abc";
    vs_bytes(t, n, "t");
    t[n] = 0;
    unsigned len = 0;
    bool slashes = true;
    while (t[len]) { if (t[len] != '/') slashes = false; ++len; }
    bool unset = vs_concretize(vs_u("unset", 0, 1, 0));
    if (unset) ref.missing(v.info()->len);
    else { v.setc(t); ref.text(t, v.info()->len); }
    s.store_variable(v);
    s.store_variable_i(B(1, 2), 345);
    ref.number(345, b->tables.btable->query(B(1, 2))->len);
    auto sp = [](char x) { return x == ' ' || (x >= 9 && x <= 13); };
    bool bad = !unset && ((!b->has_check_digit && (len == 0 || sp(t[0]))) || (len == v.info()->len && slashes));
    try
    {
        std::string m = b->encode();
        ASSERTL(!bad, "a text that would read back as something else is refused");
        same_text(m, head(*b, descs_text(b->datadesc)) + ref.s + tail);
        auto d = CrexBulletin::decode(m, "f", 0);
        ASSERT(d->subsets.size() == 1 && d->subsets[0].size() == 3);
        ASSERT(d->subsets[0][0].enqi() == 12);
        ASSERT(d->subsets[0][2].enqi() == 345);
        const Var& r = d->subsets[0][1];
        ASSERT(r.isset() == !unset);
        if (!unset)
        {
            while (len && sp(t[len - 1])) --len;
            const char* x = r.enqc();
            ASSERT(strlen(x) == len);
            for (unsigned i = 0; i < len; ++i) ASSERT(x[i] == t[i]);
        }
        vs_reach("end");
    } catch (error_domain&) { ASSERTL(bad, "only texts that cannot be represented are refused"); vs_reach("refused"); }
}
// Replications, sequences and several subsets
HARNESS("C15", crex_structure, loadc)
{
    auto b = mkc();
    b->has_check_digit = vs_concretize(vs_u("check", 0, 1, 0));
    unsigned shape = vs_concretize(vs_u("shape", 0, 9, 0));
    unsigned subsets = vs_thorough() ? vs_concretize(vs_u("subsets", 1, 3, 1)) : 1 + (b->has_check_digit ^ (shape & 1));
    std::vector<Varcode> kept;
    static const Varcode factors[] = { B(31, 0), B(31, 1), B(31, 2), B(31, 11), B(31, 12) };
    switch (shape)
    {
        case 0: b->datadesc = { B(1, 1), B(1, 2) }; break;
        case 1: b->datadesc = { R(1, 3), B(1, 1), B(1, 2) }; break;
        case 2: b->datadesc = { R(2, 2), B(1, 1), B(1, 2) }; break;
        case 3: b->datadesc = { R(1, 0), B(1, 1), B(1, 2) }; break;
        case 4: b->datadesc = { B(1, 2), R(2, 0), B(1, 1), B(1, 2) }; break;
        case 5: b->datadesc = { R(3, 0), R(1, 0), B(1, 1), B(1, 2) }; break;
        case 6: b->datadesc = { D(1, 1), B(1, 1) }; break;
        case 7: b->datadesc = { R(1, 2), D(1, 1) }; break;
        case 8: b->datadesc = { R(1, 0), factors[vs_concretize(vs_u("factor", 0, 4, 0))], B(1, 1), B(1, 2) }; break;
        case 9: b->datadesc = { R(1, 0), B(1, 2) }; break;
    }
    CRef ref(b->has_check_digit);
    bool any = false;
    for (unsigned n = 0; n < subsets; ++n)
    {
        if (n) ref.end_subset();
        Subset& s = b->obtain_subset(n);
        auto num = [&](Varcode c) {
            Var v(b->tables.btable->query(c));
            if (n == 0 && !any) set_or_miss(ref, v, "v", -99, 98);
            else { int x = 11 + 7 * n + 3 * (int)s.size(); v.seti(x); ref.number(x, v.info()->len); }
            any = true;
            s.store_variable(v);
        };
        auto count = [&](Varcode c, unsigned max) {
            unsigned k = vs_concretize(vs_u("count", 0, max, 1));
            s.store_variable_i(c, k);
            ref.number(k, 4);
            return k;
        };
        switch (shape)
        {
            case 0: num(B(1, 1)); num(B(1, 2)); break;
            case 1: for (int i = 0; i < 3; ++i) num(B(1, 1)); num(B(1, 2)); break;
            case 2: for (int i = 0; i < 2; ++i) { num(B(1, 1)); num(B(1, 2)); } break;
            case 3: for (unsigned k = count(B(31, 12), 2); k; --k) num(B(1, 1)); num(B(1, 2)); break;
            case 4: num(B(1, 2)); for (unsigned k = count(B(31, 12), 2); k; --k) { num(B(1, 1)); num(B(1, 2)); } break;
            case 5: for (unsigned k = count(B(31, 12), 2); k; --k) { for (unsigned l = count(B(31, 12), 1); l; --l) num(B(1, 1)); num(B(1, 2)); } break;
            case 6: num(B(1, 1)); num(B(1, 2)); num(B(1, 1)); break;
            case 7: for (int i = 0; i < 2; ++i) { num(B(1, 1)); num(B(1, 2)); } break;
            case 8: for (unsigned k = count(b->datadesc[1], 1); k; --k) num(B(1, 1)); num(B(1, 2)); break;
            case 9: for (unsigned k = count(B(31, 12), 2); k; --k) num(B(1, 2)); break;
        }
    }
    std::vector<Varcode> expected = b->datadesc;
    // repetition factors of data descriptors are implicit in CREX
    if (shape == 8 && WR_VAR_Y(expected[1]) < 3) expected.erase(expected.begin() + 1);
    std::string m = b->encode();
    same_text(m, head(*b, descs_text(expected)) + ref.s + tail);
    auto d = CrexBulletin::decode(m, "f", 0);
    ASSERT(d->datadesc == expected);
    if (shape == 8)
    {
        ASSERT(d->subsets.size() == subsets);
        for (unsigned n = 0; n < subsets; ++n)
        {
            ASSERT(d->subsets[n].size() == b->subsets[n].size());
            for (unsigned i = 0; i < b->subsets[n].size(); ++i) ASSERT(d->subsets[n][i].enqi() == b->subsets[n][i].enqi());
        }
    }
    else same_crex(*b, *d);
    vs_reach("end");
}
// The header: every category and subcategory; editions and versions
HARNESS("C15", crex_header, loadc)
{
    auto b = mkc();
    unsigned which = vs_concretize(vs_u("which", 0, 4, 0));
    switch (which)
    {
        case 0: b->data_category = vs_concretize(vs_u("v", 0, 255, 0)); break;
        case 1: b->data_subcategory = vs_concretize(vs_u("v", 0, 255, 0)); break;
        case 2: b->edition_number = vs_concretize(vs_u("v", 0, 255, 1)); break;
        case 3: b->master_table_version_number = vs_concretize(vs_u("v", 0, 255, 3)); break;
        case 4: b->master_table_number = vs_concretize(vs_u("v", 0, 255, 0)); break;
    }
    bool bad = b->edition_number > 99 || b->master_table_version_number > 99 || b->master_table_number > 99;
    b->datadesc = { B(1, 1) };
    CRef ref(false);
    b->obtain_subset(0).store_variable_i(B(1, 1), 12);
    ref.number(12, 2);
    try
    {
        std::string m = b->encode();
        ASSERTL(!bad, "header values that do not fit are refused");
        same_text(m, head(*b, " B01001") + ref.s + tail);
        try
        {
            auto d = CrexBulletin::decode(m, "f", 0);
            same_crex(*b, *d);
            auto h = CrexBulletin::decode_header(m, "f", 0);
            ASSERT(h->edition_number == b->edition_number);
            ASSERT(h->data_category == b->data_category);
            ASSERT(h->data_subcategory == b->data_subcategory);
            ASSERT(h->datadesc == b->datadesc);
            vs_reach("end");
        } catch (error_notfound&) { ASSERTL(which >= 2, "tables are found for all categories"); vs_reach("no-table"); }
        // only a BUFR table without CREX definitions is left
        catch (error_parse&) { ASSERTL(which >= 2, "tables are loaded for all categories"); vs_reach("no-table"); }
    } catch (error_consistency&) { ASSERTL(bad, "header values that fit are encoded"); vs_reach("refused"); }
}
// Values of other precisions are converted, or refused when they do not fit
HARNESS("C15", crex_precision, loadc)
{
    _Varinfo vi;
    auto b = mkc();
    b->datadesc = { B(1, 2), B(5, 2), B(1, 2) };
    Varinfo info = b->tables.btable->query(B(5, 2));
    int scale = (int)vs_concretize(vs_u("scale", 0, 4, 2));
    vi.set_crex(B(5, 2), "LATITUDE", info->unit, scale, 6);
    Var v(&vi);
    // windows of values around the limits
    static const int from[] = { -9999, -9009, -64, 8987, 9935 };
    int base = from[vs_concretize(vs_u("base", 0, 4, 2))];
    int x = base + (int)vs_concretize(vs_u("v", 0, 64, 45));
    v.seti(x);
    auto& s = b->obtain_subset(0);
    s.store_variable_i(B(1, 2), 7);
    s.store_variable(v);
    s.store_variable_i(B(1, 2), 8);
    ASSERT(info->scale == 2);
    // in hundredths
    long num = x, den = 1;
    if (scale < 2) num = scale == 1 ? x * 10L : x * 100L;
    else if (scale == 3) den = 10;
    else if (scale == 4) den = 100;
    try
    {
        auto d = CrexBulletin::decode(b->encode(), "f", 0);
        long r = d->subsets[0][1].enqi();
        long err = r * den - num;
        ASSERTL(err * 2 <= den && err * 2 >= -den, "the value is the same up to half a unit");
        ASSERT(d->subsets[0][0].enqi() == 7 && d->subsets[0][2].enqi() == 8);
        vs_reach("end");
    } catch (error_domain&) { ASSERTL(num > info->imax * den || num < info->imin * den, "only values that do not fit are refused"); vs_reach("refused"); }
}
// Bulletins that cannot be encoded
// A message without descriptors or without subsets cannot be written
HARNESS("C15", crex_empty, loadc)
{
    auto b = mkc();
    unsigned descs = vs_concretize(vs_u("descs", 0, 2, 1)), subs = vs_concretize(vs_u("subs", 0, 2, 1));
    b->has_check_digit = vs_concretize(vs_u("check", 0, 1, 0));
    for (unsigned i = 0; i < descs; ++i) b->datadesc.push_back(B(1, 1));
    for (unsigned i = 0; i < subs; ++i) { Subset& s = b->obtain_subset(i); for (unsigned j = 0; j < descs; ++j) s.store_variable_i(B(1, 1), vs_i("v", 0, 98, 1)); }
    std::string m;
    try { m = b->encode(); } catch (error_consistency&) { ASSERTL(!descs | !subs, "messages with data are written"); vs_reach("refused"); return; }
    ASSERTL(descs && subs, "messages without data are refused");
    auto d = CrexBulletin::decode(m);
    ASSERTL(d->subsets.size() == subs && d->datadesc == b->datadesc, "the same subsets and descriptors");
    for (unsigned i = 0; i < subs; ++i) { ASSERT(d->subset(i).size() == descs); for (unsigned j = 0; j < descs; ++j) ASSERT(d->subset(i)[j].enqi() == b->subset(i)[j].enqi()); }
    vs_reach("encoded");
}
HARNESS("C15", crex_refused, loadc)
{
    auto b = mkc();
    unsigned kind = vs_concretize(vs_u("kind", 0, 4, 0));
    auto& s = b->obtain_subset(0);
    unsigned n = vs_concretize(vs_u("n", 0, 3, 0));
    switch (kind)
    {
        case 0: b->datadesc = { B(1, 1), B(1, 2) }; if (n) s.store_variable_i(B(1, 1), 1); break; // too few variables
        case 1: b->datadesc = { R(1, 0), B(1, 1) }; s.store_variable_undef(B(31, 12)); break;
        case 2: { b->datadesc = { R(1, 0), B(1, 1) }; unsigned c = vs_u("c", 10000, 65534, 10000); s.store_variable_i(B(31, 12), c); break; }
        case 3: b->datadesc = { R(1, 0), B(1, 1) }; s.store_variable_i(B(31, 12), 2); for (unsigned i = 0; i < n && i < 1; ++i) s.store_variable_i(B(1, 1), 1); break;
        case 4: b->datadesc = { R(2 + n, 1), B(1, 1) }; s.store_variable_i(B(1, 1), 1); break; // replication past the end
    }
    try { b->encode(); ASSERTL(0, "a bulletin that cannot be encoded is refused"); }
    catch (error&) { vs_reach("refused"); }
}
