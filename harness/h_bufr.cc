// C09 BUFR headers, C10 BUFR data
#include "bufr_common.h"

static void any_header(BufrBulletin& b, unsigned ed)
{
    b.edition_number = ed;
    b.data_category = vs_u("cat", 0, 255, 1);
    b.data_subcategory = vs_u("subcat", 0, 255, 2);
    b.data_subcategory_local = vs_u("subcatl", 0, 255, 3);
    b.originating_centre = vs_u("centre", 0, ed == 4 ? 65535 : 255, 4);
    b.originating_subcentre = vs_u("subcentre", 0, ed == 4 ? 65535 : 255, 5);
    b.update_sequence_number = vs_u("update", 0, 255, 6);
    b.rep_year = ed == 4 ? vs_u("year", 0, 65535, 2015) : vs_u("year", 1951, 2050, 2015);
    b.rep_month = vs_u("month", 0, 255, 7);
    b.rep_day = vs_u("day", 0, 255, 8);
    b.rep_hour = vs_u("hour", 0, 255, 9);
    b.rep_minute = vs_u("minute", 0, 255, 10);
    b.rep_second = vs_u("second", 0, 255, 11);
}
static const unsigned eds[] = { 2, 3, 4 };

HARNESS("C09", hdr_layout, load14)
{
    unsigned ed = eds[vs_concretize(vs_u("ed", 0, 2, 2))];
    auto b = mk();
    any_header(*b, ed);
    b->master_table_number = vs_u("mtn", 0, 255, 0);
    b->master_table_version_number = vs_u("mtv", 0, 255, 14);
    b->master_table_version_number_local = vs_u("mtl", 0, 255, 0);
    unsigned on = vs_concretize(vs_u("optlen", 0, 4, 0));
    char opt[4] = {'a', 'b', 'c', 'd'};
    vs_bytes(opt, 4, "opt");
    b->optional_section = std::string(opt, on);
    unsigned nd = vs_concretize(vs_u("descs", 1, 3, 1)), ns = vs_concretize(vs_u("subsets", 1, 2, 1));
    static const Varcode codes[] = { B(1, 1), B(12, 101), B(2, 1) };
    for (unsigned i = 0; i < nd; ++i) b->datadesc.push_back(codes[i]);
    for (unsigned s = 0; s < ns; ++s)
        for (unsigned i = 0; i < nd; ++i) b->obtain_subset(s).store_variable_i(codes[i], 1 + s);
    std::string m = b->encode();
    Sections s(m);
    ASSERT((unsigned char)m[7] == ed);
    size_t p = s.s[1];
    ASSERT((unsigned char)m[p + 3] == b->master_table_number);
    if (ed == 4)
    {
        ASSERT(s.s[2] - p == 22);
        ASSERT(be(m, p + 4, 2) == b->originating_centre);
        ASSERT(be(m, p + 6, 2) == b->originating_subcentre);
        ASSERT(be(m, p + 8, 1) == b->update_sequence_number);
        ASSERT(be(m, p + 9, 1) == (on ? 0x80 : 0));
        ASSERT(be(m, p + 10, 1) == b->data_category);
        ASSERT(be(m, p + 11, 1) == b->data_subcategory);
        ASSERT(be(m, p + 12, 1) == b->data_subcategory_local);
        ASSERT(be(m, p + 13, 1) == b->master_table_version_number);
        ASSERT(be(m, p + 14, 1) == b->master_table_version_number_local);
        ASSERT(be(m, p + 15, 2) == b->rep_year);
        ASSERT(be(m, p + 17, 1) == b->rep_month);
        ASSERT(be(m, p + 18, 1) == b->rep_day);
        ASSERT(be(m, p + 19, 1) == b->rep_hour);
        ASSERT(be(m, p + 20, 1) == b->rep_minute);
        ASSERT(be(m, p + 21, 1) == b->rep_second);
    } else {
        ASSERT(s.s[2] - p == 18);
        ASSERT(be(m, p + 4, 1) == b->originating_subcentre);
        ASSERT(be(m, p + 5, 1) == b->originating_centre);
        ASSERT(be(m, p + 6, 1) == b->update_sequence_number);
        ASSERT(be(m, p + 7, 1) == (on ? 0x80 : 0));
        ASSERT(be(m, p + 8, 1) == b->data_category);
        ASSERT(be(m, p + 9, 1) == b->data_subcategory_local);
        ASSERT(be(m, p + 10, 1) == b->master_table_version_number);
        ASSERT(be(m, p + 11, 1) == b->master_table_version_number_local);
        unsigned y = be(m, p + 12, 1);
        ASSERT(y % 100 == b->rep_year % 100);
        ASSERT(y <= 100);
        ASSERT(be(m, p + 13, 1) == b->rep_month);
        ASSERT(be(m, p + 14, 1) == b->rep_day);
        ASSERT(be(m, p + 15, 1) == b->rep_hour);
        ASSERT(be(m, p + 16, 1) == b->rep_minute);
    }
    if (on)
    {
        unsigned l = (unsigned)(s.s[3] - s.s[2]);
        ASSERT(l == 4 + on || l == 4 + on + on % 2);
        for (unsigned i = 0; i < on; ++i) ASSERT(m[s.s[2] + 4 + i] == opt[i]);
    }
    ASSERT(be(m, s.s[3] + 4, 2) == ns);
    ASSERT((be(m, s.s[3] + 6, 1) & 0x40) == 0);
    ASSERT((s.s[4] - s.s[3] - 7) / 2 == nd);
    for (unsigned i = 0; i < nd; ++i) ASSERT(be(m, s.s[3] + 7 + 2 * i, 2) == codes[i]);
    ASSERT(s.s[5] % 2 == 0);
    vs_reach("end");
}

static void check_header(const BufrBulletin& a, const BufrBulletin& b, unsigned ed)
{
    ASSERT(b.edition_number == ed);
    ASSERT(b.master_table_number == a.master_table_number);
    ASSERT(b.data_category == a.data_category);
    ASSERT(b.data_subcategory_local == a.data_subcategory_local);
    ASSERT(b.originating_centre == a.originating_centre);
    ASSERT(b.originating_subcentre == a.originating_subcentre);
    ASSERT(b.update_sequence_number == a.update_sequence_number);
    ASSERT(b.master_table_version_number == a.master_table_version_number);
    ASSERT(b.master_table_version_number_local == a.master_table_version_number_local);
    ASSERT(b.rep_year == a.rep_year);
    ASSERT(b.rep_month == a.rep_month);
    ASSERT(b.rep_day == a.rep_day);
    ASSERT(b.rep_hour == a.rep_hour);
    ASSERT(b.rep_minute == a.rep_minute);
    if (ed == 4)
    {
        ASSERT(b.data_subcategory == a.data_subcategory);
        ASSERT(b.rep_second == a.rep_second);
    } else
        ASSERT(b.rep_second == 0);
    ASSERT(!b.compression);
    unsigned on = a.optional_section.size();
    ASSERT(b.optional_section.size() == on || b.optional_section.size() == on + on % 2);
    for (unsigned i = 0; i < on; ++i) ASSERT(b.optional_section[i] == a.optional_section[i]);
    ASSERT(b.datadesc == a.datadesc);
}

HARNESS("C09", hdr_roundtrip, load14)
{
    unsigned ed = eds[vs_concretize(vs_u("ed", 0, 2, 2))];
    auto b = mk();
    any_header(*b, ed);
    // Which tables are loaded for which centre is C20: here, one choice
    b->originating_centre = 200 + b->originating_centre % 8;
    unsigned on = vs_concretize(vs_u("optlen", 0, 3, 0));
    char opt[4] = {'a', 'b', 'c', 'd'};
    vs_bytes(opt, 4, "opt");
    b->optional_section = std::string(opt, on);
    unsigned nd = vs_concretize(vs_u("descs", 1, 3, 1)), ns = vs_concretize(vs_u("subsets", 1, 2, 1));
    static const Varcode codes[] = { B(1, 1), B(12, 101), B(2, 1) };
    for (unsigned i = 0; i < nd; ++i) b->datadesc.push_back(codes[i]);
    for (unsigned s = 0; s < ns; ++s)
        for (unsigned i = 0; i < nd; ++i) b->obtain_subset(s).store_variable_i(codes[i], 1 + s);
    std::string m = b->encode();
    auto h = BufrBulletin::decode_header(m, "f", 12);
    check_header(*b, *h, ed);
    ASSERT(h->offset == 12);
    ASSERT(h->fname == "f");
    ASSERT(h->subsets.empty());
    auto d = BufrBulletin::decode(m, "f", 12);
    check_header(*b, *d, ed);
    ASSERT(d->tables.btable == b->tables.btable);
    ASSERT(d->tables.dtable == b->tables.dtable);
    same_subsets(*b, *d);
    Sections s(m);
    for (unsigned i = 0; i < 5; ++i) ASSERT(d->section_end[i] == s.s[i + 1]);
    ASSERT(d->section_end[5] == m.size());
    vs_reach("end");
}

// Any bytes in the identification section of a well formed message
HARNESS("C09", hdr_decode, load14)
{
    unsigned ed = eds[vs_concretize(vs_u("ed", 0, 2, 2))];
    auto b = mk(ed);
    b->datadesc.push_back(B(1, 1));
    b->obtain_subset(0).store_variable_i(B(1, 1), 1);
    std::string m = b->encode();
    // dates, categories and centre (below the range with local tables); the other fields keep their values
    unsigned extra = vs_concretize(vs_u("extra", 0, 2, 0)); // local use bytes at the end of section 1
    size_t p = 8, len1 = ed == 4 ? 22 : 18;
    unsigned char x[22];
    for (unsigned i = 0; i < len1; ++i) x[i] = m[p + i];
    if (ed == 4)
    {
        vs_bytes(x + 6, 3, "a"); // subcentre, update
        vs_bytes(x + 10, 3, "b"); // categories
        vs_bytes(x + 15, 7, "c"); // date
    } else {
        vs_bytes(x + 4, 1, "a"); vs_bytes(x + 6, 1, "u");
        vs_bytes(x + 8, 2, "b");
        vs_bytes(x + 12, 6, "c");
    }
    x[2] += extra;
    std::string n = m.substr(0, 8) + std::string((char*)x, len1) + std::string(extra, '\xfe') + m.substr(8 + len1);
    n[6] += extra;
    auto d = vs_concretize(vs_u("full", 0, 1, 1)) ? BufrBulletin::decode(n) : BufrBulletin::decode_header(n);
    if (ed == 4)
    {
        ASSERT(d->originating_centre == 0);
        ASSERT(d->originating_subcentre == x[6] * 256 + x[7]);
        ASSERT(d->update_sequence_number == x[8]);
        ASSERT(d->data_category == x[10]); ASSERT(d->data_subcategory == x[11]); ASSERT(d->data_subcategory_local == x[12]);
        ASSERT(d->rep_year == x[15] * 256 + x[16]);
        ASSERT(d->rep_month == x[17]); ASSERT(d->rep_day == x[18]); ASSERT(d->rep_hour == x[19]); ASSERT(d->rep_minute == x[20]); ASSERT(d->rep_second == x[21]);
    } else {
        ASSERT(d->originating_subcentre == x[4]); ASSERT(d->originating_centre == 0);
        ASSERT(d->update_sequence_number == x[6]);
        ASSERT(d->data_category == x[8]); ASSERT(d->data_subcategory_local == x[9]);
        ASSERT(d->rep_year == x[12] + (x[12] > 50 ? 1900 : 2000));
        ASSERT(d->rep_month == x[13]); ASSERT(d->rep_day == x[14]); ASSERT(d->rep_hour == x[15]); ASSERT(d->rep_minute == x[16]);
    }
    ASSERT(d->datadesc.size() == 1);
    ASSERT(d->datadesc[0] == B(1, 1));
    vs_reach("end");
}

// Sections too long for their length fields
HARNESS("C09", hdr_too_long, load14)
{
    auto b = mk(4);
    b->datadesc.push_back(B(1, 1));
    b->obtain_subset(0).store_variable_i(B(1, 1), 1);
    static const unsigned sizes[] = { 2, 0xfffffa, 0xfffffc, 0xffffff, 0x1000000, 0x1000002 };
    unsigned n = sizes[vs_concretize(vs_u("size", 0, 5, 0))];
    b->optional_section = std::string(n, 'x');
    std::string m;
    try { m = b->encode(); } catch (error_consistency&) { vs_reach("refused"); return; }
    Sections s(m);
    auto d = BufrBulletin::decode(m);
    ASSERT(d->optional_section == b->optional_section);
    vs_reach("encoded");
}

// A message without descriptors or without subsets cannot be written
HARNESS("C09", hdr_empty, load14)
{
    auto b = mk(eds[vs_concretize(vs_u("ed", 0, 2, 2))]);
    unsigned descs = vs_concretize(vs_u("descs", 0, 1, 1)), subs = vs_concretize(vs_u("subs", 0, 2, 1));
    if (descs) b->datadesc.push_back(B(1, 1));
    for (unsigned i = 0; i < subs; ++i) { Subset& s = b->obtain_subset(i); if (descs) s.store_variable_i(B(1, 1), vs_i("v", 0, 126, 1)); }
    std::string m;
    try { m = b->encode(); } catch (error_consistency&) { ASSERTL(!descs | !subs, "messages with data are written"); vs_reach("refused"); return; }
    ASSERTL(descs && subs, "messages without data are refused");
    auto d = BufrBulletin::decode(m);
    ASSERT(d->subsets.size() == subs && d->datadesc == b->datadesc);
    vs_reach("encoded");
}
static const Varcode alpha[] = { B(1, 1), B(12, 101), B(2, 1), B(5, 1), B(10, 4), B(20, 3) };

HARNESS("C10", data_numbers, load14)
{
    auto b = mk(eds[vs_concretize(vs_u("ed", 1, 2, 2))]);
    unsigned n = vs_thorough() ? 4 : 3;
    Ref ref;
    for (unsigned i = 0; i < n; ++i)
    {
        char name[8] = "d0"; name[1] += i;
        Varcode c = alpha[vs_concretize(vs_u(name, 0, 5, i))];
        b->datadesc.push_back(c);
        name[0] = 'v';
        Var v = any_num(b->tables.btable->query(c), name);
        ref.num(v);
        b->obtain_subset(0).store_variable(v);
    }
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(*b, *d);
    vs_reach("end");
}

// All the values of variables that span the range of sizes and scales
HARNESS("C10", data_scales, load14)
{
    static const Varcode codes[] = { B(4, 1), B(4, 2), B(5, 2), B(6, 1), B(7, 1), B(7, 30), B(10, 9), B(10, 51), B(11, 1), B(11, 2), B(12, 101), B(13, 3), B(13, 11), B(13, 23), B(14, 31), B(20, 1), B(22, 42), B(31, 2), B(8, 42), B(33, 7) };
    auto b = mk(4);
    Varcode c = codes[vs_concretize(vs_u("code", 0, sizeof(codes) / sizeof(codes[0]) - 1, 0))];
    Ref ref;
    b->datadesc = { B(2, 1), c, B(1, 1) };
    Varinfo inf[] = { b->tables.btable->query(B(2, 1)), b->tables.btable->query(c), b->tables.btable->query(B(1, 1)) };
    Subset& s = b->obtain_subset(0);
    s.store_variable_i(B(2, 1), 2);
    s.store_variable(any_num(inf[1], "v", WR_VAR_X(c) != 31));
    s.store_variable_i(B(1, 1), 85);
    for (auto& v : s) ref.num(v);
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(*b, *d);
    vs_reach("end");
}

// Every numeric entry of the table: the ends of its range, the missing value, and those next to them
static std::vector<Varcode> every_codes;
static void every_setup()
{
    auto b = mk();
    every_codes.clear();
    b->tables.btable->iterate([&](Varinfo i) {
        if (i->type != Vartype::String && i->type != Vartype::Binary && (every_codes.empty() || every_codes.back() != i->code)) every_codes.push_back(i->code);
        return true;
    });
}
HARNESS("C10", data_every, every_setup)
{
    unsigned hi = vs_concretize(vs_u("hi", 0, every_codes.size() / 64, 0)), lo = vs_concretize(vs_u("lo", 0, 63, 0));
    if (hi * 64 + lo >= every_codes.size()) return;
    Varcode c = every_codes[hi * 64 + lo];
    auto b = mk(4);
    b->datadesc = { B(2, 1), c, B(1, 1) };
    Varinfo info = b->tables.btable->query(c);
    Subset& s = b->obtain_subset(0);
    s.store_variable_i(B(2, 1), 2);
    // all ones are the missing value, except in replication factors
    unsigned y = WR_VAR_Y(c);
    bool factor = WR_VAR_X(c) == 31 && (y <= 2 || y == 11 || y == 12);
    int64_t first = std::max<int64_t>(info->imin, info->bit_ref);
    int64_t last = std::min<int64_t>(info->imax, info->bit_ref + (int64_t(1) << info->bit_len) - (factor ? 1 : 2));
    Var v(info);
    unsigned kind = vs_concretize(vs_u("kind", 0, 3, 0));
    // entries whose BUFR and CREX definitions have no value in common hold none
    if ((kind != 0) & (first > last)) { vs_reach("no-value"); return; }
    if (kind == 0)
    {
        if (factor) return;
    }
    else if (info->scale == 0)
    {
        if (kind > 1) return;
        v.seti(vs_i("v", first, last, first));
    }
    else
        v.seti(kind == 1 ? first : kind == 2 ? last : first / 2 + last / 2);
    s.store_variable(std::move(v));
    s.store_variable_i(B(1, 1), 85);
    Ref ref;
    for (auto& x : s) ref.num(x);
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(*b, *d);
    ASSERTL(s[1].isset() == (kind != 0), "set values are values");
    vs_reach("end");
}

static bool wsp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

HARNESS("C10", data_text, load14)
{
    auto b = mk(4);
    Ref ref;
    b->datadesc = { B(1, 1), B(1, 6), B(2, 1) }; // 7 bits, 8 characters, 2 bits
    Subset& s = b->obtain_subset(0);
    s.store_variable(any_num(b->tables.btable->query(B(1, 1)), "v", false));
    Varinfo ti = b->tables.btable->query(B(1, 6));
    ASSERT(ti->len == 8 && ti->bit_len == 64);
    unsigned shape = vs_concretize(vs_u("shape", 0, 5, 2)); // 0..3: that many characters; 4: 8 of them; 5: unset
    unsigned n = shape < 4 ? shape : 8;
    char t[9] = "abcdefgh";
    // the ends of the text are arbitrary
    if (n <= 3) vs_bytes(t, 3, "t");
    else { vs_bytes(t, 1, "t"); vs_bytes(t + 5, 3, "u"); }
    for (unsigned i = 0; i < 8; ++i) if (i < 3 || i >= 5) vs_assume(t[i] != 0);
    t[n] = 0;
    ref.num(s[0]);
    if (shape == 5)
    {
        s.store_variable_undef(B(1, 6));
        ref.ones(64);
    } else {
        s.store_variable_c(B(1, 6), t);
        for (unsigned i = 0; i < 8; ++i) ref.put(i < n ? (unsigned char)t[i] : ' ', 8);
    }
    s.store_variable_i(B(2, 1), 2);
    ref.num(s[2]);
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    ASSERT(d->subsets.size() == 1 && d->subsets[0].size() == 3);
    same_var(s[0], d->subsets[0][0]);
    same_var(s[2], d->subsets[0][2]);
    const Var& v = d->subsets[0][1];
    ASSERT(v.code() == B(1, 6));
    ASSERT(v.isset() == (shape != 5));
    if (shape == 5) { vs_reach("unset"); return; }
    const char* g = v.enqc();
    // equal up to the trailing white space that pads texts in BUFR
    for (unsigned i = 0; i < n; ++i)
    {
        bool tail = true;
        for (unsigned j = i; j < n; ++j) if (!wsp(t[j])) tail = false;
        if (tail) { if (i > 0) { ASSERT(g[i] == 0); break; } }
        else ASSERT(g[i] == t[i]);
    }
    ASSERT(strlen(g) <= (n ? n : 1));
    vs_reach("end");
}

// Opaque values of every length, at any alignment
HARNESS("C10", data_opaque, load14)
{
    auto b = mk(4);
    static const unsigned ys[] = { 1, 2, 5, 7, 8, 9, 11, 15, 16, 17, 23, 24, 29, 32, 33, 40, 77, 255 };
    unsigned y = ys[vs_concretize(vs_u("bits", 0, 17, 3))];
    bool before = vs_concretize(vs_u("before", 0, 1, 1));
    unsigned ns = vs_concretize(vs_u("subsets", 1, 2, 1));
    if (before) b->datadesc.push_back(B(1, 1));
    b->datadesc.push_back(C(6, y)); b->datadesc.push_back(B(63, 200)); b->datadesc.push_back(B(2, 1));
    Varinfo i = b->tables.get_unknown(B(63, 200), y);
    Ref ref;
    for (unsigned k = 0; k < ns; ++k)
    {
        char name[8] = "v0"; name[1] += k;
        Subset& s = b->obtain_subset(k);
        if (before) { s.store_variable(any_num(b->tables.btable->query(B(1, 1)), name, false)); ref.num(s[0]); }
        unsigned len = (y + 7) / 8, last = y % 8 ? y % 8 : 8;
        unsigned char t[40];
        memset(t, 0xa5, sizeof t);
        name[0] = 't';
        // the first and the last bytes
        vs_bytes(t, len < 2 ? len : 2, name);
        name[0] = 'u';
        if (len > 2) vs_bytes(t + len - 1, 1, name);
        vs_assume(t[len - 1] < (1 << last));
        bool ones = true;
        for (unsigned j = 0; j < len; ++j) ones = ones & (t[j] == (j == len - 1 ? (1 << last) - 1 : 0xff));
        vs_assume(!ones);
        Var v(i);
        v.sets(std::string((char*)t, len));
        for (unsigned j = 0; j < len; ++j) ref.put(t[j], j == len - 1 ? last : 8);
        s.store_variable(v);
        name[0] = 'w';
        s.store_variable(any_num(b->tables.btable->query(B(2, 1)), name));
        ref.num(s.back());
    }
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(*b, *d);
    vs_reach("end");
}

// Text and opaque values: all ones is missing, whatever surrounds it
HARNESS("C10", data_subsets, load14)
{
    auto b = mk(4);
    unsigned ns = vs_concretize(vs_u("subsets", 1, 3, 2));
    b->datadesc = { B(1, 1), B(2, 1) };
    Ref ref;
    for (unsigned i = 0; i < ns; ++i)
    {
        char name[8] = "a0"; name[1] += i;
        Subset& s = b->obtain_subset(i);
        s.store_variable(any_num(b->tables.btable->query(B(1, 1)), name));
        name[0] = 'b';
        s.store_variable(any_num(b->tables.btable->query(B(2, 1)), name));
        ref.num(s[0]); ref.num(s[1]);
    }
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(*b, *d);
    vs_reach("end");
}

// Fixed and delayed replication, with nothing, one or two descriptors inside and something after
HARNESS("C10", data_replication, load14)
{
    auto b = mk(4);
    static const Varcode factors[] = { B(31, 0), B(31, 1), B(31, 2), B(31, 11), B(31, 12) };
    unsigned kind = vs_concretize(vs_u("kind", 0, 5, 1)); // 5: fixed
    unsigned group = vs_concretize(vs_u("group", 1, 2, 1));
    unsigned count = vs_concretize(vs_u("count", 0, vs_thorough() ? 4 : 3, 2));
    if (kind == 0 && count > 1) return;
    if (kind == 5 && count == 0) return;
    Subset& s = b->obtain_subset(0);
    Ref ref;
    s.store_variable_i(B(2, 1), 1);
    b->datadesc.push_back(B(2, 1));
    b->datadesc.push_back(R(group, kind == 5 ? count : 0));
    if (kind != 5) { b->datadesc.push_back(factors[kind]); s.store_variable_i(factors[kind], count); }
    for (unsigned g = 0; g < group; ++g) b->datadesc.push_back(g ? B(20, 3) : B(1, 1));
    b->datadesc.push_back(B(1, 2));
    for (unsigned c = 0; c < count; ++c)
        for (unsigned g = 0; g < group; ++g)
        {
            char name[8] = "v00"; name[1] += c; name[2] += g;
            s.store_variable(any_num(b->tables.btable->query(g ? B(20, 3) : B(1, 1)), name, g == 0));
        }
    s.store_variable(any_num(b->tables.btable->query(B(1, 2)), "end", false));
    for (auto& v : s) ref.num(v);
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(*b, *d);
    vs_reach("end");
}

// Replications inside replications, and sequences inside replications
HARNESS("C10", data_nested, load14)
{
    auto b = mk(4);
    // outer: sequence 3 01 001 (block and station), then an inner delayed replication of one descriptor
    b->datadesc = { R(4, 0), B(31, 1), D(1, 1), R(1, 0), B(31, 0), B(2, 1), D(1, 11), R(2, 2), R(1, 2), B(33, 7) };
    Subset& s = b->obtain_subset(0);
    const Vartable& bt = *b->tables.btable;
    unsigned outer = vs_concretize(vs_u("outer", 0, 2, 1));
    s.store_variable_i(B(31, 1), outer);
    for (unsigned i = 0; i < outer; ++i)
    {
        char name[8] = "a0"; name[1] += i;
        s.store_variable(any_num(bt.query(B(1, 1)), name, false)); name[0] = 'b';
        s.store_variable(any_num(bt.query(B(1, 2)), name)); name[0] = 'i';
        unsigned inner = vs_concretize(vs_u(name, 0, 1, 1)); name[0] = 'c';
        s.store_variable_i(B(31, 0), inner);
        if (inner) s.store_variable(any_num(bt.query(B(2, 1)), name));
    }
    s.store_variable(any_num(bt.query(B(4, 1)), "year", false));
    s.store_variable(any_num(bt.query(B(4, 2)), "month"));
    s.store_variable(any_num(bt.query(B(4, 3)), "day", false));
    for (unsigned i = 0; i < 4; ++i)
    {
        char name[8] = "p0"; name[1] += i;
        s.store_variable(any_num(bt.query(B(33, 7)), name, i == 3));
    }
    Ref ref;
    for (auto& v : s) ref.num(v);
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(*b, *d);
    vs_reach("end");
}

// Numbers that do not fit the field the descriptors prescribe
HARNESS("C10", data_misfit, load14)
{
    auto b = mk(4);
    static _Varinfo wide;
    memset(&wide, 0, sizeof wide);
    Varcode c = alpha[vs_concretize(vs_u("code", 0, 5, 0))];
    Varinfo field = b->tables.btable->query(c);
    wide.set_bufr(c, "WIDE", field->unit, field->scale, 9, -100000000, 31);
    Var v(&wide, vs_i("v", -90000000, 90000000, 300));
    b->datadesc = { c };
    b->obtain_subset(0).store_variable(v);
    std::string m;
    try { m = b->encode(); } catch (error_consistency&) { vs_reach("refused"); return; } catch (error_domain&) { vs_reach("refused"); return; }
    auto d = BufrBulletin::decode(m);
    ASSERT(d->subsets.size() == 1 && d->subsets[0].size() == 1);
    const Var& g = d->subsets[0][0];
    ASSERTL(g.isset(), "a value is not encoded as the missing value");
    ASSERTL(g.enqi() == v.enqi(), "a value that does not fit is refused, not changed");
    vs_reach("fits");
}

// Subsets that end before the descriptors do
HARNESS("C10", data_short, load14)
{
    auto b = mk(4);
    unsigned shape = vs_concretize(vs_u("shape", 0, 3, 0));
    Subset& s = b->obtain_subset(0);
    unsigned have = vs_concretize(vs_u("have", 0, 6, 1)), need = 0;
    switch (shape)
    {
        case 0: b->datadesc = { B(1, 1), B(1, 2), B(2, 1) }; need = 3; break;
        case 1: b->datadesc = { R(2, 3), B(1, 1), B(2, 1) }; need = 6; break;
        case 2: b->datadesc = { R(1, 0), B(31, 1), B(1, 1) }; need = 4; break; // count 3
        case 3: b->datadesc = { D(1, 11), D(1, 1) }; need = 5; break;
    }
    for (unsigned i = 0; i < have; ++i)
        if (shape == 2 && i == 0) s.store_variable_i(B(31, 1), 3);
        else s.store_variable_i(B(2, 1), 1);
    bool ok = true;
    try { b->encode(); } catch (error&) { ok = false; }
    ASSERT(ok == (have >= need));
    vs_reach(ok ? "encoded" : "refused");
}
