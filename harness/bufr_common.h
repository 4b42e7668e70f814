// Shared by the BUFR harnesses: a bulletin with loaded tables, and an
// independent description of the bit layout of a data section
#pragma once
#include "common.h"
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/dtable.h>

#define B(x, y) WR_VAR(0, x, y)
#define R(x, y) WR_VAR(1, x, y)
#define C(x, y) WR_VAR(2, x, y)
#define D(x, y) WR_VAR(3, x, y)

static std::unique_ptr<BufrBulletin> mk(unsigned edition = 4)
{
    auto b = BufrBulletin::create();
    b->clear();
    b->edition_number = edition;
    b->originating_centre = 0;
    b->originating_subcentre = 0;
    b->master_table_version_number = 14;
    b->master_table_version_number_local = 0;
    b->rep_year = 2015; b->rep_month = 3; b->rep_day = 4; b->rep_hour = 5; b->rep_minute = 6; b->rep_second = 0;
    b->data_category = 0; b->data_subcategory = 1; b->data_subcategory_local = 2;
    b->load_tables();
    return b;
}

static void load14() { mk(); }

struct Ref
{
    std::vector<unsigned char> buf;
    unsigned n = 0;
    void put(uint32_t v, unsigned bits)
    {
        for (int i = (int)bits - 1; i >= 0; --i)
        {
            if (n % 8 == 0) buf.push_back(0);
            unsigned char bit = i < 32 ? (v >> i) & 1 : 0;
            buf.back() |= bit << (7 - n % 8);
            ++n;
        }
    }
    void ones(unsigned bits) { for (unsigned i = 0; i < bits; ++i) put(1, 1); }
    // A numeric variable as the BUFR rules lay it out
    void num(const Var& v)
    {
        Varinfo i = v.info();
        if (v.isset()) put((uint32_t)(v.enqi() - i->bit_ref), i->bit_len);
        else ones(i->bit_len);
    }
};

static unsigned be(const std::string& s, size_t pos, unsigned n)
{
    unsigned r = 0;
    for (unsigned i = 0; i < n; ++i) r = (r << 8) | (unsigned char)s[pos + i];
    return r;
}

// Offset of the start of each section, checking that the lengths declared
// chain up to the end of the message
struct Sections
{
    size_t s[6];
    explicit Sections(const std::string& m)
    {
        ASSERT(m.size() >= 8 + 18 + 4 + 4);
        ASSERT(!memcmp(m.data(), "BUFR", 4));
        ASSERT(!memcmp(m.data() + m.size() - 4, "7777", 4));
        ASSERT(be(m, 4, 3) == m.size());
        unsigned ed = (unsigned char)m[7];
        s[0] = 0; s[1] = 8;
        s[2] = s[1] + be(m, s[1], 3);
        ASSERT(s[2] <= m.size());
        bool opt = m[s[1] + (ed == 4 ? 9 : 7)] & 0x80;
        s[3] = opt ? s[2] + be(m, s[2], 3) : s[2];
        ASSERT(s[3] + 7 <= m.size());
        s[4] = s[3] + be(m, s[3], 3);
        ASSERT(s[4] + 4 <= m.size());
        s[5] = s[4] + be(m, s[4], 3);
        ASSERT(s[5] + 4 == m.size());
    }
};

// The data section holds exactly these bits, zero padded to the end of the section
static void check_data(const std::string& m, const Ref& ref)
{
    Sections s(m);
    size_t n = s.s[5] - s.s[4] - 4;
    ASSERT(n >= ref.buf.size());
    ASSERT(n <= ref.buf.size() + 1);
    for (size_t i = 0; i < n; ++i)
        ASSERTL((unsigned char)m[s.s[4] + 4 + i] == (i < ref.buf.size() ? ref.buf[i] : 0), "the data section holds the bits the BUFR rules prescribe");
}

static void same_var(const Var& a, const Var& b)
{
    ASSERT(a.code() == b.code());
    ASSERT(a.isset() == b.isset());
    if (!a.isset() || !b.isset()) return;
    ASSERT(a.info()->type == b.info()->type);
    switch (a.info()->type)
    {
        case Vartype::Integer:
        case Vartype::Decimal:
            ASSERT(a.info()->scale == b.info()->scale);
            ASSERT(a.enqi() == b.enqi());
            break;
        default:
        {
            Var x(a), y(b);
            x.clear_attrs();
            y.clear_attrs();
            ASSERT(x == y);
            break;
        }
    }
}
static void same_attrs(const Var& a, const Var& b)
{
    const Var* x = a.next_attr();
    const Var* y = b.next_attr();
    while (x && y)
    {
        same_var(*x, *y);
        x = x->next_attr();
        y = y->next_attr();
    }
    ASSERT(!x && !y);
}
static void same_subsets(const Bulletin& a, const Bulletin& b)
{
    ASSERT(a.subsets.size() == b.subsets.size());
    for (unsigned i = 0; i < a.subsets.size(); ++i)
    {
        ASSERT(a.subsets[i].size() == b.subsets[i].size());
        for (unsigned j = 0; j < a.subsets[i].size(); ++j)
        {
            same_var(a.subsets[i][j], b.subsets[i][j]);
            same_attrs(a.subsets[i][j], b.subsets[i][j]);
        }
    }
}

// A variable set to any value in its range, or unset
static Var any_num(Varinfo info, const char* name, bool may_unset = true)
{
    Var v(info);
    std::string n(name);
    if (may_unset && vs_concretize(vs_u((n + ".unset").c_str(), 0, 1, 0))) return v;
    int64_t lo = std::max<int64_t>(info->imin, info->bit_ref);
    int64_t hi = std::min<int64_t>(info->imax, info->bit_ref + (int64_t(1) << info->bit_len) - (WR_VAR_X(info->code) == 31 ? 1 : 2));
    v.seti(vs_i(name, lo, hi, lo < 1 && hi > 1 ? 1 : lo));
    return v;
}

// Append a section 4 etc.: a message built by hand
[[maybe_unused]] static std::string message(unsigned ed, const std::vector<Varcode>& descs, unsigned subsets, bool compressed, const std::string& opt, const std::string& data)
{
    std::string m("BUFR");
    auto put = [&](unsigned v, unsigned n) { while (n--) m += (char)(v >> (8 * n)); };
    size_t s1 = ed == 4 ? 22 : 18, s2 = opt.empty() ? 0 : 4 + opt.size(), s3 = 7 + 2 * descs.size(), s4 = 4 + data.size();
    put(8 + s1 + s2 + s3 + s4 + 4, 3); put(ed, 1);
    if (ed == 4)
    {
        put(22, 3); put(0, 1); put(0, 2); put(0, 2); put(0, 1); put(s2 ? 0x80 : 0, 1); put(0, 1); put(0, 1); put(0, 1); put(14, 1); put(0, 1);
        put(2015, 2); put(1, 1); put(2, 1); put(3, 1); put(4, 1); put(5, 1);
    } else {
        put(18, 3); put(0, 1); put(0, 1); put(0, 1); put(0, 1); put(s2 ? 0x80 : 0, 1); put(0, 1); put(0, 1); put(14, 1); put(0, 1);
        put(15, 1); put(1, 1); put(2, 1); put(3, 1); put(4, 1); put(0, 1);
    }
    if (s2) { put(s2, 3); put(0, 1); m += opt; }
    put(s3, 3); put(0, 1); put(subsets, 2); put(compressed ? 0xc0 : 0x80, 1);
    for (auto c : descs) put(c, 2);
    put(s4, 3); put(0, 1);
    m += data;
    m += "7777";
    return m;
}
