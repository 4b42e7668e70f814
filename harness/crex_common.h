// Shared by the CREX harnesses
#pragma once
#include "bufr_common.h"

static std::unique_ptr<CrexBulletin> mkc()
{
    auto b = CrexBulletin::create();
    b->clear();
    b->edition_number = 1;
    b->master_table_number = 0;
    b->master_table_version_number = 3;
    b->master_table_version_number_bufr = 0;
    b->master_table_version_number_local = 0;
    b->data_category = 1;
    b->data_subcategory = 0xff;
    b->load_tables();
    return b;
}
static void loadc() { mkc(); }

// Text of the data section as the CREX rules prescribe it
struct CRef
{
    std::string s;
    bool check;
    unsigned digit = 1;
    CRef(bool check) : check(check) {}
    void sep() { s += ' '; if (check) { s += (char)('0' + digit); digit = (digit + 1) % 10; } }
    void number(int v, unsigned len)
    {
        sep();
        if (v < 0) s += '-';
        unsigned a = v < 0 ? 0u - (unsigned)v : (unsigned)v;
        char b[12];
        for (unsigned i = 0; i < len; ++i) { b[len - 1 - i] = (char)('0' + a % 10); a /= 10; }
        s.append(b, len);
    }
    void missing(unsigned len) { sep(); s.append(len, '/'); }
    void text(const char* t, unsigned len)
    {
        sep();
        unsigned n = strlen(t);
        s.append(t, n);
        s.append(len - n, ' ');
    }
    void end_subset() { s += "+\r\r\n"; }
};
static std::string head(const CrexBulletin& b, const std::string& descs)
{
    char x[64];
    if (b.data_subcategory == 0xff)
        snprintf(x, 64, "CREX++\r\r\nT%02u%02u%02u A%03u", (unsigned)b.master_table_number, (unsigned)b.edition_number, (unsigned)b.master_table_version_number, (unsigned)b.data_category);
    else
        snprintf(x, 64, "CREX++\r\r\nT%02u%02u%02u A%03u%03u", (unsigned)b.master_table_number, (unsigned)b.edition_number, (unsigned)b.master_table_version_number, (unsigned)b.data_category, (unsigned)b.data_subcategory);
    return x + descs + (b.has_check_digit ? " E++\r\r\n" : "++\r\r\n");
}
static const char* const tail = "++\r\r\n7777\r\r\n";

static void same_text(const std::string& a, const std::string& b)
{
    ASSERTL(a.size() == b.size(), "the message has the prescribed length");
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        ASSERTL(a[i] == b[i], "the message is the prescribed text");
}

static void same_crex(const CrexBulletin& a, const CrexBulletin& b)
{
    ASSERT(a.edition_number == b.edition_number);
    ASSERT(a.master_table_number == b.master_table_number);
    ASSERT(a.master_table_version_number == b.master_table_version_number);
    ASSERT(a.data_category == b.data_category);
    ASSERT(a.data_subcategory == b.data_subcategory);
    ASSERT(a.has_check_digit == b.has_check_digit);
    same_subsets(a, b);
}
