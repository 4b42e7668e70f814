// C20 selection of tables
#include "common.h"
#include <wreport/internals/tabledir.h>
#include <wreport/tableinfo.h>
#include <wreport/tables.h>
#include <wreport/dtable.h>
#include <dirent.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstdlib>
#include <fstream>
#include <set>
using namespace wreport;

namespace {
// Contents of the directories that are read, in the order in which they are
std::vector<std::vector<std::string>> g_lists;
size_t g_list, g_entry;
bool g_fake;
template<typename D> D* fake_entry()
{
    static D d;
    if (g_list >= g_lists.size()) return nullptr;
    if (g_entry >= g_lists[g_list].size()) { ++g_list; g_entry = 0; return nullptr; }
    const std::string& n = g_lists[g_list][g_entry++];
    memset(&d, 0, sizeof(d));
    d.d_ino = 1000 + g_list * 100 + g_entry;
    d.d_type = DT_REG;
    d.d_reclen = sizeof(d);
    memcpy(d.d_name, n.c_str(), n.size() + 1);
    return &d;
}
}
extern "C" struct dirent* readdir(DIR* d)
{
    if (g_fake) return fake_entry<struct dirent>();
    static auto f = (struct dirent* (*)(DIR*))dlsym(RTLD_NEXT, "readdir");
    return f(d);
}
extern "C" struct dirent64* readdir64(DIR* d)
{
    if (g_fake) return fake_entry<struct dirent64>();
    static auto f = (struct dirent64* (*)(DIR*))dlsym(RTLD_NEXT, "readdir64");
    return f(d);
}

namespace {
BufrTableID any_bufr(const char* n)
{
    BufrTableID i;
    i.originating_centre = vs_u((std::string(n) + ".centre").c_str(), 0, 0xffff, 0);
    i.originating_subcentre = vs_u((std::string(n) + ".subcentre").c_str(), 0, 0xffff, 0);
    i.master_table_number = vs_u((std::string(n) + ".mt").c_str(), 0, 255, 0);
    i.master_table_version_number = vs_u((std::string(n) + ".mtv").c_str(), 0, 255, 13);
    i.master_table_version_number_local = vs_u((std::string(n) + ".local").c_str(), 0, 255, 0);
    return i;
}
CrexTableID any_crex(const char* n)
{
    CrexTableID i;
    i.edition_number = vs_u((std::string(n) + ".edition").c_str(), 0, 255, 1);
    i.originating_centre = vs_u((std::string(n) + ".centre").c_str(), 0, 0xffff, 0);
    i.originating_subcentre = vs_u((std::string(n) + ".subcentre").c_str(), 0, 0xffff, 0);
    i.master_table_number = vs_u((std::string(n) + ".mt").c_str(), 0, 255, 0);
    i.master_table_version_number = vs_u((std::string(n) + ".mtv").c_str(), 0, 255, 3);
    i.master_table_version_number_bufr = vs_u((std::string(n) + ".mtvb").c_str(), 0, 255, 0);
    i.master_table_version_number_local = vs_u((std::string(n) + ".local").c_str(), 0, 255, 0);
    return i;
}
bool eq(const BufrTableID& a, const BufrTableID& b)
{
    return (a.originating_centre == b.originating_centre) & (a.originating_subcentre == b.originating_subcentre) & (a.master_table_number == b.master_table_number)
        & (a.master_table_version_number == b.master_table_version_number) & (a.master_table_version_number_local == b.master_table_version_number_local);
}
bool eq(const CrexTableID& a, const CrexTableID& b)
{
    return (a.originating_centre == b.originating_centre) & (a.originating_subcentre == b.originating_subcentre) & (a.master_table_number == b.master_table_number)
        & (a.master_table_version_number == b.master_table_version_number) & (a.master_table_version_number_local == b.master_table_version_number_local)
        & (a.edition_number == b.edition_number) & (a.master_table_version_number_bufr == b.master_table_version_number_bufr);
}

// The rules. A candidate is acceptable if it has the same master table and a
// version not older than the one wanted; the distance is compared field by
// field, the smaller the better.
bool acceptable(const BufrTableID& w, const BufrTableID& c) { return (c.master_table_number == w.master_table_number) & (c.master_table_version_number >= w.master_table_version_number); }
bool acceptable(const CrexTableID& w, const BufrTableID& c) { return (c.master_table_number == w.master_table_number) & (c.master_table_version_number >= w.master_table_version_number_bufr); }
bool acceptable(const BufrTableID& w, const CrexTableID& c) { return false; }
bool acceptable(const CrexTableID& w, const CrexTableID& c)
{
    return (c.edition_number == w.edition_number) & (c.master_table_number == w.master_table_number) & (c.master_table_version_number >= w.master_table_version_number)
        & (c.master_table_version_number_bufr >= w.master_table_version_number_bufr);
}
template<typename W, typename C> uint64_t local_distance(const W& w, const C& c)
{
    uint64_t centre = c.originating_centre == w.originating_centre ? 0 : c.originating_centre == 0 ? 1 : c.originating_centre == 0xffff ? 2 : 3;
    uint64_t cl = c.master_table_version_number_local, wl = w.master_table_version_number_local;
    uint64_t local = cl >= wl ? cl - wl : 256 + (wl - cl);
    uint64_t sub = c.originating_subcentre == w.originating_subcentre ? 0 : 1;
    return (centre << 12) | (centre == 0 ? (local << 1) | sub : 0);
}
uint64_t distance(const BufrTableID& w, const BufrTableID& c) { return ((uint64_t)c.master_table_version_number << 16) | local_distance(w, c); }
uint64_t distance(const CrexTableID& w, const BufrTableID& c) { return ((uint64_t)c.master_table_version_number << 16) | local_distance(w, c); }
uint64_t distance(const CrexTableID& w, const CrexTableID& c) { return ((uint64_t)c.master_table_version_number << 24) | ((uint64_t)c.master_table_version_number_bufr << 16) | local_distance(w, c); }
// compared with a BUFR table
uint64_t distance_bufr(const CrexTableID& w, const CrexTableID& c) { return ((uint64_t)c.master_table_version_number_bufr << 16) | local_distance(w, c); }

template<typename T> void ordering(const T& a, const T& b, const T& c)
{
    bool ab = a < b, ba = b < a;
    ASSERTL(!(ab & ba), "two identifiers do not each come before the other");
    ASSERTL((ab | ba) != eq(a, b), "of two different identifiers one comes first");
    bool bc = b < c;
    if (ab && bc) { ASSERTL(a < c, "the order is transitive"); vs_reach("ordered"); }
    vs_reach("end");
}
}

HARNESS("C20", sel_order_bufr, nullptr) { ordering(any_bufr("a"), any_bufr("b"), any_bufr("c")); }
HARNESS("C20", sel_order_crex, nullptr) { ordering(any_crex("a"), any_crex("b"), any_crex("c")); }

HARNESS("C20", sel_acceptable, nullptr)
{
    switch (vs_concretize(vs_u("kind", 0, 3, 0)))
    {
        case 0: { auto w = any_bufr("wanted"); auto c = any_bufr("found"); ASSERTL(w.is_acceptable_replacement(c) == acceptable(w, c), "BUFR for BUFR"); break; }
        case 1: { auto w = any_bufr("wanted"); auto c = any_crex("found"); ASSERTL(w.is_acceptable_replacement(c) == acceptable(w, c), "CREX for BUFR"); break; }
        case 2: { auto w = any_crex("wanted"); auto c = any_bufr("found"); ASSERTL(w.is_acceptable_replacement(c) == acceptable(w, c), "BUFR for CREX"); break; }
        case 3: { auto w = any_crex("wanted"); auto c = any_crex("found"); ASSERTL(w.is_acceptable_replacement(c) == acceptable(w, c), "CREX for CREX"); break; }
    }
    vs_reach("end");
}

namespace {
void same_choice(int got, uint64_t d1, uint64_t d2)
{
    ASSERTL((got < 0) == (d1 < d2), "the first is chosen when it is closer");
    ASSERTL((got > 0) == (d2 < d1), "the second is chosen when it is closer");
    vs_reach("end");
}
}
HARNESS("C20", sel_closest_bufr, nullptr)
{
    auto w = any_bufr("wanted"), a = any_bufr("first"), b = any_bufr("second");
    vs_assume(acceptable(w, a) & acceptable(w, b));
    same_choice(w.closest_match(a, b), distance(w, a), distance(w, b));
}
HARNESS("C20", sel_closest_crex, nullptr)
{
    auto w = any_crex("wanted");
    switch (vs_concretize(vs_u("kind", 0, 2, 0)))
    {
        case 0: { auto a = any_crex("first"), b = any_crex("second"); vs_assume(acceptable(w, a) & acceptable(w, b)); same_choice(w.closest_match(a, b), distance(w, a), distance(w, b)); break; }
        case 1: { auto a = any_bufr("first"), b = any_bufr("second"); vs_assume(acceptable(w, a) & acceptable(w, b)); same_choice(w.closest_match(a, b), distance(w, a), distance(w, b)); break; }
        case 2: { auto a = any_bufr("first"); auto b = any_crex("second"); vs_assume(acceptable(w, a) & acceptable(w, b)); same_choice(w.closest_match(a, b), distance(w, a), distance_bufr(w, b)); break; }
    }
}

namespace {
struct Name { const char* file; int kind; BufrTableID bufr; CrexTableID crex; };
// kind: 0 BUFR, 1 CREX, 2 not a candidate
const Name names[] = {
    { "B0000000000000013000.txt", 0, { 0, 0, 0, 13, 0 }, {} },
    { "B0000000000098013001.txt", 0, { 98, 0, 0, 13, 1 }, {} },
    { "B0000000000098013102.txt", 0, { 98, 0, 0, 13, 102 }, {} },
    { "B0000000070200014002.txt", 0, { 200, 7, 0, 14, 2 }, {} },
    { "B000000000981300.txt", 0, { 98, 0, 0, 13, 0 }, {} },
    { "B000203.txt", 1, {}, { 2, 0, 0, 0, 3, 0, 0 } },
    { "B000103.txt", 1, {}, { 1, 0, 0, 0, 3, 0, 0 } },
    { "B0000000000000014000.txt", 0, { 0, 0, 0, 14, 0 }, {} },
    { "B0000000080200014002.txt", 0, { 200, 8, 0, 14, 2 }, {} },
    { "D0000000000000013000.txt", 2, {}, {} },
    { "extra.txt", 2, {}, {} },
    { "B0000000000200014000.txt", 0, { 200, 0, 0, 14, 0 }, {} },
    { "B000104.txt", 1, {}, { 1, 0, 0, 0, 4, 0, 0 } },
    { "B0000000000000014000.bak", 2, {}, {} },
    { "README", 2, {}, {} },
};
const unsigned n_names = sizeof(names) / sizeof(*names);

// one Tabledirs over directories with these contents
struct Dirs
{
    std::unique_ptr<tabledir::Tabledirs> d;
    Dirs(const std::vector<std::vector<std::string>>& lists)
    {
        static const char* const paths[] = { "/usr", "/etc/" };
        g_lists = lists; g_list = g_entry = 0;
        d.reset(new tabledir::Tabledirs);
        for (unsigned i = 0; i < lists.size(); ++i) d->add_directory(paths[i]);
        g_fake = true;
        d->find("this reads the directories");
        g_fake = false;
    }
    const tabledir::Table* find(const BufrTableID& i) { return d->find_bufr(i); }
    const tabledir::Table* find(const CrexTableID& i) { return d->find_crex(i); }
};

std::vector<unsigned> pick(unsigned n, unsigned alphabet)
{
    std::vector<unsigned> r;
    static const char* const ids[] = { "n0", "n1", "n2", "n3" };
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = vs_concretize(vs_u(ids[i], 0, alphabet - 1, i));
        for (auto j : r) vs_assume(j != k);
        r.push_back(k);
    }
    return r;
}
// the distance of entry k, ~0 if not acceptable
uint64_t rank(const BufrTableID& w, unsigned k) { return names[k].kind == 0 ? (acceptable(w, names[k].bufr) ? distance(w, names[k].bufr) : ~0ull) : ~0ull; }

template<typename T> bool is_file(const T* t, const char* dir, const std::string& file)
{
    if (file.size() < 5 || file.substr(file.size() - 4) != ".txt") return false;
    std::string b(file.substr(0, file.size() - 4)), d(b); d[0] = 'D';
    return t->btable_id == b && t->dtable_id == d && t->btable_pathname.native() == std::string(dir) + "/" + b + ".txt" && t->dtable_pathname.native() == std::string(dir) + "/" + d + ".txt";
}

// t is one of the closest entries
void check_best(const tabledir::Table* t, const BufrTableID& w, const std::vector<unsigned>& all, unsigned split)
{
    uint64_t best = ~0ull;
    for (auto k : all) { uint64_t r = rank(w, k); best = r < best ? r : best; }
    if (!t) { ASSERTL(best == ~0ull, "a table is found when there is an acceptable one"); vs_reach("not-found"); return; }
    bool known = false;
    for (unsigned i = 0; i < all.size() && !known; ++i)
        if (is_file(t, i < split ? "/usr" : "/etc", names[all[i]].file))
        {
            known = true;
            ASSERTL(rank(w, all[i]) == best, "no other table is closer than the one chosen");
            ASSERTL(best != ~0ull, "the table chosen is acceptable");
        }
    ASSERTL(known, "the table chosen is in the directory");
    vs_reach("found");
}
void check_best(const tabledir::Table* t, const CrexTableID& w, const std::vector<unsigned>& all, unsigned split)
{
    // the closest BUFR and CREX tables, then the closest of the two
    uint64_t bb = ~0ull, bc = ~0ull, bcb = ~0ull;
    for (auto k : all)
        if (names[k].kind == 0)
        {
            uint64_t r = acceptable(w, names[k].bufr) ? distance(w, names[k].bufr) : ~0ull;
            bb = r < bb ? r : bb;
        } else if (names[k].kind == 1) {
            bool a = acceptable(w, names[k].crex);
            uint64_t r = a ? distance(w, names[k].crex) : ~0ull, r1 = a ? distance_bufr(w, names[k].crex) : ~0ull;
            bcb = r < bc ? r1 : bcb;
            bc = r < bc ? r : bc;
        }
    if (!t) { ASSERTL((bb == ~0ull) & (bc == ~0ull), "a table is found when there is an acceptable one"); vs_reach("not-found"); return; }
    bool known = false;
    for (unsigned i = 0; i < all.size() && !known; ++i)
        if (is_file(t, i < split ? "/usr" : "/etc", names[all[i]].file))
        {
            known = true;
            if (names[all[i]].kind == 0)
            {
                ASSERTL(acceptable(w, names[all[i]].bufr), "the table chosen is acceptable");
                ASSERTL(distance(w, names[all[i]].bufr) == bb, "no other table is closer than the one chosen");
                ASSERTL((bc == ~0ull) | (bb <= bcb), "no CREX table is closer than the one chosen");
            } else {
                ASSERTL(names[all[i]].kind == 1, "only tables are chosen");
                ASSERTL(acceptable(w, names[all[i]].crex), "the table chosen is acceptable");
                ASSERTL(distance(w, names[all[i]].crex) == bc, "no other table is closer than the one chosen");
                ASSERTL((bb == ~0ull) | (bcb <= bb), "no BUFR table is closer than the one chosen");
            }
        }
    ASSERTL(known, "the table chosen is in the directory");
    vs_reach("found");
}
template<typename W> void one_directory(const W& w, unsigned alphabet)
{
    std::vector<unsigned> all = pick(vs_concretize(vs_u("count", 0, 3, 2)), alphabet);
    std::vector<std::string> order;
    for (auto k : all) order.push_back(names[k].file);
    Dirs a({ order });
    const tabledir::Table* t = a.find(w);
    check_best(t, w, all, all.size());
    ASSERTL(a.find(w) == t, "the same table every time");
    // any other order is reached by the swaps of two entries
    for (unsigned i = 1; i < order.size(); ++i)
    {
        std::vector<std::string> other(order);
        std::swap(other[i - 1], other[i]);
        Dirs b({ other });
        const tabledir::Table* t1 = b.find(w);
        ASSERTL((t == nullptr) == (t1 == nullptr), "found whatever the order of the files");
        if (t) ASSERTL(t->btable_id == t1->btable_id, "the same table whatever the order of the files");
    }
}
}
HARNESS("C20", sel_dir_bufr, nullptr) { one_directory(any_bufr("wanted"), vs_thorough() ? n_names : 10); }
HARNESS("C20", sel_dir_crex, nullptr) { one_directory(any_crex("wanted"), vs_thorough() ? n_names : 9); }

// Every file, alone, is known by the identifier in its name
HARNESS("C20", sel_names, nullptr)
{
    unsigned k = vs_concretize(vs_u("name", 0, n_names - 1, 0));
    Dirs d({ { names[k].file } });
    if (vs_concretize(vs_u("crex", 0, 1, 0)))
    {
        auto w = any_crex("wanted");
        check_best(d.find(w), w, { k }, 1);
    } else {
        auto w = any_bufr("wanted");
        check_best(d.find(w), w, { k }, 1);
    }
    std::string base(names[k].file);
    size_t p = base.rfind('.');
    if (p != std::string::npos && base.substr(p) == ".txt" && base[0] != 'D') {
        const tabledir::Table* t = d.d->find(base.substr(0, p));
        ASSERTL(t != nullptr, "files are found by name");
        ASSERTL(is_file(t, "/usr", base), "the file found by name is that one");
    }
    ASSERTL(d.d->find("missing") == nullptr, "missing files are not found");
}

// Two directories: those added first are preferred
HARNESS("C20", sel_two_dirs, nullptr)
{
    auto w = any_bufr("wanted");
    std::vector<unsigned> all = pick(2, n_names);
    std::vector<unsigned> both(all); both.push_back(all[1]);
    // the second entry is in both
    Dirs d({ { names[all[0]].file, names[all[1]].file }, { names[all[1]].file } });
    const tabledir::Table* t = d.find(w);
    check_best(t, w, both, 2);
    if (t) ASSERTL(t->btable_pathname.native().compare(0, 5, "/usr/") == 0, "the first directory is preferred");
    Dirs e({ { names[all[0]].file }, { names[all[1]].file } });
    const tabledir::Table* t1 = e.find(w);
    check_best(t1, w, all, 1);
    ASSERTL((t == nullptr) == (t1 == nullptr), "all directories are searched");
}

// The answers do not depend on what was asked before
HARNESS("C20", sel_history, nullptr)
{
    std::vector<std::string> files { names[0].file, names[1].file, names[3].file, names[6].file, names[12].file };
    Dirs d({ files }), f1({ files }), f2({ files });
    if (vs_concretize(vs_u("crex", 0, 1, 0)))
    {
        auto a = any_crex("first"), b = any_crex("second");
        const tabledir::Table *ta = d.find(a), *tb = d.find(b), *tc = d.find(a);
        const tabledir::Table *fa = f1.find(a), *fb = f2.find(b);
        ASSERTL((ta == nullptr) == (fa == nullptr), "found on its own"); if (ta && fa) ASSERTL(ta->btable_id == fa->btable_id, "the same table on its own");
        ASSERTL((tb == nullptr) == (fb == nullptr), "found after another"); if (tb && fb) ASSERTL(tb->btable_id == fb->btable_id, "the same table after another");
        ASSERTL(ta == tc, "the same table when asked again");
    } else {
        auto a = any_bufr("first"), b = any_bufr("second");
        const tabledir::Table *ta = d.find(a), *tb = d.find(b), *tc = d.find(a);
        const tabledir::Table *fa = f1.find(a), *fb = f2.find(b);
        ASSERTL((ta == nullptr) == (fa == nullptr), "found on its own"); if (ta && fa) ASSERTL(ta->btable_id == fa->btable_id, "the same table on its own");
        ASSERTL((tb == nullptr) == (fb == nullptr), "found after another"); if (tb && fb) ASSERTL(tb->btable_id == fb->btable_id, "the same table after another");
        ASSERTL(ta == tc, "the same table when asked again");
    }
    vs_reach("end");
}

// Loading tables for identifiers, over the shipped tables
namespace {
std::string tables_dir() { const char* p = getenv("WREPORT_TABLES"); return p ? p : "/repo/tables"; }
std::vector<std::string> shipped()
{
    std::vector<std::string> r;
    DIR* d = opendir(tables_dir().c_str());
    if (d) { while (struct dirent* e = readdir(d)) r.push_back(e->d_name); closedir(d); }
    return r;
}
}

namespace {
struct Cand { std::string id; bool crex; BufrTableID b; CrexTableID c; };
std::vector<Cand> candidates()
{
    std::vector<Cand> r;
    for (auto& f : shipped())
    {
        if (f[0] != 'B' || f.size() < 5 || f.substr(f.size() - 4) != ".txt") continue;
        auto num = [&](unsigned p, unsigned n) { return atoi(f.substr(p, n).c_str()); };
        Cand c; c.id = f.substr(0, f.size() - 4); c.crex = f.size() == 11;
        if (f.size() == 11) c.c = CrexTableID(num(3, 2), 0, 0, num(1, 2), num(5, 2), 0, 0);
        else if (f.size() == 20) c.b = BufrTableID(num(9, 3), num(6, 3), 0, num(12, 2), num(14, 2));
        else if (f.size() == 24) c.b = BufrTableID(num(10, 4), num(6, 4), 0, num(14, 3), num(17, 3));
        else continue;
        r.push_back(c);
    }
    return r;
}
std::vector<Cand> g_cands;
void sel_setup() { if (!g_cands.empty()) return; g_cands = candidates(); tabledir::Tabledirs::get().find("x"); }
void loaded(const Tables& t, bool found, const std::set<std::string>& bests)
{
    ASSERTL(found == !bests.empty(), "tables are loaded if there is an acceptable one");
    if (!found) { ASSERTL(!t.loaded(), "nothing is loaded"); vs_reach("not-found"); return; }
    ASSERTL(t.loaded(), "both tables are loaded");
    std::string b = t.btable->path().stem().native(), d = t.dtable->path().stem().native();
    ASSERTL(bests.count(b) == 1, "the closest B table is loaded");
    ASSERTL(d[0] == 'D' && d.substr(1) == b.substr(1), "with its D table");
    vs_reach("found");
}
struct Best
{
    uint64_t best = ~0ull, other = ~0ull; std::set<std::string> names;
    void add(uint64_t r, uint64_t o, const std::string& n)
    {
        if (r < best) { best = r; other = o; names.clear(); }
        if (r == best) names.insert(n);
    }
};
}
HARNESS("C20", sel_shipped, sel_setup)
{
    static const uint16_t centres[] = { 0, 98, 200, 85, 254, 255, 0xffff };
    static const uint8_t locals[] = { 0, 1, 2, 101, 102, 255 };
    BufrTableID w;
    w.originating_centre = centres[vs_concretize(vs_u("centre", 0, 6, 0))];
    w.originating_subcentre = vs_concretize(vs_u("subcentre", 0, 1, 0));
    w.master_table_number = vs_concretize(vs_u("mt", 0, 1, 0));
    w.master_table_version_number = vs_concretize(vs_u("mtv", 0, 40, 13));
    w.master_table_version_number_local = locals[vs_concretize(vs_u("local", 0, 5, 0))];
    if (w.master_table_number) vs_assume(w.originating_subcentre == 0);
    if (!vs_thorough()) vs_assume((w.originating_subcentre == 0) | (w.originating_centre == 255));
    Best b;
    for (auto& c : g_cands) if (!c.crex && acceptable(w, c.b)) b.add(distance(w, c.b), 0, c.id);
    Tables t;
    bool found = true;
    try { t.load_bufr(w); } catch (error_notfound&) { found = false; }
    // The same table on its own, and by name
    const Vartable* v = nullptr;
    try { v = Vartable::get_bufr(w); } catch (error_notfound&) {}
    ASSERTL((v != nullptr) == found, "the B table is found like both tables");
    if (v)
    {
        ASSERTL(v == t.btable, "the B table loaded on its own is the same");
        ASSERTL(Vartable::get_bufr(v->path().stem().native()) == v, "the B table by name");
        try { Vartable::get_bufr(v->path().native()); vs_fail("names are not paths"); } catch (error_notfound&) {}
    }
    loaded(t, found, b.names);
}
HARNESS("C20", sel_shipped_crex, sel_setup)
{
    CrexTableID w(vs_concretize(vs_u("edition", 0, 3, 1)), 0, 0, vs_concretize(vs_u("mt", 0, 1, 0)), vs_concretize(vs_u("mtv", 0, 5, 3)), vs_concretize(vs_u("mtvb", 0, 40, 0)), 0);
    Best b, c;
    for (auto& k : g_cands)
        if (k.crex) { if (acceptable(w, k.c)) c.add(distance(w, k.c), distance_bufr(w, k.c), k.id); }
        else if (acceptable(w, k.b)) b.add(distance(w, k.b), 0, k.id);
    std::set<std::string> names(c.names.empty() || (!b.names.empty() && b.best < c.other) ? b.names : c.names);
    if (!c.names.empty() && !b.names.empty() && b.best == c.other) names.insert(b.names.begin(), b.names.end());
    Tables t;
    bool found = true;
    const Vartable* v = nullptr;
    try { v = Vartable::get_crex(w); } catch (error&) {}
    try { t.load_crex(w); } catch (error_notfound&) { found = false; } catch (error&) {
        ASSERTL(!v, "the B table is refused on its own");
        // BUFR tables without the CREX columns
        bool narrow = false;
        for (auto& n : names)
        {
            std::ifstream in(tables_dir() + "/" + n + ".txt"); std::string l;
            while (std::getline(in, l)) narrow |= l.size() < 156;
        }
        ASSERTL(narrow, "the table is refused only if it has no CREX definitions");
        vs_reach("refused");
        return;
    }
    ASSERTL(v == t.btable, "the B table loaded on its own is the same");
    if (v) ASSERTL(Vartable::get_crex(v->path().stem().native()) == v, "the B table by name");
    loaded(t, found, names);
}
