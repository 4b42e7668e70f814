// C21 descriptor lists and their interpretation, C22 subsets, C06 bulletin differences
#include "common.h"
#include <wreport/bulletin.h>
#include <wreport/bulletin/dds-scanfeatures.h>
#include <wreport/bulletin/interpreter.h>
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <wreport/subset.h>
#include <wreport/tableinfo.h>
#include <wreport/tables.h>
#include <cstdlib>
#include <set>
using namespace wreport;

namespace {
const unsigned big[] = { 7, 8, 255, 256, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu };
// a number that may be anything
unsigned any_count(const char* n, unsigned upto, unsigned bigs = 10)
{
    unsigned k = vs_concretize(vs_u(n, 0, upto + bigs - 1, 0));
    return k < upto ? k : big[k - upto];
}
struct List
{
    std::vector<Varcode> v;
    explicit List(unsigned max)
    {
        unsigned n = vs_concretize(vs_u("size", 0, max, 2));
        for (unsigned i = 0; i < n; ++i) v.push_back(vs_u("code", 0, 0xffff, i + 1));
        v.shrink_to_fit();
    }
};
void same_list(const Opcodes& o, const std::vector<Varcode>& v, size_t from, size_t n, const char* what)
{
    ASSERTL(o.size() == n, what);
    ASSERTL(o.empty() == (n == 0), what);
    for (size_t i = 0; i < n; ++i) ASSERTL(o.begin[i] == v[from + i], what);
}
}

// indexing with any number
HARNESS("C21", ops_index, nullptr)
{
    List l(6);
    Opcodes o(l.v);
    same_list(o, l.v, 0, l.v.size(), "the list itself");
    unsigned i; vs_int(&i, 4, "index", 0, 0xffffffffu);
    Varcode got = o[i];
    Varcode want = 0;
    for (unsigned k = 0; k < l.v.size(); ++k) want = i == k ? l.v[k] : want;
    ASSERTL(got == want, "the element at that position, or 0 past the end");
    ASSERTL(o.head() == (l.v.empty() ? 0 : l.v[0]), "the first element");
    vs_reach("end");
}
// slices with any position and length
HARNESS("C21", ops_sub, nullptr)
{
    List l(6);
    Opcodes o(l.v);
    size_t n = l.v.size();
    if (vs_concretize(vs_u("len?", 0, 1, 0)))
    {
        unsigned skip = any_count("skip", 8), len = any_count("len", 8);
        size_t from = skip < n ? skip : n, cnt = len < n - from ? len : n - from;
        same_list(o.sub(skip, len), l.v, from, cnt, "the part of the list that was asked for");
    } else {
        unsigned skip = any_count("skip", 8);
        size_t from = skip < n ? skip : n;
        same_list(o.sub(skip), l.v, from, n - from, "the rest of the list");
    }
    same_list(o, l.v, 0, n, "the list is left alone");
    vs_reach("end");
}
// walking in any way
HARNESS("C21", ops_walk, nullptr)
{
    List l(vs_thorough() ? 5 : 3);
    Opcodes o(l.v);
    size_t pos = 0, n = l.v.size();
    for (unsigned step = 0; step < (vs_thorough() ? 4 : 3); ++step)
    {
        ASSERTL(o.head() == (pos < n ? l.v[pos] : 0), "the first element");
        switch (vs_concretize(vs_u("op", 0, 2, 0)))
        {
            case 0: o = o.next(); if (pos < n) ++pos; break;
            case 1:
                try { Varcode c = o.pop_left(); ASSERTL(pos < n && c == l.v[pos], "the element taken is the first"); ++pos; vs_reach("popped"); }
                catch (error_consistency&) { ASSERTL(pos == n, "elements can be taken"); vs_reach("refused"); }
                break;
            case 2: {
                unsigned c = any_count("count", vs_thorough() ? 6 : 4, vs_thorough() ? 10 : 1) - 1; // the first is 0xffffffff
                try {
                    Opcodes r = o.pop_left(c);
                    ASSERTL(c <= n - pos, "no more elements are taken than there are");
                    same_list(r, l.v, pos, c, "the elements taken are the first ones");
                    pos += c;
                } catch (error_consistency&) { ASSERTL(c > n - pos, "all elements can be taken"); vs_reach("refused"); }
                break;
            }
        }
        same_list(o, l.v, pos, n - pos, "the elements left are those after");
    }
    vs_reach("end");
}

namespace {
Tables* g_t;
void int_setup() { if (g_t) return; g_t = new Tables; g_t->load_bufr(BufrTableID(0, 0, 0, 14, 0)); g_t->btable->query(WR_VAR(0, 12, 101)); }

struct Event
{
    char kind; Varcode code; unsigned a, b; std::vector<Varcode> ops;
    bool operator==(const Event& o) const { return kind == o.kind && code == o.code && a == o.a && b == o.b && ops == o.ops; }
};
struct Recorder : public bulletin::Interpreter
{
    std::vector<Event> ev;
    std::vector<unsigned> counts; size_t used = 0;
    Recorder(const Tables& t, const Opcodes& o, const std::vector<unsigned>& counts) : Interpreter(t, o), counts(counts) {}
    static std::vector<Varcode> vec(const Opcodes& o) { return std::vector<Varcode>(o.begin, o.end); }
    void r_replication(Varcode code, Varcode delayed, const Opcodes& ops) override { ev.push_back({ 'R', code, delayed, 0, vec(ops) }); Interpreter::r_replication(code, delayed, ops); ev.push_back({ 'r', code, 0, 0, {} }); }
    void run_r_repetition(unsigned cur, unsigned total) override { ev.push_back({ 'I', 0, cur, total, vec(opcode_stack.top()) }); Interpreter::run_r_repetition(cur, total); }
    void run_d_expansion(Varcode code) override { ev.push_back({ 'D', code, 0, 0, vec(opcode_stack.top()) }); Interpreter::run_d_expansion(code); ev.push_back({ 'd', code, 0, 0, {} }); }
    void define_variable(Varinfo info) override { ev.push_back({ 'V', info->code, info->bit_len, (unsigned)(info->scale + 100), {} }); }
    unsigned define_delayed_replication_factor(Varinfo info) override { unsigned c = counts[used++ % counts.size()]; ev.push_back({ 'F', info->code, c, 0, {} }); return c; }
};
// The same, done by hand
struct Walk
{
    std::vector<Event> ev;
    std::vector<unsigned> counts; size_t used = 0;
    bool walk(const std::vector<Varcode>& l)
    {
        for (size_t i = 0; i < l.size(); )
        {
            Varcode c = l[i++];
            unsigned f = c >> 14, x = (c >> 8) & 63, y = c & 255;
            if (f == 0)
            {
                if (!g_t->btable->contains(c)) return false;
                Varinfo v = g_t->btable->query(c);
                ev.push_back({ 'V', c, v->bit_len, (unsigned)(v->scale + 100), {} });
            }
            else if (f == 3)
            {
                std::vector<Varcode> sub;
                try { Opcodes o = g_t->dtable->query(c); sub.assign(o.begin, o.end); } catch (error_notfound&) { return false; }
                ev.push_back({ 'D', c, 0, 0, sub });
                if (!walk(sub)) return false;
                ev.push_back({ 'd', c, 0, 0, {} });
            }
            else
            {
                Varcode delayed = 0;
                if (y == 0)
                {
                    delayed = WR_VAR(0, 31, 12);
                    if (i < l.size() && (l[i] >> 14) == 0 && ((l[i] >> 8) & 63) == 31) delayed = l[i++];
                }
                if (l.size() - i < x) return false;
                std::vector<Varcode> sub(l.begin() + i, l.begin() + i + x);
                i += x;
                ev.push_back({ 'R', c, delayed, 0, sub });
                unsigned n = y;
                if (y == 0)
                {
                    if (!g_t->btable->contains(delayed)) return false;
                    n = counts[used++ % counts.size()];
                    ev.push_back({ 'F', delayed, n, 0, {} });
                }
                for (unsigned k = 0; k < n; ++k)
                {
                    ev.push_back({ 'I', 0, k, n, sub });
                    if (!walk(sub)) return false;
                }
                ev.push_back({ 'r', c, 0, 0, {} });
            }
        }
        return true;
    }
};
std::vector<Varcode> descriptors()
{
    // sequences, replications, plain ones and ones that do not exist
    static const Varcode plain[] = { WR_VAR(0, 12, 101), WR_VAR(3, 1, 1), WR_VAR(0, 31, 1), WR_VAR(0, 1, 19), WR_VAR(3, 2, 31), WR_VAR(0, 63, 255), WR_VAR(3, 63, 255), WR_VAR(0, 31, 0) };
    std::vector<Varcode> l;
    unsigned n = vs_concretize(vs_u("size", 0, vs_thorough() ? 5 : 4, 4));
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = vs_concretize(vs_u("descriptor", 0, i < 2 ? (vs_thorough() ? 8 : 6) : (vs_thorough() ? 4 : 2), 0));
        bool rep = i < 2 && k == (vs_thorough() ? 8 : 6);
        if (rep) l.push_back(WR_VAR(1, vs_concretize(vs_u("x", 0, 4, 1)), vs_concretize(vs_u("y", 0, 2, 1))));
        else l.push_back(plain[k]);
    }
    return l;
}
}
HARNESS("C21", int_visit, int_setup)
{
    std::vector<Varcode> l = descriptors();
    l.shrink_to_fit();
    bool delayed = false;
    for (auto c : l) delayed |= WR_VAR_F(c) == 1 && WR_VAR_Y(c) == 0;
    std::vector<unsigned> counts { delayed ? (unsigned)vs_concretize(vs_u("count", 0, 2, 1)) : 1, 1 };
    Walk w; w.counts = counts;
    bool ok = w.walk(l);
    Recorder r(*g_t, Opcodes(l), counts);
    bool done = true;
    try { r.run(); } catch (error&) { done = false; }
    ASSERTL(done == ok, "lists that hold together are interpreted, others are refused");
    if (done) ASSERTL(r.ev == w.ev, "every element is visited in order");
    else
    {
        size_t n = r.ev.size() < w.ev.size() ? r.ev.size() : w.ev.size();
        ASSERTL(std::vector<Event>(r.ev.begin(), r.ev.begin() + n) == std::vector<Event>(w.ev.begin(), w.ev.begin() + n), "elements before the error are visited in order");
    }
    ASSERTL(!done || r.opcode_stack.size() == 1, "nothing is left to do");
    if (done) vs_reach("end"); else vs_reach("refused");
}
// Printing descriptors: one line for each, indented
HARNESS("C21", int_print, int_setup)
{
    std::vector<Varcode> l = descriptors();
    struct Lines
    {
        std::string s;
        void lead(unsigned indent, Varcode c) { char b[80]; snprintf(b, sizeof b, "%*s%d%02d%03d", (int)indent, "", WR_VAR_FXY(c)); s += b; }
        bool walk(const std::vector<Varcode>& l, unsigned indent)
        {
            for (size_t i = 0; i < l.size(); )
            {
                Varcode c = l[i++];
                unsigned x = WR_VAR_X(c), y = WR_VAR_Y(c);
                switch (WR_VAR_F(c))
                {
                    case 0:
                        lead(indent, c);
                        if (g_t->btable->contains(c)) s += std::string(" ") + g_t->btable->query(c)->desc + "[" + g_t->btable->query(c)->unit + "]\n";
                        else s += " (missing in B table " + g_t->btable->path().native() + ")\n";
                        break;
                    case 1: {
                        char b[80]; Varcode d = 0;
                        if (y == 0) { d = WR_VAR(0, 31, 12); if (i < l.size() && WR_VAR_F(l[i]) == 0 && WR_VAR_X(l[i]) == 31) d = l[i++]; }
                        if (l.size() - i < x) return false;
                        lead(indent, c);
                        if (y) snprintf(b, sizeof b, " replicate %u descriptors %u times\n", x, y); else snprintf(b, sizeof b, " replicate %u descriptors (delayed %d%02d%03d) times\n", x, WR_VAR_FXY(d));
                        s += b;
                        if (!walk(std::vector<Varcode>(l.begin() + i, l.begin() + i + x), indent + 2)) return false;
                        i += x;
                        break;
                    }
                    case 3: {
                        std::vector<Varcode> sub;
                        try { Opcodes o = g_t->dtable->query(c); sub.assign(o.begin, o.end); } catch (error_notfound&) { return false; }
                        lead(indent, c); s += " (group)\n";
                        if (!walk(sub, indent + 2)) return false;
                        break;
                    }
                }
            }
            return true;
        }
    } want;
    bool ok = want.walk(l, 1);
    char* p = nullptr; size_t size = 0;
    FILE* out = open_memstream(&p, &size);
    BufrBulletin* nb = BufrBulletin::create().release();
    std::unique_ptr<BufrBulletin> b(nb);
    b->master_table_version_number = 14; b->originating_centre = b->originating_subcentre = 0;
    b->load_tables();
    b->datadesc = l;
    bool done = true;
    try { b->print_datadesc(out, 1); } catch (error&) { done = false; }
    fclose(out);
    std::string got(p, size);
    free(p);
    ASSERTL(done == ok, "lists that hold together are printed");
    ASSERTL(got == want.s, "one line for each descriptor");
    vs_reach(done ? "end" : "refused");
}

// Features used
HARNESS("C21", int_features, int_setup)
{
    static const Varcode alphabet[] = { WR_VAR(0, 12, 101), WR_VAR(1, 1, 2), WR_VAR(1, 1, 0), WR_VAR(0, 31, 1), WR_VAR(2, 1, 129), WR_VAR(2, 6, 8), WR_VAR(3, 1, 1), WR_VAR(1, 2, 3), WR_VAR(2, 8, 3) };
    std::vector<Varcode> l;
    unsigned n = vs_concretize(vs_u("size", 0, vs_thorough() ? 4 : 3, 2));
    for (unsigned i = 0; i < n; ++i) l.push_back(alphabet[vs_concretize(vs_u("descriptor", 0, 8, 0))]);
    struct Scan
    {
        std::set<std::string> f; unsigned width = 0;
        static std::string name(Varcode c) { char b[8]; snprintf(b, sizeof b, "%c%02d%03d", "BRCD"[WR_VAR_F(c)], WR_VAR_X(c), WR_VAR_Y(c)); return b; }
        bool walk(const std::vector<Varcode>& l)
        {
            for (size_t i = 0; i < l.size(); )
            {
                Varcode c = l[i++];
                if (WR_VAR_F(c) == 1)
                {
                    if (WR_VAR_Y(c)) f.insert("Rxxyyy");
                    else { Varcode d = WR_VAR(0, 31, 12); if (i < l.size() && WR_VAR_F(l[i]) == 0 && WR_VAR_X(l[i]) == 31) d = l[i++]; f.insert("Rxx000:" + name(d)); }
                    unsigned x = WR_VAR_X(c);
                    if (l.size() - i < x) return false;
                    if (!walk(std::vector<Varcode>(l.begin() + i, l.begin() + i + x))) return false;
                    i += x;
                } else if (WR_VAR_F(c) == 2) {
                    if (WR_VAR_X(c) == 6) { if (i == l.size()) { f.insert(name(c)); return false; } f.insert(name(c) + ":" + name(l[i])); ++i; }
                    else f.insert(name(c));
                } else if (WR_VAR_F(c) == 3) { Opcodes o = g_t->dtable->query(c); if (!walk(std::vector<Varcode>(o.begin, o.end))) return false; }
            }
            return true;
        }
    } want;
    bool ok = want.walk(l);
    bulletin::ScanFeatures scan(*g_t, Opcodes(l));
    bool done = true;
    try { scan.run(); } catch (error&) { done = false; }
    ASSERTL(done == ok, "lists that hold together are scanned");
    if (done) ASSERTL(scan.features == want.f, "exactly the features used are found");
    vs_reach(done ? "end" : "refused");
}

// ---------------------------------------------------------------- subsets
namespace {
const Varcode c_int = WR_VAR(0, 1, 1), c_dec = WR_VAR(0, 12, 101), c_str = WR_VAR(0, 1, 19), c_attr = WR_VAR(0, 33, 7), c_attr2 = WR_VAR(0, 33, 2), c_none = WR_VAR(0, 63, 250);
Tables* g_t2;
void sub_setup() { int_setup(); if (g_t2) return; g_t2 = new Tables; g_t2->load_bufr(BufrTableID(0, 0, 0, 17, 0)); }
void same_var(const Var& a, const Var& b, const char* what) { ASSERTL(a.info() == b.info(), what); ASSERTL(a == b, what); }
void same_vars(const Subset& s, const std::vector<Var>& want, const char* what)
{
    ASSERTL(s.size() == want.size(), what);
    for (size_t i = 0; i < want.size(); ++i) same_var(s[i], want[i], what);
}
}
HARNESS("C22", sub_store, sub_setup)
{
    Subset s(*g_t);
    std::vector<Var> want;
    const Vartable* bt = g_t->btable;
    unsigned n = vs_thorough() ? 3 : 2;
    for (unsigned i = 0; i < n; ++i)
    {
        Varcode codes[] = { c_int, c_dec, c_none };
        unsigned op = vs_concretize(vs_u("op", 0, 7, 0));
        try
        {
            switch (op)
            {
                case 0: {
                    Varcode c = codes[vs_concretize(vs_u("code", 0, 2, 0))];
                    int v = vs_i("int", INT32_MIN, INT32_MAX, 3);
                    s.store_variable_i(c, v);
                    ASSERTL(c != c_none, "unknown codes are refused");
                    want.push_back(Var(bt->query(c), v));
                    ASSERTL(s.back().isset(), "a value is stored");
                    ASSERTL(s.back().enqi() == v, "the value is stored");
                    break;
                }
                case 1: {
                    int k = vs_i("hundredths", -1000, 40000, 27315);
                    double v = k / 100.0;
                    s.store_variable_d(c_dec, v);
                    want.push_back(Var(bt->query(c_dec), v));
                    ASSERTL(s.back().enqi() == k, "the value is stored");
                    break;
                }
                case 2: {
                    char t[3] = {}; vs_bytes(t, 2, "text");
                    s.store_variable_c(c_str, t);
                    want.push_back(Var(bt->query(c_str), t));
                    ASSERTL(strcmp(s.back().enqc(), t) == 0, "the text is stored");
                    break;
                }
                case 3: {
                    Varcode c = codes[vs_concretize(vs_u("code", 0, 2, 0))];
                    s.store_variable_undef(c);
                    ASSERTL(c != c_none, "unknown codes are refused");
                    want.push_back(Var(bt->query(c)));
                    ASSERTL(!s.back().isset(), "no value is stored");
                    break;
                }
                case 4: {
                    Varinfo info = g_t2->btable->query(c_dec);
                    s.store_variable_undef(info);
                    want.push_back(Var(info));
                    ASSERTL(!s.back().isset(), "no value is stored");
                    break;
                }
                case 5: {
                    // a copy, with its attributes
                    Var v(bt->query(c_dec), vs_i("int", 0, 65534, 3));
                    v.seta(Var(bt->query(c_attr), vs_i("attr", 0, 100, 3)));
                    s.store_variable(v);
                    want.push_back(v);
                    ASSERTL(s.back().enqa(c_attr) != nullptr, "attributes are stored");
                    break;
                }
                case 6: {
                    Var v(bt->query(c_dec), vs_i("int", 0, 65534, 3));
                    want.push_back(v);
                    s.store_variable(std::move(v));
                    break;
                }
                case 7: {
                    // the value of another one
                    int k = vs_i("int", 0, 254, 3);
                    Var v(bt->query(WR_VAR(0, 1, 2)), k & 7);
                    Varcode c = codes[vs_concretize(vs_u("code", 0, 2, 0))];
                    vs_assume(c != c_dec);
                    s.store_variable(c, v);
                    ASSERTL(c != c_none, "unknown codes are refused");
                    want.push_back(Var(bt->query(c), k & 7));
                    break;
                }
            }
            vs_reach("stored");
        } catch (error_notfound&) { vs_reach("unknown"); }
        catch (error_domain&) { ASSERTL(op == 0 || op == 1, "only values that do not fit are refused"); vs_reach("refused"); }
        same_vars(s, want, "the subset holds what was stored, in order");
    }
    Subset c(s);
    same_vars(c, want, "a copy holds the same"); same_vars(s, want, "copying leaves the original alone");
    Subset m(std::move(s));
    same_vars(m, want, "moving keeps everything"); ASSERT(m.tables == g_t);
    Subset a(*g_t2); a.store_variable_undef(c_int);
    a = std::move(m);
    same_vars(a, want, "move assignment keeps everything"); ASSERT(a.tables == g_t);
    Subset a2(*g_t2); a2 = c;
    same_vars(a2, want, "assignment copies everything"); same_vars(c, want, "assignment leaves the original alone"); ASSERT(a2.tables == g_t);
}
HARNESS("C22", sub_bitmap, sub_setup)
{
    Subset s(*g_t);
    const Vartable* bt = g_t->btable;
    std::vector<int> marks;
    std::vector<Var> want;
    unsigned n = vs_concretize(vs_u("vars", 0, vs_thorough() ? 5 : 4, 3));
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = vs_concretize(vs_u("kind", 0, 3, 0));
        if (!vs_thorough() && i > 2) vs_assume(k < 2);
        if (k == 3) { Varinfo ci = g_t->get_chardata(WR_VAR(2, 5, 2), 2); Var v(ci, "ab"); s.store_variable(v); want.push_back(v); continue; }
        Var v(bt->query(c_int), (int)i);
        if (k == 1) v.seta(Var(bt->query(c_attr), vs_i("conf", 0, 100, 50)));
        if (k == 2) v.seta(Var(bt->query(c_attr2), 1));
        s.store_variable(v);
        want.push_back(v);
        marks.push_back(k == 1);
    }
    unsigned size = vs_concretize(vs_u("size", 1, n + 2, 1));
    Varcode cc = vs_concretize(vs_u("cc", 0, 1, 0)) ? WR_VAR(2, 23, 0) : WR_VAR(2, 22, 0);
    std::string bitmap; int count = 0;
    for (unsigned i = 0; i < size; ++i) { bool on = i < marks.size() && marks[i]; bitmap += on ? '+' : '-'; count += on; }
    int got = count;
    bool fixed = vs_concretize(vs_u("fixed", 0, 1, 0));
    if (fixed) { s.append_fixed_dpb(cc, size); bitmap = std::string(size, '+'); }
    else got = s.append_dpb(cc, size, c_attr);
    ASSERTL(got == count, "the number of marks");
    ASSERTL(s.size() == want.size() + 1, "one variable is added");
    ASSERTL(s.back().code() == cc, "the bitmap has the code asked for");
    ASSERTL(s.back().info()->len == size, "the bitmap has the length asked for");
    ASSERTL(s.back().isset(), "the bitmap is set");
    ASSERTL(bitmap == s.back().enqc(), "one mark for each variable described");
    for (unsigned i = 0; i < want.size(); ++i) same_var(s[i], want[i], "the variables described are left alone");
    vs_reach("end");
}
HARNESS("C22", sub_obtain, sub_setup)
{
    auto b = BufrBulletin::create();
    b->master_table_version_number = 14; b->originating_centre = b->originating_subcentre = 0;
    if (vs_concretize(vs_u("unloaded", 0, 1, 0)))
    {
        try { b->obtain_subset(vs_concretize(vs_u("index", 0, 1, 0))); vs_fail("subsets need tables"); } catch (error_consistency&) { vs_reach("unloaded"); }
        ASSERT(b->subsets.empty());
        return;
    }
    b->load_tables();
    std::vector<std::vector<int>> want;
    unsigned n = vs_thorough() ? 4 : 3;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = vs_concretize(vs_u("index", 0, 3, 0));
        int v = vs_i("value", 0, 126, 1);
        Subset& s = b->obtain_subset(k);
        if (k >= want.size()) want.resize(k + 1);
        ASSERTL(&s == &b->subsets[k], "the subset with that index");
        s.store_variable_i(c_int, v);
        want[k].push_back(v);
        ASSERTL(b->subsets.size() == want.size(), "missing subsets are added");
        for (unsigned j = 0; j < want.size(); ++j)
        {
            const Subset& c = b->subset(j);
            ASSERTL(c.tables == &b->tables, "subsets use the tables of the bulletin");
            ASSERTL(c.size() == want[j].size(), "subsets that exist are kept, new ones are empty");
            for (unsigned x = 0; x < want[j].size(); ++x) ASSERTL((c[x].code() == c_int) & (c[x].enqi() == want[j][x]), "values that exist are kept");
        }
        try { b->subset(want.size()); vs_fail("there are no more subsets"); } catch (error_notfound&) {}
        try { b->subset(0xffffffffu); vs_fail("there are no more subsets"); } catch (error_notfound&) {}
    }
    vs_reach("end");
}

// ---------------------------------------------------------------- differences between bulletins
namespace {
template<typename B> void fill(B& b)
{
    b.data_category = 1; b.data_subcategory = 2; b.data_subcategory_local = 3; b.originating_centre = 0; b.originating_subcentre = 0; b.update_sequence_number = 4;
    b.rep_year = 2026; b.rep_month = 5; b.rep_day = 6; b.rep_hour = 7; b.rep_minute = 8; b.rep_second = 9;
}
std::unique_ptr<BufrBulletin> new_bufr() { auto b = BufrBulletin::create(); fill(*b); b->master_table_version_number = 14; b->load_tables(); b->datadesc.push_back(c_int); return b; }
std::unique_ptr<CrexBulletin> new_crex() { auto b = CrexBulletin::create(); fill(*b); b->edition_number = 2; b->master_table_version_number = 3; b->master_table_version_number_bufr = 0; b->load_tables(); b->datadesc.push_back(c_int); return b; }
void verdict(const Bulletin& a, const Bulletin& b, bool same)
{
    unsigned d1 = a.diff(b), d2 = b.diff(a);
    ASSERTL((d1 == 0) == same, "differences are found exactly when there are some");
    ASSERTL((d2 == 0) == same, "differences are found both ways");
    if (same) vs_reach("equal"); else vs_reach("different");
}
template<typename T> void two(T& a, T& b, const char* n)
{
    vs_int(&a, sizeof(T), (std::string(n) + "1").c_str(), 0, sizeof(T) == 1 ? 255 : 65535);
    vs_int(&b, sizeof(T), (std::string(n) + "2").c_str(), 0, sizeof(T) == 1 ? 255 : 65535);
}
void dif_setup() { sub_setup(); new_bufr(); new_crex(); }
}
HARNESS("C06", bull_header, dif_setup)
{
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    std::unique_ptr<BufrBulletin> ba, bb; std::unique_ptr<CrexBulletin> ca, cb;
    Bulletin *a, *b;
    if (crex) { ca = new_crex(); cb = new_crex(); a = ca.get(); b = cb.get(); } else { ba = new_bufr(); bb = new_bufr(); a = ba.get(); b = bb.get(); }
    bool same;
#define FIELD(k, x, y) case k: two(x, y, #x); same = x == y; break
    switch (vs_concretize(vs_u("field", 0, crex ? 17 : 16, 0)))
    {
        FIELD(0, a->master_table_number, b->master_table_number);
        FIELD(1, a->data_category, b->data_category);
        FIELD(2, a->data_subcategory, b->data_subcategory);
        FIELD(3, a->data_subcategory_local, b->data_subcategory_local);
        FIELD(4, a->originating_centre, b->originating_centre);
        FIELD(5, a->originating_subcentre, b->originating_subcentre);
        FIELD(6, a->update_sequence_number, b->update_sequence_number);
        FIELD(7, a->rep_year, b->rep_year);
        FIELD(8, a->rep_month, b->rep_month);
        FIELD(9, a->rep_day, b->rep_day);
        FIELD(10, a->rep_hour, b->rep_hour);
        FIELD(11, a->rep_minute, b->rep_minute);
        FIELD(12, a->rep_second, b->rep_second);
        case 13: if (crex) { two(ca->edition_number, cb->edition_number, "edition"); same = ca->edition_number == cb->edition_number; } else { two(ba->edition_number, bb->edition_number, "edition"); same = ba->edition_number == bb->edition_number; } break;
        case 14: if (crex) { two(ca->master_table_version_number, cb->master_table_version_number, "mtv"); same = ca->master_table_version_number == cb->master_table_version_number; } else { two(ba->master_table_version_number, bb->master_table_version_number, "mtv"); same = ba->master_table_version_number == bb->master_table_version_number; } break;
        case 15: if (crex) { two(ca->master_table_version_number_local, cb->master_table_version_number_local, "mtvl"); same = ca->master_table_version_number_local == cb->master_table_version_number_local; } else { two(ba->master_table_version_number_local, bb->master_table_version_number_local, "mtvl"); same = ba->master_table_version_number_local == bb->master_table_version_number_local; } break;
        case 16:
            if (crex) { two(ca->master_table_version_number_bufr, cb->master_table_version_number_bufr, "mtvb"); same = ca->master_table_version_number_bufr == cb->master_table_version_number_bufr; }
            else
            {
                unsigned n1 = vs_concretize(vs_u("len1", 0, 2, 1)), n2 = vs_concretize(vs_u("len2", 0, 2, 1));
                char t1[2], t2[2]; memset(t1, 'x', 2); memset(t2, 'x', 2); vs_bytes(t1, 2, "section1"); vs_bytes(t2, 2, "section2");
                ba->optional_section.assign(t1, n1); bb->optional_section.assign(t2, n2);
                same = n1 == n2;
                for (unsigned i = 0; i < n1 && n1 == n2; ++i) same = same & (t1[i] == t2[i]);
            }
            break;
        default: ca->has_check_digit = vs_concretize(vs_u("check1", 0, 1, 0)); cb->has_check_digit = vs_concretize(vs_u("check2", 0, 1, 0)); same = ca->has_check_digit == cb->has_check_digit; break;
    }
    verdict(*a, *b, same);
}
HARNESS("C06", bull_contents, dif_setup)
{
    auto a = new_bufr(), b = new_bufr();
    switch (vs_concretize(vs_u("what", 0, 3, 0)))
    {
        case 0: {
            // descriptors
            a->datadesc.clear(); b->datadesc.clear();
            unsigned n1 = vs_concretize(vs_u("n1", 0, 3, 2)), n2 = vs_concretize(vs_u("n2", 0, 3, 2));
            for (unsigned i = 0; i < n1; ++i) a->datadesc.push_back(vs_u("d1", 0, 0xffff, 1));
            for (unsigned i = 0; i < n2; ++i) b->datadesc.push_back(vs_u("d2", 0, 0xffff, 1));
            bool same = n1 == n2;
            for (unsigned i = 0; i < n1 && n1 == n2; ++i) same = same & (a->datadesc[i] == b->datadesc[i]);
            verdict(*a, *b, same);
            break;
        }
        case 1: {
            // tables: none, 14, 17
            unsigned t1 = vs_concretize(vs_u("t1", 0, 2, 1)), t2 = vs_concretize(vs_u("t2", 0, 2, 1));
            for (auto p : { std::make_pair(a.get(), t1), std::make_pair(b.get(), t2) })
                if (p.second == 0) p.first->tables.clear(); else p.first->tables.load_bufr(BufrTableID(0, 0, 0, p.second == 1 ? 14 : 17, 0));
            verdict(*a, *b, t1 == t2);
            break;
        }
        case 2: {
            // subsets of 0..2 variables
            unsigned n1 = vs_concretize(vs_u("n1", 0, 2, 1)), n2 = vs_concretize(vs_u("n2", 0, 2, 1));
            bool same = n1 == n2;
            unsigned s1[2] = {}, s2[2] = {}; int v1[2][2], v2[2][2];
            for (unsigned i = 0; i < n1; ++i) { Subset& s = a->obtain_subset(i); s1[i] = vs_concretize(vs_u("vars1", 0, 2, 1)); for (unsigned j = 0; j < s1[i]; ++j) s.store_variable_i(c_int, v1[i][j] = vs_i("v1", 0, 126, 1)); }
            for (unsigned i = 0; i < n2; ++i) { Subset& s = b->obtain_subset(i); s2[i] = vs_concretize(vs_u("vars2", 0, 2, 1)); for (unsigned j = 0; j < s2[i]; ++j) s.store_variable_i(c_int, v2[i][j] = vs_i("v2", 0, 126, 1)); }
            if (!vs_thorough()) vs_assume((n1 < 2) | (n2 < 2) | ((s1[0] < 2) & (s2[0] < 2)));
            if (n1 == n2) for (unsigned i = 0; i < n1; ++i) { same = same & (s1[i] == s2[i]); if (s1[i] == s2[i]) for (unsigned j = 0; j < s1[i]; ++j) same = same & (v1[i][j] == v2[i][j]); }
            verdict(*a, *b, same);
            break;
        }
        case 3: {
            // a variable with attributes, in the last of two subsets
            bool same = true;
            unsigned has[2]; int val[2], att[2];
            Bulletin* bs[2] = { a.get(), b.get() };
            for (unsigned i = 0; i < 2; ++i)
            {
                bs[i]->obtain_subset(0).store_variable_i(c_int, 3);
                Subset& s = bs[i]->obtain_subset(1);
                s.store_variable_i(c_int, 4);
                has[i] = vs_concretize(vs_u("has", 0, 3, 1));
                Var v(bs[i]->tables.btable->query(c_dec));
                val[i] = vs_i("val", 0, 65534, 100); att[i] = vs_i("att", 0, 100, 10);
                if (has[i] & 1) v.seti(val[i]);
                if (has[i] & 2) v.seta(Var(bs[i]->tables.btable->query(c_attr), att[i]));
                s.store_variable(v);
            }
            same = has[0] == has[1];
            if (has[0] == has[1]) { if (has[0] & 1) same = same & (val[0] == val[1]); if (has[0] & 2) same = same & (att[0] == att[1]); }
            verdict(*a, *b, same);
            break;
        }
    }
}
HARNESS("C06", bull_encoding, dif_setup)
{
    auto a = new_bufr(); auto c = new_crex();
    a->tables.clear(); c->tables.clear();
    verdict(*a, *c, false);
}

// A bulletin that is cleared is like a new one
HARNESS("C22", bul_clear, sub_setup)
{
    bool crex = vs_concretize(vs_u("crex", 0, 1, 0));
    std::unique_ptr<Bulletin> b, fresh;
    BufrBulletin* bb = nullptr; CrexBulletin* cb = nullptr;
    const BufrBulletin* fb = nullptr; const CrexBulletin* fc = nullptr;
    if (crex) { cb = CrexBulletin::create().release(); b.reset(cb); auto f = CrexBulletin::create().release(); fc = f; fresh.reset(f); }
    else { bb = BufrBulletin::create().release(); b.reset(bb); auto f = BufrBulletin::create().release(); fb = f; fresh.reset(f); }
    unsigned what = vs_concretize(vs_u("what", 0, 3, 3));
    auto u = [&](const char* n, unsigned max) { return vs_u(n, 0, max, 1); };
    if (what & 1)
    {
        if (bb) { bb->master_table_version_number = 14; bb->originating_centre = bb->originating_subcentre = 0; }
        if (cb) { cb->edition_number = 2; cb->master_table_version_number = 3; cb->master_table_version_number_bufr = 14; }
        bool loaded = true;
        try { b->load_tables(); } catch (error&) { loaded = false; }
        b->datadesc = { c_int, c_int };
        if (loaded) { b->obtain_subset(0).store_variable_i(c_int, 1); b->obtain_subset(2); }
    }
    b->fname = "name";
    b->offset = u("offset", 0xffffffff);
    if (what & 2)
    {
        b->master_table_number = u("mtn", 255); b->data_category = u("cat", 255); b->data_subcategory = u("sub", 255); b->data_subcategory_local = u("local", 255);
        b->originating_centre = u("centre", 65535); b->originating_subcentre = u("subcentre", 65535); b->update_sequence_number = u("usn", 255);
        b->rep_year = u("year", 65535); b->rep_month = u("month", 255); b->rep_day = u("day", 255); b->rep_hour = u("hour", 255); b->rep_minute = u("minute", 255); b->rep_second = u("second", 255);
        if (bb) { bb->edition_number = u("ed", 255); bb->master_table_version_number = u("ver", 255); bb->master_table_version_number_local = u("lver", 255); bb->compression = vs_concretize(u("comp", 1)); bb->optional_section = "opt"; }
        if (cb) { cb->edition_number = u("ed", 255); cb->master_table_version_number = u("ver", 255); cb->master_table_version_number_bufr = u("bver", 255); cb->master_table_version_number_local = u("lver", 255); cb->has_check_digit = vs_concretize(u("check", 1)); }
    }
    b->clear();
    ASSERTL(b->fname.empty() & (b->offset == 0), "no origin");
    ASSERTL(b->datadesc.empty() && b->subsets.empty() && !b->tables.btable && !b->tables.dtable, "no contents and no tables");
    const Bulletin& f = *fresh;
    ASSERTL((b->master_table_number == f.master_table_number) & (b->data_category == f.data_category) & (b->data_subcategory == f.data_subcategory) & (b->data_subcategory_local == f.data_subcategory_local) & (b->originating_centre == f.originating_centre) & (b->originating_subcentre == f.originating_subcentre) & (b->update_sequence_number == f.update_sequence_number), "identification");
    ASSERTL((b->rep_year == f.rep_year) & (b->rep_month == f.rep_month) & (b->rep_day == f.rep_day) & (b->rep_hour == f.rep_hour) & (b->rep_minute == f.rep_minute) & (b->rep_second == f.rep_second), "time");
    if (bb) ASSERTL((bb->edition_number == fb->edition_number) & (bb->master_table_version_number == fb->master_table_version_number) & (bb->master_table_version_number_local == fb->master_table_version_number_local) & (bb->compression == fb->compression) & bb->optional_section.empty(), "BUFR details");
    if (cb) ASSERTL((cb->edition_number == fc->edition_number) & (cb->master_table_version_number == fc->master_table_version_number) & (cb->master_table_version_number_bufr == fc->master_table_version_number_bufr) & (cb->master_table_version_number_local == fc->master_table_version_number_local) & (cb->has_check_digit == fc->has_check_digit), "CREX details");
    vs_reach("end");
}
