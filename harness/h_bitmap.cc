// C12 data present bitmaps
#include "bufr_common.h"

static const Vartable& bt() { static auto b = mk(); return *b->tables.btable; }
static const Varcode QC = B(33, 7);          // 7 bits
static const Varcode data[] = { B(12, 101), B(10, 4), B(5, 1), B(7, 30) };

static void put_var(Ref& r, Varinfo i, const Var* v)
{
    if (!v || !v->isset()) r.ones(i->bit_len);
    else r.put((uint32_t)(v->enqi() - i->bit_ref), i->bit_len);
}
static void put_bitmap(Subset& s, Varcode op, const std::string& bits)
{
    s.store_variable(Var(s.tables->get_bitmap(op, bits), bits));
}
// Add a bitmap to descriptors and layout: factor is the delayed replication factor used, or 0
static void add_bitmap(BufrBulletin& b, Subset& s, Ref& r, Varcode op, const std::string& bits, Varcode factor)
{
    b.datadesc.push_back(R(1, factor ? 0 : bits.size()));
    if (factor) { b.datadesc.push_back(factor); r.put(bits.size(), bt().query(factor)->bit_len); }
    b.datadesc.push_back(B(31, 31));
    for (char c : bits) r.put(c == '+' ? 0 : 1, 1);
    put_bitmap(s, op, bits.c_str());
}
static std::string any_bits(unsigned n)
{
    unsigned m = vs_concretize(vs_u("bitmap", 0, (1u << n) - 1, 1));
    std::string r;
    for (unsigned i = 0; i < n; ++i) r += (m >> i) & 1 ? '+' : '-';
    return r;
}
static void group(BufrBulletin& b, Varcode c, unsigned n)
{
    // as plain descriptors, or replicated
    if (n > 1 && vs_concretize(vs_u("replicated", 0, 1, 1))) { b.datadesc.push_back(R(1, n)); b.datadesc.push_back(c); }
    else for (unsigned i = 0; i < n; ++i) b.datadesc.push_back(c);
}

// Data, a bitmap over the last of them, and quality information or
// substituted values for those selected
struct Msg
{
    std::unique_ptr<BufrBulletin> b = mk(4);
    Subset& s = b->obtain_subset(0);
    Ref ref;
    std::vector<unsigned> pos; // subset positions of the data variables
    unsigned nd;

    explicit Msg(bool chars)
    {
        nd = vs_concretize(vs_u("vars", 1, vs_thorough() ? 4 : 3, 3));
        for (unsigned i = 0; i < nd; ++i)
        {
            char name[4] = "v0"; name[1] += i;
            Varinfo inf = bt().query(data[i]);
            b->datadesc.push_back(data[i]);
            s.store_variable(any_num(inf, name, false));
            put_var(ref, inf, &s.back());
            pos.push_back(s.size() - 1);
            if (chars && i + 2 >= nd && i + 1 < nd + vs_concretize(vs_u("after", 0, 1, 0)))
            {
                // an operator that adds something that is not data
                b->datadesc.push_back(C(5, 1));
                s.store_variable(Var(b->tables.get_chardata(C(5, 1), 1), "x"));
                ref.put('x', 8);
            }
        }
    }
    std::vector<unsigned> selected(const std::string& bits)
    {
        std::vector<unsigned> r;
        for (unsigned i = 0; i < bits.size(); ++i)
            if (bits[i] == '+') r.push_back(pos[nd - bits.size() + i]);
        return r;
    }
    // Attach an attribute with any value, or unset, or none
    void attach(unsigned at, Varinfo inf, const char* name)
    {
        std::string n(name);
        unsigned kind = vs_concretize(vs_u((n + ".kind").c_str(), 0, 2, 0));
        if (kind == 2) { put_var(ref, inf, nullptr); return; }
        Var a(inf);
        if (kind == 0) a = any_num(inf, name, false);
        put_var(ref, inf, &a);
        s[at].seta(a);
    }
    void check()
    {
        b->datadesc.push_back(B(1, 1));
        s.store_variable(any_num(bt().query(B(1, 1)), "w", false));
        ref.num(s.back());
        std::string m = b->encode();
        check_data(m, ref);
        auto d = BufrBulletin::decode(m);
        ASSERT(d->subsets.size() == 1);
        ASSERT(d->subsets[0].size() == s.size());
        for (unsigned i = 0; i < s.size(); ++i)
        {
            const Var& x = s[i]; const Var& g = d->subsets[0][i];
            same_var(x, g);
            // the same attributes, but for the unset ones
            unsigned n = 0;
            for (const Var* a = x.next_attr(); a; a = a->next_attr())
            {
                if (!a->isset()) continue;
                const Var* ga = g.enqa(a->code());
                ASSERTL(ga, "the attribute is attached to the variable the bitmap selects");
                same_var(*a, *ga);
                ++n;
            }
            for (const Var* ga = g.next_attr(); ga; ga = ga->next_attr()) --n;
            ASSERTL(n == 0, "no other attribute is attached");
        }
    }
};

HARNESS("C12", bmp_quality, load14)
{
    Msg m(false);
    unsigned n = vs_concretize(vs_u("bits", 1, 4, 2));
    if (n > m.nd) return;
    std::string bits = any_bits(n);
    static const Varcode factors[] = { 0, B(31, 1), B(31, 2) };
    m.b->datadesc.push_back(C(22, 0));
    unsigned how = vs_concretize(vs_u("how", 0, 3, 0)); // fixed; delayed with either factor; fixed and defined for reuse
    if (how == 3) m.b->datadesc.push_back(C(36, 0));
    add_bitmap(*m.b, m.s, m.ref, C(22, 0), bits, factors[how % 3]);
    // who did it
    m.b->datadesc.push_back(B(1, 31));
    m.s.store_variable(any_num(bt().query(B(1, 31)), "centre", false));
    m.ref.num(m.s.back());
    auto sel = m.selected(bits);
    group(*m.b, QC, sel.size());
    unsigned k = 0;
    char name[4] = "q0";
    for (unsigned at : sel)
    {
        // presence varies for the first two only
        if (k < 2) m.attach(at, bt().query(QC), name);
        else { m.s[at].seta(any_num(bt().query(QC), name, false)); put_var(m.ref, bt().query(QC), m.s[at].enqa(QC)); }
        ++k; ++name[1];
    }
    m.check();
    vs_reach(sel.empty() ? "empty" : "end");
}
// Data that are not table B elements are not counted
HARNESS("C12", bmp_skip_chars, load14)
{
    Msg m(true);
    unsigned n = vs_concretize(vs_u("bits", 1, 4, 2));
    if (n > m.nd) return;
    std::string bits = any_bits(n);
    m.b->datadesc.push_back(C(22, 0));
    add_bitmap(*m.b, m.s, m.ref, C(22, 0), bits, 0);
    auto sel = m.selected(bits);
    group(*m.b, QC, sel.size());
    char name[4] = "q0";
    for (unsigned at : sel) { m.s[at].seta(any_num(bt().query(QC), name, false)); put_var(m.ref, bt().query(QC), m.s[at].enqa(QC)); ++name[1]; }
    m.check();
    vs_reach("end");
}
HARNESS("C12", bmp_substituted, load14)
{
    Msg m(false);
    unsigned n = vs_concretize(vs_u("bits", 1, 4, 2));
    if (n > m.nd) return;
    std::string bits = any_bits(n);
    m.b->datadesc.push_back(C(23, 0));
    add_bitmap(*m.b, m.s, m.ref, C(23, 0), bits, 0);
    auto sel = m.selected(bits);
    group(*m.b, C(23, 255), sel.size());
    unsigned k = 0;
    char name[4] = "q0";
    for (unsigned at : sel)
    {
        Varinfo inf = m.s[at].info();
        if (k < 2) m.attach(at, inf, name);
        else { m.s[at].seta(any_num(inf, name, false)); put_var(m.ref, inf, m.s[at].enqa(inf->code)); }
        ++k; ++name[1];
    }
    m.check();
    vs_reach("end");
}
// The same bitmap used for two groups of attributes, then cancelled; or two
// bitmaps, possibly with the same contents
HARNESS("C12", bmp_twice, load14)
{
    Msg m(false);
    unsigned n = vs_concretize(vs_u("bits", 1, 3, 2));
    if (n > m.nd) return;
    std::string bits = any_bits(n);
    m.b->datadesc.push_back(C(22, 0));
    m.b->datadesc.push_back(C(36, 0));
    add_bitmap(*m.b, m.s, m.ref, C(22, 0), bits, 0);
    auto sel = m.selected(bits);
    for (unsigned i = 0; i < sel.size(); ++i) m.b->datadesc.push_back(QC);
    char name[4] = "q0";
    for (unsigned at : sel) { m.s[at].seta(any_num(bt().query(QC), name, false)); put_var(m.ref, bt().query(QC), m.s[at].enqa(QC)); ++name[1]; }
    name[0] = 'r'; name[1] = '0';
    switch (vs_concretize(vs_u("second", 0, 2, 0)))
    {
        case 0: // another kind of quality information, with the same bitmap
            m.b->datadesc.push_back(C(22, 0));
            m.b->datadesc.push_back(C(37, 0));
            for (unsigned at : sel)
            {
                m.b->datadesc.push_back(B(33, 3));
                m.s[at].seta(any_num(bt().query(B(33, 3)), name, false));
                put_var(m.ref, bt().query(B(33, 3)), m.s[at].enqa(B(33, 3)));
                ++name[1];
            }
            m.b->datadesc.push_back(C(37, 255));
            vs_reach("reused");
            break;
        case 1: // substituted values, with the same bitmap
            m.b->datadesc.push_back(C(23, 0));
            m.b->datadesc.push_back(C(37, 0));
            for (unsigned at : sel)
            {
                m.b->datadesc.push_back(C(23, 255));
                m.s[at].seta(any_num(m.s[at].info(), name, false));
                put_var(m.ref, m.s[at].info(), m.s[at].enqa(m.s[at].code()));
                ++name[1];
            }
            break;
        case 2: // substituted values, with a bitmap that repeats the first
        {
            m.b->datadesc.push_back(C(23, 0));
            add_bitmap(*m.b, m.s, m.ref, C(23, 0), bits, 0);
            for (unsigned at : sel)
            {
                m.b->datadesc.push_back(C(23, 255));
                m.s[at].seta(any_num(m.s[at].info(), name, false));
                put_var(m.ref, m.s[at].info(), m.s[at].enqa(m.s[at].code()));
                ++name[1];
            }
            vs_reach("redefined");
            break;
        }
    }
    m.check();
    vs_reach("end");
}
// Bitmaps that differ between subsets, in length or in their last marks
HARNESS("C12", bmp_long, load14)
{
    auto b = mk(4);
    const unsigned NV = 12;
    b->datadesc = { R(1, NV), B(1, 1), C(22, 0), R(1, 0), B(31, 1), B(31, 31), QC, B(2, 1) };
    static const unsigned lens[] = { 8, 9, 12 };
    unsigned sel[2];
    for (unsigned k = 0; k < 2; ++k)
    {
        Subset& s = b->obtain_subset(k);
        unsigned n = lens[vs_concretize(vs_u(k ? "bits2" : "bits1", 0, 2, 0))], p = vs_concretize(vs_u(k ? "mark2" : "mark1", 0, 3, 0));
        p = p == 0 ? 0 : p == 1 ? n - 1 : p == 2 ? 4 : n - 2;
        sel[k] = NV - n + p;
        for (unsigned i = 0; i < NV; ++i)
        {
            s.store_variable_i(B(1, 1), i);
            if (i == sel[k]) { Var v = any_num(bt().query(B(1, 1)), k ? "v2" : "v1", false); v.seta(any_num(bt().query(QC), k ? "q2" : "q1", false)); s.back() = v; }
        }
        std::string bits(n, '-'); bits[p] = '+';
        put_bitmap(s, C(22, 0), bits.c_str());
        s.store_variable(any_num(bt().query(B(2, 1)), k ? "w2" : "w1", false));
    }
    auto d = BufrBulletin::decode(b->encode());
    ASSERT(d->subsets.size() == 2);
    for (unsigned k = 0; k < 2; ++k)
    {
        const Subset &x = b->subsets[k], &g = d->subsets[k];
        ASSERT(x.size() == g.size());
        for (unsigned i = 0; i < x.size(); ++i)
        {
            same_var(x[i], g[i]);
            const Var* a = g[i].enqa(QC);
            ASSERTL((a != nullptr) == (i == sel[k]), "the attribute is attached to the variable the bitmap selects");
            if (a) same_var(*x[i].enqa(QC), *a);
        }
    }
    vs_reach("end");
}
// Bitmaps in the interpreter, over any subset: positions are those of the
// last n variables with F = 0, in order
#include <wreport/bulletin/bitmaps.h>
HARNESS("C12", bmp_positions, load14)
{
    static auto b = mk();
    Subset s(b->tables);
    unsigned nv = vs_concretize(vs_u("vars", 1, vs_thorough() ? 6 : 4, 3));
    std::vector<unsigned> vars;
    for (unsigned i = 0; i < nv; ++i)
    {
        char name[12] = "special0"; name[7] += i;
        if (vs_concretize(vs_u(name, 0, 1, 0))) s.store_variable(Var(b->tables.get_chardata(C(5, 1), 1), "x"));
        else { vars.push_back(i); s.store_variable_i(B(1, 1), i); }
    }
    unsigned n = vs_concretize(vs_u("bits", 1, vs_thorough() ? 6 : 4, 2));
    std::string bits = any_bits(n);
    Varinfo inf = b->tables.get_bitmap(C(22, 0), bits);
    ASSERT(inf->len == n); ASSERT(inf->code == C(22, 0));
    Var bv(inf, bits);
    bulletin::Bitmaps bm;
    try { bm.define(bv, s); }
    catch (error_consistency&) { ASSERT(n > vars.size()); ASSERT(!bm.active()); vs_reach("refused"); return; }
    ASSERTL(n <= vars.size(), "a bitmap longer than the data is refused");
    for (unsigned round = 0; round < 2; ++round)
    {
        for (unsigned i = 0; i < n; ++i)
            if (bits[i] == '+')
            {
                ASSERT(bm.active());
                ASSERT(bm.next() == vars[vars.size() - n + i]);
            }
        ASSERTL(!bm.active(), "the bitmap ends with the last datum selected");
        bool threw = false;
        try { bm.next(); } catch (error_consistency&) { threw = true; }
        ASSERT(threw);
        bm.reuse_last();
    }
    bm.discard_last();
    vs_reach("end");
}
// Bitmaps built by Subset::append_dpb and append_fixed_dpb
HARNESS("C12", bmp_append, load14)
{
    static auto b = mk();
    Subset s(b->tables);
    unsigned nv = vs_concretize(vs_u("vars", 0, vs_thorough() ? 5 : 4, 3));
    std::string want;
    for (unsigned i = 0; i < nv; ++i)
    {
        char name[8] = "kind0"; name[4] += i;
        unsigned k = vs_concretize(vs_u(name, 0, 2, 0));
        if (k == 2) { s.store_variable(Var(b->tables.get_chardata(C(5, 1), 1), "x")); continue; }
        s.store_variable_i(B(1, 1), i);
        if (k == 1) s.back().seta(Var(bt().query(QC), 3));
        want += k ? '+' : '-';
    }
    unsigned size = vs_concretize(vs_u("size", 1, 6, 3));
    if (vs_concretize(vs_u("fixed", 0, 1, 0)))
    {
        s.append_fixed_dpb(C(22, 0), size);
        ASSERT(s.size() == nv + 1);
        ASSERT(s.back().enqs() == std::string(size, '+'));
    } else {
        want.resize(size, '-');
        unsigned count = 0;
        for (char c : want) count += c == '+';
        ASSERT(s.append_dpb(C(22, 0), size, QC) == (int)count);
        ASSERT(s.size() == nv + 1);
        ASSERT(s.back().enqs() == want);
    }
    ASSERT(s.back().code() == C(22, 0));
    vs_reach("end");
}
// Bitmaps that cannot be used raise errors
HARNESS("C12", bmp_refused, load14)
{
    auto b = mk(4);
    Subset& s = b->obtain_subset(0);
    unsigned shape = vs_concretize(vs_u("shape", 0, 6, 0));
    unsigned n = vs_concretize(vs_u("n", 1, 8, 3));
    std::string bits(n, '+');
    bool ok = false;
    b->datadesc = { B(1, 1), B(2, 1), C(22, 0) };
    s.store_variable_i(B(1, 1), 1);
    s.store_variable_i(B(2, 1), 1);
    switch (shape)
    {
        case 0: // as many as the data
            b->datadesc.push_back(R(1, n)); b->datadesc.push_back(B(31, 31)); put_bitmap(s, C(22, 0), bits.c_str()); ok = n <= 2; break;
        case 1: // another size than the descriptors
            b->datadesc.push_back(R(1, 2)); b->datadesc.push_back(B(31, 31)); put_bitmap(s, C(22, 0), bits.c_str()); ok = n == 2; break;
        case 2: // unset
            b->datadesc.push_back(R(1, n)); b->datadesc.push_back(B(31, 31)); put_bitmap(s, C(22, 0), bits.c_str()); s.back().unset(); break;
        case 3: // not a bitmap
            b->datadesc.push_back(R(1, n)); b->datadesc.push_back(B(31, 31)); s.store_variable_i(B(1, 1), 1); break;
        case 4: // replicates something else
            b->datadesc.push_back(R(1, n)); b->datadesc.push_back(B(1, 1)); put_bitmap(s, C(22, 0), bits.c_str()); break;
        case 5: // replicates too much
            b->datadesc.push_back(R(2, n)); b->datadesc.push_back(B(31, 31)); b->datadesc.push_back(B(31, 31)); put_bitmap(s, C(22, 0), bits.c_str()); break;
        case 6: // substituted values with no bitmap left
            b->datadesc = { B(1, 1), B(2, 1), C(23, 0), R(1, 1), B(31, 31), R(1, n), C(23, 255) };
            put_bitmap(s, C(23, 0), "+"); ok = n == 1; break;
    }
    bool done = true;
    try { b->encode(); } catch (error&) { done = false; }
    ASSERT(done == ok);
    vs_reach(ok ? "ok" : "refused");
}
