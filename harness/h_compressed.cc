// C13 compressed messages: laid out by hand from the BUFR rules, decoded by the library
#include "bufr_common.h"

static const Vartable& bt() { static auto b = mk(); return *b->tables.btable; }

static std::string message(const std::vector<Varcode>& descs, unsigned subsets, const Ref& data, bool compressed = true)
{
    std::string m("BUFR");
    auto put = [&](unsigned v, unsigned n) { while (n--) m += (char)(v >> (8 * n)); };
    size_t s3 = 7 + 2 * descs.size();
    size_t s4 = 4 + data.buf.size();
    put(8 + 22 + s3 + s4 + 4, 3); put(4, 1);
    put(22, 3); put(0, 1); put(0, 2); put(0, 2); put(0, 1); put(0, 1); put(0, 1); put(0, 1); put(0, 1); put(14, 1); put(0, 1);
    put(2015, 2); put(1, 1); put(2, 1); put(3, 1); put(4, 1); put(5, 1);
    put(s3, 3); put(0, 1); put(subsets, 2); put(compressed ? 0xc0 : 0x80, 1);
    for (auto c : descs) put(c, 2);
    put(s4, 3); put(0, 1);
    m.append((const char*)data.buf.data(), data.buf.size());
    m += "7777";
    return m;
}
static uint32_t ones(unsigned n) { return n ? 0xffffffffu >> (32 - n) : 0; }

// What is expected in each subset
struct Val { bool set = false; int64_t v = 0; };

// Lay out a number: any base, any differences that stay in its field
static std::vector<Val> number(Ref& r, unsigned bits, int ref, unsigned ns, const char* name, unsigned diffbits, bool missable = true)
{
    std::string n(name);
    std::vector<Val> res(ns);
    bool miss = missable && !diffbits && vs_concretize(vs_u((n + ".missing").c_str(), 0, 1, 0));
    uint32_t base = miss ? ones(bits) : vs_u((n + ".base").c_str(), 0, missable ? ones(bits) - 1 : ones(bits), 1);
    r.put(base, bits);
    r.put(diffbits, 6);
    for (unsigned i = 0; i < ns; ++i)
    {
        if (miss) continue;
        uint32_t diff = 0;
        if (diffbits)
        {
            diff = vs_u((n + ".diff" + char('0' + i)).c_str(), 0, ones(diffbits), 0);
            r.put(diff, diffbits);
        }
        uint64_t v = (uint64_t)base + diff;
        bool m = (diffbits != 0) & (diff == ones(diffbits));
        // the sum stays in the field; all ones is the missing value
        vs_assume(m | (v <= ones(bits)));
        if (missable) m = m | (v == ones(bits));
        res[i].set = !m;
        res[i].v = (int64_t)v + ref;
    }
    return res;
}
// The same value in all subsets
static std::vector<Val> same(Ref& r, unsigned bits, unsigned ns, const char* name)
{
    Val v;
    v.set = true;
    v.v = vs_u(name, 0, ones(bits) - 1, 1);
    r.put(v.v, bits);
    r.put(0, 6);
    return std::vector<Val>(ns, v);
}
static void expect(const Var& g, Varcode code, const Val& w)
{
    ASSERT(g.code() == code);
    ASSERTL(g.isset() == w.set, "missing values are those laid out as such");
    if (w.set) ASSERTL(g.enqi() == w.v, "the value is base plus difference plus reference");
    ASSERT(!g.next_attr());
}
static unsigned pick_diffbits(const char* name, unsigned bits)
{
    // 0, 1, 2, the whole field, or almost
    unsigned k = vs_concretize(vs_u(name, 0, vs_thorough() ? 5 : 4, 1));
    switch (k) { case 0: return 0; case 1: return 1; case 2: return 2 < bits ? 2 : bits; case 3: return bits - 1; case 4: return bits; default: return bits / 2 + 1; }
}

static const Varcode nums[] = { B(12, 101), B(10, 4), B(1, 1), B(5, 1), B(20, 3), B(7, 30), B(8, 42) };

HARNESS("C13", cmp_numbers, load14)
{
    unsigned ns = vs_concretize(vs_u("subsets", 1, vs_thorough() ? 3 : 2, 2));
    Varcode c[2] = { nums[vs_concretize(vs_u("c0", 0, 6, 0))], B(1, 1) };
    Ref r;
    std::vector<Val> w[2];
    for (unsigned k = 0; k < 2; ++k)
    {
        Varinfo i = bt().query(c[k]);
        if (k) w[k] = same(r, i->bit_len, ns, "b");
        else w[k] = number(r, i->bit_len, i->bit_ref, ns, "a", pick_diffbits("da", i->bit_len));
        for (auto& x : w[k]) vs_assume(!x.set | ((x.v >= i->imin) & (x.v <= i->imax)));
    }
    auto d = BufrBulletin::decode(message({ c[0], c[1] }, ns, r));
    ASSERT(d->compression);
    ASSERT(d->subsets.size() == ns);
    for (unsigned s = 0; s < ns; ++s)
    {
        ASSERT(d->subsets[s].size() == 2);
        for (unsigned k = 0; k < 2; ++k) expect(d->subsets[s][k], c[k], w[k][s]);
    }
    vs_reach("end");
}
// Width and scale changes apply to compressed data
HARNESS("C13", cmp_operators, load14)
{
    unsigned ns = 2;
    unsigned wch = vs_concretize(vs_u("width", 127, 130, 129)), sch = vs_concretize(vs_u("scale", 127, 129, 129)), inc = vs_concretize(vs_u("inc", 0, 1, 0));
    Varcode c = nums[vs_concretize(vs_u("c", 0, 2, 0))];
    Varinfo i = bt().query(c);
    unsigned bits = i->bit_len + wch - 128 + (inc ? 4 : 0);
    int ref = inc ? i->bit_ref * 10 : i->bit_ref;
    Ref r;
    auto a = number(r, bits, ref, ns, "a", pick_diffbits("da", bits));
    auto b = same(r, i->bit_len, ns, "b");
    for (auto& x : b) { x.v += i->bit_ref; vs_assume((x.v >= i->imin) & (x.v <= i->imax)); }
    auto d = BufrBulletin::decode(message({ C(1, wch), C(2, sch), C(7, inc), c, C(1, 0), C(2, 0), C(7, 0), c }, ns, r));
    for (unsigned s = 0; s < ns; ++s)
    {
        ASSERT(d->subsets[s].size() == 2);
        expect(d->subsets[s][0], c, a[s]);
        ASSERT(d->subsets[s][0].info()->scale == i->scale + (int)sch - 128 + (int)inc);
        ASSERT(d->subsets[s][0].info()->bit_len == bits);
        expect(d->subsets[s][1], c, b[s]);
        ASSERT(d->subsets[s][1].info()->scale == i->scale);
    }
    vs_reach("end");
}
// Texts: the same in all subsets, or different
HARNESS("C13", cmp_text, load14)
{
    unsigned ns = vs_concretize(vs_u("subsets", 1, 3, 2));
    Varinfo i = bt().query(B(1, 6)); // 8 characters
    Ref r;
    auto before = same(r, 7, ns, "a");
    unsigned dn = vs_concretize(vs_u("diffbytes", 0, 8, 2));
    bool miss = vs_concretize(vs_u("missing", 0, 1, 0));
    std::vector<std::string> want(ns);
    std::vector<bool> set(ns);
    unsigned char base[8];
    memset(base, dn ? 0 : ' ', 8);
    if (!dn)
    {
        vs_bytes(base, 2, "base");
        vs_assume(base[0] > ' '); vs_assume(base[0] < 0x7f); vs_assume(base[1] > ' '); vs_assume(base[1] < 0x7f);
        if (miss) memset(base, 0xff, 8);
    }
    for (unsigned k = 0; k < 8; ++k) r.put(base[k], 8);
    r.put(dn, 6);
    for (unsigned s = 0; s < ns; ++s)
    {
        if (!dn) { set[s] = !miss; want[s] = std::string((char*)base, 2); continue; }
        unsigned char t[9] = "wxyzabcd";
        std::string n = "t"; n += char('0' + s);
        unsigned free = dn < 2 ? dn : 2;
        vs_bytes(t, free, n.c_str());
        for (unsigned k = 0; k < free; ++k) { vs_assume(t[k] > ' '); vs_assume(t[k] < 0x7f); }
        set[s] = !(miss && s == 0);
        for (unsigned k = 0; k < dn; ++k) r.put(set[s] ? t[k] : 0xff, 8);
        want[s] = std::string((char*)t, dn);
    }
    auto after = same(r, 10, ns, "b");
    auto d = BufrBulletin::decode(message({ B(1, 1), B(1, 6), B(1, 2) }, ns, r));
    for (unsigned s = 0; s < ns; ++s)
    {
        ASSERT(d->subsets[s].size() == 3);
        expect(d->subsets[s][0], B(1, 1), before[s]);
        const Var& v = d->subsets[s][1];
        ASSERT(v.code() == B(1, 6)); ASSERT(v.isset() == set[s]);
        if (set[s]) { ASSERT(strlen(v.enqc()) == want[s].size()); for (unsigned k = 0; k < want[s].size(); ++k) ASSERT(v.enqc()[k] == want[s][k]); }
        expect(d->subsets[s][2], B(1, 2), after[s]);
    }
    (void)i;
    vs_reach("end");
}
// Delayed replication: one count for all subsets
HARNESS("C13", cmp_replication, load14)
{
    unsigned ns = vs_concretize(vs_u("subsets", 1, 2, 2));
    static const Varcode factors[] = { B(31, 0), B(31, 1), B(31, 2) };
    Varcode f = factors[vs_concretize(vs_u("factor", 0, 2, 1))];
    unsigned fb = bt().query(f)->bit_len;
    unsigned count = vs_concretize(vs_u("count", 0, 3, 2));
    if (count > ones(fb)) return;
    static const unsigned fds[] = { 0, 1, 2, 5, 33, 63 };
    unsigned fd = fds[vs_concretize(vs_u("factor.diffbits", 0, 5, 0))];
    Ref r;
    r.put(count, fb); r.put(fd, 6);
    for (unsigned s = 0; s < ns; ++s) r.put(0, fd);
    std::vector<std::vector<Val>> w;
    for (unsigned k = 0; k < count; ++k)
    {
        std::string n = "a"; n += char('0' + k);
        w.push_back(k ? same(r, 7, ns, n.c_str()) : number(r, 7, 0, ns, n.c_str(), 2));
    }
    auto after = same(r, 10, ns, "b");
    std::unique_ptr<BufrBulletin> d;
    try { d = BufrBulletin::decode(message({ R(1, 0), f, B(1, 1), B(1, 2) }, ns, r)); }
    catch (error&) { ASSERTL(fd != 0, "a replication factor equal in all subsets is decoded"); vs_reach("refused"); return; }
    ASSERTL(fd == 0, "a replication factor with differences is refused");
    for (unsigned s = 0; s < ns; ++s)
    {
        ASSERT(d->subsets[s].size() == 2 + count);
        ASSERT(d->subsets[s][0].code() == f); ASSERT(d->subsets[s][0].enqi() == (int)count);
        for (unsigned k = 0; k < count; ++k) expect(d->subsets[s][1 + k], B(1, 1), w[k][s]);
        expect(d->subsets[s][1 + count], B(1, 2), after[s]);
    }
    vs_reach("end");
}
// Replication factors have no missing value, as in uncompressed messages
HARNESS("C13", cmp_factor_full, load14)
{
    bool compressed = vs_concretize(vs_u("compressed", 0, 1, 1));
    unsigned zero = vs_concretize(vs_u("31000", 0, 1, 0));
    unsigned n = zero ? 1 : 255;
    Ref r;
    r.put(n, zero ? 1 : 8);
    if (compressed) r.put(0, 6);
    int v = vs_u("v", 0, 126, 1);
    for (unsigned i = 0; i < n; ++i) { r.put(v, 7); if (compressed) r.put(0, 6); }
    auto d = BufrBulletin::decode(message({ R(1, 0), B(31, zero ? 0 : 1), B(1, 1) }, 1, r, compressed));
    ASSERT(d->subsets[0].size() == n + 1);
    ASSERT(d->subsets[0][0].enqi() == (int)n);
    ASSERT(d->subsets[0][n].enqi() == v);
    vs_reach("end");
}
// Associated fields, of numbers and texts
HARNESS("C13", cmp_associated, load14)
{
    unsigned ns = vs_concretize(vs_u("subsets", 1, 2, 2));
    static const unsigned sigs[] = { 6, 7, 1, 12 };
    static const Varcode attrs[] = { B(33, 50), B(33, 40), B(33, 2), 0 };
    unsigned si = vs_concretize(vs_u("sig", 0, 3, 0));
    unsigned bits = si == 2 ? 2 : si == 1 ? 7 : 4;
    unsigned db = vs_concretize(vs_u("af.diffbits", 0, 3, 2));
    if (db > bits) return;
    bool text = vs_concretize(vs_u("text", 0, 1, 0));
    bool undef = vs_concretize(vs_u("undef", 0, 1, 0));
    Ref r;
    r.put(sigs[si], 6); r.put(0, 6);
    // the fields of the first variable
    auto af = number(r, bits, 0, ns, "af", db);
    std::vector<Val> w;
    unsigned char t[2] = { 'a', 'b' };
    if (text)
    {
        vs_bytes(t, 2, "t"); vs_assume(t[0] > ' '); vs_assume(t[0] < 0x7f); vs_assume(t[1] > ' '); vs_assume(t[1] < 0x7f);
        for (unsigned k = 0; k < 8; ++k) r.put(k < 2 ? t[k] : ' ', 8);
        r.put(0, 6);
    } else
        w = number(r, 16, 0, ns, "v", vs_concretize(vs_u("v.diffbits", 0, 1, 1)));
    // after the cancellation
    auto after = same(r, 7, ns, "b");
    Varinfo ai = si < 3 ? bt().query(attrs[si]) : bt().query(B(1, 1));
    for (auto& x : af) vs_assume(!x.set | (x.v <= ai->imax));
    auto opts = BufrCodecOptions::create();
    opts->decode_adds_undef_attrs = undef;
    auto d = BufrBulletin::decode(message({ C(4, bits), B(31, 21), text ? B(1, 6) : B(12, 101), C(4, 0), B(1, 1) }, ns, r), *opts);
    for (unsigned s = 0; s < ns; ++s)
    {
        ASSERT(d->subsets[s].size() == 3);
        ASSERT(d->subsets[s][0].enqi() == (int)sigs[si]);
        const Var& v = d->subsets[s][1];
        if (text) { ASSERT(v.isset()); ASSERT(strlen(v.enqc()) == 2); ASSERT((unsigned char)v.enqc()[0] == t[0]); ASSERT((unsigned char)v.enqc()[1] == t[1]); }
        else { ASSERT(v.isset() == w[s].set); if (w[s].set) ASSERT(v.enqi() == w[s].v); }
        const Var* a = v.next_attr();
        if (!attrs[si]) ASSERT(!a);
        else if (af[s].set)
        {
            ASSERTL(a, "the associated field is attached");
            ASSERT(a->code() == attrs[si]); ASSERT(a->isset()); ASSERTL(a->enqi() == af[s].v, "with its own value"); ASSERT(!a->next_attr());
        } else {
            if (a) { ASSERT(a->code() == attrs[si]); ASSERTL(!a->isset(), "a missing associated field has no value"); }
            else ASSERT(!undef);
        }
        expect(d->subsets[s][2], B(1, 1), after[s]);
    }
    vs_reach("end");
}
// Quality information through a bitmap
HARNESS("C13", cmp_bitmap, load14)
{
    unsigned ns = vs_concretize(vs_u("subsets", 1, 2, 2));
    unsigned mask = vs_concretize(vs_u("bitmap", 0, 3, 1));
    unsigned delayed = vs_concretize(vs_u("delayed", 0, 1, 0));
    bool subst = vs_concretize(vs_u("substituted", 0, 1, 0));
    Ref r;
    auto a = same(r, 7, ns, "a");
    auto b = same(r, 10, ns, "b");
    std::vector<Varcode> desc = { B(1, 1), B(1, 2), C(subst ? 23 : 22, 0), R(1, delayed ? 0 : 2) };
    if (delayed) { desc.push_back(B(31, 1)); r.put(2, 8); r.put(0, 6); }
    desc.push_back(B(31, 31));
    for (unsigned i = 0; i < 2; ++i) { r.put((mask >> i) & 1 ? 0 : 1, 1); r.put(0, 6); }
    std::vector<Val> q[2];
    for (unsigned i = 0; i < 2; ++i)
        if ((mask >> i) & 1)
        {
            q[i] = number(r, subst ? (i ? 10 : 7) : 7, 0, ns, i ? "q1" : "q0", vs_concretize(vs_u(i ? "dq1" : "dq0", 0, 2, 1)));
            if (!subst) for (auto& x : q[i]) vs_assume(!x.set | (x.v <= bt().query(B(33, 7))->imax));
            desc.push_back(subst ? C(23, 255) : B(33, 7));
        }
    auto d = BufrBulletin::decode(message(desc, ns, r));
    for (unsigned s = 0; s < ns; ++s)
    {
        ASSERT(d->subsets[s].size() == 3);
        for (unsigned i = 0; i < 2; ++i)
        {
            const Var& v = d->subsets[s][i];
            Varcode c = i ? B(1, 2) : B(1, 1);
            const Val& w = i ? b[s] : a[s];
            ASSERT(v.code() == c); ASSERT(v.isset() == w.set);
            if (w.set) ASSERT(v.enqi() == w.v);
            const Var* at = v.next_attr();
            bool has = ((mask >> i) & 1) && q[i][s].set;
            if (!has) ASSERTL(!at, "no attribute where the bitmap or the value has none");
            else { ASSERT(at); ASSERT(at->code() == (subst ? c : B(33, 7))); ASSERT(at->isset()); ASSERT(at->enqi() == q[i][s].v); ASSERT(!at->next_attr()); }
        }
        ASSERT(d->subsets[s][2].code() == C(subst ? 23 : 22, 0));
    }
    vs_reach("end");
}
// Difference sizes that no number can have are refused
HARNESS("C13", cmp_refused, load14)
{
    unsigned db = vs_concretize(vs_u("diffbits", 0, 63, 40));
    bool miss = vs_concretize(vs_u("missing", 0, 1, 0));
    Ref r;
    r.put(miss ? 127 : 5, 7); r.put(db, 6);
    uint32_t diff = vs_u("diff", 0, ones(db < 32 ? db : 32), 1);
    for (unsigned s = 0; s < 2; ++s) { if (db > 32) r.put(0, db - 32); r.put(diff, db > 32 ? 32 : db); }
    bool fits = db <= 32 && (!miss || !db) && (miss || !db || diff == ones(db) || (uint64_t)diff + 5 <= 127);
    std::unique_ptr<BufrBulletin> d;
    try { d = BufrBulletin::decode(message({ B(1, 1) }, 2, r)); }
    catch (error&) { ASSERTL(!fits, "differences that can be decoded are"); vs_reach("refused"); return; }
    ASSERTL(fits, "differences that do not make sense are refused");
    vs_reach("decoded");
}
